F="RMtools_1D/do_RMsynth_1D.py"; G="RMtools_3D/do_RMsynth_3D.py"
T=[
("P09",F,"np.isfinite(qArr) & np.isfinite(uArr)","np.isfinite(qArr)"),
("P09",F,"usedChans = np.logical_and(weightArr != 0, usedChans)","=usedChans = np.logical_and(weightArr > 0, usedChans)"),
("P09",F,"lamSqArr_m2=lambdaSqArr_m2[usedChans]","lamSqArr_m2=lambdaSqArr_m2"),
("P09",F,"dquArr = np.abs(dqArr + duArr) / 2.0","dquArr = np.sqrt(dqArr**2 + duArr**2)"),
("P09",F,"dquArr = np.abs(dqArr + duArr) / 2.0","=dquArr = 0.5 * np.abs(duArr + dqArr)"),
("P09",F,"dQUArr = (dQArr + dUArr) / 2.0","dQUArr = (dQArr + dQArr) / 2.0"),
("P09",F,"nanmedian(dQUArr)","np.nanmean(dQUArr)"),
("P09",F,"(np.sum(usedWeightArr)) ** 2","np.sum(usedWeightArr**2)"),
("P09",F,"dFDFth = np.abs(Ifreq0) * np.sqrt(","dFDFth = Ifreq0 * np.sqrt("),
("P09",F,"if lam0Sq_m2 == 0:","if lam0Sq_m2 <= 1:"),
("P09",F,"freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)","=freq0_Hz = np.sqrt(speed_of_light.value**2 / lam0Sq_m2)" ),
("P09",F,"fit_result = renormalize_StokesI_model(fit_result, freq0_Hz)","renormalize_StokesI_model(fit_result, freq0_Hz)"),
("P09",F,"Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz)","=Ifreq0 = calculate_StokesI_model(fit_result, fit_result.reference_frequency_Hz)"),
("P09",F,'mDict["ampPeakPIfitEff"] / (Ifreq0)','mDict["ampPeakPIfitEff"] / (abs(Ifreq0))'),
("P09",F,'mDict["lam0Sq_m2"] = toscalar(lam0Sq_m2)','mDict["lam0Sq_m2"] = toscalar(np.mean(lambdaSqArr_m2))'),
("P09",F,'np.median(np.diff(freqArr_Hz))','np.mean(np.diff(freqArr_Hz))'),
("P09",F,'np.median(np.diff(freqArr_Hz))','np.median(np.diff(freqArr_Hz[good_channels]))'),
("P09",F,'float(np.max(freqArr_Hz[good_channels]))','float(np.max(freqArr_Hz))'),
("P09",F,'good_channels = np.where(usedChans)[0]','=good_channels = np.flatnonzero(usedChans)'),
("P09",F,'mDict["N_channels"] = good_channels.size','=mDict["N_channels"] = int(np.sum(usedChans))'),
("P09",F,'psi0_deg=mDict["polAngle0Fit_deg"]','psi0_deg=mDict["phiPeakPIfit_rm2"]'),
("P09",F,'IArr = np.ones_like(QArr)','IArr = np.zeros_like(QArr) + 2'),
("P09",F,'dQUArr = (dQArr + dUArr) / 2.0','=dQUArr = np.mean([dQArr, dUArr], axis=0)'),
("P09,P03",F,'weightArr = 1.0 / np.power(dquArr, 2.0)','weightArr = 1.0 / dquArr'),
("P09,P03",F,'weightArr = 1.0 / np.power(dquArr, 2.0)','=weightArr = dquArr ** -2.0'),
("P03",F,'weightArr=weightArr,','weightArr=np.ones_like(weightArr),'),
("P03",F,'weightArr=weightArr,','weightArr=np.ones_like(weightArr),',2),
("P03",F,'mskArr=~usedChans','mskArr=usedChans'),
("P03",F,'lam0Sq_m2=lam0Sq_m2,','lam0Sq_m2=None,'),
("P03",G,'mskArr=~(np.isfinite(qArr) & np.isfinite(uArr))','mskArr=np.isnan(dataQ) | np.isnan(dataU)'),
("P03",G,'nBits=nBits,','nBits=32,',2),
("P03",G,'uArr = np.true_divide(dataU, dataI)','uArr = np.true_divide(dataU, dataI[0])'),
("P03",G,'FDFcube *= Ifreq0Arr','FDFcube *= np.nanmean(dataI, axis=0)'),
("P03",G,'(freqArr_Hz[idx] < freq0_Hz) == ascending','freqArr_Hz[idx] < freq0_Hz'),
("P03",G,'fitRMSFreal=super_resolution','fitRMSFreal=False'),
("P11",F,"fwhmRMSF_radm2 * 10.0","fwhmRMSF_radm2 * 5.0"),
("P11",F,"m.sqrt(3.0) / dLambdaSqMax_m2","m.sqrt(3.0) / np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))"),
("P11",G,"int(round(abs((phiMax_radm2 - 0.0) / dPhi_radm2))) * 2 + 1","int(abs((phiMax_radm2 - 0.0) / dPhi_radm2)) * 2 + 1"),
("P11",G,"fwhmRMSF_radm2 = 3.8 / lambdaSqRange_m2","fwhmRMSF_radm2 = 2 * m.sqrt(3) / lambdaSqRange_m2"),
("P11",G,"-(nChanRM - 1.0) * dPhi_radm2 / 2.0","-nChanRM * dPhi_radm2 / 2.0"),
("P11",F,"phiArr_radm2 = np.linspace(startPhi_radm2, stopPhi_radm2, nChanRM)","=phiArr_radm2 = startPhi_radm2 + dPhi_radm2 * np.arange(nChanRM)"),
]

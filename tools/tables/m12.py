F="RMtools_1D/do_QUfit_1D_mnest.py"; U="RMutils/util_misc.py"; D="RMtools_1D/models_ns/"
T=[
("P10",D+"m7.py","(1 - np.exp(-1.*para_S)) / para_S","np.exp(-1.*para_S)"),
("P10",D+"m7.py","2j * lamSqArr_m2 * pDict","1j * lamSqArr_m2 * pDict"),
("P10",D+"m7.py","(1 - np.exp(-1.*para_S)) / para_S","=(np.expm1(-1.*para_S)) / -para_S"),
("P10",D+"m111.py","quArr = (quArr1 + quArr2 + quArr3)","=quArr = sum([quArr1, quArr2, quArr3])"),
("P10",D+"m111.py","np.radians(pDict[\"psi03_deg\"])","np.radians(pDict[\"psi02_deg\"])"),
("P10",D+"m111.py","np.radians(pDict[\"psi03_deg\"])","=np.deg2rad(pDict[\"psi03_deg\"])"),
("P10",F,"np.max(result.log_likelihood_evaluations)","np.mean(result.log_likelihood_evaluations)"),
("P10",F,"result.samples[:, i] >= 180.0) * 180.0","result.samples[:, i] >= 180.0) * 90.0"),
("P10",F,"median_val < 0.0) * (parNames","median_val < 90.0) * (parNames"),
("P10",F,"summary_tmp.median >= 135.0","summary_tmp.median >= 145.0"),
("P10",F,"if len(rotated_parNames) > 0:\n        result.samples_to_posterior()","if False:\n        result.samples_to_posterior()"),
("P10",F,"result.samples_to_posterior()","=result.samples_to_posterior()\n        pass"),
("P10",F,"nFree = sum(fixedMsk)","nFree = nDim"),
("P10",F,"nFree = sum(fixedMsk)","=nFree = len([x for x in priorTypes if x != 'DeltaFunction'])"),
("P10",F,"dof = nData - nFree - 1","dof = nData - nFree"),
("P10",F,"plus_val = summary.plus","plus_val = summary.minus"),
("P10",F,"lnlike_call(parNames, lamSqArr_m2, qArr, dqArr, uArr, duArr, modelNum)","lnlike_call(parNames, lamSqArr_m2, qArr, dqArr, uArr, dqArr, modelNum)"),
("P10",F,"lnlike_call(parNames, lamSqArr_m2, qArr, dqArr, uArr, duArr, modelNum)","lnlike_call(parNames, freqArr_Hz, qArr, dqArr, uArr, duArr, modelNum)"),
("P10",F,"- chiSqU / 2.0","- chiSqU"),
("P10",F,"            - chiSqQ / 2.0\n            - chiSqU / 2.0","=            - 0.5 * (chiSqQ + chiSqU)"),
("P10",F,"- 2.0 * np.nansum(np.log(dquArr))","=- np.nansum(np.log(dquArr**2))"),
("P10",F,"self.qArr - quMod.real","self.qArr - np.abs(quMod)"),
("P10",F,"np.nansum(np.power((self.uArr","np.sum(np.power((self.uArr"),
("P10",F,"np.power((qArr - quMod.real) / dqArr, 2)","(qArr - quMod.real) ** 2 / dqArr"),
("P10",F,"np.power((qArr - quMod.real) / dqArr, 2)","=((qArr - quMod.real) / dqArr) ** 2"),
("P10",F,"np.isfinite(qArr / dqArr)","=~np.isnan(qArr / dqArr)"),
("P10",F,"priors = mod.priors","priors = dict(mod.priors)" ),
("P10",U,"np.power(lamArr_m, 4.0)","np.power(lamArr_m, 2.0)"),
("P10",U,"np.power(lamArr_m, 4.0)","=np.power(lamSqArr_m2, 2.0)"),
("P10",U,"np.sinc(RMLamSqArr / np.pi)","np.sinc(RMLamSqArr)"),
("P10",U,"RMLamSqArr[i] *= 0.5","RMLamSqArr[i] *= 1.0"),
("P10",U,"RMLamSqArr[i:].sum(0)","RMLamSqArr[:i+1].sum(0)"),
("P10",U,"IArr = fluxI * np.power(freqArr_Hz / freq0_Hz, SI)","IArr = fluxI * np.power(freq0_Hz / freqArr_Hz, SI)",2),
("P10",U,"        freq0_Hz = freqArr_Hz[0]","        freq0_Hz = freqArr_Hz[-1]",3),
("P10",U,"uResidArr = uArr - uModArr","uResidArr = uModArr - uArr"),
]

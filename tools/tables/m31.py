A="RMtools_1D/mk_test_ascii_data.py"
C="RMtools_3D/mk_test_cube_data.py"
M="RMutils/util_misc.py"
F="RMutils/util_FITS.py"
T=[("P31",A,"IArr += np.random.normal(scale=rmsNoise, size=IArr.shape) * noiseArr","IArr += np.random.normal(scale=rmsNoise, size=IArr.shape)"),
("P31",A,"QArr += np.random.normal(scale=rmsNoise, size=QArr.shape) * noiseArr","QArr += np.random.normal(scale=rmsNoise) * noiseArr"),
("P31",A,"UArr += np.random.normal(scale=rmsNoise, size=UArr.shape) * noiseArr","UArr += np.random.normal(scale=rmsNoise**2, size=UArr.shape) * noiseArr"),
("P31",A,"dQArr = noiseArr * rmsNoise","dQArr = dIArr"),
("P31",A,"dQArr = noiseArr * rmsNoise","dQArr = rmsNoise * noiseArr.copy()",1) if 0 else ("P31",A,"dQArr = noiseArr * rmsNoise","=dQArr = rmsNoise * noiseArr.copy()"),
("P31",A,"dIArr *= np.random.normal(loc=1.0, scale=0.05","dIArr *= np.random.normal(loc=0.0, scale=0.05"),
("P31",A,"(freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr)","(freqNoFlgArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr)"),
("P31",A,"(freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr)","(freqArr_Hz, IArr, UArr, QArr, dIArr, dQArr, dUArr)"),
("P31",A,"\"Source%d.dat\" % (i + 1)","\"Source%d.dat\" % (successCount + 1)"),
("P31",A,"yp /= mDict[\"median\"]","yp /= mDict[\"mean\"]"),
("P31",A,"freqArr_Hz[i] <= fRng[1]","freqArr_Hz[i] < fRng[1]"),
("P31",A,"freq0_Hz = startFreq_Hz\n","freq0_Hz = endFreq_Hz\n"),
("P31",A,"split_repeat_lst(e[1:], 7, 3)","split_repeat_lst(e[1:], 7, 4)"),
("P31",A,"fluxI=preLst[5]","fluxI=preLst[4]"),
("P31",A,"            if freqArr_Hz[i] >= fRng[0] and freqArr_Hz[i] <= fRng[1]:","            if fRng[0] <= freqArr_Hz[i] <= fRng[1]:") if 0 else ("P31",A,"if freqArr_Hz[i] >= fRng[0] and freqArr_Hz[i] <= fRng[1]:","=if fRng[0] <= freqArr_Hz[i] <= fRng[1]:"),
("P31",C,"planeU = twodgaussian(params, shape2D)","planeU = twodgaussian(params, (nPixX, nPixY))"),
("P31",C,"params[0] = spectraUL","params[0] = spectraQL"),
("P31",C,"hduU.data[0, iChan, :, :] += planeU","hduU.data[0, iChan, :, :] = planeU"),
("P31",C,"hduQ = hduI.copy()","hduQ = hduI"),
("P31",C,"hduU.header[\"CRVAL4\"] = 3.0","hduU.header[\"CRVAL4\"] = 4.0"),
("P31",C,"wcs2D.wcs_world2pix([(preLst[0], preLst[1])], 0)","wcs2D.wcs_world2pix([(preLst[0], preLst[1])], 1)"),
("P31",C,"beamMinSigma_pix,  # width (sigma)\n                beamMajSigma_pix,","beamMajSigma_pix,  # width (sigma)\n                beamMinSigma_pix,"),
("P31",C,"gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))","gfactor = 2.0 * m.log(2.0)"),
("P31",C,"gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))","=gfactor = m.sqrt(8.0 * m.log(2.0))"),
("P31",C,"np.random.normal(scale=rmsNoise, size=(nPixY, nPixX)) * noiseArr[iChan]\n        )\n        hduU","np.random.normal(scale=rmsNoise, size=(nPixY, nPixX)) * noiseArr[0]\n        )\n        hduU"),
("P31",C,"np.savetxt(freqFileOut, freqNoFlgArr_Hz)","np.savetxt(freqFileOut, freqArr_Hz)"),
("P31",C,"hduQ.writeto(fitsFileOut, overwrite=True)","hduQ.writeto(fitsFileOut)"),
("P31",C,"dFreq_Hz = (endFreq_Hz - startFreq_Hz) / (nChans - 1)","dFreq_Hz = (endFreq_Hz - startFreq_Hz) / nChans"),
("P31",C,"        beamMinFWHM_deg,\n        beamMajFWHM_deg,\n        beamPA_deg,\n        pixScale_deg,\n        xCent_deg,\n        yCent_deg,\n        nPixX,\n        nPixY,\n        coordSys,\n        noise","        beamMajFWHM_deg,\n        beamMinFWHM_deg,\n        beamPA_deg,\n        pixScale_deg,\n        xCent_deg,\n        yCent_deg,\n        nPixX,\n        nPixY,\n        coordSys,\n        noise"),
("P31",C,"shape=(1, nChans, nPixY, nPixX)","shape=(1, nChans, nPixX, nPixY)"),
("P31",M,"b = s2t / 4 * (1 / cy**2 - 1 / cx**2)","b = s2t / 4 * (1 / cx**2 - 1 / cy**2)"),
("P31",M,"s2t = m.sin(2 * pa)","=s2t = 2 * m.sin(pa) * m.cos(pa)"),
("P31",M,"repeatLst = list(zip(*[iter(inLst[nPre:])] * nRepeat))","repeatLst = [inLst[k : k + nRepeat] for k in range(0, len(inLst) - nPre, nRepeat)]"),
("P31",M,"repeatLst = list(zip(*[iter(inLst[nPre:])] * nRepeat))","=repeatLst = [inLst[k : k + nRepeat] for k in range(nPre, len(inLst), nRepeat)]"),
("P31",M,"line = comment.sub(\"\", line)","line = line",2),
("P31",M,"if comment.match(line):\n            continue","=if False:\n            continue"),
("P31",M,"        line = line.strip()  # kill external whitespace\n","        line = line\n"),
("P31",M,"x > xp[-1], yp[-1] + (x - xp[-1]) * (yp[-1] - yp[-2])","x > xp[-1], yp[-1] + (x - xp[-1]) * (yp[-2] - yp[-1])"),
("P31",M,"PArr = IArr * pArr\n    QArr = IArr * qArr","PArr = IArr * pArr\n    QArr = fluxI * qArr"),
("P31",F,"head[\"CRPIX2\"] = shape[-2] / 2.0 + 0.5","head[\"CRPIX2\"] = shape[-2] / 2.0 + 1.0"),
("P31",F,"head[\"CRPIX1\"] = shape[-1] / 2.0 + 0.5","head[\"CRPIX1\"] = shape[-2] / 2.0 + 0.5"),
("P31",F,"if system == \"GAL\":","if system != \"GAL\":"),
("P31",F,"head[\"BMAJ\"] = beamMajFWHM_deg","head[\"BMAJ\"] = beamMinFWHM_deg"),
]

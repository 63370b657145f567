U="RMutils/util_RM.py"
T=[("P19",U,'detect_peak(yData, thresh)','detect_peak(yData, ampThresh * 0.5)'),
("P19",U,'def fit_rmsf(xData, yData, thresh=0.4, ampThresh=0.4)','def fit_rmsf(xData, yData, thresh=0.3, ampThresh=0.4)'),
("P19",U,'np.where(yData < ampThresh, 0.0, msk1)','np.where(yData <= 0, 0.0, msk1)'),
("P19",U,'sum(msk2) < 4','sum(msk2) < 3'),
("P19",U,'            msk2 = msk1\n','            msk2 = np.ones_like(msk1)\n'),
("P19",U,'validIndx = np.where(msk2 == 1.0)','validIndx = np.where(msk1 == 1.0)'),
("P19",U,'b = xData[np.argmax(yData)]','b = 0.0'),
("P19",U,'w = np.nanmax(xData) - np.nanmin(xData)','w = np.nanmax(xData)'),
("P19",U,'"fixed": False, "parname": "offset"','"fixed": True, "parname": "offset"'),
("P19",U,'"fixed": False, "parname": "width"','"fixed": False, "limited": [1, 0], "limits": [0.0, 0.0], "parname": "width"'),
("P19",U,'gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))\n            s','gfactor = 2.0 * m.sqrt(2.0 * m.log(10.0))\n            s'),
("P19",U,'y = a * np.exp(-((x - b) ** 2.0) / (2.0 * s**2.0))\n                return','y = a * np.exp(-((x - b) ** 2.0) / (s**2.0))\n                return'),
("P19",U,'return status, gauss(p)(xData) - yData','return status, gauss(p)(xData) - np.abs(yData)'),
("P19",U,'            status = 0\n','            status = -1\n'),
("P19",U,'iL = iPk - ishift + 1','iL = iPk - ishift'),
("P19",U,'iR = iPk + ishift\n','iR = iPk + ishift + 1\n'),
("P19",U,'a[iPk:] < thresh','a[iPk:] <= thresh'),
("P19",U,'iPk = np.argmax(a)','iPk = len(a) // 2'),
("P19",U,'return amp * np.exp(-((x - mean) ** 2.0) / (2.0 * sigma**2.0))','return amp * np.exp(-((x + mean) ** 2.0) / (2.0 * sigma**2.0))'),
("P19",U,'sigma = fwhm / gfactor','sigma = fwhm'),
("P19",U,'mp = mpfit(errFn, parinfo=inParms, quiet=True)','mp = mpfit(errFn, parinfo=inParms, quiet=True, maxiter=2)'),
("P19",U,'        return mp\n','        return mp.params\n'),
("P19",U,'ishift = np.where(a[iPk:] < thresh)[0][0]','=ishift = np.flatnonzero(a[iPk:] < thresh)[0]'),
("P19",U,'ishift = np.where(a[iPk:] < thresh)[0][0]','=ishift = np.argmax(a[iPk:] < thresh)'),
("P19",U,'validIndx = np.where(msk2 == 1.0)','=validIndx = msk2.astype(bool)'),
("P19",U,'if sum(msk2) < 4:','=if np.count_nonzero(msk2) <= 3:'),
("P19",U,'np.where(yData < ampThresh, 0.0, msk1)','=msk1 * (yData >= ampThresh)'),
("P19",U,'gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))\n            s','=gfactor = m.sqrt(8.0 * np.log(2.0))\n            s'),
("P19",U,'w = np.nanmax(xData) - np.nanmin(xData)','=w = np.ptp(xData)'),
]

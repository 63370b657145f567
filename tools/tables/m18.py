F="RMtools_3D/do_fitIcube.py"; R="RMtools_3D/rescale_I_model_3D.py"
T=[
("P18",F,"srcData = np.rot90(datacube[:, mskSrc > 0])","srcData = datacube[:, mskSrc > 0].T"),
("P18",F,"srcCoords = np.rot90(np.where(mskSrc > 0))","srcCoords = np.argwhere(mskSrc > 0)"),
("P18",F,"coeffs[5 - k, x, y] = j","coeffs[k, x, y] = j"),
("P18",F,"coeffs_error[5 - k, x, y] = l","coeffs_error[5 - k, x, y] = abs(j)"),
("P18",F,"covars[:, :, x, y] = results[i][\"covar\"]","covars[:, :, x, y] = results[i][\"covar\"][::-1, ::-1]"),
("P18",F,"reffreq[x, y] = results[i][\"reference_frequency_Hz\"]","reffreq[x, y] = results[0][\"reference_frequency_Hz\"]"),
("P18",F,"results = pool.map(func, args_list)","results = list(pool.imap_unordered(func, args_list))"),
("P18",F,"rmsTmp * 3","rmsTmp * 5"),
("P18",F,"idxSrc = np.where(dataPlane > medSky[i] - 1 * rmsArr[i] * threshold)","idxSrc = np.where(dataPlane > -1 * rmsArr[i] * threshold)"),
("P18",F,"rmsArr[i] = MAD(dataPlane[idxSky])","rmsArr[i] = rmsTmp"),
("P18",F,"mskArr = np.where(data > 0, 1.0, np.nan)","mskArr = np.where(data > 1, 1.0, np.nan)"),
("P18",F,"        rms_Arr=rms_Arr,\n        polyOrd=polyOrd","        rms_Arr=np.ones_like(rms_Arr),\n        polyOrd=polyOrd"),
("P18",F,"for i in range(np.abs(polyOrd) + 1):","for i in range(np.abs(polyOrd)):"),
("P18",F,"head_freq[\"BUNIT\"] = \"Hz\"","head_freq[\"BUNIT\"] = \"GHz\""),
("P18",F,"    if nDim == 3 and freq_axis > 3:","    if nDim == 3 and freq_axis > 4:"),
("P18",F,"        num_cores=args.num_cores,\n        chunk_size=args.chunk_size,\n        verbose=args.verbose,\n        fit_function=args.fit_function,","        num_cores=args.num_cores,\n        chunk_size=args.chunk_size,\n        verbose=args.verbose,"),
("P18",F,"        threshold=args.threshold,\n",""),
("P18",F,"modelIcube[:] = np.nan","modelIcube[:] = 0"),
("P18",F,"outs[\"I\"] = pixImodel","outs[\"I\"] = Ispectrum"),
("P18",R,"coeffs[5 - i] = data","coeffs[i] = data"),
("P18",R,"for i in range(6):\n        try","for i in range(5):\n        try"),
("P18",R,"freq0 = speed_of_light.value / np.sqrt(lam0Sq_m2)","freq0 = speed_of_light.value / lam0Sq_m2"),
("P18",R,"freq0 = np.nanmean(old_reffreq_map)","freq0 = np.mean(old_reffreq_map)"),
("P18",F,"    xy = list(zip(np.arange(0, len(srcCoords)), srcCoords[:, 0], srcCoords[:, 1]))","=    xy = [(i, c[0], c[1]) for i, c in enumerate(srcCoords)]"),
("P18",F,"    for _, an in enumerate(xy):\n        i, x, y = an\n","=    for i, x, y in xy:\n"),
("P18",F,"srcData = np.rot90(datacube[:, mskSrc > 0])","=srcData = datacube[:, mskSrc > 0].T[::-1]"),
("P18",F,"    for _, an in enumerate(xy):\n        i, x, y = an\n\n        modelIcube[:, x, y] = results[i][\"I\"]","=    for res, (_, x, y) in zip(results, xy):\n        modelIcube[:, x, y] = res[\"I\"]\n    for i, x, y in xy:"),
("P18",F,"            coeffs[5 - k, x, y] = j\n            coeffs_error[5 - k, x, y] = l","=            plane = 5 - k\n            coeffs[plane, x, y] = j\n            coeffs_error[plane, x, y] = l"),
("P18",F,"        args_list = [d for d in srcData]\n","=        args_list = list(srcData)\n"),
("P18",F,"            idxSky = np.where(dataPlane < medTmp + rmsTmp * 3)\n            medSky[i] = np.nanmedian(dataPlane[idxSky])\n            rmsArr[i] = MAD(dataPlane[idxSky])","=            sky = dataPlane[dataPlane < medTmp + rmsTmp * 3]\n            medSky[i] = np.nanmedian(sky)\n            rmsArr[i] = MAD(sky)"),
("P18",F,"            mskSrc[idxSrc] += 1","=            mskSrc[idxSrc] = 1"),
("P18",F,"        for k, j, l in zip(\n            range(len(coeffs)), results[i][\"coeffs\"], results[i][\"coeffs_err\"]\n        ):\n            coeffs[5 - k, x, y] = j\n            coeffs_error[5 - k, x, y] = l","=        coeffs[:, x, y] = results[i][\"coeffs\"][::-1]\n        coeffs_error[:, x, y] = results[i][\"coeffs_err\"][::-1]"),
]

P="RMtools_3D/RMpeakfit_3D.py"
LOOP='''    for i in trange(xarr.size):
        FDF_pix'''
T=[
("P26",P,'xarr, yarr = np.meshgrid(range(map_size[0]), range(map_size[1]))','xarr, yarr = np.meshgrid(range(map_size[1]), range(map_size[0]))'),
("P26",P,'xarr, yarr = np.meshgrid(range(map_size[0]), range(map_size[1]))',"=xarr, yarr = np.meshgrid(np.arange(map_size[0]), np.arange(map_size[1]), indexing='ij')"),
("P26",P,'''    xarr, yarr = np.meshgrid(range(map_size[0]), range(map_size[1]))
    xarr = xarr.ravel()
    yarr = yarr.ravel()
''','''=    xarr, yarr = np.indices(map_size)
    xarr = xarr.ravel()
    yarr = yarr.ravel()
'''),
("P26",P,'for i in trange(xarr.size):','=for i in range(len(xarr)):'),
("P26",P,'if lam0Sq > 0\n','if lam0Sq >= 0\n'),
("P26",P,'ascending = freqArr_Hz[-1] > freqArr_Hz[0]','ascending = True'),
("P26",P,'fwhmRMSF_pix = fwhmRMSF[xarr[i], yarr[i]]','fwhmRMSF_pix = fwhmRMSF[0, 0]'),
("P26",P,'weightArr = 1.0 / np.power(noiseArr, 2.0)','weightArr = 1.0 / noiseArr'),
("P26",P,'np.sum(weightArr**2 * np.nan_to_num(noiseArr) ** 2)','np.sum(weightArr * np.nan_to_num(noiseArr) ** 2)'),
("P26",P,'np.abs(Ifreq0Arr) * np.sqrt(','np.sqrt('),
("P26",P,'snrDoBiasCorrect=5.0,','snrDoBiasCorrect=0.0,'),
("P26",P,'mDict["N_channels"] = lamSqArr_m2.size','mDict["N_channels"] = phiArr.size'),
("P26",P,'map_dict[parameter][xarr[i], yarr[i]] = np.nan','pass'),
("P26",P,'mDict["Ifreq0"] = Ifreq0Arr[xarr[i], yarr[i]]','mDict["Ifreq0"] = Ifreq0Arr[yarr[i], xarr[i]]'),
("P26",P,'mDict["fracPol"] = mDict["ampPeakPIfit"] / mDict["Ifreq0"]','mDict["fracPol"] = mDict["Ifreq0"] / mDict["ampPeakPIfit"]'),
("P26",P,'"dFDFth": flux_unit,','"dFDFth": "",'),
("P26",P,'product_header["BUNIT"] = unit_dict[product]','product_header["BUNIT"] = unit_dict.get(product, flux_unit) if product != "fracPol" else flux_unit'),
("P26",P,'dataI = readFitsCube(args.fitsI, args.verbose)[1]','dataI = readFitsCube(args.fitsI, args.verbose)[1][::-1]'),
("P26",P,'"median_channel_width",\n            "fracPol",','"median_channel_width",\n            "fracPol",\n            "IfitStat",'),
("P26",P,'noiseArr=rmsArr,',''),
("P26",P,'weightType=args.weightType,',''),
("P26",P,'''            prefix_path + product + ".fits", data,''','''            prefix_path + "_" + product + ".fits", data,'''),
("P26",P,'else np.nanmean(freqArr_Hz)','else np.nanmedian(freqArr_Hz)'),
("P26",P,LOOP,'''=    for i in trange(xarr.size):
        x, y = xarr[i], yarr[i]
        FDF_pix'''),
]

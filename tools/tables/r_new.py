CM="RMtools_1D/clean_model.py"; FF="RMtools_1D/do_RMsynth_1D_fromFITS.py"; MF="RMtools_3D/make_freq_file.py"; BD="RMtools_1D/rmtools_bwdepol.py"
T={
"cm-helper":("P30",[(CM,'''    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr, 2.0)

    a = lambdaSqArr_m2 - lambdaSq_0
    quarr = np.sum(CCArr[:, np.newaxis] * np.exp(2.0j * np.outer(phiArr, a)), axis=0)
''','''    quarr = _transform(freqArr, phiArr, CCArr, lambdaSq_0)
'''),(CM,"def calculate_QU_model(",'''def _transform(freqArr, phiArr, CCArr, lambdaSq_0):
    lambdaSqArr_m2 = (speed_of_light.value / freqArr) ** 2
    out = np.zeros(len(freqArr), dtype=complex)
    for phi, cc in zip(phiArr, CCArr):
        out += cc * np.exp(2.0j * phi * (lambdaSqArr_m2 - lambdaSq_0))
    return out


def calculate_QU_model(''')]),
"cm-dot":("P30",[(CM,"quarr = np.sum(CCArr[:, np.newaxis] * np.exp(2.0j * np.outer(phiArr, a)), axis=0)","quarr = np.exp(2.0j * a[:, None] * phiArr[None, :]) @ CCArr")]),
"cm-sum2":("P30",[(CM,"quarr = np.sum(CCArr[:, np.newaxis] * np.exp(2.0j * np.outer(phiArr, a)), axis=0)","arg = 2.0 * a[:, np.newaxis] * phiArr\n    quarr = (CCArr * (np.cos(arg) + 1j * np.sin(arg))).sum(axis=1)")]),
"cm-scale":("P30",[(CM,"QUarr = StokesI_model / calculate_StokesI_model(fit_result, freq0_Hz) * quarr","I0 = calculate_StokesI_model(fit_result, freq0_Hz)\n    scale = StokesI_model / I0\n    QUarr = quarr * scale")]),
"cm-default":("P30",[(CM,"    fit_result = FitResult(\n        params=Iparms if Iparms is not None else [0, 0, 0, 0, 0, 1],","    if Iparms is None:\n        Iparms = [0.0] * 5 + [1.0]\n    fit_result = FitResult(\n        params=Iparms,")]),
"cm-save":("P30",[(CM,"np.savetxt(filename, list(zip(freqArr, Imodel, QUarr.real, QUarr.imag)))","columns = [freqArr, Imodel, np.real(QUarr), np.imag(QUarr)]\n    np.savetxt(filename, np.column_stack(columns))")]),
"cm-save2":("P30",[(CM,"np.savetxt(filename, list(zip(freqArr, Imodel, QUarr.real, QUarr.imag)))","np.savetxt(filename, np.array([freqArr, Imodel, QUarr.real, QUarr.imag]).T)")]),
"cm-read":("P30",[(CM,'''    phiArr, CCreal, CCimag = np.loadtxt(CCfile, unpack=True, dtype="float")
    CCArr = CCreal + 1j * CCimag
''','''    table = np.loadtxt(CCfile)
    phiArr = table[:, 0]
    CCArr = table[:, 1] + 1j * table[:, 2]
'''),(CM,'''    synth_mDict = json.load(open(rmSynthfile, "r"))
''','''    with open(rmSynthfile) as f:
        synth_mDict = json.load(f)
'''),(CM,'[float(x) for x in synth_mDict["polyCoeffs"].split(",")]','list(map(float, synth_mDict["polyCoeffs"].split(",")))')]),
"cm-main":("P30",[(CM,'''    phiArr, CCArr, Iparms, lambdaSq_0, freqArr, freq0_Hz = read_files(
        args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
    )
    QUarr, Imodel = calculate_QU_model(
        freqArr, phiArr, CCArr, lambdaSq_0, Iparms, freq0_Hz
    )
''','''    (freqfile,), (synthfile,), (ccfile,) = args.freqfile, args.rmSynthfile, args.CCfile
    inputs = read_files(freqfile, synthfile, CCfile=ccfile)
    phiArr, CCArr, Iparms, lambdaSq_0, freqArr, freq0_Hz = inputs
    QUarr, Imodel = calculate_QU_model(
        freqArr, phiArr, CCArr, lambdaSq_0=lambdaSq_0, freq0_Hz=freq0_Hz, Iparms=Iparms
    )
''')]),
"ff-helper":("P28,P21",[(FF,'''    if args.sky_coords:
        imgwcs = wcs.WCS(hduList[0].header, naxis=(1, 2))
        xcoords, ycoords = np.round(
            imgwcs.all_world2pix(args.xcoords, args.ycoords, 0)
        ).astype(int)
        print("Extracting pixel {} x {} (1-indexed)".format(xcoords + 1, ycoords + 1))
    #        print(ycoords+1)
    else:
        xcoords = int(args.xcoords) - 1
        ycoords = int(args.ycoords) - 1
''','''    xcoords, ycoords = _pixel(args, hduList[0].header)
'''),(FF,"def get_data_Q_U(",'''def _pixel(args, header):
    """zero-indexed pixel"""
    if not args.sky_coords:
        return int(args.xcoords) - 1, int(args.ycoords) - 1
    imgwcs = wcs.WCS(header, naxis=(1, 2))
    pix = imgwcs.all_world2pix(args.xcoords, args.ycoords, 0)
    x, y = np.round(pix).astype(int)
    print("Extracting pixel {} x {} (1-indexed)".format(x + 1, y + 1))
    return x, y


def get_data_Q_U(''')]),
"ff-spectra":("P28",[(FF,'''    dQ_array = np.full(freq_array.shape, 1 * 10 ** (-3))
    dU_array = np.full(freq_array.shape, 1 * 10 ** (-3))

    Q_array[~np.isfinite(Q_array)] = np.nan
    U_array[~np.isfinite(U_array)] = np.nan
''','''    dQ_array = 1e-3 * np.ones_like(freq_array)
    dU_array = dQ_array.copy()

    for arr in (Q_array, U_array):
        arr[np.logical_not(np.isfinite(arr))] = np.nan
''')]),
"ff-where":("P28",[(FF,'''    Q_array[~np.isfinite(Q_array)] = np.nan
    U_array[~np.isfinite(U_array)] = np.nan
''','''    Q_array = np.where(np.isfinite(Q_array), Q_array, np.nan)
    U_array = np.where(np.isfinite(U_array), U_array, np.nan)
''')]),
"ff-zero":("P28",[(FF,"if (Q_array != 0).sum() == 0 and (U_array != 0).sum() == 0:","if not (np.any(Q_array != 0) or np.any(U_array != 0)):")]),
"ff-zero2":("P28",[(FF,"if (Q_array != 0).sum() == 0 and (U_array != 0).sum() == 0:","nonzero = np.count_nonzero(Q_array) + np.count_nonzero(U_array)\n    if nonzero == 0:")]),
"ff-units":("P28,P21",[(FF,'''    if args.units is None:
        if "BUNIT" in hduList[0].header:
            args.units = hduList[0].header["BUNIT"]
        else:
            args.units = "Jy/beam"
''','''    units = args.units
    if units is None:
        units = hduList[0].header.get("BUNIT", "Jy/beam")
'''),(FF,"units=args.units","units=units")]),
"ff-data":("P28,P21",[(FF,'''    data = [freq_array, Q_array, U_array, dQ_array, dU_array]
''','''    spectra, errors = [Q_array, U_array], [dQ_array, dU_array]
'''),(FF,'''        data = [freq_array, I_array, Q_array, U_array, dI_array, dQ_array, dU_array]
''','''        spectra.insert(0, I_array)
        errors.insert(0, dI_array)
'''),(FF,"        data=data,\n","        data=[freq_array] + spectra + errors,\n")]),
"ff-bits":("P28,P21",[(FF,'''    nBits = 32
    if args.bit64:
        nBits = 64
''','''    nBits = 64 if args.bit64 else 32
''')]),
"ff-kw":("P28,P21",[(FF,'''    mDict, aDict = run_rmsynth(
        data=data,
        polyOrd=args.polyOrd,
        phiMax_radm2=args.phiMax_radm2,
        dPhi_radm2=args.dPhi_radm2,
        nSamples=args.nSamples,
''','''    grid = {
        "phiMax_radm2": args.phiMax_radm2,
        "dPhi_radm2": args.dPhi_radm2,
        "nSamples": args.nSamples,
    }
    mDict, aDict = run_rmsynth(
        data,
        args.polyOrd,
        **grid,
'''),(FF,'''    if args.saveOutput:
        saveOutput(mDict, aDict, prefixOut, verbose)
''','''    if not args.saveOutput:
        return
    saveOutput(mDict, aDict, prefixOut, verbose=verbose)
''')]),
"ff-getdata":("P28",[(FF,'''    hduList = fits.open(filename)
    return hduList[0].data[:, ycoords, xcoords]
''','''    with fits.open(filename) as hdus:
        cube = hdus[0].data
    return cube[:, ycoords, xcoords].copy()
''')]),
"ff-getdata2":("P28",[(FF,'''    hduList = fits.open(filename)
    return hduList[0].data[:, ycoords, xcoords]
''','''    return fits.getdata(filename)[..., ycoords, xcoords]
''')]),
"ff-prefix":("P28,P21",[(FF,"    prefixOut, ext = os.path.splitext(args.dataFile[0])\n","    infile = args.dataFile[0]\n    prefixOut = os.path.splitext(infile)[0]\n")]),
"mf-wcs":("P28",[(MF,'''    header = fits.getheader(filename)
    wcs = WCS(header)
    spec_wcs = wcs.spectral
    nchan = spec_wcs.array_shape[0]
    freqs = spec_wcs.pixel_to_world_values(np.arange(nchan))

    return freqs
''','''    spec_wcs = WCS(get_fits_header(filename)).spectral
    (nchan,) = spec_wcs.array_shape
    return spec_wcs.pixel_to_world_values(np.arange(0, nchan, 1))
''')]),
"mf-pix":("P28",[(MF,"spec_wcs.array_shape[0]","spec_wcs.pixel_shape[0]")]),
"mf-w2":("P28",[(MF,"spec_wcs.pixel_to_world_values(np.arange(nchan))","spec_wcs.wcs_pix2world(np.arange(nchan), 0)[0]")]),
}

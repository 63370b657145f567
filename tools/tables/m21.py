S1="RMtools_1D/do_RMsynth_1D.py";C1="RMtools_1D/do_RMclean_1D.py";S3="RMtools_3D/do_RMsynth_3D.py";C3="RMtools_3D/do_RMclean_3D.py"
Q="RMtools_1D/do_QUfit_1D_mnest.py";FI="RMtools_3D/do_fitIcube.py";PK="RMtools_3D/RMpeakfit_3D.py";RS="RMtools_3D/rescale_I_model_3D.py";FF="RMtools_1D/do_RMsynth_1D_fromFITS.py";CR="RMtools_1D/calculate_RMSF.py";MF="RMtools_3D/make_freq_file.py";BW="RMtools_1D/rmtools_bwdepol.py"
T=[
("P21",S1,"        nSamples=args.nSamples,\n","        nSamples=args.dPhi_radm2 or args.nSamples,\n"),
("P21",S1,"        super_resolution=args.super_resolution,\n",""),
("P21",S1,"    if args.bit64:\n        nBits = 64\n",""),
("P21",S1,'        fit_function=args.fit_function,\n        super','        super'),
("P21",S1,'        default="variance",','        default="uniform",'),
("P21",S1,'    if args.saveOutput:\n        saveOutput(mDict','    if args.saveOutput or args.debug:\n        saveOutput(mDict'),
("P21",S1,'        phiMax_radm2=args.phiMax_radm2,\n        dPhi_radm2=args.dPhi_radm2,','        phiMax_radm2=args.dPhi_radm2,\n        dPhi_radm2=args.phiMax_radm2,'),
("P21",S1,'    mDict, aDict = run_rmsynth(\n        data=data,\n','=    opts = dict(data=data, polyOrd=args.polyOrd)\n    mDict, aDict = run_rmsynth(\n        data=opts["data"],\n'),
("P21",S1,'prefixOut, ext = os.path.splitext(args.dataFile[0])','prefixOut, ext = args.dataFile[0].split(".")[0], ""'),
("P21",C1,'        gain=args.gain,\n        nBits','        nBits'),
("P21",C1,'        type=float,\n        default=-3,','        type=int,\n        default=-3,'),
("P21",C1,'        window=args.window,\n','        window=args.window or args.cutoff,\n'),
("P21",C1,'        default=None,\n        help="Threshold for','        default=0,\n        help="Threshold for'),
("P21",C1,"for f in [weightFile, fdfFile, rmsfFile, rmSynthFile]:","for f in [weightFile, fdfFile, rmsfFile]:"),
("P21",S3,"        weightType=args.weightType,\n        fitRMSF","        fitRMSF"),
("P21",S3,"not_rmsf=args.not_RMSF,\n        nBits=32,","not_rmsf=args.not_RMSF and args.super_resolution,\n        nBits=32,"),
("P21",S3,"        outDir=dataDir,","        outDir=os.path.abspath(dataDir),"),
("P21",S3,"dataU=readFitsCube(args.fitsU[0], verbose)[1]","dataU=readFitsCube(args.fitsQ[0], verbose)[1]"),
("P21",S3,"    for f in args.fitsQ + args.fitsU:","    for f in args.fitsQ + args.fitsQ:"),
("P21",S3,'        action="store_false",','        action="store_true",'),
("P21",S3,'dest="nSamples",\n        type=float,\n        default=5','dest="nSamples",\n        type=int,\n        default=5'),
("P21",C3,"        window=args.window,\n","        window=args.cutoff,\n"),
("P21",C3,"            chunksize = args.chunk\n","            chunksize = args.n_cores\n"),
("P21",C3,"        default=np.nan,","        default=0,"),
("P21",C3,"processes=args.n_cores)","processes=args.chunk)"),
("P21",Q,"        nlive=args.nlive,\n","        nlive=args.ncores,\n"),
("P21",Q,"        noStokesI=args.noStokesI,\n",""),
("P21",Q,"        modelNum=args.modelNum,\n","        modelNum=int(args.modelNum or 1),\n"),
("P21",FI,"        threshold=args.threshold,\n","        threshold=abs(args.threshold),\n"),
("P21",FI,"        apply_mask=args.apply_mask,\n",""),
("P21",FI,"    if not out_directory:\n","    if out_directory:\n"),
("P21",FI,"        num_cores=args.num_cores,\n        chunk_size=args.chunk_size,","        num_cores=args.chunk_size,\n        chunk_size=args.num_cores,"),
("P21",PK,"        weightType=args.weightType,\n    )","    )"),
("P21",PK,"        noiseArr=rmsArr,\n",""),
("P21",RS,"        num_cores=args.num_cores,\n",""),
("P21",RS,"overwrite=args.overwrite","overwrite=True"),
("P21",RS,"freq0 = np.nanmean(old_reffreq_map)","freq0 = np.nanmedian(old_reffreq_map)"),
("P21",RS,"freq0 = speed_of_light.value / np.sqrt(lam0Sq_m2)","freq0 = (speed_of_light.value / lam0Sq_m2) ** 0.5"),
("P21",CR,"        args.super_resolution,\n    )","    )"),
("P21",CR,"            float(args.freq_parms[1]),","            float(args.freq_parms[1]) + float(args.freq_parms[2]),"),
("P21",FF,"        super_resolution=args.super_resolution,\n",""),
("P21",FF,"        nBits=nBits,\n","        nBits=32,\n"),
("P21",BW,"fitRMSF=args.fitRMSF","fitRMSF=not args.fitRMSF"),
("P28",FF,"        xcoords = int(args.xcoords) - 1\n        ycoords = int(args.ycoords) - 1","        xcoords = int(args.xcoords)\n        ycoords = int(args.ycoords)"),
("P28",FF,"xcoords = int(args.xcoords) - 1","xcoords = int(args.xcoords - 1)"),
("P28",FF,"all_world2pix(args.xcoords, args.ycoords, 0)","all_world2pix(args.xcoords, args.ycoords, 1)"),
("P28",FF,"U_array = get_data_Q_U(args.UFile[0], ycoords, xcoords)","U_array = get_data_Q_U(args.UFile[0], xcoords, ycoords)"),
("P28",FF,"I_array = get_data_Q_U(args.StokesI_fits, ycoords, xcoords)","I_array = get_data_Q_U(args.dataFile[0], ycoords, xcoords)"),
("P28",FF,"data = [freq_array, I_array, Q_array, U_array, dI_array, dQ_array, dU_array]","data = [freq_array, I_array, Q_array, U_array, dQ_array, dU_array]"),
("P28",FF,"data = [freq_array, I_array, Q_array, U_array,","data = [freq_array, I_array, U_array, Q_array,"),
("P28",FF,"    U_array[~np.isfinite(U_array)] = np.nan\n",""),
("P28",FF,"dU_array = np.full(freq_array.shape, 1 * 10 ** (-3))","dU_array = np.full(freq_array.shape, 1 * 10 ** (-2))"),
("P28",FF,'args.units = hduList[0].header["BUNIT"]','args.units = "Jy/beam"'),
("P28",FF,"    if args.units is None:\n        if","    if True:\n        if"),
("P28",MF,"np.arange(nchan)","np.arange(1, nchan + 1)"),
("P28",MF,"nchan = spec_wcs.array_shape[0]","nchan = spec_wcs.array_shape[0] - 1"),
("P28",FF,"return hduList[0].data[:, ycoords, xcoords]","=data = hduList[0].data\n    return data[:, ycoords, xcoords]"),
]

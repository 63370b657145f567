S="RMtools_1D/do_RMsynth_1D.py"; C="RMtools_1D/do_RMclean_1D.py"
T=[
("P13",S,'arrdict["dirtyFDF"].real,\n                arrdict["dirtyFDF"].imag','arrdict["dirtyFDF"].imag,\n                arrdict["dirtyFDF"].real'),
("P13",S,'"_RMSF.dat"\n    if','"_rmsf.dat"\n    if'),
("P13",S,'arrdict["phi2Arr_radm2"],\n                arrdict["RMSFArr"].real','arrdict["phiArr_radm2"],\n                arrdict["RMSFArr"].real'),
("P13",S,'            outdict[k] = int(v)','            outdict[k] = float(int(v) // 2)'),
("P13",S,'FH.write("%s=%s\\n" % (k, v))','FH.write("%s = %s\\n" % (k, v))'),
("P13",S,'list(zip(arrdict["freqArr_Hz"], arrdict["weightArr"]))','list(zip(arrdict["weightArr"], arrdict["freqArr_Hz"]))'),
("P13",S,'data = [freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr]','data = [freqArr_Hz, IArr, QArr, UArr, dIArr, dUArr, dQArr]'),
("P13",S,'freqArr_Hz, QArr, UArr, dQArr, dUArr = np.loadtxt(','freqArr_Hz, UArr, QArr, dQArr, dUArr = np.loadtxt('),
("P13",S,'''    np.savetxt(
        outFile,
        list(
            zip(
                arrdict["phiArr_radm2"],
                arrdict["dirtyFDF"].real,
                arrdict["dirtyFDF"].imag,
            )
        ),
    )''','''=    np.savetxt(
        outFile,
        np.column_stack(
            [
                arrdict["phiArr_radm2"],
                arrdict["dirtyFDF"].real,
                arrdict["dirtyFDF"].imag,
            ]
        ),
    )'''),
("P13",S,'''    np.savetxt(
        outFile,
        list(
            zip(
                arrdict["phiArr_radm2"],
                arrdict["dirtyFDF"].real,
                arrdict["dirtyFDF"].imag,
            )
        ),
    )''','''=    fdf = arrdict["dirtyFDF"]
    np.savetxt(outFile, np.array([arrdict["phiArr_radm2"], np.real(fdf), np.imag(fdf)]).T)'''),
("P13",S,'''    FH = open(outFile, "w")
    for k, v in outdict.items():
        FH.write("%s=%s\\n" % (k, v))
    FH.close()''','''=    with open(outFile, "w") as FH:
        for k in outdict:
            FH.write(f"{k}={outdict[k]}\\n")'''),
("P13",S,'''    FH = open(outFile, "w")
    for k, v in outdict.items():
        FH.write("%s=%s\\n" % (k, v))
    FH.close()''','''=    with open(outFile, "w") as FH:
        FH.writelines("{}={}\\n".format(k, v) for k, v in outdict.items())'''),
("P13",S,'''    FH = open(outFile, "w")
    for k, v in outdict.items():
        FH.write("%s=%s\\n" % (k, v))
    FH.close()''','''=    with open(outFile, "w") as FH:
        FH.write("".join(["%s=%s\\n" % (k, v) for k, v in outdict.items()]))'''),
("P13",S,'    json.dump(dict(outdict), open(outFile, "w"))','''=    with open(outFile, "w") as f:
        json.dump(outdict, f)'''),
("P13",S,'    json.dump(dict(outdict), open(outFile, "w"))','''=    with open(outFile, "w") as f:
        f.write(json.dumps(dict(outdict)))'''),
("P13",C,'dirtyFDF = FDFreal + 1j * FDFimag','dirtyFDF = FDFreal - 1j * FDFimag'),
("P13",C,'cutoff = -1 * mDict["dFDFth"] * cutoff','cutoff = -1 * mDict["dQU"] * cutoff'),
("P13",C,'window = -1 * mDict["dFDFth"] * window','window = -1 * cutoff * window'),
("P13",C,'''    if window is None:
        window = np.nan''','''    if window is None:
        window = 0'''),
("P13",C,'measure_fdf_complexity(phiArr=phiArr_radm2, FDF=ccArr)','measure_fdf_complexity(phiArr=phiArr_radm2, FDF=cleanFDF)'),
("P13",C,'dFDF=mDict["dFDFth"],','dFDF=mDict["dQU"],'),
("P13",C,'mDict_cl["dPolAngle0Fit_deg"] * mDict_cl["dFDFcorMAD"]','mDict_cl["dPolAngleFit_deg"] * mDict_cl["dFDFcorMAD"]'),
("P13",C,'zip(phiArr_radm2, ccArr.real, ccArr.imag)','zip(phiArr_radm2, cleanFDF.real, ccArr.imag)'),
("P13",C,'lambdaSqArr_m2[weightArr > 0]','lambdaSqArr_m2'),
("P13",C,'"_FDFmodel.dat"\n    if','"_FDFcc.dat"\n    if'),
("P13",C,'fileRoot, dummy = os.path.splitext(args.dataFile[0])','fileRoot = args.dataFile[0].split(".")[0]'),
("P13",C,'fileRoot, dummy = os.path.splitext(args.dataFile[0])','=fileRoot = args.dataFile[0].rpartition(".")[0]'),
("P13",C,'fileRoot, dummy = os.path.splitext(args.dataFile[0])','=fileRoot = os.path.splitext(args.dataFile[0])[0]'),
("P13",C,'gain=args.gain,','gain=args.cutoff,'),
("P13",C,'    mDict = json.load(open(rmSynthFile, "r"))','''=    with open(rmSynthFile) as f:
        mDict = json.load(f)'''),
("P13",C,'    phiArr_radm2, FDFreal, FDFimag = np.loadtxt(fdfFile, unpack=True, dtype=dtFloat)','''=    fdf = np.loadtxt(fdfFile, dtype=dtFloat)
    phiArr_radm2, FDFreal, FDFimag = fdf[:, 0], fdf[:, 1], fdf[:, 2]'''),
("P13",C,'    phiArr_radm2, FDFreal, FDFimag = np.loadtxt(fdfFile, unpack=True, dtype=dtFloat)','''=    phiArr_radm2, FDFreal, FDFimag = np.loadtxt(fdfFile, dtype=dtFloat).T'''),
("P13",C,'    cutoff = -1 * mDict["dFDFth"] * cutoff','=    cutoff = abs(cutoff) * mDict["dFDFth"]'),
("P13",C,'        elif isinstance(v, np.ndarray):\n            mDict_cl[k] = v.tolist()\n','='),
("P13",C,'mDict_cl["nIter"] = int(iterCountArr)','mDict_cl["nIter"] = int(maxIter)'),
]

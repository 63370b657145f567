B = "RMtools_1D/rmtools_bwdepol.py"
W = "RMtools_1D/rmtools_bwpredict.py"
T = [
 ("P29", B, "funct3 = -1.0j + np.sign(phi)", "funct3 = 1.0j + np.sign(phi)"),
 ("P29", B, "funct2 = speed_of_light.value * np.sqrt((np.abs(phi) * np.pi))", "funct2 = speed_of_light.value * np.sqrt(np.abs(phi)) * np.pi"),
 ("P29", B, "b = channel_center + 0.5 * channel_width", "b = channel_center + channel_width"),
 ("P29", B, "return (1 / channel_width) * (int_b - int_a)", "return (1 / np.abs(channel_width)) * (int_b - int_a)"),
 ("P29", B, "ban = freq_array[1] - freq_array[0]", "ban = (freq_array[-1] - freq_array[0]) / (len(freq_array) - 1)"),
 ("P29", B, "/ np.sum(weightArr) ** 2\n        )  # equation 34", "/ np.sum(weightArr**2)\n        )  # equation 34"),
 ("P29", B, "adjoint_sens[i] = K * np.sum(weightArr * (np.abs(r_i) ** 2))", "adjoint_sens[i] = K * np.sum(weightArr * np.abs(r_i))"),
 ("P29", B, "avg_p_tilda = i / ban", "avg_p_tilda = i / ban * np.exp(2j * xi_knot) * p"),
 ("P29", B, "weightArr *= mskPlanes\n\n    # Check for isolated", "pass\n\n    # Check for isolated"),
 ("P29", B, "widths_Hz=widths_Hz,\n        weightArr=weightArr,\n        lam0Sq_m2=lam0Sq_m2,\n        verbose=verbose,\n        log=print,", "weightArr=weightArr,\n        lam0Sq_m2=lam0Sq_m2,\n        verbose=verbose,\n        log=print,"),
 ("P29", B, "lam0Sq_m2=lam0Sq_m2,\n        verbose=verbose,\n        log=print,", "verbose=verbose,\n        log=print,"),
 ("P29", B, "np.abs(RMSFArr) / np.max(np.abs(RMSFArr))", "np.abs(RMSFArr)"),
 ("P29", B, "indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1  # Masks", "indxPeakPIchan = np.nanargmax(amp_fdf[1:-1]) + 1  # Masks"),
 ("P29", B, "dampPeakPI = dFDF / adjoint_sens[indxPeakPIchan]", "dampPeakPI = dFDF"),
 ("P29", B, "snrPIfit = ampPeakPIfit * adjoint_sens[indxPeakPIchan] / dFDF", "snrPIfit = ampPeakPIfit / dFDF"),
 ("P29", B, "2.3 * dampPeakPI**2.0", "2.3 * dFDF**2.0"),
 ("P29", B, "dFDFcorMAD = dFDFcorMAD * adjoint_noise[indxPeakPIchan]", "dFDFcorMAD = dFDFcorMAD * np.median(adjoint_noise)"),
 ("P29", B, "arg0 = pCube * cor * np.conj(r_i)", "arg0 = pCube * cor * r_i"),
 ("P29", B, "K = 1.0 / np.sum(weightArr)\n    if lam0Sq_m2", "K = 1.0 / len(weightArr)\n    if lam0Sq_m2"),
 ("P29", B, "dQUArr = (dQArr + dUArr) / 2.0", "dQUArr = np.sqrt((dQArr**2 + dUArr**2) / 2.0)"),
 ("P29", B, "weightArr = 1.0 / np.power(dQUArr, 2.0)", "weightArr = 1.0 / np.power(dQUArr, 1.0)"),
 ("P29", B, "phiMax_radm2 = max(phiMax_radm2, 600.0)  # Force the minimum phiMax", "phiMax_radm2 = max(phiMax_radm2, fwhmRMSF_radm2 * 10)"),
 ("P29", B, "peak_rm = phiArr_radm2[indxPeakPIchan]", "peak_rm = phiArr_radm2[np.nanargmax(absFDF)]"),
 ("P29", B, "rm_fdf = absFDF / adjoint_noise  # used for", "rm_fdf = absFDF / adjoint_sens  # used for"),
 ("P29", B, "mDict[\"fracPol\"] = mDict[\"ampPeakPIfit\"] / (Ifreq0)", "mDict[\"fracPol\"] = mDict[\"ampPeakPIfitEff\"] / (Ifreq0)"),
 ("P29", B, "aDict[\"dirtyFDF\"] = dirtyFDF / adjoint_sens", "aDict[\"dirtyFDF\"] = dirtyFDF"),
 ("P29", B, "aDict[\"phi2Arr_radm2\"] = phi2Arr_radm2", "aDict[\"phi2Arr_radm2\"] = phiArr_radm2"),
 ("P29", W, "adjoint_info[2] = adjoint_noise / np.max(adjoint_noise)", "adjoint_info[2] = adjoint_noise / adjoint_noise[0]"),
 ("P29", W, "phiMax_radm2 = 2 * m.sqrt(3.0) / dLambdaSqMin_m2", "phiMax_radm2 = 2 * m.sqrt(3.0) / dLambdaSqMax_m2"),
 ("P29", W, "widths_Hz=None, phiMax", "=widths_Hz=None, phiMax"),
 ("P29", B, "        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])[\n            :, np.newaxis, np.newaxis\n        ]\n        arg0 = pCube * cor * np.conj(r_i)\n        arg = arg0\n        FDFcube[i, :, :] = KArr * np.sum(arg, axis=0)", "=        response = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])\n        FDFcube[i] = cor * KArr * np.sum(np.conj(response)[:, None, None] * pCube, axis=0)"),
 ("P29", B, "    funct1 = freq * np.exp(2.0j * phi * ((speed_of_light.value / freq) ** 2))", "=    lam = speed_of_light.value / freq\n    funct1 = freq * (np.cos(2 * phi * lam**2) + 1j * np.sin(2 * phi * lam**2))"),
]

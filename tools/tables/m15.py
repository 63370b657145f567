S="RMtools_3D/do_RMsynth_3D.py"; C="RMtools_3D/do_RMclean_3D.py"; P="RMtools_3D/RMpeakfit_3D.py"; M="RMutils/util_misc.py"
T=[
("P15",S,'header["CRPIX" + str(freq_axis)] = phi2Arr_radm2.size // 2 + 1','header["CRPIX" + str(freq_axis)] = phi2Arr_radm2.size // 2'),
("P15",S,'header["CRPIX" + str(freq_axis)] = phiArr_radm2.size // 2 + 1','header["CRPIX" + str(freq_axis)] = (phiArr_radm2.size + 1) // 2'),
("P15",S,'header["CRPIX" + str(freq_axis)] = phiArr_radm2.size // 2 + 1','header["CRPIX" + str(freq_axis)] = 1 + int(phiArr_radm2.size / 2)','='),
("P15",S,'FDFcube = np.moveaxis(FDFcube, 0, Ndim - freq_axis)','FDFcube = np.swapaxes(FDFcube, 0, Ndim - freq_axis)'),
("P15",S,'RMSFcube = np.moveaxis(RMSFcube, 0, Ndim - freq_axis)','RMSFcube = np.moveaxis(RMSFcube, 0, freq_axis - Ndim)'),
("P15",S,'output_axes.reverse()  # To get into numpy order.','pass'),
("P15",S,'header["LAMSQ0"] = (lam0Sq_m2,','header["LAMSQ0"] = (np.sqrt(lam0Sq_m2),'),
("P15",S,'outheader[f"CRPIX{stokes_axis}"] = 1.0','pass'),
("P15",S,'stokes_dict = {"I": 1, "Q": 2, "U": 3, "V": 4}','stokes_dict = {"I": 0, "Q": 1, "U": 2, "V": 3}'),
("P15",S,'outheader = header.copy()\n    stokes_axis','=outheader = header\n    stokes_axis'),
("P15",S,'hdu1 = pf.PrimaryHDU(RMSFcube.imag.astype(dtFloat), header)','hdu1 = pf.PrimaryHDU(RMSFcube.real.astype(dtFloat), header)'),
("P15",S,'peakRM[nan_mask] = np.nan','pass'),
("P15",S,'nan_mask = np.all(np.isnan(FDFcube), axis=phi_axis)','nan_mask = np.any(np.isnan(FDFcube), axis=phi_axis)'),
("P15",S,'data = np.moveaxis(data, N_dim - freq_axis, 0)','data = np.moveaxis(data, freq_axis - 1, 0)'),
("P15",S,'if N_dim >= 4:','if N_dim > 4:'),
("P15",C,'cleanFDF = np.moveaxis(np.reshape(cleanFDF, output_axes), 0, Ndim - FD_axis)','cleanFDF = np.moveaxis(np.reshape(cleanFDF, output_axes), 0, FD_axis - 1)'),
("P15",C,'complex_cube = FDFreal + 1j * FDFimag\n\n    # Identify Faraday depth axis (assumed to be last one if not explicitly found)\n    Ndim, FD_axis = find_axes(head)','complex_cube = FDFreal - 1j * FDFimag\n\n    # Identify Faraday depth axis (assumed to be last one if not explicitly found)\n    Ndim, FD_axis = find_axes(head)'),
("P15",C,'phi2Arr_radm2 = fits_make_lin_axis(headRMSF, axis=FD_axis - 1, dtype=dtFloat)','phi2Arr_radm2 = fits_make_lin_axis(head, axis=FD_axis - 1, dtype=dtFloat)'),
("P15",C,'name = re.sub(r"_(real|im|tot)(?!.*_(real|im|tot))", component, name)','name = re.sub(r"_(real|im|tot)", component, name)'),
("P15",C,'phi2Arr_radm2=phi2Arr_radm2,','phi2Arr_radm2=phiArr_radm2,'),
("P15",C,'header["BUNIT"] = "Iterations"','pass'),
("P15",C,'hdu2 = pf.PrimaryHDU(np.abs(ccArr).astype(dtFloat), header)','hdu2 = pf.PrimaryHDU(np.abs(cleanFDF).astype(dtFloat), header)'),
("P15",C,'fitsFileOut = outDir + "/" + prefixOut + "FDF_CC_im.fits"','fitsFileOut = outDir + "/" + prefixOut + "FDF_CC_imag.fits"'),
("P15",C,'header["HISTORY"] = "RM-CLEAN3D','del header["BMAJ"]\n    header["HISTORY"] = "RM-CLEAN3D'),
("P15",P,'.replace("FDF_clean_im", "RMSF_FWHM"),',','),
("P15",P,'phiArr_radm2 = fits_make_lin_axis(head, axis=FD_axis - 1)','phiArr_radm2 = fits_make_lin_axis(head, axis=Ndim - 1)'),
("P15",P,'lam0Sq = head["LAMSQ0"]','lam0Sq = head.get("LAMSQ0", 0) ** 2'),
("P15",M,'"CRVAL4",','',),
("P15",M,'header.set("NAXIS", 2)','header.set("NAXIS", 2)\n    header.pop("CUNIT1", None)'),
]
T=[t if not (len(t)==5 and t[4]=='=') else (t[0],t[1],t[2],'='+t[3]) for t in T]

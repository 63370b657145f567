p("P01", "RM synthesis computes the weighted Faraday transform at every depth",
  "For any channels, weights, reference wavelength and Faraday-depth grid, the Faraday dispersion function returned at each depth is the weighted mean of (Q+iU)exp(-2i phi (lambda^2-lambda0^2)) over the channels that are not flagged in Q or U, identically for 1D, 2D and 3D data. Without a supplied reference, lambda0^2 is the weighted mean of lambda^2 over the channels with data. Pixels without any usable channel come out as NaN.",
  INP, "all Q/U cubes (any flag pattern), weights, lambda^2 sets, reference values, Faraday-depth grids including asymmetric ones",
  FEW + "two NUFFT tests use fully unflagged data on a symmetric grid, so flag handling, per-pixel normalisation, asymmetric grids and supplied reference values are never compared with the definition.",
  [UR], [("transform, reference wavelength and normalisation", UR + ": do_rmsynth_planes")], ["returned FDF and reference wavelength"])
p("P02", "The RMSF is the transform of the weights on a doubled, aligned grid",
  "For any channels, weights and flag mask, the RMSF returned is the weighted mean of exp(-2i phi (lambda^2-lambda0^2)) over unflagged channels, per pixel where the mask differs between pixels, on a grid that continues the input spacing by half its length (rounded up) on both sides. Its width is 3.8/(lambda^2 range) unless a fit was requested and succeeded, in which case it is the fitted width and the status is the status of that fit.",
  INP, "all lambda^2 sets, weights, masks of 0-3 dimensions, depth grids, supplied or derived reference, fitting on or off",
  FEW + "the RMSF test uses one unflagged regular spectrum; isolated flags, whole flagged planes and supplied references are not exercised.",
  [UR], [("RMSF, grid and width", UR + ": get_rmsf_planes"), ("grid extension", UR + ": extrap")], ["returned RMSF, grid, widths, status, reference"])
p("P04", "Peak measurements follow their documented estimators",
  "For every Faraday spectrum the reported peak depth and amplitude are the vertex of the parabola through the highest non-edge sample and its neighbours, the measured noise is the robust deviation outside two beams of the peak, the effective amplitude subtracts 2.3 noise^2 in quadrature above the bias threshold, and the peak angle, derotated angle and all uncertainties follow Brentjens & de Bruyn (A.12, A.20) from the same noise value. The supplied noise is used when there is one and the measured noise otherwise; fits running off the grid are reported as NaN.",
  INP, "all spectra, grids (also irregular), beams, noise values, wavelength sets and bias thresholds",
  FEW + "noise fallback, low signal to noise, peaks next to the edge and runaway fits are not reached.",
  [UR, UM], [("peak measurement", UR + ": measure_FDF_parms"), ("parabola", UM + ": calc_parabola_vertex"), ("robust noise", UM + ": MAD")], ["entries of the returned dictionary"])
p("P05", "RM-CLEAN performs the documented Hogbom loop per spectrum",
  "For every spectrum (1D, 2D or 3D input, processed serially or through a process pool) RM-CLEAN repeatedly subtracts gain times the strongest residual, using the RMSF shifted so that its peak sits on the component, until the residual is below the cutoff or maxIter is reached, and then continues inside half a beam around the found components down to the window threshold. The restored spectrum is the sum of Gaussian-restored components plus the residual, the component and residual spectra and the iteration count are those of that loop, and spectra never reaching the cutoff are returned unchanged with zero components and zero iterations.",
  INP, "all FDF/RMSF cubes without NaN, grids, beams, cutoffs, gains, iteration limits, windows, with or without a pool",
  FEW + "the CLEAN tests use one source in the middle of the grid; components near the edges, windows, iteration limits and pools are not varied.",
  [UR], [("CLEAN wrapper", UR + ": do_rmclean_hogbom"), ("CLEAN loop", UR + ": RMcleaner._cleanloop")], ["restored FDF", "components", "iteration count", "residual"])
D1, D3 = "RMtools_1D/do_RMsynth_1D.py", "RMtools_3D/do_RMsynth_3D.py"
p("P03", "FDF and RMSF share channels, weights, reference and depth grid",
  "For any input to rmsynth1d or rmsynth3d, the RMSF is computed from the same wavelengths, weights (1/sigma^2 with sigma the mean of the q and u errors or the channel noise, or all ones), reference wavelength, Faraday-depth grid and numerical precision as the FDF, and per pixel from exactly the channels in which both Q and U are present. With a Stokes I model cube, Q and U are divided by it and the FDF is scaled back by the model linearly interpolated to the reference frequency, for ascending and descending frequencies alike. Super-resolution mode fixes the reference at zero and fits the real part of the RMSF.",
  INP, "all spectra and cubes (any flag pattern), weightings, precisions, ascending or descending frequencies, with or without Stokes I, with either product switched off",
  FEW + "the end-to-end tests use unflagged symmetric data without a Stokes I cube and compare a handful of summary numbers.",
  [D1, D3], [("1D driver", D1 + ": run_rmsynth"), ("3D driver", D3 + ": run_rmsynth")], ["FDF", "RMSF", "reference wavelength", "depth grids"])
p("P07", "The Stokes I fit and the fractional spectra it yields are consistent",
  "For every Stokes I spectrum the fit uses exactly the channels with finite I and error, with frequencies scaled by the reference frequency (the one of the mean 1/nu^2 of those channels), the reported order, chi-squared, reduced chi-squared, AIC and covariance belong to the model actually returned (in dynamic mode, the last order that lowered the AIC), and the model evaluates to the documented polynomial or power law. Fractional spectra are Q and U divided by that model (or by the supplied one) with errors propagated from Q, U and I, and a failed fit yields a flagged model as documented.",
  INP, "all spectra (any missing channels), polynomial orders -5..5, both model functions, supplied models, failing fits",
  FEW + "tests fit a few smooth spectra without missing channels.",
  [UM], [("fit", UM + ": fit_StokesI_model"), ("model evaluation", UM + ": calculate_StokesI_model"), ("fractional spectra", UM + ": create_frac_spectra")], ["fit record", "model spectrum", "fractional spectra and errors"])
p("P08", "Changing a Stokes I model's reference frequency keeps the model",
  "For every Stokes I model (linear or logarithmic polynomial of order 0-5) and new reference frequency, the renormalised coefficients describe the same curve of flux against frequency, the new reference frequency is recorded, and the coefficient errors are those of the full linear error propagation of the covariance matrix. The map version does the same in every pixel, whatever the number of worker processes.",
  INP, "all coefficient vectors, covariance matrices, reference frequencies, both model functions, all maps",
  FEW + "tests compare a few coefficient sets.",
  [UM, "RMtools_3D/rescale_I_model_3D.py"], [("renormalisation", UM + ": renormalize_StokesI_model"), ("map version", "RMtools_3D/rescale_I_model_3D.py: rescale_I_model_3D")], ["coefficients", "errors", "reference frequency"])
p("P09", "rmsynth1d noise, flux scale and statistics describe the channels used",
  "For every spectrum given to rmsynth1d the theoretical noise is the standard error of the weighted mean over the channels that enter the FDF, scaled by the Stokes I model at the reference frequency, and the lowest and highest frequency, the channel count and the wavelength set given to the peak measurement describe those same channels. The reference frequency, the Stokes I value there, the flux-scaled FDF, the fractional polarisation and the reported fit parameters all refer to one Stokes I model renormalised to that frequency. The complexity stage receives the fractional spectra with the measured angle, depth and fractional polarisation.",
  INP, "all spectra with any missing channels or noise values, both weightings, fitted or supplied models, standard and super-resolution mode",
  FEW + "the reference values in the tests come from one spectrum without missing channels.",
  [D1], [("summary values", D1 + ": run_rmsynth")], ["entries of the returned dictionaries"])
p("P11", "The Faraday-depth grid resolves the RMSF and covers the sensitive range",
  "For any frequencies, rmsynth1d and rmsynth3d use a Faraday-depth grid with an odd number of equally spaced samples centred on zero, whose spacing is the given one or the RMSF width (3.8/(lambda^2 range), or 2/(max+min lambda^2) in super-resolution mode) divided by the requested samples per beam, and whose limit is the given one or the larger of sqrt(3)/(largest lambda^2 gap) and ten beams. Both tools choose the same grid for the same frequencies.",
  INP, "all frequency sets, limits, spacings and samples per beam, both modes and precisions",
  FEW + "tests pass an explicit limit and spacing.",
  [D1, D3], [("1D grid", D1 + ": run_rmsynth"), ("3D grid", D3 + ": run_rmsynth")], ["grid given to the transform", "grid returned"])
QF, ML = "RMtools_1D/do_QUfit_1D_mnest.py", "RMtools_1D/models_ns"
p("P10", "QU models, likelihood, criteria and simulated spectra follow their formulas",
  "For every parameter set and wavelength set each QU-fitting model file evaluates the published formula of its model (thin, Burn, differential and internal dispersion; multi-component models are sums), from exactly its sampled parameters, with angles periodic over 180 degrees, fractions within 0..1, components ordered in Faraday depth and a total fraction of at most 1. The sampler is given the model's priors and a Gaussian likelihood of the fractional spectra, and chi-squared, degrees of freedom, AIC, AICc, BIC, medians and error bars (angles summarised across the wrap) are those of that fit. The simulated spectra used for tests and residuals follow the same formulas for any number of components.",
  INP, "all parameter values, wavelength sets, missing channels, posteriors (also across the 0/180 wrap), numbers of components",
  FEW + "one model is fitted to one spectrum and random sampling leaves only loose tolerances.",
  [QF, ML, UM], [("models and priors", ML + "/m*.py"), ("fit summary", QF + ": run_qufit"), ("likelihood", QF + ": lnlike_call"), ("simulated spectra", UM + ": create_pqu_spectra_burn, create_pqu_spectra_diff")], ["model spectra", "priors", "likelihood", "entries of the saved results"])
p("P27", "Complexity metrics measure the scatter beyond the best thin model",
  "For every fractional spectrum the complexity metrics are the median and the 15.72 and 84.27 percent points of the posterior of an additional Gaussian scatter (prior 1/sigma on a uniform grid, likelihood summed over the channels with data), computed for q, u and their combination from the residuals of the thin model with the measured fraction, angle and depth, in units of the channel errors. The clean-component complexity is the square root of the amplitude-weighted second moment of the components about their amplitude-weighted mean depth.",
  INP, "all spectra (any missing channels), errors, thin models, clean component spectra",
  FEW + "the tests compare one value with a reference produced by the same code.",
  [UR], [("scatter", UR + ": calc_sigma_add"), ("residuals", UR + ": measure_qu_complexity"), ("second moment", UR + ": measure_fdf_complexity")], ["sigmaAdd, dSigmaAdd and second-moment values"])
C3, PK3 = "RMtools_3D/do_RMclean_3D.py", "RMtools_3D/RMpeakfit_3D.py"
p("P15", "Cubes written by the 3D tools carry the right axes, names and data",
  "For every accepted layout of the input cubes (position of the frequency axis, degenerate Stokes axes, single-row or single-column images, missing CTYPEs) each file written by rmsynth3d and rmclean3d replaces that of an earlier run, has the documented name, extension structure, unit and axis order, and the header assigns every pixel the Faraday depth and sky coordinates that its value was computed for. Reading these files back, rmclean3d and rmtools_peakfitcube obtain the arrays, Faraday-depth grids and reference wavelength that the previous tool computed, from separate files or from extensions as documented.",
  INP, "all axis layouts accepted by the readers, shapes, prefixes and directories, output modes, contents",
  FEW + "the end-to-end tests use one axis order and look at some pixels of the result, never at the written coordinates.",
  [D3, C3, PK3, UR], [("reader", D3 + ": readFitsCube"), ("writer", D3 + ": writefits"), ("clean input and output", C3 + ": run_rmclean, writefits"), ("peak-fit input", PK3 + ": read_files"), ("coordinates of an axis", UR + ": fits_make_lin_axis")], ["file names", "headers", "arrays in the files"])
p("P26", "Peak maps hold every pixel's peak measurement under the right names",
  "For every Faraday cube, each map written by rmtools_peakfitcube holds in pixel (x, y) the quantity of its name that the 1D peak measurement returns for that pixel's spectrum, with the pixel's theoretical noise and Stokes I model at the reference frequency, derived from the given noise, Stokes I and model cubes. Missing pixels stay NaN, files have the documented names, units and axes and replace those of an earlier run, and the maps of peak polarisation and depth written by rmsynth3d are those of the strongest sample.",
  INP, "all cubes (any NaN pattern), frequency orders, with or without noise, Stokes I or model cubes, worker counts",
  FEW + "no test runs the peak-fitting tool on a cube with Stokes I or noise.",
  [PK3, D3], [("pixel loop", PK3 + ": pixelwise_peak_fitting"), ("files written", PK3 + ": save_maps"), ("inputs", PK3 + ": main")], ["map values", "file names", "headers"])
C1 = "RMtools_1D/do_RMclean_1D.py"
p("P13", "rmclean1d cleans and reports exactly what rmsynth1d saved",
  "The files written by rmsynth1d hold the Faraday spectrum, RMSF, channel weights and every measurement under the documented names, columns and keys, and rmclean1d reads the same arrays and values back from them, whatever the file name. Cutoffs and window thresholds below zero count in units of the theoretical noise, RM-CLEAN gets the requested gain, iteration limit and precision, and the reported values are the peak measurement of the restored spectrum with the synthesis noise, beam, reference and used channels, the second moment of the components, and uncertainties scaled by the observed noise. Input tables with and without Stokes I give the columns in the documented order.",
  INP, "all spectra and results, file names (with dots and directories), cutoffs and windows of either sign or absent, with and without Stokes I columns",
  FEW + "the tests only run the pair of tools once on one file and compare a handful of rounded numbers.",
  [D1, C1], [("files of rmsynth1d", D1 + ": saveOutput, readFile"), ("reading back", C1 + ": readFiles, main"), ("cleaning and report", C1 + ": run_rmclean, saveOutput")], ["files", "arguments of RM-CLEAN", "reported values"])
FI, RI = "RMtools_3D/do_fitIcube.py", "RMtools_3D/rescale_I_model_3D.py"
p("P18", "Stokes I model cubes and maps hold each pixel's own fit",
  "For every Stokes I cube rmtools_fitIcube measures the channel noise away from the source, fits only pixels above the threshold, and writes for each such pixel the model, coefficients, errors, covariances, reference frequency and status of the fit of exactly that pixel's spectrum (NaN elsewhere), in files (replacing those of an earlier run) whose names, planes and headers agree with the documentation, whatever the number of worker processes or the cube's layout. The rescaling tool reads those maps back as the same models and writes the maps of the renormalised ones under the same conventions, overwriting files only when asked to.",
  INP, "all cubes (NaN patterns, degenerate axes, single rows or columns), thresholds, orders, both model functions, worker counts",
  FEW + "no test inspects the coefficient, error or covariance maps, and the rescaling tool is only run on one set of maps.",
  [FI, RI], [("noise and mask", FI + ": cube_noise, savefits_mask"), ("pixel fits", FI + ": fit_spectra_I, make_model_I"), ("maps", FI + ": savefits_Coeffs, savefits_model_I"), ("reading back", RI + ": read_data, write_new_parameters")], ["files", "headers", "map values"])
CK, AK, XR = "RMtools_3D/create_chunks.py", "RMtools_3D/assemble_chunks.py", "RMtools_3D/extract_region.py"
p("P16", "Chunks of a cube assemble into the original cube",
  "For every cube layout and chunk size, rmtools_createchunks writes numbered chunk files that together hold every image pixel exactly once, and rmtools_assemblechunks puts the spectrum of every pixel of every chunk back at the image position it came from, with the original image dimensions and header, from chunks found by their number in any directory. Chunks of an earlier run are replaced, the assembled cube replaces an existing file only when asked to, and assembling stops before touching the output when a chunk is missing or an unrelated file would be taken for one.",
  INP, "all layouts (2 to 4 axes, any degenerate axes), image sizes, chunk sizes (including everything in one chunk), file and directory names",
  FEW + "one cube, one chunk size and one layout are chunked by the tests.",
  [CK, AK], [("writing chunks", CK + ": main"), ("assembling", AK + ": main")], ["chunk file names, sizes and contents", "assembled cube and header"])
p("P17", "Cut-outs keep their pixels and coordinates",
  "For every image or cube and every set of limits, rmtools_extractregion writes exactly the pixels between the limits (inclusive, counted from one corner as documented, -1 or out-of-range limits meaning the edge of the image, along the two image axes and the third axis), in their order, and moves the reference pixels so that every pixel keeps its sky coordinates and Faraday depth or frequency. An existing output file is only replaced with the overwrite option.",
  INP, "all layouts (2 to 4 axes), limits (inside, at and beyond the edges, -1, one pixel wide)",
  FEW + "no test runs the cut-out tool.",
  [XR], [("cut-out", XR + ": main")], ["pixels and header of the output"])
BD, BPR = "RMtools_1D/rmtools_bwdepol.py", "RMtools_1D/rmtools_bwpredict.py"
p("P29", "Bandwidth-depolarisation tools use the exact response of each channel",
  "For any channel frequencies and widths, the response of a channel to a Faraday depth is the closed form of the mean of exp(2i phi c^2/nu^2) over the channel, and rmtools_bwdepol's spectrum is the weighted sum of (q+iu) times its conjugate over the unflagged channels, with the RMSF, theoretical noise and sensitivity per depth computed from the same responses, weights, reference wavelength and grid. The peak is the highest signal-to-noise sample away from the edges, and its amplitude, depth, angles and errors follow the documented estimators on the sensitivity-corrected spectrum scaled by the Stokes I model at the reference frequency, for every documented input format (with or without Stokes I and channel widths, the spacing of the first two channels otherwise). rmtools_bwpredict reports the same sensitivity and noise (normalised to its maximum) for unit weights.",
  INP, "all spectra (any missing channels), widths, weights, grids, column layouts, verbosity",
  FEW + "the tests only run the tool on one spectrum of nearly constant Stokes I and check that it does not fail.",
  [BD, BPR], [("channel response", BD + ": rotation_operator, rotation_integral_limit"), ("spectrum", BD + ": do_adjoint_rmsynth_planes"), ("RMSF", BD + ": bwdepol_get_rmsf_planes"), ("measurement", BD + ": bwdepol_measure_FDF_parms"), ("driver", BD + ": run_adjoint_rmsynth"), ("prediction", BPR + ": bwdepol_compute_predictions")], ["spectrum, RMSF, noise, sensitivity, measurements"])
CRM, RFF, MFF = "RMtools_1D/calculate_RMSF.py", "RMtools_1D/do_RMsynth_1D_fromFITS.py", "RMtools_3D/make_freq_file.py"
p("P21", "Command-line options reach exactly the parameter they document",
  "For every command-line tool and every combination of documented options, each option changes exactly the parameter of the algorithm, reader or writer it documents, with the value the user typed (zero and negative values included), and every option left out means its documented default. Output prefixes and directories derive from the input file name as documented, results are saved exactly when asked for, and the results saved are those the algorithm returned for the files named. A tool whose input file is missing computes and writes nothing.",
  "command lines", "all option values, every option alone, in pairs and all together, for 13 tools",
  FEW + "the end-to-end tests run each tool with one or two command lines.",
  [D1, C1, D3, C3, QF, FI, PK3, RI, BD, BPR, CRM, RFF], [("entry points", x + ": main") for x in (D1, C1, D3, C3, QF, FI, PK3, BD, BPR, CRM, RFF)] + [("entry point", RI + ": command_line")], ["arguments of the algorithms, readers and writers"])
p("P28", "rmsynth1dFITS extracts the requested pixel with its frequencies and units",
  "For every pair (or triple) of cubes and every pixel, rmsynth1dFITS runs RM synthesis on the Q, U (and Stokes I) spectra of the pixel asked for, counted from one or found from its sky position, with blanked channels missing, unit errors, the frequencies of the cube's spectral axis and the intensity unit of the header unless one is given, and gives up only if all of Q and U is zero. rmtools_freqfile writes the same frequencies, one per channel of the spectral axis.",
  INP, "all cubes, pixels and sky positions, with and without Stokes I and units",
  FEW + "no test runs either tool.",
  [RFF, MFF], [("extraction", RFF + ": main, get_data_Q_U"), ("frequencies", MFF + ": get_freq_array, save_freq_file")], ["spectra given to RM synthesis", "frequency file"])
CMD = "RMtools_1D/clean_model.py"
p("P30", "The predicted spectrum of clean components inverts RM synthesis",
  "For every set of clean components, reference wavelength (zero for super-resolution) and Stokes I model, the Q and U spectra predicted by clean_model are the sum over the components of their amplitude rotated by twice the Faraday depth times the distance in wavelength squared from the reference wavelength of RM synthesis, scaled by the change of the Stokes I model from its value at the reference frequency. The tool reads the frequencies, components and model from the files the 1D tools save, and writes one row of frequency, I, Q and U per channel to the output file named.",
  INP, "all components, grids, channels, reference wavelengths, Stokes I coefficients, 5- and 7-column spectra",
  FEW + "no test runs the tool.",
  [CMD], [("prediction", CMD + ": calculate_QU_model"), ("tool", CMD + ": main, save_model"), ("reading", CMD + ": read_files")], ["predicted Q, U, I", "model file"])
p("P12", "rmtools_calcRMSF reports the properties of the RMSF of the given channels",
  "For every set of channel frequencies and weights, rmtools_calcRMSF computes the RMSF of exactly those channels and weights (reference wavelength zero and the real part fitted for super-resolution) over Faraday depths up to the requested maximum in the requested step (defaults ten and a tenth times 2 sqrt(3) over the wavelength-squared span), and reports, in the terminal and in the figure alike, 3.8 over that span, the fitted width, pi over the smallest wavelength squared, sqrt(3) over the median channel width in wavelength squared, the position and relative height of the highest positive-side local maximum, and the frequency range. A frequency file takes precedence over -f, a weight file over a second column, and channels without weights count equally.",
  INP, "all channels, weights, extents, steps; one- and two-column files, weight files and frequency ranges",
  FEW + "no test runs the tool.",
  [CRM], [("report", CRM + ": determine_RMSF_parameters"), ("inputs", CRM + ": main")], ["printed report", "text and curves of the figure"])
p("P19", "A fitted RMSF width is that of a Gaussian through the main lobe only",
  "When the RMSF is fitted, the samples used are those within the main lobe: symmetric about the peak, out to the first sample right of it below 0.4 of the (unit) maximum, leaving out those below 0.4 on the left unless fewer than four would remain. Model minus data handed to the fitter is a*exp(-(x-b)^2/(2 s^2)) - y with s = width/(2 sqrt(2 ln 2)), so that the width is a full width at half maximum; amplitude, position and width are all free, unbounded, and start at one, the position of the maximum, and the extent of the lobe. The same Gaussian (amplitude, mean, full width at half maximum) is what gauss1D returns for the restoring beam.",
  INP, "all RMSF curves whose main lobe ends inside the grid; any threshold for the lobe detection",
  FEW + "no test compares the samples that enter the fit.",
  [UR], [("fit", UR + ": fit_rmsf"), ("lobe", UR + ": detect_peak"), ("Gaussian", UR + ": gauss1D")], ["residual vector and parameter settings that reach mpfit", "mask of the main lobe", "restoring beam"])
p("P20", "Analysis and plotting functions leave the data they are given unchanged",
  "The public functions for RM synthesis, RMSF, RM-CLEAN, peak and complexity measurements, Stokes I models, simulated spectra, bandwidth depolarisation, cubes and figures do not modify the arrays, lists, result dictionaries or FITS headers passed to them, whatever options, masks, weights or NaNs they come with (only the savers of results may convert the values they save to plain Python types). Calling one a second time with the same objects therefore gives the same result, and a default argument never carries data from one call to the next.",
  INP, "all inputs and combinations of options enumerated by the other checks",
  FEW + "tests compare results, never the arguments after a call.",
  [UR, UM, D1, D3], [("RMSF", UR + ": get_rmsf_planes"), ("synthesis", UR + ": do_rmsynth_planes"), ("headers", D3 + ": writefits"), ("1D tool", D1 + ": run_rmsynth")], ["arguments of the call after it returns", "result of a second call"])
p("P31", "Simulated test data hold the sources of the catalogue plus the requested noise",
  "rmtools_testdata1D writes one file per supported row of the catalogue, numbered by the row, with the channel frequencies (NaN in the flagged ranges, ends included), the I, Q and U of the row's components (Burn or differential, angles and depths of each component from its own columns, power law from the reference frequency), and the errors. create_IQU_cube_data writes the sum over the sources of the same spectra times an elliptical Gaussian of the beam's size and angle at the pixel where the two-dimensional WCS of the header puts the source, with headers describing the axes, and the unflagged frequencies. Every Stokes value carries a random deviate of its own, scaled by the noise level and the noise curve relative to its median (linearly extended beyond its ends); errors are that level with 5% scatter.",
  INP, "all catalogues of supported and unsupported rows, frequency ranges, noise levels and curves, flagged ranges, beams, pixel scales, image sizes and field centres",
  FEW + "the test data are only used as input of the tools and never compared with the catalogue.",
  ["RMtools_1D/mk_test_ascii_data.py", "RMtools_3D/mk_test_cube_data.py", UM, "RMutils/util_FITS.py"], [("1D", "RMtools_1D/mk_test_ascii_data.py: create_IQU_ascii_data"), ("3D", "RMtools_3D/mk_test_cube_data.py: create_IQU_cube_data"), ("catalogue", UM + ": csv_read_to_list, split_repeat_lst"), ("beam", UM + ": twodgaussian"), ("header", "RMutils/util_FITS.py: create_simple_fits_hdu")], ["columns of the ASCII files", "planes and headers of the cubes", "frequency file", "arguments of create_IQU_cube_data"])
NA = {}

F="RMtools_1D/calculate_RMSF.py"
T=[("P12",F,"3.8 / (l2_max - l2_min)\n        )\n    )","2 * np.sqrt(3.0) / (l2_max - l2_min)\n        )\n    )"),
("P12",F,"            3.8 / (l2_max - l2_min),\n","            2 * np.sqrt(3.0) / (l2_max - l2_min),\n"),
("P12",F,"np.pi / l2_min)","np.pi / l2_max)"),
("P12",F,"            np.pi / l2_min,","            np.pi / l2_max,"),
("P12",F,"dl2 = np.median(np.abs(np.diff(lambda2_array)))","dl2 = np.median(np.diff(lambda2_array))"),
("P12",F,"dl2 = np.median(np.abs(np.diff(lambda2_array)))","dl2 = np.mean(np.abs(np.diff(lambda2_array)))"),
("P12",F,"np.median(np.abs(np.diff(lambda2_array)))","np.abs(lambda2_array[1] - lambda2_array[0])"),
("P12",F,"phi_max = 10 * 2","phi_max = 5 * 2"),
("P12",F,"if phi_max == None:","=if not phi_max:",1),
("P12",F,"-1 * phi_max / 2, phi_max / 2 + 1e-6, dphi","-1 * phi_max, phi_max + 1e-6, dphi"),
("P12",F,"phi_max / 2 + 1e-6","phi_max / 2"),
("P12",F,"weightArr=weights_array","weightArr=np.ones_like(weights_array)"),
("P12",F,"lam0Sq_m2=0 if super_resolution else None","lam0Sq_m2=0"),
("P12",F,"lam0Sq_m2=0 if super_resolution else None","lam0Sq_m2=None"),
("P12",F,"fitRMSFreal=super_resolution","fitRMSFreal=False"),
("P12",F,"y = (\n            1 + np.where(x == -2)[0]","y = (\n            np.where(x == -2)[0]"),
("P12",F,"x == -2","x == 2"),
("P12",F,"rmsf_results.phi2Arr[rmsf_results.phi2Arr.size // 2 :][\n                    y","rmsf_results.phi2Arr[rmsf_results.phi2Arr.size // 2 + 1 :][\n                    y"),
("P12",F,"y[np.argmax(peaks)]","y[0]",1),
("P12",F,"y[np.argmax(peaks)]","y[0]",2),
("P12",F,"np.max(peaks) * 100","peaks[0] * 100",1),
("P12",F,"np.max(peaks) * 100,","np.max(peaks),"),
("P12",F,"np.min(freq_array) / 1e9","np.min(freq_array) / 1e6"),
("P12",F,"speed_of_light.value / np.min(freq_array) * 100.0","speed_of_light.value / np.max(freq_array) * 100.0"),
("P12",F,"rmsf_results.phi2Arr, np.imag(rmsf_results.RMSFcube)","rmsf_results.phi2Arr, np.real(rmsf_results.RMSFcube)"),
("P12",F,"plotfile is not None","plotname is not None"),
("P12",F,"weights_array = data[:, 1]","weights_array = np.ones_like(freq_array)"),
("P12",F,"freq_array = data[:, 0]","freq_array = data[0, :]"),
("P12",F,"if len(data.shape) == 2:","if len(data.shape) == 3:"),
("P12",F,"if args.freqFile != None:","if args.freq_parms == None:"),
("P12",F,"if args.weightFile != None:","if args.weightFile != None and len(data.shape) == 1:"),
("P12",F,"weights_array = np.genfromtxt(args.weightFile, encoding=None, dtype=None)","weights_array = np.genfromtxt(args.weightFile, encoding=None, dtype=None) ** 2"),
("P12",F,"speed_of_light.value**2 / freq_array**2","=(speed_of_light.value / freq_array) ** 2"),
("P12",F,"phi_max == None","=phi_max is None"),
("P12",F,"if len(data.shape) == 2:","=if data.ndim == 2:"),
("P12",F,"l2_min = np.min(lambda2_array)","=l2_min = (speed_of_light.value / freq_array.max()) ** 2"),
]

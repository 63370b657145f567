F="RMtools_3D/rescale_I_model_3D.py"
L="    for i, (p, perror) in enumerate(results):\n        new_coeffs[:, i // rs, i % rs] = p\n        new_errors[:, i // rs, i % rs] = perror"
T=[("P08",F,a,b) for a,b in [("np.moveaxis(coeffs, 0, 2)","np.moveaxis(coeffs, 0, 1)"),("i // rs, i % rs] = p\n","i % rs, i // rs] = p\n"),("            new_freq_map.flat,","            old_reffreq_map.flat,"),("(0, 1), (2, 3)","(1, 0), (2, 3)"),("        1\n    ]  # Get","        0\n    ]  # Get"),("old_freq, new_freq = data","new_freq, old_freq = data"),("return new_fit_result.params, new","return coeff, new"),
 (L,"=    for i in range(len(results)):\n        p, perror = results[i]\n        yy, xx = divmod(i, rs)\n        new_coeffs[:, yy, xx] = p\n        new_errors[:, yy, xx] = perror"),
 (L,"=    ny=old_reffreq_map.shape[0]\n    new_coeffs[:] = np.array([r[0] for r in results]).T.reshape(6,ny,rs)\n    new_errors[:] = np.array([r[1] for r in results]).T.reshape(6,ny,rs)"),
 (L,"=    for y in range(old_reffreq_map.shape[0]):\n        for x in range(rs):\n            new_coeffs[:, y, x], new_errors[:, y, x] = results[y * rs + x]\n")]]

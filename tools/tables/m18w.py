F="RMtools_3D/rescale_I_model_3D.py"
T=[("P18",F,"new_coeffs[5 - i]","new_coeffs[i]"),("P18",F,"new_errors[5 - i]","new_coeffs[5 - i]"),("P18",F,"overwrite=overwrite","overwrite=True"),("P18",F,"overwrite=overwrite","overwrite=True",2),
("P18",F,"newcoeff{i}err","newcoefferr{i}"),("P18",F,"range(max_order + 1)","range(max_order)"),("P18",F,"axis=(1, 2))) - 1","axis=(1, 2)))"),("P18",F,'        del out_header["BUNIT"]',"        pass"),("P18",F,"header=out_header","header=None"),
("P18",F,"        overwrite=args.overwrite,\n",""),("P18",F,"        args.outname,\n        header,","        basename,\n        header,"),
("P18",F,"for i in range(max_order + 1):","=for i in reversed(range(1 + max_order)):"),
("P18",F,"np.sum(np.any((new_coeffs != 0.0) & (~np.isnan(new_coeffs)), axis=(1, 2))) - 1","=np.count_nonzero(((new_coeffs != 0.0) & ~np.isnan(new_coeffs)).any(axis=(1, 2))) - 1"),
]

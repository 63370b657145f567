T=[("P15","RMtools_3D/do_RMsynth_3D.py",'FDFcube = np.moveaxis(FDFcube, 0, Ndim - freq_axis)','FDFcube = np.swapaxes(FDFcube, 0, Ndim - freq_axis)'),
("P15","RMtools_3D/do_RMsynth_3D.py",'if N_dim >= 4:','if N_dim > 4:'),
("P15","RMtools_3D/do_RMclean_3D.py",'name = re.sub(r"_(real|im|tot)(?!.*_(real|im|tot))", component, name)','name = re.sub(r"_(real|im|tot)", component, name)'),
]

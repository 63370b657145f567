F="RMtools_3D/extract_region.py"
T=[("P17",F,"box[2] - 1 : box[3], box[0] - 1 : box[1]\n            ]","box[2] - 1 : box[3], box[0] - 1 : box[1] - 1\n            ]",1),
("P17",F,"zlim[0] - 1 : zlim[1], :, box[2]","zlim[0] : zlim[1], :, box[2]"),
("P17",F,"zlim[0] - 1 : zlim[1], box[2]","zlim[0] - 1 : zlim[1] - 1, box[2]"),
("P17",F,'if header["NAXIS3"] != 1:\n            cube_axis = 3','if header["NAXIS4"] != 1:\n            cube_axis = 3'),
("P17",F,'header["CRPIX1"] - box[0] + 1','header["CRPIX1"] - box[0]'),
("P17",F,'header["CRPIX2"] - box[2] + 1','header["CRPIX2"] - box[0] + 1'),
("P17",F,'- zlim[0] + 1\n        )','- zlim[0]\n        )'),
("P17",F,'if box[0] < 1:\n        box[0] = 1','if box[0] < 1:\n        box[0] = 0'),
("P17",F,'(box[1] == -1) or (box[1] > header["NAXIS1"])','(box[1] > header["NAXIS1"])'),
("P17",F,'box[1] = header["NAXIS1"]','box[1] = header["NAXIS2"]'),
("P17",F,'box[3] = header["NAXIS2"]','box[3] = header["NAXIS2"] - 1'),
("P17",F,'args.box[2] - args.box[3],','args.box[2] - args.box[1],'),
("P17",F,'if os.path.exists(args.outfile) and not args.overwrite:','if os.path.exists(args.outfile) and args.overwrite:'),
("P17",F,'    new_header = header.copy()\n','=    new_header = header\n'),
("P17",F,'    if args.zlim != None:\n        new_header["NAXIS"','    if args.zlim == None:\n        new_header["NAXIS"'),
("P17",F,'        new_header["CRPIX" + str(cube_axis)] = (','        new_header["CRPIX3"] = ('),
("P17",F,'    new_header["CRPIX1"] = header["CRPIX1"] - box[0] + 1','=    new_header["CRPIX1"] -= box[0] - 1'),
("P17",F,"box = [int(x) for x in box]","=box = list(map(int, box))"),
("P17",F,'box[2] - 1 : box[3], box[0] - 1 : box[1]]\n    else','=slice(box[2] - 1, box[3]), slice(box[0] - 1, box[1])]\n    else'),
]

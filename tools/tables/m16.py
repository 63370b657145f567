C="RMtools_3D/create_chunks.py"
A="RMtools_3D/assemble_chunks.py"
T=[
("P16",C,"xarr = idx // y_image","xarr = idx // x_image",1),
("P16",C,"xarr = idx // y_image\n        yarr = idx % y_image","yarr = idx // x_image\n        xarr = idx % x_image",1),
("P16",C,"digits = floor(log10(num_chunks)) + 1","digits = floor(log10(num_chunks))"),
("P16",C,"digits = floor(log10(num_chunks)) + 1","=digits = len(str(num_chunks))"),
("P16",C,"digits = floor(log10(num_chunks)) + 1","digits = 1"),
("P16",C,"idx = idx[idx < Npix_image]","idx = idx[idx < Npix_image - 1]"),
("P16",C,"idx = idx[idx < Npix_image]","idx = idx[idx <= Npix_image]"),
("P16",C,'new_header["OLDXDIM"] = x_image\n    new_header["OLDYDIM"] = y_image','new_header["OLDXDIM"] = y_image\n    new_header["OLDYDIM"] = x_image'),
("P16",C,"np.expand_dims(data[xarr, yarr], 1)","np.expand_dims(data[xarr, yarr], 0)",1),

("P16",C,"num_chunks = ceil(Npix_image / Nperchunk)","num_chunks = ceil(Npix_image / Nperchunk + 1)"),
("P16",A,"chunkfiles.sort()\n","pass\n"),
("P16",A,"chunkfiles.sort()\n","=chunkfiles = sorted(chunkfiles)\n"),
("P16",A,'x_dim = old_header["OLDXDIM"]\n    y_dim = old_header["OLDYDIM"]','y_dim = old_header["OLDXDIM"]\n    x_dim = old_header["OLDYDIM"]'),
("P16",A,"getheader(chunkfiles[0])","getheader(chunkfiles[-1])"),
("P16",A,'    del new_header["OLDYDIM"]\n','    pass\n'),
("P16",A,"large[0].data[:, yarr, xarr] = chunk[0].data[:, 0, :]","large[0].data[:, xarr, yarr] = chunk[0].data[:, 0, :]",1),
("P16",A,"chunk[0].data[:, :, 0, :]","chunk[0].data[:, :, :, 0]",1),
("P16",A,"idx = base_idx_arr + i * Nperchunk","idx = base_idx_arr + i * (Nperchunk - 1)",1),
("P16",A,"idx = idx[idx < Npix_image]","idx = idx[idx < Npix_image - 1]"),
("P16",A,"np.abs(new_header[\"BITPIX\"] // 8)","np.abs(new_header[\"BITPIX\"] // 4)"),
("P16",A,"if len(chunkfiles) != num_chunks:","if len(chunkfiles) < num_chunks:"),
("P16",A,'if not (x.startswith("C") and x[1:].isnumeric())','if not x.startswith("C")'),
("P16",A,'if not (x.startswith("C") and x[1:].isnumeric())','if not x[1:].isnumeric()'),
("P16",A,"    i = num_chunks - 1\n","    i += 1\n"),
("P16",A,"for i in trange(num_chunks - 1,","for i in trange(1, num_chunks - 1,"),
("P16",A,'''        xarr = idx // y_dim
        yarr = idx % y_dim

        chunk''','''=        xarr, yarr = np.divmod(idx, y_dim)

        chunk'''),
]

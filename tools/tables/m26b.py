P="RMtools_3D/RMpeakfit_3D.py"
O='''    xarr, yarr = np.meshgrid(range(map_size[0]), range(map_size[1]))
    xarr = xarr.ravel()
    yarr = yarr.ravel()
'''
L='''    for i in trange(xarr.size):
        FDF_pix = FDF[:, xarr[i], yarr[i]]'''
T=[
("P26",P,O,'''=    xarr, yarr = np.indices(map_size)
    xarr = xarr.ravel()
    yarr = yarr.ravel()
'''),
("P26",P,O,'''=    xarr = np.repeat(np.arange(map_size[0]), map_size[1])
    yarr = np.tile(np.arange(map_size[1]), map_size[0])
'''),
("P26",P,O,'''=    xarr, yarr = np.unravel_index(np.arange(map_size[0] * map_size[1]), map_size)
'''),
("P26",P,O,'''=    xarr, yarr = np.where(np.ones(map_size, dtype=bool))
'''),
("P26",P,O,'''=    pix = list(np.ndindex(map_size[0], map_size[1]))
    xarr = np.array([p[0] for p in pix])
    yarr = np.array([p[1] for p in pix])
'''),
("P26",P,L,'''=    xy = list(zip(xarr, yarr))
    xarr = [p[0] for p in xy]
    yarr = [p[1] for p in xy]
    for i in range(len(xy)):
        FDF_pix = FDF[:, xarr[i], yarr[i]]'''),
]
from pathlib import Path
s=Path('/repo/'+P).read_text()
a=s.index(O); b=s.index("    map_dict = {}\n    for parameter"); c=s.index("    # Run fitting pixel-wise:"); d=s.index("    return map_dict\n",c)
# whole function replaced: index loops
big=s[a:d]
def alt(head):
    t=big.replace(O,"").replace("    for i in trange(xarr.size):\n",head).replace("xarr[i], yarr[i]","i, j")
    return "="+t
T.append(("P26",P,big,alt("    for i, j in np.ndindex(*map_size):\n")))
T.append(("P26",P,big,alt("    for i, j in np.ndindex(map_size):\n")))
T.append(("P26",P,big,alt("    import itertools\n    for i, j in itertools.product(range(map_size[0]), range(map_size[1])):\n")))
body=big[big.index("    for i in trange"):]
def nest():
    t=big.replace(O,"").replace("xarr[i], yarr[i]","i, j")
    k=t.index("    for i in trange"); lines=t[k:].split("\n")
    new=["    for i in range(map_size[0]):","        for j in range(map_size[1]):"]+["    "+l if l.strip() else l for l in lines[1:]]
    return "="+t[:k]+"\n".join(new)
T.append(("P26",P,big,nest()))

"""the Faraday depth grid is chosen by one documented rule in the 1D and the 3D tool"""
from .tools import *

W = {S1: "1D", S3: "3D"}


def run(chk):
    for q in (S1, S3):
        for superres in (False, True):
            for given in ("none", "phiMax", "dPhi", "both"):
                for bits in (32, 64):
                    if bits == 64 and given != "none":
                        continue
                    name = "%s %s %s nBits=%d" % (W[q], "super-resolution" if superres else "standard", given, bits)
                    chk.guarded("R11", name, lambda: one(chk, q, name, superres, given, bits), chk.where(q))
    chk.assumptions += ["frequencies of the channels are finite"]
    return dict(floor=40, explanation="grid handed to the transform and grid returned, compared with the rule: spacing = beam/nSamples, range = max(sqrt(3)/largest lambda^2 gap, 10 beams), odd number of samples centred on zero")


def one(chk, q, name, superres, given, bits):
    kw = dict(nSamples=sym("nsamp", pos=True), nBits=num(bits))
    pm, dp = NONE, NONE
    if given in ("phiMax", "both"):
        kw["phiMax_radm2"] = pm = sym("phimax", pos=True)
    if given in ("dPhi", "both"):
        kw["dPhi_radm2"] = dp = sym("dphi", pos=True)
    w_ = chk.where(q)
    c, v, st, I = (synth1d if q == S1 else synth3d)(chk, superres, **kw)
    want, st2, _ = ref(chk, "grid", lambda J, s: [A(J, s, "freq", ["f"], pos=True), pm, dp, sym("nsamp", pos=True), TRUE if superres else FALSE])
    for k in (U + "do_rmsynth_planes", U + "get_rmsf_planes"):
        a, s = c.one(k)
        chk.same_value("R11.grid", "%s: grid given to %s" % (name, k.split(".")[-1]), a["phiArr_radm2"], s, want, st2, where=w_, **K)
    out = st.heap[v.items[1].id].ent[string("phiArr_radm2").key][1] if q == S1 else chk.elements(chk.deref(v, st), 8)[1]
    chk.same_value("R11.grid", name + ": grid returned", out, st, want, st2, where=w_, **K)

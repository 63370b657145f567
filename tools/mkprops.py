"""Writes properties.jsonl and MANIFEST.json from one table (developer tool; outputs are committed)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), note=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None), _note=note))


UR, UM, UF = "RMutils/util_RM.py", "RMutils/util_misc.py", "RMutils/util_FITS.py"
S1, C1, F1, Q1 = "RMtools_1D/do_RMsynth_1D.py", "RMtools_1D/do_RMclean_1D.py", "RMtools_1D/do_RMsynth_1D_fromFITS.py", "RMtools_1D/do_QUfit_1D_mnest.py"
S3, C3, I3, PK, RS = "RMtools_3D/do_RMsynth_3D.py", "RMtools_3D/do_RMclean_3D.py", "RMtools_3D/do_fitIcube.py", "RMtools_3D/RMpeakfit_3D.py", "RMtools_3D/rescale_I_model_3D.py"
INP = ["inputs"]
FEW = "The suite runs a couple of simulated sources end to end and compares a few rounded summary numbers; "

exec(open(os.path.join(H, "tools", "proptable.py")).read())

claimed = {x["id"] for x in P if os.path.exists(os.path.join(H, "checks", x["id"].lower() + ".py"))}
with open(os.path.join(H, "properties.jsonl"), "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert len(x["statement"].split(". ")) <= 3, x["id"]
        fh.write(json.dumps({k: v for k, v in x.items() if not k.startswith("_")}) + "\n")
TECH = "interprocedural value-numbering dataflow over the AST, compared with specification terms"
man = dict(version=1, setup_cmd="true", checks=[], not_applicable=[],
           notes="One analysis engine (sa/) abstractly interprets the current source of /repo into canonical terms; checks/ holds the per-property rules. Nothing from /repo is imported or executed.")
for x in P:
    i = x["id"]
    if i in claimed:
        n = x["_note"] or {}
        man["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                                  technique=n.get("technique", TECH), level="other",
                                  level_note=n.get("note", "Static: for every path of the analysed functions the computed output term equals the specification term (canonically, or indistinguishable under random interpretation of the terms). Trusts the numpy/astropy models of the engine; floating-point rounding is not modelled.")))
    else:
        man["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(man, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties;", len(claimed), "claimed:", " ".join(sorted(claimed)))

"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import glob, json, os
p = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "DESIGN.md"))
s = open(p).read().split("<!-- seeds -->")[0]
rows = ["<!-- seeds -->", "", "| planted bug | property (catching check) | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(os.path.dirname(p), "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"].replace("\n", " ").replace("|", "/")[:160]))
open(p, "w").write(s + "\n".join(rows) + "\n")

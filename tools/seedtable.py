"""Regenerates the seed table of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {"c23-last-constant-wins": "C22", "c18-threshold-below-negative-minimum": "C20", "c37-repeated-checkpoint": "C07"}
rows = ["<!-- seeds -->", "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    n = os.path.basename(d[:-1])
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/")[:110], " ".join([m["property"]] + ([ALSO[n]] if n in ALSO else []))))
rows.append("<!-- /seeds -->")
p = V + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)

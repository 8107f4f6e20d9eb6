"""Writes the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
MARK = "<!-- planted bugs -->"
s = s.split(MARK)[0].replace("MATRIX\n", "")
open(d, "w").write(s + MARK + "\n\n| planted bug | caught by the check of | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n")

"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), " ".join(d["needs"].split())))
t = "| planted bug | caught by | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (b, p, n.replace("|", "\\|")) for p, b, n in sorted(rows))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + t + s[j:])
print(len(rows), "planted bugs")

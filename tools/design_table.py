"""fill the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"]))
p = here + "/DESIGN.md"
s = open(p).read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->"
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", t)
else:
    s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)

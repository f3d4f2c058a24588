"""Write DESIGN.md from its parts and the planted bugs' meta.json (run by hand, no check depends on it)."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
rd = lambda n: open(os.path.join(here, n)).read()
head = rd("DESIGN.head.md").split("## Genuine defects found")[0]
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(here, "caught.json")))
for m in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    d = json.load(open(m)); i = m.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), caught.get(i, "not run")))
text = head.replace("%%PROPS%%", rd("DESIGN.props.md").strip()) + rd("DESIGN.tail.md").replace("%%BUGS%%", "\n".join(rows))
open(os.path.join(root, "DESIGN.md"), "w").write(text)

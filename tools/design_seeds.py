"""Rewrites the table of planted bugs in DESIGN.md (python3 tools/design_seeds.py)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(\| planted bug \|.*?\n\|---\|---\|---\|---\|\n).*?\n\n", lambda k: k.group(1) + "\n".join(rows) + "\n\n", s, flags=re.S)
n = len(json.load(open(V + "/known-findings.json"))["fixed"])
s = re.sub(r"\((\d+) so far", "(%d so far" % n, s)
open(V + "/DESIGN.md", "w").write(s)

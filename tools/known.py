"""Writes known-findings.json (python3 tools/known.py). A finding is matched by its key; a fixed entry suppresses nothing."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
FIXED = []


def finding(prop, id, key, what):
    FINDINGS.append({"property": prop, "id": id, "key": key, "what": what})


def fixed(prop, subject, what):
    h = [l.split(" ", 1) for l in LOG if l.split(" ", 1)[1].startswith("fix: " + subject)]
    assert len(h) == 1, (subject, h)
    FIXED.append("fixed: property=%s %s %s" % (prop, h[0][0], what))


LOG = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.split("\n")[:-1]
exec(open(os.path.join(V, "tools", "findings.py")).read())
rest = [l for l in LOG if " fix: " in l and not any(l.split(" ")[0] in f for f in FIXED)]
assert not rest, rest
json.dump({"findings": FINDINGS, "fixed": FIXED}, open(V + "/known-findings.json", "w"), indent=1)
open(V + "/known-findings.json", "a").write("\n")
print(len(FINDINGS), "findings,", len(FIXED), "fixed")

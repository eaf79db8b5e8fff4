"""Writes properties.jsonl and MANIFEST.json from the one table below (python3 tools/mk.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", state=None, observe=None,
      thorough=True, na=None):
    a = {"files": ["src/" + f if "/" not in f else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    PROPS.append(dict(prop={"id": id, "title": title, "statement": statement,
                            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
                      technique=technique, note=note, level=level, na=na))


exec(open(os.path.join(V, "tools", "table.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(p["prop"], ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 -B setup.py", "checks": [], "not_applicable": []}
for p in PROPS:
    i = p["prop"]["id"]
    if p["na"]:
        man["not_applicable"].append({"property": i, "reason": p["na"]})
        continue
    man["checks"].append({"property": i, "quick_cmd": "python3 -B checks/run.py %s" % i,
                          "thorough_cmd": "python3 -B checks/run.py %s --tier thorough" % i,
                          "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "claimed")

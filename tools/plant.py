"""Helper to write a planted bug: reads a Python description on stdin:
id, prop, needs, breaks, edits=[(file, old, new)], demo (body of demo.sh after the library)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
ns = {}


def plant(id, prop, needs, breaks, edits, demo, lib="lib.sh", files={}):
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(W):
        subprocess.run("cp -a /repo " + W, shell=True, check=True)
    h = subprocess.run("git -C /repo rev-parse HEAD", shell=True, capture_output=True, text=True).stdout.strip()
    subprocess.run("cd %s && git checkout -q -f . ; git fetch -q /repo && git checkout -q -f %s" % (W, h), shell=True, check=True)
    for f, old, new in edits:
        s = open(W + "/src/" + f if not f.startswith("scripts") else W + "/" + f).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(W + "/src/" + f if not f.startswith("scripts") else W + "/" + f, "w").write(s.replace(old, new))
    p = subprocess.run("cd %s && git diff" % W, shell=True, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(p)
    subprocess.run("cd %s && git checkout -q -f ." % W, shell=True)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n' + demo.strip() + "\nexit 0\n")
    open(d + "/lib.sh", "w").write(open(V + "/tools/demolib.sh").read())
    for n, c in files.items():
        open(d + "/" + n, "w").write(c)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


exec(sys.stdin.read())

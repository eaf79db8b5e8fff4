"""python3 tools/seed.py [--no-check] ID...: tries planted bugs in a scratch copy of /repo: builds, stable tests, demo with and without, the property's check."""
import json, os, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)


def script(name):
    s = open("/opt/vp/" + name).read().replace("/repo", W).replace("/opt/vp/build.sh", W + ".build.sh")
    open(W + "." + name, "w").write(s)


def head():
    h = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.isdir(W):
        sh("cp -a /repo " + W)
    sh("git -C %s checkout -q -f . && git -C %s clean -fdq" % (W, W))
    if sh("git -C %s rev-parse HEAD" % W).stdout.strip() != h:
        sh("git -C %s fetch -q /repo && git -C %s checkout -q -f %s" % (W, W, h))
    script("build.sh"), script("test.sh")


def build():
    r = sh("bash %s.build.sh" % W)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def demo(i):
    d = "/tmp/seeddemo"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(V + "/seeded/" + i, d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd=W)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    head()
    build()
    clean = {i: demo(i) for i in args}
    for i in args:
        head()
        d = V + "/seeded/" + i
        prop = json.load(open(d + "/meta.json"))["property"]
        out = ["%s %s:" % (i, prop)]
        out.append("clean demo %d%s" % (clean[i][0], "" if clean[i][0] == 0 else " !!! " + clean[i][1]))
        a = sh("git -C %s apply %s/patch.diff" % (W, d))
        if a.returncode:
            print(*out, "DOES NOT APPLY", a.stderr)
            continue
        b = build()
        if b[0]:
            print(*out, "DOES NOT BUILD", b[1])
            continue
        sh("bash %s.test.sh /tmp/seedtest.json" % W)
        t = open("/tmp/seedtest.json").read()
        t = json.loads(t)
        s = json.dumps(t)
        good = set(t.get("passed", []))
        lost = [x for x in BASE.get("passed", BASE.get("stable", [])) if x not in good]
        out.append("tests lost %s" % lost if lost else "tests ok")
        r = demo(i)
        out.append("demo %d%s" % (r[0], " (%s)" % r[1].strip()[-150:] if r[0] else " !!! not shown"))
        if "--no-check" not in sys.argv:
            e = dict(os.environ, VERIF_REPO=W, VERIF_SEED="1", VERIF_TIER="quick")
            c = sh("python3 -B checks/run.py %s" % prop, cwd=V, env=e)
            v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
            out.append("CAUGHT" if c.returncode == 1 and v else "MISSED exit %d" % c.returncode)
            m = re.search(r"%s quick.*" % prop, c.stdout)
            out.append(m.group(0)[-90:] if m else c.stderr[-300:])
        print(*out, sep="\n   ", flush=True)
    head()


main()

"""pkgmk interrupted at any of the commands it calls, or with one of them failing.

Every program pkgmk runs goes through a stand-in on the PATH which numbers the calls and, at the chosen one, ends the
whole process group, or fails before or after (or in the middle of) what the program does. A package which stands under
its name has to be whole; what counts as success has to be whole; what was interrupted has to be completed by the same
command."""
import hashlib, os, re, shutil, time

from . import core
from .c_pkgmk import DB, EXE, PORTS, SRV, TOOLS, Pkgmk, load, template
from .engine import _rmtree, tool

WRAP = "/opt/wrap"
NAMES = [t for t in TOOLS if t not in ("bash", "sh", "env", "kill", "sleep", "head", "tr", "false", "true")] + ["bsdtar", "pkginfo", "which"]
# programs of which a failure must not go unnoticed
HARD = ["bsdtar", "cp", "mv", "mkdir", "xz", "bzip2", "gzip", "zstd", "pkginfo", "sha512sum", "stat", "sed"]
WRAPPER = """#!/usr/bin/bash
T=${0##*/}
A="$*"
echo "$T ${A//$'\n'/ }" >> /w/fault/log
if [ ! -e /w/fault/spec ]; then exec /usr/bin/$T "$@"; fi
read N MODE ONLY < /w/fault/spec
mapfile -t L < /w/fault/log
if [ -n "$ONLY" ]; then
	K=0
	for i in "${L[@]}"; do [ "${i%% *}" == "$ONLY" ] && K=$((K+1)); done
	[ "$T" == "$ONLY" ] || K=0
else
	K=${#L[@]}
fi
if [ $K == $N ] || { [ "$MODE" == always ] && [ $K -gt $N ]; }; then
	echo "$T $MODE $*" >> /w/fault/hit
	case $MODE in
		kill) kill -9 0 ;;
		mid) /usr/bin/$T "$@" & sleep 0.00$((RANDOM % 10)); kill -9 0 ;;
		after) /usr/bin/$T "$@"; kill -9 0 ;;
		term) kill -TERM 0; exit 1 ;;
		fail|always) echo "$T: No space left on device" >&2; exit 1 ;;
		failafter) /usr/bin/$T "$@"; exit 1 ;;
		full) /usr/bin/$T "$@" | /usr/bin/head -c 100; exit 1 ;;
	esac
fi
exec /usr/bin/$T "$@"
"""


class PkgFault(Pkgmk):
    tag = "pkgfault"

    def setup(self):
        super().setup()
        os.makedirs("/w/fault")
        os.makedirs(WRAP, exist_ok=True)
        for t in NAMES:
            if not os.path.exists(WRAP + "/" + t):
                os.symlink("wrapper", WRAP + "/" + t)
        open(WRAP + "/wrapper", "w").write(WRAPPER)
        os.chmod(WRAP + "/wrapper", 0o755)

    def wrapped(self, p, args, spec=None):
        for f in ("log", "hit", "spec"):
            if os.path.exists("/w/fault/" + f):
                os.unlink("/w/fault/" + f)
        if spec:
            open("/w/fault/spec", "w").write(spec + "\n")
        n = len(self.trace)
        r = self.run(p, *args, env={"PATH": WRAP + ":/usr/bin"})
        if spec:
            self.trace[n] += "  [%s]" % spec
        return r

    def state(self, what):
        """keep or bring back the state"""
        for d in (PORTS, SRV):
            if what == "keep":
                if os.path.exists("/w/state" + d):
                    _rmtree("/w/state" + d)
                os.makedirs("/w/state", exist_ok=True)
                tool(["/usr/bin/cp", "-a", d, "/w/state" + d])
            else:
                _rmtree(d)
                tool(["/usr/bin/cp", "-a", "/w/state" + d, d])

    def problems(self, p, before, parts, cats, want):
        """-> what is wrong with what stands there under a name now"""
        out = []
        d = self.where(p)
        now = self.files_of(p)
        new = set()
        comp = "." + self.cfg["COMPRESS"] if self.cfg["COMPRESS"] else ""
        for f in sorted(now):
            old = before.get((d + "/" + f)[1:])
            cur = self.snap1(d + "/" + f)
            if old is not None and old.data == cur:
                continue
            if f in self.oldcontent and self.oldcontent[f] == cur:
                continue
            base = f[:-len(comp)] if comp and f.endswith(comp) else f
            sub = [s for s in parts if parts[s] and base == self.base(p, s)]
            if not sub:
                out.append("%s/%s is none of the packages" % (d, f))
                continue
            sub = sub[0]
            o = []
            self.check_archive(d + "/" + f, p, sub, parts[sub], cats, o)
            out += o
            self.res.counts["archives_new"] += 1
            new.add(sub)
        if "" in new and not out:
            for s in parts:
                if parts[s] and not {self.base(p, s), self.base(p, s) + comp} & now:
                    out.append("%s is there, but not its %s" % (p.name, s))
        return out

    def base(self, p, s):
        return "%s.cards-%s-%d" % (p.name + ("." + s if s else ""), p.version, p.release)

    def snap1(self, f):
        return hashlib.sha256(open(f, "rb").read()).digest()

    def whole(self, p, parts, cats, opts):
        out = []
        comp = "." + self.cfg["COMPRESS"] if self.cfg["COMPRESS"] else ""
        d = self.where(p)
        want = {self.base(p, s) + comp: s for s in parts if parts[s]}
        have = self.files_of(p)
        if have != set(want):
            out.append("packages %s, to be %s" % (sorted(have), sorted(want)))
        for f, s in want.items():
            if f in have:
                self.check_archive(d + "/" + f, p, s, parts[s], cats, out)
        if not out and not self.cfg["IGNORE_REPO"] and "-ir" not in opts:
            from .c_pkgmk import Built
            p.built = {s: Built(f, None, None, None) for f, s in want.items()}
            self.check_index(p, out)
        return out

    def go(self):
        self.oldcontent = {}
        self.setup()
        rng = self.rng
        self.cfg["CLEAN"] = False
        p = self.ports[0]
        for q in self.ports:
            for n in list(q.run):
                if n not in self.have and n.split(".")[0] != q.name:
                    q.run.remove(n)
            q.run_devel = [n for n in q.run_devel if n in self.have]
            self.write(q)
            if q is not p or rng.random() < .6:
                r = self.run(q, "-d")
                if r.rc != 0:
                    raise core.CheckError("first build: %d %s" % (r.rc, r.err[-800:]))
        k = rng.choice(["version", "release", "tree", "force", "again"])
        if k == "version":
            p.version = "2.0"
        elif k == "release":
            p.release = 2
        elif k == "tree":
            self.new_tree(p)
        if k in ("version", "release", "tree"):
            self.write(p)
        opts = ["-d"] + (["-f"] if k == "force" else [])
        for o in ("-ir", "-if", "-ns"):
            if rng.random() < .15:
                opts.append(o)
        if not self.cfg["IGNORE_FOOTPRINT"] and self.cfg["IGNORE_NEW"] == "no":
            opts.append("-if")
        self.note("target: " + k)
        self.state("keep")
        before = self.look()
        others = self.others(p)
        d = self.where(p)
        self.oldcontent = {f: self.snap1(d + "/" + f) for f in self.files_of(p)}
        parts = self.split(p, opts)
        cats = self.categories(p, parts[""])
        r = self.wrapped(p, opts)
        if r.rc != 0:
            raise core.CheckError("target: %d %s" % (r.rc, r.err[-800:]))
        calls = open("/w/fault/log").read().split("\n")[:-1]
        log = [l.split(" ")[0] for l in calls]
        if k == "again" and self.oldcontent:
            pass
        elif (o := self.whole(p, parts, cats, opts)):
            self.bad("undisturbed", "\n".join(o[:6]))
        total = len(log)
        self.res.counts["calls"] += total
        tools = sorted(set(log))
        self.res.tags |= {"call:" + t for t in tools}
        for _ in range(14):
            if self.res.viol:
                break
            self.state("back")
            x = rng.random()
            if x < .5:
                mode = rng.choice(["kill", "kill", "mid", "mid", "after", "term"])
                n = rng.randint(1, total)
                if rng.random() < .5:     # the end is where it is decided
                    n = rng.randint(max(1, total - 60), total)
                t = ""
                if rng.random() < .5:
                    t = rng.choice([t for t in ("mv", "bsdtar", "mkdir", "rm", "sed", "xz", "bzip2", "gzip", "zstd", "touch", "cp") if t in tools])
                    n = rng.randint(1, log.count(t))
                spec = "%d %s %s" % (n, mode, t)
            else:
                c = [t for t in HARD if t in tools]
                t = "bsdtar" if "bsdtar" in c and rng.random() < .3 else rng.choice(c)
                mode = rng.choice(["fail", "fail", "failafter", "always", "full" if t in ("pkginfo", "sha512sum", "sed", "xz", "bzip2", "zstd") else "fail"])
                # one of the kinds of calls, then one of its kind
                kinds = {}
                for i, l in enumerate([l for l in calls if l.split(" ")[0] == t]):
                    kinds.setdefault(self.kind(p, l), []).append(i + 1)
                n = rng.choice(kinds[rng.choice(sorted(kinds))])
                self.res.counts["kinds_of_calls_seen"] += len(kinds)
                spec = "%d %s %s" % (n, mode, t)
            self.one(p, opts, spec, mode, t, before, others, parts, cats, k)
        self.res.sig = hashlib.md5("\n".join(self.trace).encode("utf-8", "surrogateescape")).hexdigest()
        self.res.nontrivial = self.res.counts["hit"] > 0
        self.res.sample = self.trace[-6:] if self.index < 4 else None
        return self.res

    def kind(self, p, call):
        """what a call is for: the words without what differs from port to port"""
        t = re.sub(r"/(?:[^ /]*/)*(?=[^ /])", "", call)
        t = t.replace(p.name, "P").replace(p.version, "V")
        return re.sub(r"[0-9]+", "0", t)[:60]

    def one(self, p, opts, spec, mode, t, before, others, parts, cats, k):
        r = self.wrapped(p, opts, spec)
        d = self.where(p)
        src = (SRV + "/sources" if self.cfg["SOURCE_DIR"] else p.dir) + "/" + self.source(p)
        hit = []
        if os.path.exists("/w/fault/hit"):
            hit = open("/w/fault/hit").read().split("\n")[:-1]
        self.res.counts["runs"] += 1
        if not hit:
            self.res.counts["not_hit"] += 1
            return
        self.res.counts["hit"] += 1
        self.res.counts["hit_" + mode] += 1
        self.res.tags.add("at:%s:%s" % (mode, hit[0].split()[0]))
        what = hit[0][:200]
        if t == "gzip" and " -c" not in what or t == "sed" and "/^@" not in what and ".META" not in what or "--footprint" in what:
            self.res.counts["no_matter"] += 1       # a page not compressed, how something looks
            return
        names = [self.base(p, s) for s in parts if parts[s]]
        ok = {src, src + ".partial"} | {d + "/" + f for f in self.oldcontent} | {p.dir + "/%s.footprint" % (p.name + ("." + s if s else "")) for s in parts}
        ext = self.cfg["COMPRESS"] or "xz"
        ok |= {"%s/%s" % (d, x) for n in names for x in (n, "." + n, n + "." + ext, "." + n + ".tmp", "." + n + "." + ext)}
        index = {d + "/" + f for f in (".REPO", ".FILES", ".FILES.zst", ".new.REPO", ".new.FILES", ".new.FILES.zst")}
        killed = mode in ("kill", "mid", "after", "term")
        label = "kill" if killed else "fail:" + t
        out = self.changes(before, self.look(), ok | index, [self.work(p)])
        if out:
            return self.bad(label + ":touch", what + "\n" + "\n".join(out[:6]))
        out = self.problems(p, before, parts, cats, names)
        if out:
            return self.bad(label + ":half", "%s\nexit %d\n%s\n%s" % (what, r.rc, "\n".join(out[:6]), r.err[-400:]))
        self.index_sane(p, others, label, what)
        if r.rc == 0 and not killed:
            self.res.counts["unharmed"] += 1
            if not (k == "again" and self.oldcontent):
                out = self.whole(p, parts, cats, opts)
                if out:
                    return self.bad(label + ":success", "%s, and pkgmk succeeds\n%s\n%s" % (what, "\n".join(out[:6]), r.err[-600:]))
        elif r.rc == 0 and mode != "term":
            raise core.CheckError("killed, and 0")
        else:
            self.res.counts["ended"] += 1
            if not killed and not r.err.strip():
                self.bad(label + ":mute", what)
        # the same once more
        first = self.t0
        r = self.run(p, *[o for o in opts if o != "-f"])
        self.t0 = first
        if r.rc != 0:
            return self.bad(label + ":again", "%s\nthe same again: exit %d\n%s\n%s" % (what, r.rc, r.out[-300:], r.err[-800:]))
        if (k in ("again", "force")) and self.oldcontent and self.files_of(p) == set(self.oldcontent) and all(self.snap1(d + "/" + f) == x for f, x in self.oldcontent.items()):
            self.res.counts["as_before"] += 1
            return
        if k in ("again", "force") and self.oldcontent:
            self.t0 = 1500000000      # some may be those of the first build
        out = self.whole(p, parts, cats, opts)
        self.t0 = first
        left = [f for f in os.listdir(d) if f.startswith(".") and f not in (".REPO", ".FILES", ".FILES.zst", ".nostrip")]
        if left:
            out.append("left behind: %s" % sorted(left))
        if out:
            return self.bad(label + ":repeat", "%s\nafter the same again\n%s\n%s" % (what, "\n".join(out[:6]), r.err[-300:]))
        self.res.counts["completed"] += 1

    def index_sane(self, p, others, label, what):
        now = self.others(p)
        gone = sorted(k for k in others if others[k] != now.get(k))
        if gone:
            self.bad(label + ":index", "%s\n.REPO: what it says of other packages is changed: %s" % (what, gone[:3]))


def case(task):
    seed, index = task[:2]
    return PkgFault(seed, index).go()


def check(pid):
    c = core.Check(pid, "pkgfault",
                   "A case is a port (some of C28) in some state, a target command of pkgmk and 14 disturbed runs of it from copies of the state: the process group killed before, during or after one of the programs it calls, "
                   "or one of these programs failing. Non-trivial: at least one disturbance happened. Distinct: the history differs.",
                   assumptions=["bsdtar is stood in for by GNU tar", "disturbances happen at the programs pkgmk calls, not within the shell"])
    n = c.size(48, 800)
    c.run(template(c.scratch), case, [[c.seed, i] for i in range(n)], init=load)
    c.finish(min_nontrivial=25)

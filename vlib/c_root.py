"""Containment: with -r everything happens below the root, and nothing of the host decides anything."""
import hashlib, io, os, re, tarfile

from . import build, core, engine, jail
from .c_info import InfoHistory
from .engine import EXTRA_RULES, History, Profile, SKIP, TOOLS, TOOL_LEAVES, compare, put, register
from .fsnap import Node, snap
from .model import DB, FS
from .pkgs import LEAVES, NAMES, Ent, gen_ents

PLAIN = register(Profile("root", {"install": 5, "upgrade": 4, "remove": 3, "refuse": .5}, nops=(4, 8), rules=.4, forced=.4, scripts=.1, admin=.1, host=0,
                         npk=(2, 5), autodep=.3))
TOOLP = register(Profile("root-tools", {"install": 5, "upgrade": 4, "remove": 3}, nops=(3, 6), rules=.8, forced=.4, scripts=.4, leaves=TOOL_LEAVES,
                         tools=True, admin=.1, symdir=0, host=0, npk=(2, 4)))
OPENOK = re.compile(r"/(lib|lib64|usr/lib/x86_64-linux-gnu|usr/lib/locale|usr/share/locale|proc|dev)(/|$)|/etc/(ld\.so|localtime|passwd$|group$|nsswitch)")
HOSTTOOL = '#!/usr/bin/sh\necho "HOSTTOOL $0 $*" >> $VLOG\n'


def norm(p):
    return "/" + os.path.normpath(p).lstrip("/")


def analyse(path, root, archives, decoys):
    """the log of one run -> (counts, [violations])"""
    main, cwd, jailroot = None, None, ""
    cnt = {"calls": 0, "writes": 0, "reads": 0, "unresolved": 0}
    bad = []
    for line in open(path, errors="surrogateescape"):
        head, *rest = line.rstrip("\n").split("\t")
        pid, call, a = head.split(" ", 2)
        if main is None:
            main = pid
        if pid != main or call == "fork":
            continue
        dfd, w, name = a.split(" ", 2)
        other, ofd, base = rest[0], int(rest[1]), rest[2]
        if call in ("fchdir", "chroot"):
            if call == "chroot":
                bad.append("the tool itself changed its root: " + line)
            cwd = None
            continue

        def full(n, d):
            if n.startswith("/"):
                return norm(n)
            if base:
                return norm(base + "/" + n)
            if int(d) == -100 and cwd is not None:
                return norm(cwd + "/" + n)
            return None

        cnt["calls"] += 1
        f = full(name, dfd)
        if call == "chdir":
            cwd = f
            continue
        paths = [(f, w == "1")]
        if other:
            paths.append((full(other, ofd) if ofd == -100 else None, True))
        for q, wr in paths:
            if q is None:
                cnt["unresolved"] += 1
                continue
            cnt["writes" if wr else "reads"] += 1
            inside = q == root or q.startswith(root + "/")
            if inside:
                continue
            if wr and not q.startswith("/dev/"):
                bad.append("%s of %s, outside the root" % (call, q))
            elif not wr and q in decoys:
                bad.append("%s reads the host's %s" % (call, q))
            elif not wr and q not in archives and not OPENOK.match(q) and q not in ("/", "/w", "/w/pkgs"):
                bad.append("%s reads %s" % (call, q))
    return cnt, bad


class RootHistory(InfoHistory):
    nqueries = 1

    def setup(self):
        super().setup()
        rng = self.rng
        # a host which looks just like a place to install to
        self.decoys = set()

        def decoy(path, data=b"of the host\n", mode=0o644):
            if os.path.lexists("/" + path):
                return
            try:
                put("/" + path, Node("f", mode, 0, 0, data, 1300000000))
            except OSError:
                return
            self.decoys.add("/" + path)

        leaves = list(self.prof.leaves or LEAVES)
        for p in leaves:
            if rng.random() < .6 and not p.startswith("usr/bin/"):
                decoy(p)
        for n in rng.sample(NAMES, 4):
            decoy(DB + n + "/META", b"N%s\nV9\nr9\nB1\nS1\nchost\naany\nd1\nAhosted\n" % n.encode())
            decoy(DB + n + "/files", "".join(sorted(f + "\n" for f in rng.sample(leaves, 5))).encode())
            for s in ("/PRER", "/POSTR"):
                if rng.random() < .3:
                    decoy(DB + n + s, b'echo "HOST script" >> $VLOG\n')
        if rng.random() < .8:
            decoy("var/lib/pkg/pkgadd.conf", ("\n".join(rng.sample([r for r in EXTRA_RULES if r], 4)) + "\n").encode() if rng.random() < .7 else b"broken\n")
        for d in ("", "w/", "w/pkgs/", "var/lib/pkg/"):
            for n in (".META", ".MTREE", ".PRE", ".POST", ".PRER", ".POSTR"):
                if rng.random() < .25:
                    decoy(d + n, b'echo "HOST script" >> $VLOG\n')
        for e in rng.sample(leaves, 3):
            decoy("var/lib/pkg/rejected/" + e)
        for prog in sorted({q[0] for v in TOOLS.values() for q in v}):
            if rng.random() < .7:
                decoy("usr/bin/" + prog, HOSTTOOL.encode(), 0o755)
        decoy("etc/ld.so.conf", b"")
        if rng.random() < .5:       # what the root's own path looks like, once more below the root and above it
            os.makedirs("/w/root/w/root", exist_ok=True)
        self.refresh()
        self.archives = set()

    def exec(self, argv, cwd):
        log = "/tmp/calls"
        if os.path.exists(log):
            os.unlink(log)
        arch = {norm(os.path.join(cwd, a)) for a in argv if ".cards.tar" in a}
        r = engine.tool(["/usr/bin/systrace", "-l", "-o", log, "--"] + argv, cwd=cwd, lang=self.lang)
        if r.rc == 120:
            raise RuntimeError("systrace: " + r.err)
        cnt, bad = analyse(log, "/w/root", arch, self.decoys)
        for k, v in cnt.items():
            self.res.counts["monitored_" + k] += v
        if bad:
            self.bad(os.path.basename(argv[0]) + ":outside", "\n".join(bad[:6]) + "\n%s (in %s)" % (" ".join(argv), cwd))
        if "HOST" in (open(engine.LOG).read() if os.path.exists(engine.LOG) else ""):
            self.bad(os.path.basename(argv[0]) + ":host-ran", open(engine.LOG).read() + "\n" + " ".join(argv))
        return r

    def op(self, what, x, fl, resnap=False):
        return super().op(what, x, fl, resnap) and not self.res.viol

    # -- packages which try to get out ---------------------------------------------------------
    def hostile(self):
        rng = self.rng
        p = engine.gen_pkg(rng, self.prof, rng.choice(self.names), self.p)
        p.pre = p.post = None
        p.ents = [e for e in p.ents if e.kind != "h"]
        up = rng.choice(["../", "../../", "../../../", "a/../../", "./../", "usr/../../", "usr/share/../../../../", "..//"])
        target = rng.choice(["etc/a.conf", "w/victim", "victim", "var/lib/pkg/DB/alpha/files", "w/root2/x", "tmp/x"])
        k = rng.choice(["member", "member+mtree", "mtree", "absolute", "hardlink-up", "hardlink-abs", "name", "dir", "symlink-member", "slashes"])
        if k in ("member", "member+mtree"):
            p.ents.append(Ent(up + target, "f", data=b"evil"))
        elif k == "absolute":
            p.ents.append(Ent("/" + target, "f", data=b"evil"))
        elif k == "slashes":
            p.ents.append(Ent("//" + "/" * rng.randint(0, 3) + target, "f", data=b"evil"))
        elif k == "dir":
            p.ents.append(Ent(up + "w/newdir", "d", mode=0o777))
        elif k == "symlink-member":
            p.ents.append(Ent(up + target, "l", data=b"evil"))
        elif k == "hardlink-up":
            p.ents.append(Ent("usr/share/stolen", "h", data=(up + target).encode()))
        elif k == "hardlink-abs":
            p.ents.append(Ent("usr/share/stolen", "h", data=("/" + target).encode()))
        elif k == "name":
            p.name = rng.choice(["../../../../../evil", "..", ".", "x/../../../../../../victim", "/victim", "a/b", "", "../alpha"])
        if k == "member":
            names = [m for m in p.manifest() if ".." not in m]
            p.mtree_override = ("\n".join(names or ["usr/"]) + "\n").encode()
        if k == "mtree":
            p.mtree_override = p.mtree() + (up + target + "\n").encode()
        arc = "/w/pkgs/hostile.cards.tar"
        open(arc, "wb").write(p.archive(""))
        args, cwd = self.rootargs(None)
        opts = rng.choice([[], ["-f"], ["-f"], ["-u"], ["-u", "-f"], ["-i", "-f"]])
        argv = ["/usr/bin/pkgadd"] + opts + args + [arc]
        self.note("hostile %s: %s [%s] mtree %r" % (k, " ".join(argv), p.show(), p.mtree()))
        out = lambda t: {q: n.key() for q, n in t.items() if not (q + "/").startswith("w/root/") and q not in ("w/pkgs/hostile.cards.tar",)}
        before = out(snap("/", skip=SKIP))
        r = self.exec(argv, cwd)
        self.res.counts["hostile_" + k] += 1
        self.res.counts["hostile_refused" if r.rc else "hostile_accepted"] += 1
        s = r.san()
        if s:
            return self.bad(s.split(" ")[0], s)
        after = out(snap("/", skip=SKIP))
        d = sorted(q for q in set(before) | set(after) if before.get(q) != after.get(q))
        if d:
            return self.bad("hostile:" + k, "changed outside the root: %s\nexit %d\n%s\n%s" % (d[:5], r.rc, r.out[-400:], r.err[-400:]))
        # a file of the host must not have come in
        for dp, dn, fn in os.walk("/w/root"):
            for f in fn:
                q = os.path.join(dp, f)
                if os.path.isfile(q) and not os.path.islink(q) and os.lstat(q).st_nlink > 1 and open(q, "rb").read() == b"of the host\n":
                    return self.bad("hostile:" + k, "%s is a link to a file of the host" % q)
        # what is removed afterwards stays inside as well
        if r.rc == 0:
            self.exec(["/usr/bin/pkgrm"] + [p.name] + args, cwd)
            after = out(snap("/", skip=SKIP))
            d = sorted(q for q in set(before) | set(after) if before.get(q) != after.get(q))
            if d:
                return self.bad("hostile:" + k, "removal changed outside the root: %s" % d[:5])

    def run(self):
        res = super().run()
        if not res.viol and not res.inconclusive:
            self.hostile()
        return res


def case(task):
    seed, index = task[:2]
    return RootHistory(seed, TOOLP if index % 3 == 2 else PLAIN, index).run()


def check(pid):
    c = core.Check(pid, "nothing leaves the root",
                   "A case is a history of pkgadd, pkgrm and pkginfo with -r in a host that has a database, rules, scripts, tools and files of the same names, ended by a package that "
                   "tries to get out of the root. After every operation the whole tree, host included, is compared with the model, and every system call of the tool that takes a path was "
                   "logged and resolved: written outside the root, or a host's file read, is a violation. Non-trivial: an operation took effect. Distinct: the written-out history differs.",
                   assumptions=["scripts are the package's own business: they are run in the root as working directory, not chroot()ed",
                                "symbolic links inside the root that lead out of it are followed, as documented for the tools, and not generated"])
    t = build.tools("asan")
    tpl = jail.make_template(c.scratch, {"/usr/bin/pkgadd": t, "/usr/bin/pkgrm": t, "/usr/bin/pkginfo": t, "/usr/bin/systrace": build.ctool("systrace")})
    n = c.size(500, 6000)
    c.run(tpl, case, [[c.seed, i] for i in range(n)])
    c.finish(min_nontrivial=150)

"""Runs histories of pkgadd/pkgrm operations on the real tools inside a jail and compares, after every
operation, the whole tree, the exit status, the announced lists and the scripts' log with the model."""
import collections, hashlib, os, random, re, shutil, stat, subprocess, sys

from . import fsnap, jail
from .core import Result, SAN, rng_for, san_key
from .fsnap import Node, snap
from .model import DB, FS, PkgTools, REJ, World, b, ere, fails, parse_rules
from .pkgs import DIRS, Ent, LEAVES, NAMES, Pkg, gen_ents, parents, vary

WORK = "/w"
LOG = "/w/log"
ENV = {"PATH": "/usr/bin", "VLOG": LOG, "HOME": "/",
       "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:symbolize=0",
       "UBSAN_OPTIONS": "print_stacktrace=1:symbolize=0:exitcode=99"}
SKIP = {"/proc", "/dev", "/sys", "/w/pkgs", "/w/log", "/tmp"}


class RunOut:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def san(self):
        if self.rc == 99 or self.rc < 0 or SAN.search(self.err):
            return "%s (exit %s)\n%s" % (san_key(self.err), self.rc, self.err[-3500:])
        return None


def tool(argv, cwd="/w", env=None, lang="C.UTF-8", timeout=60, stdin=None, preexec=None):
    e = dict(ENV)
    e["LC_ALL"] = lang
    if env:
        e.update(env)
    try:
        p = subprocess.Popen(argv, cwd=cwd, env=e, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=preexec, start_new_session=True)
        try:
            out, err = p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, err = p.communicate()
            return RunOut(-9, out.decode("utf-8", "surrogateescape"), err.decode("utf-8", "surrogateescape"), True)
    finally:
        pass
    return RunOut(p.returncode, out.decode("utf-8", "surrogateescape"), err.decode("utf-8", "surrogateescape"))


# -- the jail between cases ----------------------------------------------------------------------
_pristine = None


def _rmtree(p):
    st = os.lstat(p)
    if stat.S_ISDIR(st.st_mode):
        os.chmod(p, 0o700)
        for n in os.listdir(p):
            _rmtree(p + "/" + n)
        os.rmdir(p)
    else:
        os.unlink(p)


def reset():
    """bring the jail back to what it was before the first case"""
    global _pristine
    os.chdir("/")
    if _pristine is None:
        for d in ("/w", "/w/pkgs"):
            os.makedirs(d, exist_ok=True)
        os.makedirs("/var/lib/pkg", exist_ok=True)
        _pristine = snap("/", skip={"/proc", "/dev", "/sys"})
        return
    keep = _pristine

    def rec(d, rel):
        for n in os.listdir(d or "/"):
            p, r = d + "/" + n, rel + n
            if p in ("/proc", "/dev", "/sys"):
                continue
            if r not in keep:
                _rmtree(p)
            elif keep[r].kind == "d":
                st = os.lstat(p)
                if not stat.S_ISDIR(st.st_mode):
                    raise jail.JailError("the jail's %s was replaced" % p)
                if (stat.S_IMODE(st.st_mode), st.st_uid, st.st_gid) != (keep[r].mode, keep[r].uid, keep[r].gid):
                    os.chown(p, keep[r].uid, keep[r].gid)
                    os.chmod(p, keep[r].mode)
                rec(p, r + "/")

    rec("", "")
    now = snap("/", skip={"/proc", "/dev", "/sys"})
    if set(now) != set(keep) or any(now[p].key(False) != keep[p].key(False) for p in keep):
        # something of the jail itself is gone: this worker is of no use any more
        os._exit(4)


def put(path, node):
    """create on the real tree what node says (admin's own actions)"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if node.kind == "d":
        os.makedirs(path, exist_ok=True)
        os.chown(path, node.uid, node.gid)
        os.chmod(path, node.mode)
    elif node.kind == "l":
        os.symlink(node.data.decode(), path)
    elif node.kind == "p":
        os.mkfifo(path)
        os.chmod(path, node.mode)
    else:
        with open(path, "wb") as f:
            f.write(node.data)
        os.chown(path, node.uid, node.gid)
        os.chmod(path, node.mode)
        os.utime(path, (node.mtime, node.mtime))


# -- comparison -----------------------------------------------------------------------------------
def compare(world, have, o=None):
    """differences between the model's tree and what was found"""
    want = world.expected()
    p = world.p
    dbp, rejp = p + DB, p + REJ
    out = []
    for path in sorted(set(want) | set(have)):
        a, c = want.get(path), have.get(path)
        if path.startswith(rejp):
            # directories at or below the reject directory come and go with what is in them
            if (a is None or a.kind == "d") and (c is None or c.kind == "d"):
                continue
        indb = path.startswith(dbp) or path == dbp.rstrip("/")
        if a is None:
            out.append("unexpected %s: %r" % (path, c))
        elif c is None:
            out.append("missing %s: wanted %r" % (path, a))
        elif indb:
            if a.kind != c.kind or (a.kind == "f" and a.data != c.data):
                out.append("record %s: wanted %r found %r" % (path, a.data[:300], c.data[:300]))
            elif a.kind == "f" and (a.mode & 0o077) != (c.mode & 0o077):
                out.append("record %s: mode wanted %o found %o" % (path, a.mode, c.mode))
        elif a.key() != c.key():
            out.append("differs %s: wanted %r found %r" % (path, a, c))
        if len(out) >= 8:
            break
    return out


def read_log():
    try:
        t = open(LOG).read()
    except FileNotFoundError:
        return []
    os.unlink(LOG)
    return t.split("\n")[:-1]


# -- histories ----------------------------------------------------------------------------------
ARCHES = ["sparc", "aarch64", "any64", "an", "x86_64v3", "x86_6", "X86_64", "ANY", "i686", "x86-64"]


class Profile:
    """what a check wants its histories to be made of"""

    def __init__(self, tag, ops, nops=(4, 9), leaves=None, rules=0.3, links=0.7, scripts=0.1, admin=0.15,
                 overlap=1.0, host=0.4, forced=0.3, badrules=0.02, npk=(2, 4), autodep=0.2, prepop=0.3, ignore_scripts=0.15,
                 symdir=0.08, typechange=0.1, shared_dirs=0.9, foreign_arch=0.05, progress=0.1, counts=(), tools=False, noupgraderules=False, start=(0, 0), noshell=0, rooted=0):
        self.noshell = noshell
        self.__dict__.update(locals())


EXTRA_RULES = [
    "UPGRADE\t^etc/.*$\tNO", "UPGRADE ^etc/b.conf$ YES", "UPGRADE ^etc/conf.d/ NO", "UPGRADE ^opt/app/(run|data)$ NO",
    "UPGRADE ^srv/www/.*$ NO", "UPGRADE ^srv/www/a/ YES", "UPGRADE ^usr/share/[a-z.]+$ NO", "UPGRADE ^.*$ NO", "UPGRADE ^.*$ YES",
    "UPGRADE x NO", "UPGRADE ^etc/conf.d/#.*$ NO", "INSTALL #old$ NO", "UPGRADE ^etc/[a-z].conf$ NO", "INSTALL ^etc/[A-Z].conf$ NO", "UPGRADE ^ETC/ NO", "INSTALL ^etc/B NO", "INSTALL ^usr/share/doc/ NO", "INSTALL ^usr/share/doc/r$ YES", "INSTALL ^usr/share/doc/[rs]$ NO",
    "INSTALL ^etc/conf.d/.*$ NO", "INSTALL ^etc/c.conf$ NO", "INSTALL ^opt/.*$ NO", "INSTALL ^opt/app/ YES",
    "INSTALL \\.so$ NO", "INSTALL ^usr/lib/libx.so$ YES", "INSTALL ^.*$ YES", "INSTALL ^srv/www/a/b/[[:alnum:]]$ NO",
    "# UPGRADE ^etc/.*$ NO", "", "UPGRADE ^top$ NO", "INSTALL ^top$ NO",
]
BAD_RULES = ["UPGRADE ^etc/.*$", "UPGRADE ^etc/.*$ NO more", "UPGRADE ^etc/.*$ MAYBE", "REMOVE ^etc/.*$ NO", "YES",
             "INSTALL ^" + "x" * 1100 + "$ NO", "upgrade ^etc/.*$ NO", "INSTALL ^a$ no"]


# the tools pkgadd runs for the installed files which match a rule: event -> [(program, arguments)]
TOOLS = {
    "LDCONF": [("ldconfig", "-r @ROOT@")], "INFO": [("install-info", "--info-dir=usr/share/info @PATH@")],
    "ICONS": [("gtk-update-icon-cache", "-f -t @PATH@")], "SCHEMAS": [("glib-compile-schemas", "@PATH@")],
    "DESKTOP_DB": [("update-desktop-database", "-q @PATH@")], "MIME_DB": [("update-mime-database", "-n @PATH@")],
    "QUERY_PIXBUF": [("gdk-pixbuf-query-loaders", "--update-cache")], "GIO_QUERY": [("gio-querymodules", "usr/lib/gio/modules")],
    "QUERY_IMOD3": [("gtk-query-immodules-3.0", "--update-cache")], "QUERY_IMOD2": [("gtk-query-immodules-2.0", "--update-cache")],
    "FONTS": [("mkfontscale", "@PATH@"), ("mkfontdir", "@PATH@"), ("fc-cache", "@PATH@")],
}
TOOL_SCRIPT = '#!/usr/bin/sh\necho "TOOL ${0##*/} $PWD $*" >> $VLOG\nexit %d\n'
TOOL_LEAVES = ["usr/share/info/%s.info" % c for c in "ab"] + ["usr/share/icons/hicolor/i.png", "usr/share/icons/crystal/i.png",
               "usr/lib/gio/modules/m.so", "usr/share/fonts/f.ttf", "usr/share/mime/x.xml", "usr/share/applications/x.desktop",
               "usr/share/glib-2.0/schemas/s.xml", "usr/lib/libq.so", "usr/lib/libx.so", "usr/lib/gtk-3.0/i.so", "etc/ld.so.conf",
               "usr/libexec/prog", "srv/www/index", "etc/a.conf"]
TOOL_RULES = [
    "LDCONF\t^usr/lib/.*\\.so$\tYES", "LDCONF ^usr/lib/libx.so$ NO", "LDCONF ^usr/lib/$ YES", "INFO ^usr/share/info/.*$ YES", "INFO ^usr/share/info/a NO",
    "INFO \\.info$ YES", "ICONS ^usr/share/icons/[a-z]*/$ YES", "ICONS ^usr/share/icons/crystal/$ NO", "GIO_QUERY ^usr/lib/gio/modules/.*\\.so$ YES",
    "FONTS ^usr/share/fonts/ YES", "FONTS ^usr/share/fonts/f.ttf$ NO", "MIME_DB ^usr/share/mime/$ YES", "DESKTOP_DB ^usr/share/applications/$ YES",
    "SCHEMAS ^usr/share/glib-2.0/schemas/$ YES", "QUERY_PIXBUF ^usr/lib/gtk-3.0/ YES", "QUERY_IMOD3 ^usr/lib/gtk-3.0/i.so$ YES",
    "QUERY_IMOD2 ^usr/lib/ YES", "QUERY_IMOD2 ^usr/lib/gtk-3.0/ NO", "ICONS ^usr/ YES", "INFO ^.*$ NO",
]


def wanted_tools(rules, files, have, etc_ld):
    """what must have run for the installed files: multiset of (program, arguments)"""
    runs = set()
    for m in files:
        last = None
        for ev, pat, act in rules:
            if ev in TOOLS and ere(pat).search(m):
                last = (ev, act)
        if last and last[1]:
            runs.add((last[0], "" if last[0] == "LDCONF" else m))
    out = collections.Counter()
    for ev, m in runs:
        if ev == "LDCONF" and not etc_ld:
            continue
        for prog, args in TOOLS[ev]:
            if prog in have:
                out[prog + " " + args.replace("@PATH@", m)] += 1
    return out


def gen_rules(rng, prof):
    r = rng.random()
    if r >= prof.rules:
        return ""
    n = rng.randint(1, 6)
    lines = [rng.choice(EXTRA_RULES) for _ in range(n)]
    if prof.tools:
        lines = [rng.choice(TOOL_RULES) if rng.random() < .8 else rng.choice(EXTRA_RULES) for _ in range(n + 4)]
    if prof.noupgraderules:
        lines = [l for l in lines if not l.startswith("UPGRADE")]
    return "\n".join(lines) + ("\n" if rng.random() < .8 else "")


def mutate(rng, prof, ents):
    """the next version of a package"""
    out, seen = [], set()
    for e in ents:
        if e.kind == "d":
            n = Ent(e.path, "d", e.mode, e.uid, e.gid)
            if rng.random() < 0.05:
                n.mode = rng.choice([0o755, 0o750, 0o700])
            out.append(n)
            continue
        r = rng.random()
        if r < 0.2:
            continue
        n = Ent(e.path, e.kind, e.mode, e.uid, e.gid, e.data, e.mtime)
        if n.kind == "f" and r < 0.65:
            n.mtime += 1000
            n.data = rng.choice([b"", b"new %d\n" % rng.randint(0, 99), n.data, vary(rng, n.data), vary(rng, n.data)])
            if rng.random() < 0.2:
                n.mode = rng.choice([0o644, 0o600, 0o755])
        elif n.kind != "h" and r < 0.65 + prof.typechange and not any(x.kind == "h" and x.data.decode() == e.path for x in ents):
            n = Ent(e.path, rng.choice("flp"), data=b"elsewhere")
        out.append(n)
    have = {e.path for e in out if e.kind == "f"}
    out = [e for e in out if e.kind != "h" or e.data.decode() in have]
    for e in out:       # a hard link is the same file as its target
        if e.kind == "h":
            t = next(x for x in out if x.path == e.data.decode())
            e.mode, e.uid, e.gid, e.mtime = t.mode, t.uid, t.gid, t.mtime
    paths = {e.path for e in out}
    nd = {e.path for e in out if e.kind != "d"}
    for e in gen_ents(rng, 3, prof.leaves, with_links=False):
        if e.path in paths or any(q in nd for q in parents(e.path)):
            continue
        if e.kind != "d" and any(x.startswith(e.path + "/") for x in paths):
            continue
        paths.add(e.path)
        if e.kind != "d":
            nd.add(e.path)
        out.append(e)
    # directories before what is in them
    return sorted(out, key=lambda e: (e.path.count("/"), e.kind == "h")) if rng.random() < .5 else \
        [e for e in out if e.kind != "h"] + [e for e in out if e.kind == "h"]


FAILS = ["exit 1\n", "exit 2\n", "exit 3\n", "exit 77\n", "exit 126\n", "exit 127\n", "exit 128\n", "exit 255\n", "kill -9 $$\n", "kill -6 $$\n", "exit 1\n"]


def script(kind, name, watch, fail, rng=None):
    s = 'if [ -e "%s" ]; then e=1; else e=0; fi\necho "%s %s $e $PWD" >> $VLOG\n' % (watch, kind, name)
    if fail:
        s += rng.choice(FAILS)
    return s


def gen_pkg(rng, prof, name, prefix, prev=None):
    if prev is None:
        ents = gen_ents(rng, rng.choice([1, 2, 4, 4, 7, 7, 10]), prof.leaves, with_links=rng.random() < prof.links)
        v = 1
    else:
        ents = mutate(rng, prof, prev.ents)
        v = prev.vnum + 1
    if not ents:
        ents = [Ent("usr/share/only-%s" % name, "f", data=b"x")]
    p = Pkg(name, "1.%d" % v, rng.choice(["1", "2", "10", None]) if rng.random() < .3 else "1",
            1600000000 + v, rng.choice(["any", "x86_64"]), ents)
    p.vnum = v
    p.scripts_fail = {}
    if rng.random() < prof.foreign_arch:
        p.arch = rng.choice(ARCHES)
    watch = next((e.path for e in ents if e.kind == "f"), "nothing")
    if rng.random() < prof.scripts:
        f = rng.random() < .25
        p.scripts_fail["pre"] = f
        p.pre = script("PRE", name, watch, f, rng)
    if rng.random() < prof.scripts:
        f = rng.random() < .25
        p.scripts_fail["post"] = f
        p.post = script("POST", name, watch, f, rng)
    if rng.random() < prof.scripts:
        f = rng.random() < .25
        p.prer = script("PRER", name, "/" + prefix + watch, f, rng)
    if rng.random() < prof.scripts:
        p.postr = script("POSTR", name, "/" + prefix + watch, rng.random() < .25, rng)
    p.watch = watch
    if rng.random() < prof.autodep:
        p.extra.append("d1")
    if rng.random() < .3:
        p.deps = [(rng.choice(NAMES + ["x"]), 1600000000 + rng.randint(0, 5))]
    p.tail = rng.random() < .8
    if rng.random() < .08:
        p.alias = rng.sample(NAMES + ["other"], rng.randint(1, 2))
    return p


class History:
    def __init__(self, seed, prof, index, verbose=False):
        self.rng = rng_for(seed, prof.tag, index)
        self.prof, self.index = prof, index
        self.gone = []
        self.res = Result()
        self.trace = []
        self.verbose = verbose
        self.model = PkgTools()

    def note(self, s):
        self.trace.append(s)
        if self.verbose:
            print(s, file=sys.stderr)

    def bad(self, key, msg):
        self.res.bad(key, msg + "\n--- history ---\n" + "\n".join(self.trace))

    def setup(self):
        rng, prof = self.rng, self.prof
        reset()
        self.symdir = False
        self.host = rng.random() < prof.host
        self.p = "" if self.host else "w/root/"
        self.root = "/" + self.p
        if not self.host:
            os.makedirs("/w/root/usr/bin")
            os.symlink("/usr/bin/sh", "/w/root/usr/bin/sh")
        os.makedirs(self.root + DB)
        self.lang = rng.choice(["C", "C.UTF-8", "C.UTF-8"])
        for d in DIRS:
            if rng.random() < prof.prepop:
                os.makedirs(self.root + d, exist_ok=True)
        if prof.symdir and rng.random() < prof.symdir and not os.path.lexists(self.root + "srv"):
            os.makedirs(self.root + "data", exist_ok=True)
            os.symlink("data", self.root + "srv")
            self.symdir = True
        self.world = World(FS({}), self.p)
        self.world.rules_text = gen_rules(rng, prof)
        self.havetools = set()
        if prof.tools:
            os.makedirs(self.root + "usr/bin", exist_ok=True)
            for prog in sorted({q[0] for v in TOOLS.values() for q in v}):
                if rng.random() < .85:
                    put(self.root + "usr/bin/" + prog, Node("f", 0o755, 0, 0, (TOOL_SCRIPT % (rng.random() < .2)).encode(), 1400000000))
                    self.havetools.add(prog)
            if rng.random() < .6:
                put(self.root + "etc/ld.so.conf", Node("f", 0o644, 0, 0, b"/usr/lib", 1400000000))
        if self.world.rules_text or rng.random() < .5:
            open(self.root + "var/lib/pkg/pkgadd.conf", "w").write(self.world.rules_text)
        self.world.fs = FS(snap("/", skip=SKIP))
        self.latest = {}
        self.names = rng.sample(NAMES, rng.randint(*prof.npk))
        self.ncomp = 0
        self.note("case %d: root %s lang %s rules %r" % (self.index, self.root, self.lang, self.world.rules_text))

    def admin(self):
        """the administrator changes something by hand"""
        rng, w = self.rng, self.world
        owned = sorted({f for r in w.db.values() for f in r.files if not f.endswith("/")}, key=b)
        k = rng.choice(["edit", "edit", "delete", "create", "create", "chmod", "todir", "tolink"])
        if k == "create":
            path = rng.choice(self.prof.leaves or LEAVES)
            # only where no ancestor is a symlink or a file
            if w.fs.lstat(self.p + path) is not None or any(
                    w.fs.lstat(self.p + q) is not None and w.fs.lstat(self.p + q).kind != "d" for q in parents(path)):
                return
            node = Node(rng.choice("ffffld"), 0o644, 0, 0, b"mine", 1400000000)
            if node.kind == "d":
                node.mode, node.data = 0o755, b""
            put(self.root + path, node)
        else:
            if not owned:
                return
            path = rng.choice(owned)
            n = w.fs.lstat(self.p + path)
            if n is None or n.kind == "d":
                return
            full = self.root + path
            if k == "delete":
                os.unlink(full)
            elif k == "edit" and n.kind == "f":
                text = open(full, "rb").read()
                text = vary(rng, text) if rng.random() < .5 else text + b"edited by hand\n"
                with open(full, "wb") as f:
                    f.write(text)
                os.utime(full, (1450000000, 1450000000))
            elif k == "chmod" and n.kind == "f":
                os.chmod(full, 0o640)
            elif k == "todir":
                os.unlink(full)
                os.mkdir(full)
                if rng.random() < .5:
                    open(full + "/inner", "w").write("x")
            elif k == "tolink":
                os.unlink(full)
                os.symlink("dangling", full)
            else:
                return
            if k != "chmod" and k != "edit":
                self.gone.append(path)
        self.note("admin %s %s" % (k, path))
        self.res.counts["admin_" + k] += 1
        w.fs = FS({p: n for p, n in snap("/", skip=SKIP).items() if not p.startswith(self.p + DB)})

    def tempt(self, p):
        """now and then the package brings what another one has recorded, but the administrator took away"""
        if self.gone and self.rng.random() < .5:
            f = self.rng.choice(self.gone)
            paths = {e.path for e in p.ents}
            if f not in paths and not any(x.startswith(f + "/") for x in paths) and not any(q in {e.path for e in p.ents if e.kind != "d"} for q in parents(f)):
                p.ents.append(Ent(f, "f", data=b"tempting", mtime=1500000001))
        return p

    def choose(self):
        what, x, fl = self.choose_()
        return what, self.tempt(x) if what == "add" else x, fl

    def choose_(self):
        rng, prof, w = self.rng, self.prof, self.world
        kind = rng.choices(list(prof.ops), list(prof.ops.values()))[0]
        inst = sorted(w.db)
        if kind == "install":
            cand = [n for n in self.names if n not in w.db]
            if not cand:
                kind = "upgrade"
            else:
                n = rng.choice(cand)
                p = gen_pkg(rng, prof, n, self.p, self.latest.get(n) if rng.random() < .5 else None)
                return ("add", p, dict(u=False))
        if kind == "upgrade":
            if not inst:
                return ("add", gen_pkg(rng, prof, rng.choice(self.names), self.p), dict(u=False))
            n = rng.choice(inst)
            base = self.latest[n]
            p = gen_pkg(rng, prof, n, self.p, base if rng.random() < .85 else None)
            return ("add", p, dict(u=True))
        if kind == "remove":
            if not inst:
                return ("add", gen_pkg(rng, prof, rng.choice(self.names), self.p), dict(u=False))
            return ("rm", rng.choice(inst), {})
        if kind == "refuse":
            k = rng.choice(["installed", "notinst", "rmnot", "arch", "rules"])
            if k == "installed" and inst:
                n = rng.choice(inst)
                return ("add", gen_pkg(rng, prof, n, self.p, self.latest[n]), dict(u=False))
            if k == "notinst":
                cand = [n for n in self.names if n not in w.db]
                if cand:
                    return ("add", gen_pkg(rng, prof, rng.choice(cand), self.p), dict(u=True))
            if k == "arch":
                cand = [n for n in self.names if n not in w.db]
                if cand:
                    p = gen_pkg(rng, prof, rng.choice(cand), self.p)
                    p.arch = rng.choice(ARCHES)
                    return ("add", p, dict(u=False))
            if k == "rules":
                bad = rng.choice(BAD_RULES)
                return ("rules", bad, {})
            cand = [n for n in self.names + ["nobody", "alph"] if n not in w.db]
            return ("rm", rng.choice(cand), {})
        raise ValueError(kind)

    def rootargs(self, argv_tail):
        """spellings of the installation root"""
        rng = self.rng
        if self.host:
            return [], rng.choice(["/w", "/", "/w/pkgs"])
        opt = rng.choice(["-r", "--root"])
        k = rng.choice(["abs", "slash", "rel", "dot"])
        if k == "rel":
            return [opt, "root"], "/w"
        if k == "dot":
            return [opt, "./root/"], "/w"
        return [opt, "/w/root" + ("/" if k == "slash" else "")], rng.choice(["/w", "/", "/w/pkgs"])

    def step(self):
        rng, prof, w, res = self.rng, self.prof, self.world, self.res
        what, x, fl = self.choose()
        if what == "rules":
            good = w.rules_text
            w.rules_text = good + ("" if good.endswith("\n") or not good else "\n") + x + "\n"
            conf = self.root + "var/lib/pkg/pkgadd.conf"
            had = open(conf).read() if os.path.exists(conf) else None
            open(conf, "w").write(w.rules_text)
            cand = [n for n in self.names if n not in w.db]
            if cand and rng.random() < .7:
                self.op("add", gen_pkg(rng, prof, cand[0], self.p), dict(u=False, f=False, i=False), resnap=True)
            elif w.db:
                self.op("rm", sorted(w.db)[0], {}, resnap=True)
            w.rules_text = good
            if had is None:
                os.unlink(conf)
            else:
                open(conf, "w").write(had)
            self.refresh()
            return not res.viol
        if what == "add":
            fl["f"] = rng.random() < prof.forced
            fl["i"] = rng.random() < prof.ignore_scripts
        return self.op(what, x, fl)

    def exec(self, argv, cwd):
        return tool(argv, cwd=cwd, lang=self.lang)

    def refresh(self):
        self.world.fs = FS({p: n for p, n in snap("/", skip=SKIP).items() if not p.startswith(self.p + DB)})

    def op(self, what, x, fl, resnap=False):
        rng, prof, w, res = self.rng, self.prof, self.world, self.res
        if resnap:
            self.refresh()
        before = w.copy()
        # nothing there to run scripts with
        self.model.noshell = noshell = prof.noshell and rng.random() < prof.noshell
        if what == "add":
            p = x
            # a hard link whose target is filtered or kept away is another matter
            if self.symdir or w.rules_text:     # libarchive itself replaces symbolic links on the way to the target of a hard link
                p.ents = [e for e in p.ents if e.kind != "h"]
            arc = "/w/pkgs/%s%s-%s.cards.tar" % (p.name, p.version, rng.randint(0, 9999))
            comp = rng.choice(["", "", "gz", "bz2", "xz"])
            arc += "." + comp if comp else ""
            with open(arc, "wb") as f:
                f.write(p.archive(comp))
            args, cwd = self.rootargs(None)
            opts = []
            if fl["u"]:
                opts.append(rng.choice(["-u", "--upgrade"]))
            if fl["f"]:
                opts.append(rng.choice(["-f", "--force"]))
            if fl["i"]:
                opts.append(rng.choice(["-i", "--ignore"]))
            if rng.random() < prof.progress:
                opts.append("-p")
            name = arc if rng.random() < .6 or cwd == "/" and False else os.path.relpath(arc, cwd)
            tail = [args, opts, [name]]
            rng.shuffle(tail)
            argv = ["/usr/bin/pkgadd"] + sum(tail, [])
            o = self.model.add(w, p, u=fl["u"], f=fl["f"], i=fl["i"], rootgiven=not self.host)
            self.note("%s  [%s]  (%s)" % (" ".join(argv[0:]), p.show(), o.cls))
        else:
            args, cwd = self.rootargs(None)
            tail = [args, [x]] + ([["-p"]] if rng.random() < prof.progress else [])
            rng.shuffle(tail)
            argv = ["/usr/bin/pkgrm"] + sum(tail, [])
            o = self.model.rm(w, x)
            self.note("%s  (%s)" % (" ".join(argv), o.cls))
        try:
            os.unlink(LOG)
        except FileNotFoundError:
            pass
        if noshell:
            self.note("  without a shell")
            os.rename("/usr/bin/sh", "/w/sh")
        try:
            r = self.exec(argv, cwd)
        finally:
            if noshell:
                os.rename("/w/sh", "/usr/bin/sh")
        res.counts["op_" + o.cls] += 1
        res.counts["without_shell"] += bool(noshell and o.events)
        self.sigops.append(o.cls)
        if r.timeout:
            res.inconclusive = "timeout: " + " ".join(argv)
            return False
        s = r.san()
        if s:
            self.bad(s.split(" ")[0], "sanitizer report or crash\n" + s)
            return False
        ctx = "%s: exit %d\nstdout: %s\nstderr: %s" % (o.cls, r.rc, r.out[-600:], r.err[-900:])
        if r.rc != o.code:
            self.bad(o.cls + ":exit", "exit status %d, wanted %d\n%s" % (r.rc, o.code, ctx))
            return False
        for ev, said in (("POST", "WARNING Run post-install FAILED"), ("POSTR", "WARNING Run post-remove FAILED")):
            wants = sum(1 for k, ex in o.events if k == ev and (noshell or fails(ex.post if ev == "POST" else before.db[ex].postr)))
            if r.err.count(said) != wants:
                self.bad(o.cls + ":script-status", "a failing %s script is told %d times, wanted %d\n%s" % (ev, r.err.count(said), wants, ctx))
                return False
            self.res.counts["failing_scripts"] += wants
        if o.err and o.err not in r.err:
            self.bad(o.cls + ":message", "%r not said\n%s" % (o.err, ctx))
            return False
        if o.lists:
            said = {l for l in r.err.split("\n")}
            miss = o.lists - said
            extra = {l for l in said if l and ": " not in l and l not in o.lists and l in set(x.manifest())} if what == "add" else set()
            if miss or extra:
                self.bad(o.cls + ":list", "conflicts not listed: %s; listed without being one: %s\n%s"
                         % (sorted(miss), sorted(extra), ctx))
                return False
        if o.code == 0 and what == "add":
            said = {m for m in re.findall(r"pkgadd: rejecting (.*), keeping existing version$", r.out, re.M) if not m.endswith("/")}
            if said != o.rejected:
                self.bad(o.cls + ":rejected", "announced as rejected %s, wanted %s\n%s" % (sorted(said), sorted(o.rejected), ctx))
                return False
            ign = set(re.findall(r"pkgadd: ignoring (.*)$", r.out, re.M))
            if ign != o.ignored:
                self.bad(o.cls + ":ignored", "announced as ignored %s, wanted %s\n%s" % (sorted(ign), sorted(o.ignored), ctx))
                return False
        if not self.check_events(o, before, w, ctx, x if what == "add" else None):
            return False
        have = snap("/", skip=SKIP)
        d = compare(w, have)
        if d:
            self.bad(o.cls + ":tree", "the tree is not what the operation is to leave\n%s\n%s" % ("\n".join(d), ctx))
            return False
        res.counts["paths_compared"] += len(have)
        res.counts["states_compared"] += 1
        res.tags.add(hashlib.md5(repr(sorted((k, v.key()) for k, v in have.items() if k.startswith(self.p))).encode()).hexdigest()[:12])
        if what == "add" and o.code == 0:
            self.latest[x.name] = x
            if o.rejected:
                res.counts["rejected_files"] += len(o.rejected)
            if o.ignored:
                res.counts["ignored_files"] += len(o.ignored)
        # hard links made by the package share the file
        w.fs = FS({p: n for p, n in have.items() if not p.startswith(self.p + DB)})
        return self.extra_checks(what, x, o, have)

    def extra_checks(self, what, x, o, have):
        if what == "add" and o.code == 0 and not o.note:
            for e in x.ents:
                if e.kind == "h" and e.path not in o.ignored:
                    a, c = have.get(self.p + e.path), have.get(self.p + e.data.decode())
                    if a is not None and c is not None and a.kind == "f" and a.ino != c.ino and not self.world.rules_text \
                            and self.world.fs.resolve(self.p + e.path) == self.p + e.path:
                        self.bad(o.cls + ":hardlink", "%s is no link to %s" % (e.path, e.data))
                        return False
        return True

    def check_events(self, o, before, after, ctx, x=None):
        """scripts that ran, how often, in which order, in which directory, seeing what"""
        log = read_log()
        want = []
        if self.model.noshell:
            if log:
                self.bad(o.cls + ":scripts", "scripts that ran without a shell: %s\n%s" % (log, ctx))
            return not log
        cwdroot = self.root.rstrip("/") or "/"
        for kind, ex in o.events:
            name = ex if isinstance(ex, str) else ex.name
            if kind == "PRE":
                seen = before.fs.isdir(self.p + ex.watch) or (before.fs.lstat(self.p + ex.watch) is not None and self._exists(before, ex.watch))
                want.append("PRE %s %d %s" % (name, seen, cwdroot))
            elif kind == "POST":
                want.append("POST %s %d %s" % (name, self._exists(after, ex.watch), cwdroot))
            else:
                want.append("%s %s" % (kind, name))
        got = []
        for l in log:
            got.append(l if l.split(" ")[0] in ("PRE", "POST") else " ".join(l.split(" ")[:2]))
        if self.prof.tools:
            ran = collections.Counter()
            k = next((i for i, l in enumerate(got) if l.startswith("TOOL ")), len(got))
            got, tail = got[:k], log[k:]
            for l in tail:
                q = l.split(" ", 3)
                if q[0] != "TOOL" or q[2] != cwdroot:
                    self.bad(o.cls + ":tools", "a tool ran before the scripts or elsewhere than in the root: %s\n%s" % (log, ctx))
                    return False
                ran[re.sub(r"/(\./)+", "/", re.sub(r"//+", "/", "%s %s" % (q[1], q[3] if len(q) > 3 else ""))).rstrip()] += 1
            need = collections.Counter()
            if o.code == 0 and o.cls.startswith(("install", "upgrade")):
                need = wanted_tools(parse_rules(after.rules_text), after.db[x.name].files if x is not None else [], self.havetools,
                                    self._exists(after, "etc/ld.so.conf"))
            ld = after.fs.lstat(self.p + "etc/ld.so.conf")
            if ld is not None and ld.kind == "l":       # present or not: a matter of taste
                ran = collections.Counter({kk: v for kk, v in ran.items() if not kk.startswith("ldconfig")})
                need = collections.Counter({kk: v for kk, v in need.items() if not kk.startswith("ldconfig")})
            need = collections.Counter({kk.replace("@ROOT@", self.root).rstrip(): v for kk, v in need.items()})
            if ran != need:
                self.bad(o.cls + ":tools", "tools that ran: %s, wanted: %s\n%s" % (sorted(ran.elements()), sorted(need.elements()), ctx))
                return False
            self.res.counts["tool_runs"] += sum(ran.values())
            self.res.tags |= {kk.split(" ")[0] for kk in ran}
        if got != want:
            self.bad(o.cls + ":scripts", "scripts that ran: %s, wanted: %s\n%s" % (log, want, ctx))
            return False
        self.res.counts["script_runs"] += len(want)
        # the removal scripts: before and after the files went
        for l in log:
            k = l.split(" ")
            if k[0] in ("PRER", "POSTR"):
                name = k[1]
                watch = self.latest[name].watch if name in self.latest else None
                if watch:
                    st = before if k[0] == "PRER" else after
                    if int(k[2]) != self._exists(st, watch):
                        self.bad(o.cls + ":scripts", "%s of %s saw %s %s\n%s" % (k[0], name, watch, k[2], ctx))
                        return False
        return True

    def _exists(self, w, path):
        r = w.fs.resolve(w.p + path, last=True)
        return int(r is not None and (r == "" or r in w.fs.n))

    def run(self):
        self.sigops = []
        self.setup()
        n = self.rng.randint(*self.prof.nops)
        for _ in range(n):
            if self.rng.random() < self.prof.admin:
                self.admin()
            try:
                ok = self.step()
            except Exception as e:
                raise RuntimeError("%r\n%s" % (e, "\n".join(self.trace[-8:]))) from e
            if not ok:
                break
        res = self.res
        res.sig = hashlib.md5("\n".join(self.trace).encode("utf-8", "surrogateescape")).hexdigest()
        res.nontrivial = sum(1 for c in self.sigops if self.counts_as(c)) >= 1
        res.sample = self.trace[:7] if self.index % 37 == 0 or self.index < 3 else None
        return res

    def counts_as(self, cls):
        return any(cls.startswith(k) for k in self.prof.counts) if self.prof.counts else not cls.startswith("refused")


_profs = {}


def run_history(task):
    seed, tag, index = task[:3]
    return History(seed, _profs[tag], index).run()


def register(prof):
    _profs[prof.tag] = prof
    return prof

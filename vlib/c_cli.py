"""Command lines: what is asked for in which form, what is refused, and the configuration a file of it means."""
import hashlib, os, re, shutil, subprocess

from . import build, c_cards, core, engine, jail
from .c_cards import ALL, CardsHistory, T0
from .engine import DB, LOG, Profile, read_log, register, reset, tool
from .fsnap import snap
from .pkgs import Ent, Pkg

PROF = Profile("cline", start=(1, 3), ops=dict(query=1), nops=(0, 0), npk=(4, 8), overlap=.2, forced=.3, scripts=.4, counts=())
PROF.confs = ALL
register(PROF)

# -- the grammar, as the manuals and the helps have it -------------------------------------------------
SHORT = dict(sets="S", force="f", binaries="b", check="c", disable="d", name="n", proceed="p", size="s", upgrade="u", help="h")
LONG = ["download-only", "ready", "dry", "no-meta", "nolog", "no-sync", "no-progress"]
VALUED = ["conf", "root"]
EQ1 = ["files", "query", "info", "search", "depends", "deptree", "create", "dependent"]
MIN1 = ["install", "remove"]
NONE = ["config", "sync", "list", "upgrade", "purge", "diff", "level"]
OWN = {"upgrade": ["ready", "download-only", "no-sync", "no-progress", "size", "check", "proceed"], "list": ["binaries", "sets"], "info": ["binaries", "sets"], "search": ["name"], "query": ["binaries"],
       "files": ["binaries"], "install": ["disable", "upgrade", "force", "nolog"], "remove": ["force"], "create": ["dry", "no-meta"], "sync": ["no-progress"]}
READ = {"list": ["binaries", "sets", "conf"], "info": ["binaries", "sets", "conf"], "search": ["name"], "query": ["binaries"], "files": ["binaries"], "config": ["conf"], "diff": [], "level": []}
ADD = dict(root="r", ignore="i", upgrade="u", force="f", progress="p")
RM = dict(root="r", progress="p")
INFO = dict(root="r", installed="i", number="n", details="d", list="l", runtimedep="R", owner="o", archive="a", meta="m", footprint="f", libraries="L", buildtime="b",
            runtimedepfiles=None, runtimelibs=None)
INFO_BARE = ("installed", "number")
INFO_ONE = ("runtimedepfiles", "runtimelibs", "footprint", "installed", "archive", "list", "owner", "number")


def verdict(argv):
    """what is to become of a line of cards: usage, help, refused, run, or open"""
    cmd = None
    for i, a in enumerate(argv):
        if not a.startswith("-"):
            cmd, at = a, i
            break
        if a in ("-h", "--help"):
            return "usage"
    if cmd is None or cmd not in EQ1 + MIN1 + NONE + ["help", "keys", "repo"]:
        return "refused"
    helped, args = False, []
    short = {v: k for k, v in SHORT.items()}
    for i, a in enumerate(argv):
        if i == at:
            continue
        if not a.startswith("-"):
            args.append(a)
        elif a in ("-h", "--help"):
            helped = True
        elif a.startswith("--"):
            n, eq, v = a[2:].partition("=")
            if n in VALUED:
                if not v:
                    return "refused"
            elif n not in SHORT and n not in LONG:
                return "refused"
        elif len(a) != 2 or a[1] not in short:
            return "refused"
    if helped or cmd == "help":
        return "help"
    if cmd in EQ1 and len(args) != 1 or cmd in MIN1 and not args:
        return "refused"
    return "run"


class Lines(CardsHistory):
    def files(self):
        s = {p: n.key(False) for p, n in snap("/", skip=engine.SKIP | {"/w/rA", "/w/rB"}).items()}
        for p in ("/w/pkgs", "/tmp"):
            for q, n in snap(p, skip=()).items():
                s[p + "/" + q] = n.key(False)
        return s

    def sh(self, prog, argv, lang=None):
        try:
            os.unlink(LOG)
        except FileNotFoundError:
            pass
        r = tool(["/usr/bin/" + prog] + argv, cwd="/w", lang=lang or self.lang, timeout=60)
        self.ctx = "%s %s: exit %d\nstdout: %s\nstderr: %s" % (prog, " ".join("'%s'" % a for a in argv), r.rc, r.out[-1500:], r.err[-1000:])
        self.note("$ %s %s" % (prog, " ".join("'%s'" % a for a in argv)))
        self.res.counts["lines_of_" + prog] += 1
        if r.timeout or r.san():
            self.bad(r.san().split(" ")[0] if r.san() else "hang", (r.san() or "does not end") + "\n" + self.ctx)
            return None
        return r

    def setup(self):
        super().setup()
        w = self.rng.sample(self.names, min(2, len(self.names)))
        self.arcs = []
        for i, n in enumerate(w + ["fresh"]):
            p = Pkg(n, "8.%d" % i, "1", T0 + 9000 + i, "any", [Ent("usr", "d"), Ent("usr/share", "d"), Ent("usr/share/" + n, "d"), Ent("usr/share/%s/a" % n, "f", data=b"by hand")], collection="own")
            p.watch = "usr/share/%s/a" % n
            p.pre, p.post = engine.script("PRE", n, p.watch, False), engine.script("POST", n, p.watch, False)
            p.scripts_fail = {}
            arc = "/w/pkgs/%s.cards-8.%d-1" % (n, i)
            open(arc, "wb").write(p.archive())
            self.arcs.append(arc)

    # -- refused, help, usage ------------------------------------------------------------------------------
    def word(self):
        rng = self.rng
        return rng.choice(sorted(self.world.db) or ["none"]) if rng.random() < .5 else rng.choice(self.names + self.arcs + ["ghost", "base", "cli"])

    def junk(self):
        rng = self.rng
        return rng.choice(["--bogus", "-z", "-x", "-", "--", "--=", "--forc", "--forced", "-fu", "-bn", "--conf", "--conf=", "--root", "--root=", "--no-such=1", "--Force", "-1", "--fo rce", "-\u00e9", "--upgrade-all", "---force"])

    def opt(self, names):
        rng = self.rng
        n = rng.choice(names)
        return "-" + SHORT[n] if n in SHORT and rng.random() < .6 else "--" + n

    def line(self):
        """one which is to be refused or helped with"""
        rng = self.rng
        cmd = rng.choice(EQ1 + MIN1 * 3 + NONE + ["help", "keys"])
        args = [self.word() for _ in range(1 if cmd in EQ1 else rng.choice([1, 1, 2]) if cmd in MIN1 else 0)]
        k = rng.choice(["junk", "junk", "junk", "help", "help", "usage", "count", "count", "command", "nothing"])
        if k == "count":
            cmd = rng.choice(EQ1 + MIN1)
            args = [self.word() for _ in range(rng.choice([0, 0, 2, 3]) if cmd in EQ1 else 0)]
        elif k == "command":
            cmd = rng.choice(["instal", "Install", "installs", "rm", "update", "list ", "ls", "", "c", "-install".lstrip("-") + "=", "in/stall"])
        own = OWN.get(cmd, []) if k == "help" else [o for o in list(SHORT) + LONG if o != "help"]
        opts = [self.opt(own) for _ in range(rng.choice([0, 0, 1, 2, 3])) if own]
        rest = args + opts
        if k == "junk":
            rest.append(self.junk())
        elif k == "help":
            rest.append(rng.choice(["-h", "--help"]))
        rng.shuffle(rest)
        pre = []
        if k != "help":
            # options may stand before the command
            pre = [a for a in rest if a.startswith("-") and rng.random() < .4]
            for a in pre:
                rest.remove(a)
        if k == "nothing":
            return [a for a in pre + rest if a.startswith("-")]
        if k == "usage":
            pre.insert(rng.randrange(len(pre) + 1), rng.choice(["-h", "--help"]))
        return pre + [cmd] + rest

    def q_cards(self):
        for _ in range(50):
            argv = self.line()
            v = verdict(argv)
            if v != "run":
                break
        else:
            return True
        before = self.before
        r = self.sh("cards", argv)
        if r is None:
            return False
        self.done("cards-" + v)
        if v == "refused":
            if r.rc == 0 or not r.err.strip():
                self.bad("cards:accepted", "this line is to be refused with a message\n" + self.ctx)
                return False
        elif r.rc != 0 or not r.out.strip():
            self.bad("cards:" + v, "this line asks for help\n" + self.ctx)
            return False
        elif v == "help" and argv[0] != "help" and "help" not in argv:
            cmd = next(a for a in argv if not a.startswith("-"))
            if cmd not in r.out:
                self.bad("cards:help-of", "the help does not speak of " + cmd + "\n" + self.ctx)
                return False
        return self.unchanged("cards")

    def unchanged(self, prog):
        now = self.files()
        if now != self.before:
            d = [p for p in sorted(set(now) | set(self.before)) if now.get(p) != self.before.get(p)]
            self.bad(prog + ":changed", "this line is to change nothing, but %s\n%s" % (d[:6], self.ctx))
            return False
        return True

    def q_tools(self):
        """lines of pkgadd, pkgrm and pkginfo to be refused, or which ask for help or the version"""
        rng = self.rng
        prog = rng.choice(["pkgadd", "pkgrm", "pkginfo"])
        table = {"pkgadd": ADD, "pkgrm": RM, "pkginfo": INFO}[prog]
        installed = sorted(self.world.db) or ["none"]
        units = []
        if prog == "pkginfo":
            n = rng.choice(["installed", "number", "list", "details", "owner"])
            units.append([self.form(table, n)] + ([] if n in INFO_BARE else [rng.choice(installed)]))
        else:
            units.append([rng.choice(self.arcs) if prog == "pkgadd" else rng.choice(installed)])
            for n in table:
                if n != "root" and rng.random() < .3:
                    units.append([self.form(table, n)])
        k = rng.choice(["junk", "junk", "second", "missing", "value", "help", "version"])
        if k == "junk":
            j = rng.choice([x for x in ["--bogus", "-z", "-", "--", "--forc", "-fu", "-if", "--root=/", "--roott", "-R" if prog != "pkginfo" else "-Z", "--conf=x", "-ui"]])
            units.append([j])
        elif k == "second":
            if prog == "pkginfo":
                a, b_ = rng.sample(INFO_ONE, 2)
                units = [[self.form(table, n)] + ([] if n in INFO_BARE else [rng.choice(installed)]) for n in (a, b_)]
            else:
                units.append([self.word()])
        elif k == "missing":
            units = units[1:]
            if prog == "pkgrm":
                units.append([rng.choice(["ghost", "no-such", ""])])
        rng.shuffle(units)
        if k == "value":
            v = [n for n in table if n == "root" or prog == "pkginfo" and n not in INFO_BARE]
            units.append([self.form(table, rng.choice(v))])
        argv = [a for u in units for a in u]
        if k in ("help", "version"):
            at = rng.choice([0, len(argv)])
            argv.insert(at, rng.choice(["-h", "--help"] if k == "help" else ["-v", "--version"]))
        r = self.sh(prog, argv)
        if r is None:
            return False
        self.done("%s-%s" % (prog, k))
        if k in ("help", "version"):
            if r.rc != 0 or not r.out.strip():
                self.bad("%s:%s" % (prog, k), "this line asks for the " + k + "\n" + self.ctx)
                return False
        elif r.rc == 0 or not r.err.strip():
            self.bad(prog + ":accepted", "this line is to be refused with a message\n" + self.ctx)
            return False
        return self.unchanged(prog)

    def form(self, table, n):
        return "-" + table[n] if table[n] and self.rng.random() < .5 else "--" + n

    # -- the same thing said in another way ------------------------------------------------------------------
    def q_same_answer(self):
        rng = self.rng
        if rng.random() < .6:
            prog = "cards"
            cmd = rng.choice(sorted(READ))
            opts = [o for o in READ[cmd] if rng.random() < .5]
            arg = [] if cmd in NONE else [rng.choice(sorted(self.world.db) or ["none"]) if cmd in ("info", "files") else rng.choice(["share", "usr", "al", "a"] + self.names) + rng.choice(["", "a"])]
            if cmd == "query":
                arg = ["usr/share/" + arg[0]]
            plain = [cmd] + ["--conf=/etc/other.conf" if o == "conf" else "--" + o for o in opts] + arg
            said = [("--conf=/etc/other.conf" if o == "conf" else "-" + SHORT[o] if o in SHORT and rng.random() < .7 else "--" + o) for o in opts + [o for o in opts if rng.random() < .2]]
            units = [[x] for x in said + arg]
            rng.shuffle(units)
            pre = [u for u in units if u[0].startswith("-") and rng.random() < .5]
            other = [a for u in pre for a in u] + [cmd] + [a for u in units if u not in pre for a in u]
        else:
            prog = "pkginfo"
            n = rng.choice(["installed", "number", "list", "details", "owner", "runtimedep", "libraries", "buildtime", "meta", "archive", "footprint"])
            v = [] if n in INFO_BARE else [rng.choice(self.arcs) if n in ("archive", "footprint") or n in ("list", "meta") and rng.random() < .3 else
                                           "usr/share/" + rng.choice(self.names) if n == "owner" else rng.choice(sorted(self.world.db) or ["none"])]
            plain = ["--root", "/", "--" + n] + v
            root = rng.choice([[], ["-r", "/"], ["--root", "//"], ["-r", "."]])
            units = [["-" + INFO[n] if INFO[n] and rng.random() < .8 else "--" + n] + v, root if root != ["-r", "."] else ["-r", "../"]]
            rng.shuffle(units)
            other = [a for u in units for a in u]
        lang = self.lang
        a = self.sh(prog, plain, lang)
        if a is None:
            return False
        b_ = self.sh(prog, other, lang)
        if b_ is None:
            return False
        self.done("same-answer-" + prog)
        if (a.rc, a.out) != (b_.rc, b_.out):
            self.bad("answer:" + prog, "the same question, another answer: %s\n%s\nanswers exit %d\n%s" % (" ".join(plain), self.ctx, a.rc, a.out[-1500:]))
            return False
        return self.unchanged(prog)

    def q_same_effect(self):
        """one root each, the same request said in two ways"""
        rng = self.rng
        for x in "AB":
            r = "/w/r" + x
            if os.path.lexists(r):
                engine._rmtree(r)
            os.makedirs(r + "/usr/bin")
            os.symlink("/usr/bin/sh", r + "/usr/bin/sh")
            shutil.copytree("/var/lib/pkg", r + "/var/lib/pkg", symlinks=True)
            shutil.copytree("/usr/share", r + "/usr/share", symlinks=True)
        db = sorted(self.world.db) or ["ghost"]
        kind = rng.choice(["pkgadd", "pkgadd", "pkgrm", "install", "install", "remove"])
        if kind in ("pkgadd", "pkgrm"):
            table = ADD if kind == "pkgadd" else RM
            opts = [o for o in sorted(table) if o != "root" and rng.random() < .4]
            arg = rng.choice(self.arcs) if kind == "pkgadd" else rng.choice(db)
            plain = lambda root: ["--root", root] + ["--" + o for o in opts] + [arg]
            forms = [self.form(table, o) for o in opts + [o for o in opts if rng.random() < .2]]
            rf = self.form(table, "root")
            order = list(range(len(forms) + 2))
            rng.shuffle(order)

            def other(root):
                u = [[f] for f in forms] + [[arg], [rf, root]]
                return [a for i in order for a in u[i]]
            prog = kind
        else:
            prog = "cards"
            opts = [o for o in (["force", "disable", "upgrade", "nolog"] if kind == "install" else ["force"]) if rng.random() < .4]
            args = [rng.choice(self.names + db) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < .7 or kind == "remove" else [rng.choice(self.arcs)]
            plain = lambda root: [kind, "--root=" + root] + ["--" + o for o in opts] + args
            forms = ["-" + SHORT[o] if o in SHORT and rng.random() < .8 else "--" + o for o in opts + [o for o in opts if rng.random() < .2]]
            npre = rng.randint(0, len(forms))
            rng.shuffle(forms)
            at, rpre = [rng.randint(0, len(args)) for _ in forms[npre:]], rng.random() < .4

            def other(root):
                tail = list(args)
                for f, i in zip(forms[npre:], at):
                    tail.insert(i, f)
                return forms[:npre] + (["--root=" + root] if rpre else []) + [kind] + tail + ([] if rpre else ["--root=" + root])
        was = snap("/w/rA", skip=())
        got = []
        for root, argv in (("/w/rA", plain("/w/rA")), ("/w/rB", other("/w/rB"))):
            r = self.sh(prog, argv)
            if r is None:
                return False
            ran = [" ".join(l.split(" ")[:2]) for l in read_log()]
            got.append((r.rc, ran, {p: n.key(False) for p, n in snap(root, skip=()).items() if not p.endswith("cards.log")}, self.ctx))
        self.done("same-effect-" + kind)
        changed = {p: n.key(False) for p, n in was.items() if not p.endswith("cards.log")} != got[0][2]
        self.res.counts["effects_%s_%s" % (kind, "done" if changed else "none")] += 1
        if got[0][:3] != got[1][:3]:
            d = [p for p in sorted(set(got[0][2]) | set(got[1][2])) if got[0][2].get(p) != got[1][2].get(p)]
            self.bad("effect:" + kind, "said in another way, the same request has another effect: %s, scripts %s and %s\n%s\n%s" % (d[:6], got[0][1], got[1][1], got[0][3], got[1][3]))
            return False
        # only the root that was given: nothing of the running system, apart from what was downloaded
        now = self.files()
        out = [p for p in sorted(set(now) | set(self.before)) if now.get(p) != self.before.get(p) and not ("/" + p).startswith((c_cards.DEPOT, c_cards.LOCAL))]
        if out:
            self.bad("effect:outside", "with a root of its own, the command changed %s\n%s\n%s" % (out[:6], got[0][3], got[1][3]))
            return False
        self.before = now
        return True

    def run(self):
        rng, res = self.rng, self.res
        self.sigops, self.easy = [], None
        self.setup()
        ok = self.c_sync()
        for _ in range(rng.randint(*self.prof.start)):
            ok = ok and self.c_start()
        shutil.copy("/etc/cards.conf", "/etc/other.conf")
        if ok:
            self.before = self.files()
        n = rng.randint(14, 22)
        while ok and n:
            n -= 1
            ok = rng.choice([self.q_cards, self.q_cards, self.q_cards, self.q_tools, self.q_tools, self.q_same_answer, self.q_same_answer, self.q_same_effect])()
        res.sig = hashlib.md5("\n".join(self.trace).encode("utf-8", "surrogateescape")).hexdigest()
        res.nontrivial = any(s.startswith("same-effect") for s in self.sigops) and len(self.sigops) >= 8
        res.sample = self.trace[-8:] if self.index < 3 else None
        return res


def lines_case(task):
    return Lines(task[0], PROF, task[1]).run()


def lines(pid):
    c = core.Check(pid, "command lines",
                   "A case is a random installed system with mirrors and 14-22 command lines of cards, pkgadd, pkgrm and pkginfo: lines to be refused (unknown commands, options, values and arguments missing or too many) or asking for help, "
                   "after which every file is what it was; questions said in two ways (short, long, repeated options, in any place), with the same answer; and requests said in two ways, each in a root of its own, with the same effect and none outside. "
                   "Non-trivial: at least eight lines judged, and one pair of effects. Distinct: the written-out lines differ.",
                   assumptions=["options of other commands than the given one are accepted or not; not judged", "a line that asks for help and has an error too is not judged for its exit status"])
    n = c.size(220, 4000)
    c.run(c_cards.template(c.scratch), lines_case, [[c.seed, i] for i in range(n)])
    c.finish(min_nontrivial=80)


# ============================================================================================================
def read_conf(text, version):
    """what a cards.conf and a nutyx-version mean -> (lines of `cards config`)"""
    dirs, groups, one = [], [], {}
    for t in (text, version):
        for l in t.split("\n"):
            l = l.split("#", 1)[0]
            m = re.match(r"([^ \t]*)[ \t](.*)", l, re.S)
            if not m:
                continue
            k, v = m.group(1), m.group(2).strip()
            if k == "dir":
                d, _, u = v.partition("|")
                d = d.strip().rstrip("/")
                if d:
                    h, s, c = d.rpartition("/")
                    dirs.append([h if s else None, c, u.strip()])
            elif k == "collection" and v:
                if all(d[1] != v for d in dirs):
                    dirs.append([None, v, ""])
            elif k in ("depot", "url", "version"):
                one[k] = one.get(k) or v
            elif k == "logdir":
                one[k] = v
            elif k in ("locale", "group"):
                groups.append(v)
    out = []
    for i, (h, c, u) in enumerate(dirs):
        h, u = h or one.get("depot", ""), u or one.get("url", "")
        out.append("%d Directory: %s/%s%s" % (i + 1, h, c, " from %s/x86_64/%s/%s" % (u, one.get("version", ""), c) if u else ""))
    out.append("Binaries : x86_64")
    out += ["Group    : " + g for g in groups]
    if one.get("logdir"):
        out.append("log directory: " + one["logdir"])
    return out


class Conf:
    def __init__(self, seed, index):
        self.rng, self.index, self.res = core.rng_for("conf", seed, index), index, core.Result()

    def text(self, keys):
        rng = self.rng
        sp = lambda: rng.choice([" ", " ", "  ", "\t", " \t "])
        L = []
        for _ in range(rng.choice([0, 1, 3, 6, 10, 16])):
            k = rng.choice(keys)
            path = "/".join(["", rng.choice(["srv", "home/me", "var/lib/pkg/depot", "x"]), rng.choice(["base", "cli", "gui", "cli-extra", "my ports", "perso"])])
            url = rng.choice(["http://downloads.nutyx.org", "https://example.org:8080/a", "ftp://x", "file:///mnt/m", "http://u:p@h/~me"])
            v = {"dir": lambda: rng.choice([path, path, path + "/", path + "//", rng.choice(["base", "gui", "own"]), "/", "//", "/base"]) + rng.choice(["", "", "|" + url, " | " + url, "| " + url, " |", "|"]),
                 "collection": lambda: rng.choice(["base", "cli", "gui", "cli-extra", "perso"]), "depot": lambda: rng.choice(["/srv", "/home/me/depot", "/var/lib/pkg/depot"]),
                 "url": lambda: url, "logdir": lambda: rng.choice(["/var/log/pkgbuild", "/tmp/l"]), "locale": lambda: rng.choice(["fr", "de", "pt_BR"]), "group": lambda: rng.choice(["devel", "man", "lib"]),
                 "version": lambda: rng.choice(["rolling", "saravane", "10.1", "a b"]), "name": lambda: "NuTyX"}.get(k, lambda: rng.choice(["x", "/x/y", "devel"]))()
            l = k + sp() + v + rng.choice(["", "", "", " ", "\t", " # " + url, "#x", "   # a # b"])
            r = rng.random()
            if r < .04:
                l = "#" + l
            elif r < .06:
                l = k
            elif r < .08:
                l = k + " # " + v
            L.append(l)
            if rng.random() < .15:
                L.append(rng.choice(["", "#", "# dir /x/y | z", "   ", "\t", "word", "Dir /x/y", "groups x", "dirs /a/b"]))
        # a key with nothing behind it says nothing; what it would do to a list of groups is left open
        L = [l for l in L if not re.match(r"(locale|group|logdir)[ \t]*(#|$)|(locale|group|logdir)[ \t]+(#|$)", l)]
        return "\n".join(L) + rng.choice(["\n", "\n", "\n\n", ""])

    def ask(self, *a):
        r = tool(["/usr/bin/cards"] + list(a), cwd="/w", lang="C", timeout=60)
        self.ctx = "cards %s: exit %d\nstdout: %s\nstderr: %s\n--- cards.conf\n%s--- nutyx-version\n%s" % (" ".join(a), r.rc, r.out, r.err, self.conf, self.ver)
        if r.timeout or r.san():
            self.res.bad(r.san().split("\n")[0] if r.san() else "hang", (r.san() or "does not end") + "\n" + self.ctx)
            return None
        return r

    def run(self):
        rng, res = self.rng, self.res
        reset()
        os.makedirs("/etc", exist_ok=True)
        os.makedirs("/var/lib/pkg", exist_ok=True)
        self.conf = self.text(["dir", "dir", "dir", "collection", "collection", "collection", "depot", "url", "logdir", "locale", "group", "group", "version", "name", "keypath", "hostname", "base"])
        self.ver = rng.choice(["", "name NuTyX\nversion rolling\n", "version x\n", self.text(["version", "name", "version", "x"])])
        where, args = "/etc/cards.conf", []
        if rng.random() < .3:
            where = rng.choice(["/etc/my.conf", "/w/c", "/etc/cards.conf.d"])
            args = ["--conf=" + where]
            open("/etc/cards.conf", "w").write("dir /not/this\ngroup wrong\n")
        kind = rng.choices(["file", "missing", "directory", "noversion", "unreadable"], [12, 1, 1, 2, 1])[0]
        conf, ver = self.conf, self.ver
        if kind == "missing":
            conf = ""
        elif kind == "directory":
            os.makedirs(where)
        else:
            open(where, "w").write(conf)
        if kind == "noversion":
            ver = ""
        else:
            open("/var/lib/pkg/nutyx-version", "w").write(ver)
        who = None
        if kind == "unreadable":
            os.chmod(rng.choice([where, "/var/lib/pkg/nutyx-version"]), 0)
            who = _nobody
        before = snap("/", skip={"/proc", "/dev", "/sys", "/usr"})
        argv = ["config"] + args if rng.random() < .5 else args + ["config"]
        r = tool(["/usr/bin/cards"] + argv, cwd="/", lang="C", timeout=60, preexec=who)
        self.ctx = "cards %s (%s): exit %d\nstdout: %s\nstderr: %s\n--- cards.conf\n%s--- nutyx-version\n%s" % (" ".join(argv), kind, r.rc, r.out, r.err, self.conf, self.ver)
        s = r.san()
        if s or r.timeout:
            res.bad(s.split("\n")[0] if s else "hang", (s or "does not end") + "\n" + self.ctx)
            return res
        res.counts["config_" + kind] += 1
        if kind in ("directory", "unreadable"):
            if r.rc == 0 or not r.err.strip():
                res.bad("config:" + kind, "a configuration that cannot be read is passed over\n" + self.ctx)
        else:
            want = read_conf(conf, ver)
            got = r.out.split("\n")[:-1]
            if r.rc != 0 or got != want:
                res.bad("config:means", "the configuration means\n%s\n%s" % ("\n".join(want), self.ctx))
            res.counts["directories"] += sum("Directory" in l for l in want)
            res.counts["groups"] += sum(l.startswith("Group") for l in want)
            res.nontrivial = len(want) >= 3
        if {p: n.key(True) for p, n in before.items()} != {p: n.key(True) for p, n in snap("/", skip={"/proc", "/dev", "/sys", "/usr"}).items()}:
            res.bad("config:changed", "asking changed a file\n" + self.ctx)
        res.sig = hashlib.md5((kind + self.conf + "\0" + self.ver).encode()).hexdigest()
        res.sample = self.ctx if self.index < 2 else None
        return res


def _nobody():
    """root without the right to read everything"""
    import ctypes
    libc = ctypes.CDLL(None, use_errno=True)
    for cap in (1, 2):      # CAP_DAC_OVERRIDE, CAP_DAC_READ_SEARCH
        libc.prctl(24, cap, 0, 0, 0)


def conf_case(task):
    return Conf(*task[:2]).run()


def conf(pid):
    c = core.Check(pid, "the configuration",
                   "A case is a cards.conf of 0-16 lines (directories with and without mirror, collections, depots, groups, comments, blanks, unknown keys, keys given twice), a nutyx-version, one of them sometimes missing, unreadable or a directory; "
                   "cards config is compared with an independent reading of the two. Non-trivial: at least three lines of an answer. Distinct: the files differ.")
    tpl = jail.make_template(c.scratch, {"/usr/bin/cards": build.cards("asan")})
    n = c.size(1500, 20000)
    c.run(tpl, conf_case, [[c.seed, i] for i in range(n)])
    c.finish(min_nontrivial=400)

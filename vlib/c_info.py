"""What pkginfo says about a state, against what the history that led to it makes true."""
import os, re, stat, time

from . import build, core, engine, jail
from .engine import History, Profile, compare, register, tool
from .fsnap import snap
from .model import DB, b, ere
from .pkgs import NAMES

INFO = register(Profile("info", {"install": 5, "upgrade": 3, "remove": 2}, nops=(3, 6), rules=.15, forced=.5, scripts=.05, admin=.1, npk=(3, 6),
                        autodep=.35, foreign_arch=0, progress=0))
PATTERNS = ["^/etc/", "conf$", "/lib[xyz]\\.so", "x y", "(a|b)\\.conf$", ".", "nomatch", "^/usr/share/(doc/)?[a-z]+$", "/$", "^/top$", "\\+", "www/.*/[cd]",
            "^etc", "t\u00e9st", "^/opt/app/-opt$", "[[:digit:]]"]
UNIT = {"": 1, "K": 1024, "M": 1024 ** 2, "G": 1024 ** 3}


def lsmode(kind, mode):
    t = {"f": stat.S_IFREG, "d": stat.S_IFDIR, "l": stat.S_IFLNK, "p": stat.S_IFIFO, "h": stat.S_IFREG}[kind]
    return "lrwxrwxrwx" if kind == "l" else stat.filemode(t | mode)


class Facts:
    """a record, read by a parser of our own"""

    def __init__(self, name, meta):
        self.name = name
        self.all = {}
        for l in meta.decode("utf-8", "surrogateescape").split("\n"):
            if l:
                self.all.setdefault(l[0], []).append(l[1:])

    def one(self, k, default=""):
        return self.all.get(k, [default])[-1]

    def deps(self):
        return {d[:-10] for d in self.all.get("R", []) if len(d) > 10}


class InfoHistory(History):
    nqueries = 5

    def setup(self):
        super().setup()
        self.arcs = {}

    def choose(self):
        r = super().choose()
        if r[0] == "add":
            x, rng = r[1], self.rng
            if rng.random() < .4:
                x.alias = rng.sample(["%s-old" % x.name, "%s.alt" % x.name, "%s2" % x.name], rng.randint(1, 2))
                if rng.random() < .25:      # the name of another package
                    x.alias.append(rng.choice([n for n in NAMES if n != x.name]))
            if rng.random() < .3:
                x.sets = rng.sample(["net", "gui", "base"], rng.randint(1, 2))
            if rng.random() < .3:
                x.extra += ["T" + c for c in rng.sample(["office", "game", "lib"], rng.randint(1, 2))]
            if rng.random() < .3:
                x.group = rng.choice(["man", "doc", "devel"])
            x.collection = rng.choice(["cli", "cli", "gui", "base-extra"])
            x.description = rng.choice(["a package", "Library: for x = y", "d1", "caf\u00e9 (v2)", "N V"])
            if rng.random() < .15:
                x.space = rng.choice([2 ** 31, 5 * 2 ** 30 + 7, 1023, 1024, 2 ** 32 - 1])
            if rng.random() < .4:
                x.deps = [(rng.choice(NAMES + ["x", "lib+y2"]), 1600000000 + rng.randint(0, 5)) for _ in range(rng.randint(1, 4))]
        return r

    # -- queries -------------------------------------------------------------------------------
    def q(self, *args, code=0):
        tail, cwd = self.rootargs(None)
        parts = [list(args), tail]
        self.rng.shuffle(parts)
        argv = ["/usr/bin/pkginfo"] + parts[0] + parts[1]
        r = self.exec(argv, cwd)
        self.res.counts["query_" + args[0].strip("-")] += 1
        self.res.tags.add(args[0] + "/" + str(r.rc))
        self.ctx = "%s (in %s): exit %d\nstdout: %s\nstderr: %s" % (" ".join(argv), cwd, r.rc, r.out[-1500:], r.err[-500:])
        s = r.san()
        if s:
            self.bad(s.split(" ")[0], s + "\n" + self.ctx)
            return None
        if (r.rc != 0) != (code != 0) or r.timeout:
            self.bad(args[0] + ":exit", "exit status, wanted %d\n%s" % (code, self.ctx))
            return None
        return r.out

    def cmp(self, what, got, want):
        if got != want:
            self.bad(what, "wrong answer\n got %r\nwant %r\n%s" % (got, want, self.ctx))
            return False
        return True

    def known_names(self):
        """every name a package can be asked for by -> its own"""
        out = {}
        for n, f in self.facts.items():
            for a in f.all.get("A", []):
                out.setdefault(a, set()).add(n)
        for n in self.facts:
            out[n] = {n}
        return {k: next(iter(v)) for k, v in out.items() if len(v) == 1}

    def extra_checks(self, what, x, o, have):
        if not super().extra_checks(what, x, o, have):
            return False
        w, rng = self.world, self.rng
        if what == "add":
            self.last = x
        self.facts = {n: Facts(n, r.meta) for n, r in w.db.items()}
        F = self.facts
        names = self.known_names()
        known = sorted(names)
        qs = ["i", "n"] + rng.sample(["l", "l", "d", "d", "b", "o", "o", "unknown", "a", "m", "f", "la"], self.nqueries)
        for k in qs:
            if k == "n":
                out = self.q("-n")
                if out is None or not self.cmp("number", out.strip(), str(len(F))):
                    return False
            elif k == "i":
                out = self.q(rng.choice(["-i", "--installed"]))
                if out is None:
                    return False
                want = []
                for n in F:
                    f = F[n]
                    rel = f.one("r", "1")
                    want.append("%s: (%s) %s %s-%s" % ("AUTO" if "d1" in w.db[n].lines() else " MAN", f.one("c"), n, f.one("V"), rel))
                if not self.cmp("installed", sorted(out.split("\n")[:-1]), sorted(want)):
                    return False
            elif k == "l" and known:
                n = rng.choice(known)
                out = self.q(rng.choice(["-l", "--list"]), n)
                if out is None or not self.cmp("list", sorted(out.split("\n")[:-1]), sorted(w.db[names[n]].files)):
                    return False
            elif k == "b" and known:
                n = rng.choice(known)
                out = self.q(rng.choice(["-b", "--buildtime"]), n)
                if out is None or not self.cmp("buildtime", out.strip(), F[names[n]].one("B")):
                    return False
            elif k == "unknown":
                n = rng.choice([n + s for n in NAMES for s in ("", "x", "-")] + [".", "alph"])
                if n in self.allnames() or os.path.lexists(n):
                    continue
                how = rng.choice(["-l", "-b", "-d"])
                out = self.q(how, n, code=1 if how == "-l" else 0)
                if out is None or not self.cmp("unknown", out.strip(), {"-l": "", "-b": "0", "-d": ""}[how]):
                    return False
            elif k == "o":
                pat = rng.choice(PATTERNS)
                out = self.q(rng.choice(["-o", "--owner"]), pat)
                if out is None:
                    return False
                e = ere(pat)
                want = sorted((F[n].one("c"), n, f) for n in F for f in w.db[n].files if e.search("/" + f))
                ls = out.split("\n")[:-1]
                if want:
                    got = sorted(tuple(l.split(None, 2)) for l in ls[1:])
                else:
                    got = [] if "no owner" in out else ls
                if self.lang == "C" and pat == "t\u00e9st":
                    continue
                if not self.cmp("owner", got, want):
                    return False
            elif k == "d" and known:
                n = rng.choice(known)
                if not self.details(n, F[names[n]]):
                    return False
            elif k in ("a", "m", "f", "la") and what == "add" and getattr(self, "last", None) is not None:
                if not self.archive(k, x):
                    return False
        d = compare(w, snap("/", skip=engine.SKIP))
        if d:
            self.bad("changed", "a query changed the system\n" + "\n".join(d))
            return False
        return True

    def allnames(self):
        return set(self.facts) | {a for f in self.facts.values() for a in f.all.get("A", [])}

    def fields(self, out):
        got = {}
        for l in out.split("\n"):
            m = re.match(r"([A-Z][\w .()]*?)\s*:\s?(.*)$", l)
            if m:
                got[m.group(1)] = m.group(2).rstrip()
        return got

    def details(self, n, f):
        out = self.q(self.rng.choice(["-d", "--details"]), n)
        if out is None:
            return False
        g = self.fields(out)
        t = time.asctime(time.gmtime(int(f.one("B"))))
        want = {"Name": f.name, "Description": f.one("D"), "Collection": f.one("c"), "URL": f.one("U"), "License": f.one("L"), "Contributor(s)": f.one("C"),
                "Packager": f.one("P"), "Version": f.one("V"), "Release": f.one("r", "1"), "Build date": t, "Arch": f.one("a"),
                "Man. installed": "No" if "d1" in self.world.db[f.name].lines() else "Yes"}
        if "g" in f.all:
            want["Group"] = f.one("g")
        for k, v in want.items():
            if g.get(k) != v:
                self.bad("details:" + k, "%s: got %r, want %r\n%s" % (k, g.get(k), v, self.ctx))
                return False
        for k, letter in (("Alias", "A"), ("Categories", "T"), ("Sets", "s")):
            if set(g.get(k, "").split()) != set(f.all.get(letter, [])):
                self.bad("details:" + k, "%s: got %r, want %r\n%s" % (k, g.get(k), f.all.get(letter), self.ctx))
                return False
        if set(g.get("Dependencies", "").split()) != f.deps():
            self.bad("details:Dependencies", "got %r, want %r\n%s" % (g.get("Dependencies"), f.deps(), self.ctx))
            return False
        m = re.match(r"\s*([\d.]+)\s*([KMG]?)\s*bytes$", g.get("Installed Size", ""))
        size = int(f.one("S", "0"))
        if not m or abs(float(m.group(1)) * UNIT[m.group(2)] - size) > max(.6, size * .006):
            self.bad("details:size", "Installed Size %r, want %d\n%s" % (g.get("Installed Size"), size, self.ctx))
            return False
        return True

    def archive(self, k, x):
        """what is said of a package file"""
        rng = self.rng
        comp = rng.choice(["", "gz", "xz", "bz2"])
        arc = "/w/pkgs/query.cards.tar" + ("." + comp if comp else "")
        open(arc, "wb").write(x.archive(comp))
        f = Facts(x.name, x.meta())
        if k == "la":
            out = self.q("-l", arc)
            return out is not None and self.cmp("list-archive", sorted(out.split("\n")[:-1]), sorted(set(x.manifest())))
        if k == "m":
            out = self.q(rng.choice(["-m", "--meta"]), arc)
            want = [l for l in x.meta().decode().split("\n") if l]
            return out is not None and self.cmp("meta", [l for l in out.split("\n") if l], want)
        if k == "a":
            out = self.q(rng.choice(["-a", "--archive"]), arc)
            if out is None:
                return False
            p = x.name + " : "
            g = self.fields("\n".join(l[len(p):] for l in out.split("\n") if l.startswith(p)))
            want = {"Description": f.one("D"), "Group": f.one("g"), "URL": f.one("U"), "License": f.one("L"), "Contributor(s)": f.one("C"),
                    "Packager": f.one("P"), "Version": f.one("V"), "Release": f.one("r", "0"), "Architecture": f.one("a"),
                    "Build date": f.one("B")}
            for kk, v in want.items():
                if g.get(kk) != v:
                    self.bad("archive:" + kk, "%s: got %r, want %r\n%s" % (kk, g.get(kk), v, self.ctx))
                    return False
            got = set(g.get("Dependencies", "").split()) - {x.name + f.one("B")}
            return self.cmp("archive:Dependencies", got, set(f.all.get("R", [])) - {x.name + f.one("B")})
        out = self.q(rng.choice(["-f", "--footprint"]), arc)
        if out is None:
            return False
        users, groups = {0: "root", 33: "usera"}, {0: "root", 33: "groupa"}
        want = []
        modes = {e.path: e.mode for e in x.ents if e.kind == "f"}
        special = [(n, s) for n, s in ((".META", x.meta()), (".MTREE", x.mtree()), (".PRE", x.pre), (".POST", x.post), (".PRER", x.prer), (".POSTR", x.postr)) if s is not None]
        for n, s in special:
            want.append("-rw-r--r--\troot/root\t%s%s" % (n, "" if s else " (EMPTY)"))
        for e in x.ents:
            l = "%s\t%s/%s\t%s" % (lsmode(e.kind, modes[e.data.decode()] if e.kind == "h" else e.mode), users.get(e.uid if e.kind not in "hlp" or 1 else 0, e.uid),
                                   groups.get(e.gid, e.gid), e.name())
            if e.kind == "l":
                l += " -> " + e.data.decode()
            elif e.kind == "f" and not e.data or e.kind == "h":
                l += " (EMPTY)"
            want.append(l)
        strip = lambda l: re.sub(r" \(EMPTY\)$", "", l)
        got = out.split("\n")[:-1]
        links = {e.path for e in x.ents if e.kind == "h"}
        norm = lambda ls: [strip(l) if l.split("\t")[-1].replace(" (EMPTY)", "") in links else l for l in ls]
        if self.lang == "C" and any(ord(c) > 127 for e in x.ents for c in e.path):
            return True     # how such names are shown is up to the locale
        return self.cmp("footprint", norm(got), norm(want))


def case(task):
    seed, index = task[:2]
    return InfoHistory(seed, INFO, index).run()


def template(scratch):
    t = build.tools("asan")
    return jail.make_template(scratch, {"/usr/bin/pkgadd": t, "/usr/bin/pkgrm": t, "/usr/bin/pkginfo": t})


def info(pid):
    c = core.Check(pid, "what pkginfo says",
                   "A case is a history of package operations (with aliases, sets, categories, groups, automatic packages, rules, administrator edits); after every operation pkginfo "
                   "is asked for several things (installed packages, their number, lists of files, details, owners, build times, contents of archives) "
                   "and its answers compared with the model. Non-trivial: an operation took effect. Distinct: the whole written-out history differs.",
                   assumptions=["times are shown in UTC: there is no zone file in the jail"])
    n = c.size(220, 4000)
    c.run(template(c.scratch), case, [[c.seed, i] for i in range(n)])
    c.finish(min_nontrivial=80)

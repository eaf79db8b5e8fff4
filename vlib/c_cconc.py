"""Several cards commands at the same time: packages, metadata and downloads stay whole, and done is done."""
import hashlib, itertools, os, re, subprocess, time

from . import build, c_cards, core, engine, jail, repo
from .c_cards import ALL, DEPOT, LOCAL, CardsHistory, Dir
from .c_conc import LOCKED, Job, ConcHistory
from .engine import Profile, register
from .fsnap import norm, snap
from .model import DB, FS, Rec

PROF = Profile("cconc", start=(1, 2), ops=dict(install=1), nops=(0, 0), npk=(4, 8), overlap=0, forced=1, scripts=0)
PROF.confs = ALL
register(PROF)


class Many(CardsHistory):
    launch = ConcHistory.launch

    def job(self, k=None):
        rng = self.rng
        view = self.view(self.depots())
        k = k or rng.choices(["install", "upgrade", "sync", "remove", "list", "listb", "infob", "installed", "diff", "search"], [6, 3, 3, 1.5, .7, 1.2, .8, .8, .5, .5])[0]
        easy = [n for n in sorted(view) if "." not in n and self.obtainable(n, view)]
        db = sorted(self.world.db)
        x = []
        if k == "install":
            x = rng.sample(easy, min(len(easy), rng.choice([1, 1, 2, 3])))
            if not x:
                k = "sync"
        if k == "remove":
            x = rng.sample(db, min(len(db), rng.choice([1, 1, 2])))
            if not x:
                k = "sync"
        if k == "infob":
            x = [rng.choice(self.names)]
        argv = {"install": ["cards", "install", "-f"], "upgrade": ["cards", "upgrade", "-p"], "sync": ["cards", "sync"], "remove": ["cards", "remove", "-f"], "list": ["cards", "list"], "listb": ["cards", "list", "-b"],
                "infob": ["cards", "info", "-b"], "installed": ["pkginfo", "-i"], "diff": ["cards", "diff"], "search": ["cards", "search", "al"]}[k] + x
        return Job(k, x, {}, ["/usr/bin/" + argv[0]] + argv[1:], "/w")

    def obtainable(self, n, view):
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            if x not in view:
                return False
            seen.add(x)
            todo += [m for m, _ in view[x][0].pkg.deps]
        return True

    def note_versions(self):
        """every package there ever was on a mirror"""
        for c in self.colls.values():
            for e in c.entries.values():
                self.every.setdefault(e.name, {})[frozenset(l for l in e.pkg.meta().decode().split("\n") if l)] = e.pkg
                self.archives.setdefault(e.fname, set()).add(e.data)

    def line_of(self, d, e):
        return "(%s) %s %s-%s" % (e.pkg.collection or d.coll, e.name, e.pkg.version, e.pkg.release)

    def whole(self):
        """what is installed is, package for package, what some mirror had"""
        have = snap("/", skip=c_cards.SKIP)
        db, owned, out = {}, set(), []
        for p in have:
            if p.startswith(DB) and "/" not in p[len(DB):]:
                n = p[len(DB):]
                m, f = have.get(p + "/META"), have.get(p + "/files")
                extra = [q for q in have if q.startswith(p + "/") and q[len(p) + 1:] not in ("META", "files")]
                if m is None or f is None or extra:
                    out.append("the record of %s has META %s, files %s and %s" % (n, m is not None, f is not None, extra))
                    continue
                meta, files = open("/" + p + "/META", "rb").read(), open("/" + p + "/files", "rb").read()
                lines = frozenset(l for l in meta.decode().split("\n") if l and l != "d1")
                pkg = self.every.get(n, {}).get(lines)
                if pkg is None:
                    out.append("the record of %s is of no package there was: %r" % (n, meta))
                    continue
                names = [l for l in files.decode().split("\n") if l]
                if sorted(names) != sorted(set(pkg.manifest())):
                    out.append("the files of %s %s are recorded as %s" % (n, pkg.version, names))
                db[n] = Rec(meta, names)
                for e in pkg.ents:
                    q = have.get(e.path)
                    if e.kind != "d":
                        owned.add(e.path)
                    if q is None or q.kind != e.kind or e.kind in "fl" and q.data != (norm(e.data) if e.kind == "f" else e.data):
                        out.append("%s of %s %s is %r" % (e.path, n, pkg.version, q))
        left = [p for p, q in have.items() if q.kind != "d" and not p.startswith(DB) and p not in owned and p not in self.base]
        if left:
            out.append("files of no package: %s" % sorted(left)[:6])
        if out:
            return out
        self.world.db = db
        self.world.fs = FS({p: n for p, n in have.items() if not p.startswith(DB)})
        self.res.counts["packages_compared"] += len(db)
        return None

    def round(self):
        rng, res = self.rng, self.res
        dep0 = self.depots()
        old = {d: self.meta_of(d, dep0) for d in self.dirs}
        if rng.random() < .6:
            for _ in range(rng.choice([1, 2, 3])):
                n = rng.choice(self.names)
                d = rng.choice(self.home[n])
                if rng.random() < .25:      # an upgrade removes what is obsolete
                    self.drop(n, d)
                else:
                    self.make(n, d)
            self.publish_all()
            self.note_versions()
            self.note("published")
        elif rng.random() < .5:      # everything has to be fetched again
            for p in list(dep0):
                if ".cards-" in p and any(p.startswith(d.path + "/") and d.mirror is not None for d in self.dirs):
                    os.unlink(p)
            self.note("downloads deleted")
        n = rng.choice([2, 2, 3, 3, 4])
        jobs = [self.job() for _ in range(n)]
        if rng.random() < .3:
            j = jobs[0]
            jobs[1] = Job(j.what, j.x, j.fl, j.argv, j.cwd)
        elif rng.random() < .35:     # questions while the metadata changes
            jobs[:2] = [self.job(rng.choice(["sync", "sync", "upgrade"])), self.job(rng.choice(["listb", "listb", "search", "infob"]))]
        before = set(self.world.db)
        if not self.launch(jobs):
            res.inconclusive = "timeout"
            return False
        told = []
        for j in jobs:
            j.lost = j.r.rc == 1 and LOCKED in j.r.err
            told.append("%s -> %d%s %.1f..%.1f ms" % (" ".join(j.argv), j.r.rc, " locked" if j.lost else "", (j.start - jobs[0].start) * 1e3, (j.end - jobs[0].start) * 1e3))
            self.note(told[-1])
        said = "\n".join("%s: exit %d\n  out %s\n  err %s" % (" ".join(j.argv), j.r.rc, j.r.out[-500:], j.r.err[-500:]) for j in jobs)

        def bad(k, m):
            self.bad(k, m + "\n" + said)
            return False
        res.counts["rounds_of_%d" % n] += 1
        for j in jobs:
            res.counts["%s_%s" % (j.what, "locked" if j.lost else "done" if j.r.rc == 0 else "failed")] += 1
            s = None if j.lost else j.r.san()
            if s:
                return bad(s.split(" ")[0], s)
            if j.r.rc not in (0, 1) or j.r.rc == 1 and not j.r.err.strip():
                return bad("exit", "%s ends with %d and without a message" % (" ".join(j.argv), j.r.rc))
        if all(j.lost for j in jobs):
            return bad("nobody", "each of the commands says the database is locked")
        self.sigops += [j.what for j in jobs]
        res.counts["overlapping_pairs"] += sum(1 for p, q in itertools.combinations(jobs, 2) if p.start < q.end and q.start < p.end)
        # packages
        out = self.whole()
        if out:
            return bad("whole", "not every package is whole\n" + "\n".join(out[:6]))
        # metadata
        dep = self.depots()
        new = {}
        fetched = any(j.what in ("sync", "upgrade", "diff") and j.r.rc == 0 for j in jobs)
        for d in self.dirs:
            m = self.meta_of(d, dep)
            if d.mirror is None:
                new[d] = m
                continue
            now = self.metas.get(self.colls[d.source()].repo())
            new[d] = now
            if m is not now and not empty(m, now) and (fetched or m is not old[d] and not empty(m, old[d])):
                return bad("metadata", "%s/.REPO is neither what it was nor what it is to be, or not what a command which succeeded fetched: %s" % (d.path, c_cards._d(dep.get(d.path + "/.REPO"))))
            f = dep.get(d.path + "/.FILES")
            if fetched and f != self.colls[d.source()].files():
                return bad("metadata", "%s/.FILES is not what a command which succeeded fetched: %s" % (d.path, c_cards._d(f)))
            if fetched and dep.get(d.path + "/.PKEY") != self.keys[d.source()].pem():
                return bad("metadata", "%s/.PKEY is not what was fetched" % d.path)
        for p in dep:
            n_ = os.path.basename(p)
            if n_.startswith(".") and n_ not in (".REPO", ".FILES", ".PKEY", ".REPO.zst", ".FILES.zst") and all(j.r.rc == 0 for j in jobs):
                return bad("litter", "all went well, but %s is left" % p)
            if not n_.startswith(".") and all(j.r.rc == 0 for j in jobs) and dep[p] not in self.archives.get(n_, ()):
                return bad("download", "all went well, but %s is %s" % (p, c_cards._d(dep[p])))
        # what was done is done
        removing = any(j.what == "remove" for j in jobs)
        obsolete = {a for a in before if a not in self.view(dep)} if any(j.what == "upgrade" for j in jobs) else set()
        for j in jobs:
            if j.what == "install" and j.r.rc == 0 and not removing:
                view = self.view(dep0)
                todo, seen = list(j.x), set()
                while todo:
                    a = todo.pop()
                    if a in seen:
                        continue
                    seen.add(a)
                    if a not in self.world.db and a in obsolete:
                        continue        # an upgrade, which knew that it is gone from the mirrors, came after
                    if a not in self.world.db:
                        return bad("install", "%s succeeded, but %s is not there" % (" ".join(j.argv), a))
                    if a in before:
                        continue        # a removal at the same time may have left it without what it needs, long ago
                    todo += [m for m, _ in next(p for l, p in self.every[a].items() if l == frozenset(x for x in self.world.db[a].lines() if x != "d1")).deps]
                res.counts["installations_judged"] += 1
            if j.what == "remove" and j.r.rc == 0 and not any(q.what in ("install", "upgrade") for q in jobs):
                gone = [a for a in j.x if a in self.world.db]
                if gone:
                    return bad("remove", "%s succeeded, but %s is still there" % (" ".join(j.argv), gone))
            if j.what == "upgrade" and j.r.rc == 0 and not any(q.what in ("install", "remove") for q in jobs) and not any(m is None for m in new.values()):
                view = self.view(dep)
                for a in before & set(self.world.db):
                    if a in view and self.build_of(self.world.db[a]) < view[a][0].pkg.build:
                        return bad("upgrade", "%s succeeded, but %s is not the one of the mirror" % (" ".join(j.argv), a))
                res.counts["upgrades_judged"] += 1
            # what is read is what was or what is to be
            if j.what == "listb" and j.r.rc == 0:
                lines = set(j.r.out.split("\n")[:-1])
                may = {self.line_of(d, e) for d in self.dirs for m in (old[d], new[d]) if m is not None for e in m.entries}
                must = {self.line_of(d, e) for d in self.dirs if old[d] is not None and new[d] is not None for e in old[d].entries
                        if any(self.line_of(d, z) == self.line_of(d, e) for z in new[d].entries)}
                if lines - may or must - lines:
                    return bad("read", "%s lists %s and misses %s" % (" ".join(j.argv), sorted(lines - may), sorted(must - lines)))
                res.counts["lists_judged"] += 1
            if j.what == "installed" and j.r.rc == 0:
                lines = set(re.findall(r"^(?:AUTO| MAN): \(.*?\) (\S+) (\S+)", j.r.out, re.M))
                may = {(a, "%s-%s" % (p.version, p.release)) for a, ps in self.every.items() for p in ps.values()}
                must = {a for a in before & set(self.world.db)} if not removing else set()
                if lines - may or must - {a for a, _ in lines}:
                    return bad("read", "%s lists %s and misses %s" % (" ".join(j.argv), sorted(lines - may), sorted(must - {a for a, _ in lines})))
            if j.what in ("list", "listb", "infob", "installed", "search") and j.r.rc != 0 and not j.lost:
                return bad("reader", "%s fails" % " ".join(j.argv))
            if j.what in ("sync", "install", "upgrade", "diff") and j.r.rc != 0 and not j.lost:
                if j.what == "sync":
                    return bad("disturbed", "%s fails: %s" % (" ".join(j.argv), j.r.err[-300:]))
                res.counts["%s_disturbed" % j.what] += 1
        res.tags.add(hashlib.md5(repr([(j.what, j.r.rc, j.lost) for j in jobs]).encode()).hexdigest()[:10])
        return True

    def run(self):
        rng, res = self.rng, self.res
        self.sigops, self.easy = [], None
        self.every, self.archives = {}, {}
        self.setup()
        self.base = {p for p, n in self.world.fs.n.items() if n.kind != "d"}
        self.note_versions()
        ok = self.c_sync()
        for _ in range(rng.randint(*self.prof.start)):
            ok = ok and self.c_start()
        for _ in range(rng.randint(3, 6)):
            ok = ok and self.round()
        res.sig = hashlib.md5("\n".join(self.trace).encode("utf-8", "surrogateescape")).hexdigest()
        res.nontrivial = res.counts["overlapping_pairs"] > 0
        res.sample = self.trace[-6:] if self.index < 3 else None
        return res


def empty(m, n):
    """two collections without any package have the same metadata"""
    return m is not None and n is not None and not m.entries and not n.entries


def case(task):
    return Many(task[0], PROF, task[1]).run()


def check(pid):
    c = core.Check(pid, "cards commands at the same time",
                   "A case is a history of 3-6 rounds on a random system with mirrors; in each, two to four cards commands (install, upgrade, sync, remove, diff and questions, among them the very same command twice) and pkginfo run at the same time, with delays injected before "
                   "their system calls. Afterwards every installed package is, in record and files, one there was on a mirror, metadata is what it was or what the mirror has, commands that succeeded have had their effect, answers are of packages there were. "
                   "Non-trivial: commands overlapped. Distinct: the written-out history, outcomes included, differs.",
                   assumptions=["which interleavings occur is up to the scheduler and the injected delays", "a command may be turned away because the database is locked; what it did before then is whole, and stays"])
    t = build.tools("asan")
    tpl = jail.make_template(c.scratch, {"/usr/bin/cards": build.cards("asan"), "/usr/bin/pkgadd": t, "/usr/bin/pkgrm": t, "/usr/bin/pkginfo": t, "/usr/bin/systrace": build.ctool("systrace")})
    n = c.size(240, 3000)
    c.run(tpl, case, [[c.seed, i] for i in range(n)])
    c.finish(min_nontrivial=100)

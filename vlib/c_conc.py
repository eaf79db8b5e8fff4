"""Concurrent pkgadd, pkgrm and pkginfo: one at a time, or told that somebody else is at it."""
import hashlib, itertools, os, random, subprocess, time

from . import build, core, engine, jail
from .engine import ENV, History, Profile, RunOut, SKIP, compare, gen_pkg, register
from .fsnap import snap
from .model import DB, FS, b

PROF = register(Profile("conc", {"install": 5, "upgrade": 4, "remove": 4}, nops=(3, 5), rules=.3, forced=.4, scripts=0, admin=.1, npk=(3, 5), host=.3,
                        symdir=0, autodep=.3, progress=0, foreign_arch=0, links=.4, badrules=0))
LOCKED = "currently locked"


class Job:
    def __init__(self, what, x, fl, argv, cwd):
        self.what, self.x, self.fl, self.argv, self.cwd = what, x, fl, argv, cwd


class ConcHistory(History):
    def job(self):
        rng, prof = self.rng, self.prof
        r = rng.random()
        args, cwd = self.rootargs(None)
        if r < .2:
            names = sorted(self.world.db) or ["alpha"]
            q = rng.choice([["-i"], ["-i"], ["-l", rng.choice(names)]])
            return Job("info", q, {}, ["/usr/bin/pkginfo"] + q + args, cwd)
        what, x, fl = self.choose()
        if what == "rm":
            return Job("rm", x, {}, ["/usr/bin/pkgrm"] + args + [x], cwd)
        if self.world.rules_text:
            x.ents = [e for e in x.ents if e.kind != "h"]
        fl["f"], fl["i"] = rng.random() < prof.forced, False
        self.narc += 1
        arc = "/w/pkgs/%s%s-%d.cards.tar" % (x.name, x.version, self.narc)
        comp = rng.choice(["", "", "gz", "xz"])
        arc += "." + comp if comp else ""
        with open(arc, "wb") as f:
            f.write(x.archive(comp))
        return Job("add", x, fl, ["/usr/bin/pkgadd"] + (["-u"] if fl["u"] else []) + (["-f"] if fl["f"] else []) + args + [arc], cwd)

    def launch(self, jobs):
        rng = self.rng
        procs = []
        t0 = time.time()
        plan = []
        for j in jobs:
            mode = rng.choice(["none", "mut", "mut", "read"])
            plan.append((rng.choice([0, 0, 0, .005, .02, .05]), mode, rng.randrange(1, 10 ** 6), rng.choice([50, 200, 600]), rng.choice([300, 2000, 8000])))
        for k in sorted(range(len(jobs)), key=lambda k: plan[k][0]):
            off, mode, seed, prob, us = plan[k]
            d = t0 + off - time.time()
            if d > 0:
                time.sleep(d)
            j = jobs[k]
            pre = [] if mode == "none" else ["/usr/bin/systrace", "-c", mode, "-d", "%d:%d:%d" % (seed, prob, us), "--"]
            e = dict(ENV, LC_ALL=self.lang)
            j.start = time.time()
            j.p = subprocess.Popen(pre + j.argv, cwd=j.cwd, env=e, stdin=subprocess.DEVNULL, stdout=open("/tmp/out%d" % k, "wb"),
                                   stderr=open("/tmp/err%d" % k, "wb"), start_new_session=True)
            j.k = k
            procs.append(j)
        end = time.time() + 90
        left = set(procs)
        while left and time.time() < end:
            for j in list(left):
                if j.p.poll() is not None:
                    j.end = time.time()
                    left.discard(j)
            time.sleep(.001)
        for j in left:
            os.killpg(j.p.pid, 9)
            j.p.wait()
        for j in jobs:
            rd = lambda n: open("/tmp/%s%d" % (n, j.k), "rb").read().decode("utf-8", "surrogateescape")
            j.r = RunOut(j.p.returncode, rd("out"), rd("err"), j in left)
        return not left

    def step(self):
        rng, w, res = self.rng, self.world, self.res
        n = rng.choice([1, 2, 2, 3, 3, 4])
        jobs = [self.job() for _ in range(n)]
        if n > 1 and rng.random() < .25:      # the very same command several times
            j = jobs[0]
            jobs[1] = Job(j.what, j.x, j.fl, j.argv, j.cwd)
        if not self.launch(jobs):
            res.inconclusive = "timeout"
            return False
        for j in jobs:
            j.lost = j.r.rc == 1 and LOCKED in j.r.err
            self.note("%s -> %d%s [%s] %.1f..%.1f ms" % (" ".join(j.argv), j.r.rc, " locked" if j.lost else "", j.x.show() if j.what == "add" else "",
                                                         (j.start - jobs[0].start) * 1e3, (j.end - jobs[0].start) * 1e3))
        for j in jobs:
            s = None if j.lost else j.r.san()
            if s:
                self.bad(s.split(" ")[0], s)
                return False
        self.sigops += ["%s%s" % (j.what, "-locked" if j.lost else "") for j in jobs]
        if all(j.lost for j in jobs):
            self.bad("nobody", "every one of the commands says the database is locked")
            return False
        win = [j for j in jobs if not j.lost and j.what != "info"]
        readers = [j for j in jobs if not j.lost and j.what == "info"]
        res.counts["rounds_of_%d" % n] += 1
        res.counts["commands_done"] += len(win)
        res.counts["commands_locked_out"] += sum(j.lost for j in jobs)
        res.counts["readers"] += len(readers)
        have = snap("/", skip=SKIP)
        ok, why = None, []
        for perm in itertools.permutations(win):
            if any(perm[k].start > perm[m].end for k in range(len(perm)) for m in range(k + 1, len(perm))):
                continue
            why.append(self.explains(perm, readers, have))
            if why[-1] is None:
                ok = perm
                break
        if ok is None:
            self.bad("serial", "no order of the commands explains the outcome\n%s\n%s" % (
                "\n".join(why[:6]), "\n".join("%s: %d %s %s" % (" ".join(j.argv), j.r.rc, j.r.out[-300:], j.r.err[-300:]) for j in jobs)))
            return False
        if len(win) > 1:
            res.counts["orders_explained"] += 1
            res.tags.add(hashlib.md5(repr([(j.what, j.fl.get("u"), j.r.rc, jobs.index(j)) for j in ok]).encode()).hexdigest()[:10] + str(n))
        overlap = sum(1 for p, q in itertools.combinations(jobs, 2) if p.start < q.end and q.start < p.end)
        res.counts["overlapping_pairs"] += overlap
        self.world = self.after
        for j in ok:
            if j.what == "add" and j.r.rc == 0:
                self.latest[j.x.name] = j.x
        self.world.fs = FS({p: n for p, n in have.items() if not p.startswith(self.p + DB)})
        return True

    def infos(self, w, j):
        if j.x[0] == "-i":
            return 0, sorted("%s %s-%s" % (n, self.field(r, "V"), self.field(r, "r", "1")) for n, r in w.db.items())
        n = j.x[1]
        if n not in w.db:  # a name an installed package provides will do
            n = max((m for m, r in w.db.items() if "A" + n in r.lines()), default=None)
        return (0, sorted(w.db[n].files)) if n else (1, [])

    def field(self, r, k, default=""):
        return next((l[1:] for l in r.lines() if l.startswith(k)), default)

    def explains(self, perm, readers, have):
        w = self.world.copy()
        states = [w.copy()] if readers else []
        for j in perm:
            if j.what == "add":
                o = self.model.add(w, j.x, u=j.fl["u"], f=j.fl["f"], i=False, rootgiven=not self.host)
            else:
                o = self.model.rm(w, j.x)
            if o.code != j.r.rc:
                return "%s would exit with %d (%s)" % (" ".join(j.argv), o.code, o.cls)
            if o.err and o.err not in j.r.err:
                return "%s would say %s" % (" ".join(j.argv), o.err)
            if o.lists and not o.lists <= set(j.r.err.split("\n")):
                return "%s would list %s" % (" ".join(j.argv), sorted(o.lists))
            if readers:
                states.append(w.copy())
        d = compare(w, have)
        if d:
            return "tree: " + "\n".join(d[:3])
        for j in readers:
            got = sorted(j.r.out.split("\n")[:-1])
            if j.x[0] == "-i":
                got = sorted(l.split(None, 2)[2].split(") ")[-1] if l.startswith(" MAN") else l.split(") ", 1)[1] for l in got)
            if not any(self.infos(s, j) == (j.r.rc, got) for s in states):
                return "%s saw no state there ever was: %r" % (" ".join(j.argv), j.r.out)
        self.after = w
        return None

    def run(self):
        self.narc = 0
        return super().run()

    def counts_as(self, cls):
        return True


def case(task):
    seed, index = task[:2]
    h = ConcHistory(seed, PROF, index)
    r = h.run()
    r.nontrivial = r.counts["overlapping_pairs"] > 0 and r.counts["commands_done"] > 0
    return r


def check(pid):
    c = core.Check(pid, "concurrent commands",
                   "A case is a history of rounds; in each round up to four pkgadd, pkgrm and pkginfo (among them the very same command several times) run at the same time on one root, "
                   "with delays injected before their system calls. The outcome must be explained by some order (respecting the order in time) of the commands that were not turned away, those turned away having done nothing. "
                   "Non-trivial: commands overlapped in time and at least one took effect. Distinct: the written-out history, outcomes included, differs.",
                   assumptions=["which interleavings occur is up to the scheduler and the injected delays; a replay runs the same commands and delays, not necessarily the same schedule",
                                "package scripts, which run without the lock, are not part of these histories"])
    t = build.tools("asan")
    tpl = jail.make_template(c.scratch, {"/usr/bin/pkgadd": t, "/usr/bin/pkgrm": t, "/usr/bin/pkginfo": t, "/usr/bin/systrace": build.ctool("systrace")})
    n = c.size(500, 6000)
    c.run(tpl, case, [[c.seed, i] for i in range(n)])
    c.finish(min_nontrivial=100)

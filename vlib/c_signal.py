"""Signals which end a program, at chosen points of an operation: a package is changed completely or not at all."""
import hashlib, os, re

from . import build, c_cards, c_cconc, core, engine, jail
from .c_crash import TLOG, TRACE, Scenario, calls, copytree
from .engine import Profile, compare, register, tool
from .fsnap import snap
from .model import DB

SKIP = engine.SKIP | {"/w/base", "/w/trace"}
PROF = register(Profile("signal", {"install": 4, "upgrade": 5, "remove": 4}, nops=(1, 4), rules=.3, forced=.5, scripts=0, admin=.2,
                        host=0, npk=(3, 5), progress=0, foreign_arch=0, autodep=.3, symdir=0, prepop=.4))
CPROF = Profile("csignal", start=(1, 2), ops=dict(install=1), nops=(0, 0), npk=(4, 8), overlap=0, forced=1, scripts=0)
CPROF.confs = c_cards.ALL
register(CPROF)
SIGS = {1: "HUP", 2: "INT", 3: "QUIT", 15: "TERM", 13: "PIPE"}
c_cards.SKIP = set(c_cards.SKIP) | {"/w/trace"}


def unlocked(db, mine):
    """changes of records and files of packages while nobody has the lock, without which signals end the program; how many were looked at"""
    out, n = [], 0
    for _, own, name, path in calls():
        f = os.path.normpath(path).lstrip("/")
        if own and (f in mine or f.startswith(db)):
            n += 1
            if name.endswith("!"):
                out.append("%s %s" % (name[:-1], path))
    return out, n


def options(rng, n):
    """-t and what it means"""
    sig = rng.choice([1, 2, 2, 3, 15, 15, 13])
    k = rng.randint(1, max(1, n))
    every = rng.random() < .3
    ign = sig != 13 and rng.random() < .25
    return sig, k, every, ign


def tools_case(s):
    res, rng = s.res, s.rng
    ok = s.prepare()
    if ok is False:
        return res
    if ok is None:
        res.counts["no_target"] += 1
        return res
    s.argv = s.argv[:1] + (["-p"] if rng.random() < .4 else []) + s.argv[1:]
    # undisturbed runs, for the number of calls
    cs = {}
    for cl in ("mut", "read"):
        s.restore()
        r = tool([TRACE, "-c", cl, "-w", "/w/root/" + DB, "-o", TLOG, "--"] + s.argv)
        if r.rc == 120:
            raise core.CheckError("systrace: " + r.err)
        d = compare(s.B, snap("/", skip=SKIP))
        if r.rc != 0 or d:
            s.bad("undisturbed", "exit %d %s\n%s" % (r.rc, r.err[-500:], "\n".join(d)))
            return res
        if cl == "mut":
            mine = {s.p + f for w in (s.A, s.B) for m in w.db.values() for f in m.files if not f.endswith("/")}
            out, n = unlocked(s.p + DB, mine)
            res.counts["changes_under_lock"] += n - len(out)
            if out:
                s.bad(s.o.cls + ":unlocked", "signals end it, as the database is not locked, at\n" + "\n".join(out[:8]))
                return res
        cs[cl] = [(k, own, nm.rstrip("!"), q) for k, own, nm, q in calls()]
        res.counts["calls_" + s.o.cls] += len(cs[cl])
    for _ in range(16):
        cl = rng.choice(["mut", "mut", "read"])
        sig, k, every, ign = options(rng, len(cs[cl]))
        s.restore()
        r = tool([TRACE, "-c", cl, "-t", "%d:%d%s" % (k, sig, ":all" if every else "")] + (["-i"] if ign else []) + ["-o", TLOG, "--"] + s.argv)
        at = cs[cl][k - 1] if k <= len(cs[cl]) else (0, 0, "?", "?")
        where = "%s%s at%s %s %s (call %d of %d): exit %d\nstdout %s\nstderr %s" % (SIGS[sig], " (ignored from the start)" if ign else "", " each from" if every else "", at[2], at[3], k, len(cs[cl]),
                                                                                 r.rc, r.out[-300:], r.err[-500:])
        if r.timeout:
            res.inconclusive = where
            return res
        m = s.judged(r, sig, ign, where, lambda have, done: s.state(have, done))
        if m:
            s.bad(s.o.cls + ":" + m[0], m[1])
            return res
        res.tags.add("%s/%s/%s/%s%s/%d" % (s.o.cls, SIGS[sig], at[2], re.sub(r"\d+", "N", os.path.basename(at[3]) if DB in at[3] or "/." in at[3] else "file"), "/ignored" if ign else "", r.rc))
    res.sig = hashlib.md5("\n".join(s.trace).encode("utf-8", "surrogateescape")).hexdigest()
    res.nontrivial = res.counts["signals"] > 3
    res.sample = s.trace[-3:] if s.index < 4 else None
    return res


class Interrupted(Scenario):
    def judged(self, r, sig, ign, where, state):
        self.res.counts["signals"] += 1
        if r.rc == 128 + sig and not ign:
            m = state(snap("/", skip=SKIP), False)
            return ("half", "%s\n%s" % (m, where)) if m else None
        if r.rc != 0:
            return "exit", "an ignored signal ends it\n" + where if ign and r.rc == 128 + sig else "it fails for the signal\n" + where
        self.res.counts["survived"] += 1
        m = state(snap("/", skip=SKIP), True)
        return ("survived", "%s\n%s" % (m, where)) if m else None

    def state(self, have, done):
        if done:
            d = compare(self.B, have)
            return "it succeeds, but\n%s" % "\n".join(d) if d else None
        have = {q: n for q, n in have.items() if not re.fullmatch(re.escape(self.p) + r"\.(META|MTREE|INFO|PRER?|POSTR?)(\.\d+)?", q)}
        a = compare(self.A, have)
        if not a:
            self.res.counts["ended_before"] += 1
            return None
        z = compare(self.B, have)
        if not z:
            self.res.counts["ended_after"] += 1
            return None
        return "neither the state before:\n%s\nnor the one after:\n%s" % ("\n".join(a[:6]), "\n".join(z[:6]))


class Many(c_cconc.Many):
    def round(self):
        rng, res = self.rng, self.res
        dep0 = self.depots()
        old = {d: self.meta_of(d, dep0) for d in self.dirs}
        if rng.random() < .6:
            for _ in range(rng.choice([1, 2, 3])):
                n = rng.choice(self.names)
                d = rng.choice(self.home[n])
                if rng.random() < .25:
                    self.drop(n, d)
                else:
                    self.make(n, d)
            self.publish_all()
            self.note_versions()
            self.note("published")
        j = self.job(rng.choices(["install", "upgrade", "remove", "sync"], [5, 5, 3, 1.5])[0])
        before = set(self.world.db)
        cl = rng.choice(["mut", "mut", "read"])
        sig, _, every, ign = options(rng, 1)
        k = int(2 ** rng.uniform(0, 8.5 if cl == "read" else 7.5))
        mine = {f for m in self.world.db.values() for f in m.files if not f.endswith("/")}
        r = tool([TRACE, "-c", cl, "-w", "/" + DB, "-t", "%d:%d%s" % (k, sig, ":all" if every else "")] + (["-i"] if ign else []) + ["-o", TLOG, "--"] + j.argv, lang=self.lang)
        cs = [(n_, own, nm.rstrip("!"), q) for n_, own, nm, q in calls()]
        reached = len(cs) >= k
        self.note("%s with %s%s at%s %s call %d%s -> %d" % (" ".join(j.argv), SIGS[sig], " (ignored)" if ign else "", " each from" if every else "", cl, k, "" if reached else " (not reached)", r.rc))
        where = "%s: exit %d\nstdout %s\nstderr %s\nat %s" % (" ".join(j.argv), r.rc, r.out[-400:], r.err[-400:], cs[k - 1][2:] if reached else None)

        def bad(key, m):
            self.bad("cards:" + key, m + "\n" + where)
            return False
        if r.timeout:
            res.inconclusive = where
            return False
        res.counts["signals" if reached else "not_reached"] += 1
        sn = r.san()
        if sn:
            return bad(sn.split(" ")[0], sn)
        killed = reached and r.rc == 128 + sig and not ign
        if not killed and (r.rc not in (0, 1) or r.rc == 1 and not r.err.strip()):
            return bad("exit", "it ends with %d" % r.rc)
        if j.what == "sync" and r.rc == 1:
            return bad("exit", "sync fails for the signal")
        res.counts["%s_%s" % (j.what, "ended" if killed else "survived" if r.rc == 0 else "failed")] += 1
        if cl == "mut":
            mine |= {f for ps in self.every.values() for p in ps.values() for f in p.manifest() if not f.endswith("/")}
            out, n_ = unlocked(DB, mine)
            res.counts["changes_under_lock"] += n_ - len(out)
            if out:
                return bad("unlocked", "signals end it, as the database is not locked, at\n" + "\n".join(out[:8]))
        out = self.whole()
        if out:
            return bad("half", "not every package is whole\n" + "\n".join(out[:6]))
        dep = self.depots()
        for d in self.dirs:
            if d.mirror is None:
                continue
            m = self.meta_of(d, dep)
            now = self.metas.get(self.colls[d.source()].repo())
            fetched = j.what in ("sync", "upgrade") and r.rc == 0
            if m is not now and not c_cconc.empty(m, now) and (fetched or m is not old[d] and not c_cconc.empty(m, old[d])):
                return bad("metadata", "%s/.REPO is neither what it was nor what it is to be, or not what was fetched: %s" % (d.path, c_cards._d(dep.get(d.path + "/.REPO"))))
        if r.rc == 0 and j.what == "install":
            for a in j.x:
                if a not in self.world.db:
                    return bad("effect", "%s succeeded, but %s is not there" % (" ".join(j.argv), a))
        if r.rc == 0 and j.what == "remove":
            for a in j.x:
                if a in self.world.db:
                    return bad("effect", "%s succeeded, but %s is still there" % (" ".join(j.argv), a))
        if r.rc == 0 and j.what == "upgrade":
            view = self.view(dep)
            for a in before & set(self.world.db):
                if a in view and self.build_of(self.world.db[a]) < view[a][0].pkg.build:
                    return bad("effect", "%s succeeded, but %s is not the one of the mirror" % (" ".join(j.argv), a))
        self.res.tags.add("%s/%s/%s/%s/%d" % (j.what, SIGS[sig], cs[k - 1][2] if reached else "-", "ignored" if ign else "", r.rc))
        return True

    def run(self):
        rng, res = self.rng, self.res
        self.sigops, self.easy = [], None
        self.every, self.archives = {}, {}
        self.setup()
        self.base = {p for p, n in self.world.fs.n.items() if n.kind != "d"}
        self.note_versions()
        ok = self.c_sync()
        for _ in range(rng.randint(*self.prof.start)):
            ok = ok and self.c_start()
        for _ in range(rng.randint(5, 9)):
            ok = ok and self.round()
        res.sig = hashlib.md5("\n".join(self.trace).encode("utf-8", "surrogateescape")).hexdigest()
        res.nontrivial = res.counts["signals"] > 1
        res.sample = self.trace[-6:] if self.index < 3 else None
        return res


def case(task):
    seed, index = task
    if index % 2:
        return Many(seed, CPROF, index).run()
    return tools_case(Interrupted(seed, PROF, index))


def check(pid):
    c = core.Check(pid, "signals",
                   "Every other case is an operation of pkgadd or pkgrm on a random state, which gets HUP, INT, QUIT, TERM or PIPE at 16 chosen system calls (or at each from one on; ignored from the start or not), and a state compared with those before and after the operation; "
                   "the others are histories of 5-9 commands of cards that get such signals, in which every package stays whole. Non-trivial: more than a few signals were sent. Distinct: the written-out history, outcomes included, differs.",
                   assumptions=["packages without scripts", "signals other than HUP, INT, QUIT, TERM and PIPE end a program anywhere (see C10, C25)"])
    t = build.tools("plain")
    tpl = jail.make_template(c.scratch, {"/usr/bin/cards": build.cards("asan"), "/usr/bin/pkgadd": t, "/usr/bin/pkgrm": t, "/usr/bin/pkginfo": t, TRACE: build.ctool("systrace")})
    n = c.size(360, 4500)
    c.run(tpl, case, [[c.seed, i] for i in range(n)])
    c.finish(min_nontrivial=100)

"""Kills and failing system calls at chosen points of cards commands, observed from outside (native/systrace)."""
import hashlib, os, re, subprocess

from . import build, core, engine, jail, repo
from .c_cards import ALL, DEPOT, LOCAL, WWW, CardsHistory
from .c_crash import ERRS, REPEATED, TLOG, TRACE, calls, lines
from .engine import Profile, register, tool
from .fsnap import INFRA, snap
from .model import DB
from .pkgs import parents

KEEP = ["/etc", "/var", "/usr/share", DEPOT, LOCAL]
SKIP = {"/proc", "/dev", "/sys", "/usr/bin", "/usr/lib", "/lib64", "/lib", WWW, "/w/pkgs", "/w/base", TLOG}
PROF = {}
for tag in ("ccrash", "cfault"):
    PROF[tag] = Profile(tag, start=(1, 2), ops=dict(install=4, remove=1.5, publish=2, upgrade=1, purge=.3), nops=(0, 4), npk=(4, 8), overlap=0, forced=1, scripts=0)
    PROF[tag].confs = ALL
    register(PROF[tag])


class Target(CardsHistory):
    """a state, a cards command on it which succeeds, and the state it leads to"""

    def cards(self, *args, **kw):
        r = super().cards(*args, **kw)
        self.argv, self.last = ["/usr/bin/cards"] + list(args), r
        return r

    def save(self):
        os.makedirs("/w/base", exist_ok=True)
        for p in KEEP:
            z = "/w/base/" + p[1:].replace("/", "_")
            if os.path.lexists(z):
                engine._rmtree(z)
            if os.path.isdir(p):
                subprocess.run(["/usr/bin/cp", "-a", p, z], check=True)

    def restore(self):
        for p in KEEP:
            if os.path.lexists(p):
                engine._rmtree(p)
            z = "/w/base/" + p[1:].replace("/", "_")
            if os.path.isdir(z):
                subprocess.run(["/usr/bin/cp", "-a", z, p], check=True)

    def look(self):
        return {p: n for p, n in snap("/", skip=SKIP).items()}

    def prepare(self):
        rng = self.rng
        self.sigops, self.easy = [], None
        self.setup()
        ok = self.c_sync()
        for _ in range(rng.randint(*self.prof.start)):
            ok = ok and self.c_start()
        for _ in range(rng.randint(*self.prof.nops)):
            ok = ok and self.step()
        if not ok:
            return False
        for _ in range(10):
            k = rng.choices(["install", "upgrade", "remove", "sync", "purge"], [5, 5, 3, 2, .5])[0]
            if k in ("upgrade", "sync"):
                if rng.random() < .7:
                    self.c_publish()
                if k == "upgrade" and rng.random() < .6:
                    self.c_publish()
            if k == "purge" and rng.random() < .6 and not self.c_install():
                return False
            self.A, self.sA, self.depA = self.world.copy(), self.look(), self.depots()
            self.save()
            if not getattr(self, "c_" + k)():
                return False
            if self.last is None or self.last.rc != 0:
                continue
            self.B, self.sB = self.world.copy(), self.look()
            if sum(1 for p in set(self.sA) | set(self.sB) if not same(self.sA.get(p), self.sB.get(p))) >= 2:
                break
        else:
            return None
        self.kind = k
        if k == "upgrade":      # the next one may have more to do
            if tool(self.argv).rc != 0:
                return None
            self.sC = self.look()
        self.plan = {n for n in set(self.A.db) | set(self.B.db) if record(self.sA, n) != record(self.sB, n)}
        self.plan |= {m for m in re.findall(r"   ADD: \(.*?\) (\S+) \S+, \d+ files: ", self.last.out) if m in self.B.db}
        self.owned = {n: {f.rstrip("/") for w in (self.A, self.B) if n in w.db for f in w.db[n].files if not f.endswith("/")} for n in self.plan}
        self.filedirs = {f.rstrip("/") for w in (self.A, self.B) for n in self.plan if n in w.db for f in w.db[n].files if f.endswith("/")}
        self.note("target: %s; plan %s" % (" ".join(self.argv), sorted(self.plan)))
        # archives which may lie in a depot for a while
        self.passing = {}
        for d in self.dirs:
            if d.mirror is not None and os.path.isdir(d.source()):
                for f in os.listdir(d.source()):
                    self.passing[(d.path + "/" + f).lstrip("/")] = open(d.source() + "/" + f, "rb").read()
        self.arriving = set(self.passing) | {p[:-4] for p in self.passing if p.endswith(".zst")}
        return True

    # -- what a state is made of -------------------------------------------------------------------
    def like(self, S, n, side):
        """is package n in state S what it is on that side?"""
        ref, w = (self.sA, self.A) if side == "A" else (self.sB, self.B)
        a, z = record(S, n), record(ref, n)
        if a != z:
            return False
        return all(same(S.get(f), ref.get(f)) for f in self.owned[n])

    def judge(self, S, where, single=True):
        out = []
        state = {}
        for n in sorted(self.plan):
            state[n] = "B" if self.like(S, n, "B") else "A" if self.like(S, n, "A") else "?"
        flight = [n for n in state if state[n] == "?"]
        if single and len(flight) > 1:
            out.append("several packages are half done: %s" % flight)
        free = set()
        for n in flight:
            free |= self.owned[n]
            free |= {DB + n} | {p for p in S if p.startswith(DB + n + "/")} | {p for w in (self.sA, self.sB) for p in w if p.startswith(DB + n + "/")}
        for n in self.plan:
            free |= {DB + n + "/files.imcomplete_transaction", DB + n + "/META.imcomplete_transaction"}
        free |= {".META", ".MTREE", ".PRE", ".POST", ".PRER", ".POSTR", ".INFO"}
        for p in sorted(set(S) | set(self.sA) | set(self.sB)):
            s, a, z = S.get(p), self.sA.get(p), self.sB.get(p)
            if p in free or same(s, a) or same(s, z):
                continue
            if p in self.filedirs and (s is None or s.kind == "d"):
                continue        # a directory of a package in the plan
            if s is not None and s.kind == "d" and any(q.startswith(p + "/") for q in self.sB):
                continue        # the way to something new
            got = open("/" + p, "rb").read() if s is not None and s.kind == "f" else None
            ref = self.passing.get(p)
            if s is None and (p in self.passing):
                continue
            if ref is not None and got is not None and (ref.startswith(got)):
                continue        # a download broken off
            if p.endswith(".new") and s is not None and s.kind == "f":
                # what is fetched or uncompressed, before it takes its place
                final = re.sub(r"(\.\d+)?\.new$", "", p)
                new = self.plain(final)
                if new is not None and new.startswith(got) or self.passing.get(final, b"").startswith(got):
                    continue
            out.append("%s: is %r, was %r, is to be %r" % (p, s, a, z))
        # what is there has what it needs
        for n in sorted(state) if single else ():
            if state[n] == "B" and n in self.B.db and not same_record(self.sA, self.sB, n):
                for m, date in self.wants(self.B.db[n]):
                    if m in self.A.db and 0 < date <= self.build_of(self.A.db[m]):
                        continue        # the one which was there will do
                    if m in state and state[m] != "B" and m in self.B.db and not self.reaches(m, n):
                        out.append("%s is there and needs %s, which is not (%s)" % (n, m, state[m]))
        self.state = state
        if out:
            return where + "\nstate of the plan: %s\n" % state + "\n".join(out[:8])
        r = tool(["/usr/bin/pkginfo", "-i"])
        if r.rc != 0 or r.san():
            return where + "\npkginfo -i fails: %d %s" % (r.rc, r.err[-600:])
        said = set(re.findall(r"^(?:AUTO| MAN): \(.*?\) (\S+) ", r.out, re.M))
        must = {n for n in self.A.db if n not in self.plan} | {n for n in state if state[n] == "A" and n in self.A.db} | {n for n in state if state[n] == "B" and n in self.B.db}
        if must - said:
            return where + "\npkginfo -i does not show %s: %s" % (sorted(must - said), r.out)
        if said - must - set(flight):
            return where + "\npkginfo -i shows %s" % sorted(said - must - set(flight))
        return None

    def plain(self, p):
        """the uncompressed metadata, while it is being written"""
        z = self.passing.get(p + ".zst")
        if z is None:
            return None
        try:
            return repo.zdecompress(z)
        except ValueError:
            return None

    def wants(self, rec):
        return {(l[1:-10], int(l[-10:])) for l in rec.lines() if l[0] == "R" and len(l) > 11}

    left = partial = frozenset()

    def reaches(self, a, z):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x == z:
                return True
            if x not in seen and x in self.B.db:
                seen.add(x)
                todo += list(self.deps_of(self.B.db[x]))
        return False

    def again(self, where):
        argv = list(self.argv)
        if argv[1] == "install" and not {"-f", "--force"} & set(argv):
            argv.append("-f")
        if argv[1] == "upgrade" and self.plan and not {"-p", "--proceed"} & set(argv):
            argv.append("-p")
        if argv[1] == "install":
            # an archive given by hand is there already, or not
            argv = [a for a in argv if not (a.startswith("/w/pkgs/") and self.state.get(os.path.basename(a).split(".cards-")[0]) == "B")]
            if all(a.startswith("-") for a in argv[2:]):
                argv = None
        r = tool(argv, timeout=60) if argv else None
        what = "repeated as %s" % " ".join(argv[1:]) if argv else "nothing to repeat"
        if r is not None and (r.timeout or r.san()):
            return "%s\n%s: %s" % (where, what, r.san() or "does not end")
        if r is not None and r.rc != 0:
            if argv[1] != "remove":
                return "%s\n%s: exit %d\n%s\n%s" % (where, what, r.rc, r.out[-600:], r.err[-800:])
        # a package with files that could not be installed, and were said not to be, is installed once more
        for n in sorted(self.plan):
            if n in self.B.db and self.owned[n] & self.partial and (r is None or r.rc == 0) and not self.like(self.look(), n, "B"):
                r = tool(["/usr/bin/cards", "install", "-f", n])
                self.res.counts["partial_again"] += 1
                if r.rc != 0:
                    return "%s\nafterwards cards install -f %s: exit %d %s" % (where, n, r.rc, r.err[-500:])
        if argv and argv[1] == "install":
            # the packages of the groups come with their package only
            for n in sorted(self.plan):
                if n in self.B.db and "." in n and n.rpartition(".")[2] in self.groups and record(self.look(), n) != record(self.sB, n):
                    r = tool(["/usr/bin/cards", "install", "-f", n])
                    self.res.counts["groups_again"] += 1
                    if r.rc != 0:
                        return "%s\nafterwards cards install -f %s: exit %d %s" % (where, n, r.rc, r.err[-500:])
        if argv and argv[1] in ("remove", "upgrade"):
            # what was asked for may be gone already, and what came with it be left
            for n in sorted(self.plan):
                if n not in self.B.db and record(self.look(), n) is not None:
                    r = tool(["/usr/bin/pkgrm", n])
                    if r.rc != 0:
                        return "%s\nafterwards pkgrm %s: exit %d %s" % (where, n, r.rc, r.err[-500:])
        S = self.look()
        out = []
        for p in sorted(set(S) | set(self.sB)):
            s, z = S.get(p), self.sB.get(p)
            if same(s, z) or p in (".META", ".MTREE") or (self.kind == "upgrade" and same(s, self.sC.get(p))):
                continue
            n = p[len(DB):].partition("/")[0] if p.startswith(DB) else None
            if n in self.plan and p.endswith("/META") and s is not None and z is not None and lines(s.data) | {b"d1"} == lines(z.data) | {b"d1"}:
                self.res.counts["marks_lost"] += 1
                continue
            if z is None and p in self.left:
                continue        # what could not be removed, and was said not to be, belongs to nobody now
            if n in self.plan and p.endswith(".imcomplete_transaction"):
                continue
            if s is not None and z is None and argv and argv[1] == "upgrade" and same(s, self.sA.get(p)) and ".cards-" in p and not p.startswith(DB):
                continue        # the depots are purged by an upgrade which has something to do
            if s is not None and z is None and argv and argv[1] in ("install", "upgrade") and p in self.passing and not os.path.basename(p).startswith("."):
                continue
            if z is None and s.kind == "f" and re.search(r"\.\d+\.new$", p) and re.sub(r"\.\d+\.new$", "", p) in self.arriving:
                self.res.counts["unfinished_left"] += 1
                continue        # what was being fetched or uncompressed; nobody takes it for anything
            out.append("%s: is %r, is to be %r" % (p, s, z))
        if out:
            return "%s\n%s: does not lead to its result\n%s\n%s" % (where, what, "\n".join(out[:8]), r.out[-800:] if r else "")
        return None


def same(a, b):
    return a is b or (a is not None and b is not None and a.key(False) == b.key(False))


def record(S, n):
    d = DB + n
    if d not in S:
        return None
    return {p[len(d) + 1:]: v.data for p, v in S.items() if p.startswith(d + "/") and not p.endswith("imcomplete_transaction")}


def same_record(a, b, n):
    return record(a, n) == record(b, n)


def start(task, tag):
    seed, index, quick = task
    s = Target(seed, PROF[tag], index)
    try:
        ok = s.prepare()
    except Exception as e:
        raise RuntimeError("%r\n%s" % (e, "\n".join(s.trace[-12:]))) from e
    if ok is None:
        s.res.counts["no_target"] += 1
    return s, ok


def crash_case(task):
    s, ok = start(task, "ccrash")
    res = s.res
    if not ok:
        return res
    rng, quick = s.rng, task[2]
    s.restore()
    r = tool([TRACE, "-o", TLOG, "--"] + s.argv)
    if r.rc == 120:
        raise core.CheckError("systrace: " + r.err)
    S = s.look()
    d = [p for p in set(S) | set(s.sB) if not same(S.get(p), s.sB.get(p))]
    if r.rc != 0 or d:
        s.bad("undisturbed", "exit %d %s\n%s" % (r.rc, r.err[-500:], ["%s: %r / %r" % (p, S.get(p), s.sB.get(p)) for p in d[:6]]))
        return res
    cs = calls()
    n = len(cs)
    res.counts["targets_" + s.kind] += 1
    res.counts["calls_" + s.kind] += n
    points = [("-k", k) for k in range(1, n + 1)] + [("-s", k) for k, _, nm, _ in cs if nm == "write"]
    lim = 30 if quick else 400
    if len(points) > lim:
        points = rng.sample(points, lim)
    for opt, k in points:
        s.restore()
        r = tool([TRACE, opt, str(k), "-o", TLOG, "--"] + s.argv)
        c = cs[k - 1]
        where = "killed %s call %d of %d: %s %s" % ("before" if opt == "-k" else "in the middle of", k, n, c[2], c[3])
        if r.rc != 137:
            res.counts["not_reached"] += 1
            continue
        res.counts["kills_" + s.kind] += 1
        res.tags.add("%s/%s/%s" % (s.kind, c[2], re.sub(r"\d+", "N", os.path.basename(c[3]))))
        m = s.judge(s.look(), where)
        if m:
            s.bad(s.kind + ":disturbed", m)
            return res
        if any(v == "?" for v in s.state.values()):
            res.counts["in_flight"] += 1
        m = s.again(where)
        if m:
            s.bad(s.kind + ":repeat", m)
            return res
    res.sig = hashlib.md5("\n".join(s.trace).encode("utf-8", "surrogateescape")).hexdigest()
    res.nontrivial = n > 3
    res.sample = s.trace[-2:] + ["%d of %d points" % (len(points), n)] if s.index < 4 else None
    return res


def fault_case(task):
    s, ok = start(task, "cfault")
    res = s.res
    if not ok:
        return res
    rng, quick = s.rng, task[2]
    points = []
    for cl in ("mut", "read"):
        s.restore()
        r = tool([TRACE, "-c", cl, "-o", TLOG, "--"] + s.argv)
        if r.rc == 120:
            raise core.CheckError("systrace: " + r.err)
        S = s.look()
        d = [p for p in set(S) | set(s.sB) if not same(S.get(p), s.sB.get(p))]
        if r.rc != 0 or d:
            s.bad("undisturbed", "exit %d %s\n%s" % (r.rc, r.err[-500:], ["%s: %r / %r" % (p, S.get(p), s.sB.get(p)) for p in d[:6]]))
            return res
        cs = [c for c in calls() if not (c[2] in ("fchmod", "fchown", "chmod", "chown", "lchown", "utimensat") and os.path.isdir(c[3]))]
        cs = [c for c in cs if not c[3].startswith(("/usr/lib", "/lib", WWW, "/proc", "/etc/ssl", "/usr/share/locale", "/dev", "/sys")) and "ld.so" not in c[3]]
        points += [(cl, c, e, all_) for c in cs for e in ERRS.get(c[2], [5]) for all_ in ("", ":all", ":same", ":path")
                   if not all_ or (c[0] % 5 == 0 if all_ == ":all" else e == ERRS.get(c[2], [5])[0] and (all_ == ":path" and c[2] in REPEATED or c[0] % 4 == 0))]
    res.counts["targets_" + s.kind] += 1
    res.counts["points_" + s.kind] += len(points)
    lim = 30 if quick else 300
    if len(points) > lim:
        points = rng.sample(points, lim)
    for cl, c, e, all_ in points:
        s.restore()
        r = tool([TRACE, "-c", cl, "-f", "%d:%d%s" % (c[0], e, all_), "-o", TLOG, "--"] + s.argv)
        where = "%s %s (call %d)%s fails with %s: exit %d\nstdout %s\nstderr %s" % (c[2], c[3], c[0], " and all after it" if all_ == ":all" else " and all such after it" if all_ == ":same" else " and all on that path" if all_ else "",
                                                                                os.strerror(e), r.rc, r.out[-600:], r.err[-600:])
        kind = "%s-%s%s" % (cl, c[2], all_)
        res.counts["faults_" + cl] += 1
        res.tags.add("%s/%s/%s/%d" % (s.kind, kind, re.sub(r"\d+", "N", os.path.basename(c[3])), e))
        if r.timeout:
            s.bad(s.kind + ":endless", where)
            return res
        sn = r.san()
        if sn or r.rc not in (0, 1):
            s.bad("%s:%s" % (s.kind, sn.split(" ")[0] if sn else "exit%d" % r.rc), where + "\n" + str(sn))
            return res
        said = [l for l in r.err.split("\n") if l.strip()]
        if r.rc != 0 and not said:
            s.bad(s.kind + ":mute:" + kind, "fails without a word\n" + where)
            return res
        S = s.look()
        s.left = {q for l in said for f in re.findall(r"could not remove (.*?): ", l) for q in [f.strip("/")] + parents(f.strip("/"))}
        s.partial = {f for l in said for f in re.findall(r"could not install (.*?): ", l)}
        m = s.judge(S, where, single=False)
        if m:
            s.bad(s.kind + ":disturbed:" + kind, m)
            return res
        if r.rc == 0 and not said:
            d = [p for p in sorted(set(S) | set(s.sB)) if not same(S.get(p), s.sB.get(p)) and p not in (".META", ".MTREE")]
            if d:
                s.bad(s.kind + ":silent:" + kind, "success is reported, but\n%s\n%s" % ("\n".join("%s: is %r, is to be %r" % (p, S.get(p), s.sB.get(p)) for p in d[:6]), where))
                return res
            res.counts["without_effect"] += 1
        else:
            res.counts["reported"] += 1
        m = s.again(where)
        if m:
            s.bad(s.kind + ":repeat:" + kind, m)
            return res
    res.sig = hashlib.md5("\n".join(s.trace).encode("utf-8", "surrogateescape")).hexdigest()
    res.nontrivial = len(points) > 3
    res.sample = s.trace[-3:] if s.index < 4 else None
    return res


def template(scratch, variant):
    t = build.tools(variant)
    return jail.make_template(scratch, {"/usr/bin/cards": build.cards(variant), "/usr/bin/pkgadd": t, "/usr/bin/pkgrm": t, "/usr/bin/pkginfo": t, TRACE: build.ctool("systrace")})


def crash(pid):
    c = core.Check(pid, "cards killed in the middle",
                   "A case is a cards command (install, upgrade, remove, sync or purge) that succeeds on a random state; it is killed before, or in the middle of, a sample of the system calls by which it modifies files; "
                   "the state found is judged, and the command repeated. Non-trivial: more than three modifying calls. Distinct: the history or the target differ.",
                   assumptions=["a kill of the process, not a loss of power: what was written is there", "packages without scripts and without files in common"])
    n = c.size(100, 1500)
    c.run(template(c.scratch, "plain"), crash_case, [[c.seed, i, c.tier == "quick"] for i in range(n)])
    c.finish(min_nontrivial=40)


def faults(pid):
    c = core.Check(pid, "cards with failing system calls",
                   "A case is a cards command that succeeds on a random state; single system calls of it, or all such calls from one on, are made to fail with a fitting error; exit status, messages and the state found "
                   "are judged, and the command is repeated without a fault. Non-trivial: more than three calls were made to fail. Distinct: the history or the target differ.",
                   assumptions=["packages without scripts and without files in common", "a failure that is announced on the error output counts as reported"])
    n = c.size(80, 1200)
    c.run(template(c.scratch, "asan"), fault_case, [[c.seed, i, c.tier == "quick"] for i in range(n)])
    c.finish(min_nontrivial=30)

"""Kills and failing system calls at chosen points of an operation, observed from outside.

The operation runs under native/systrace, which counts the system calls that modify (or read) files."""
import hashlib, os, re, subprocess

from . import build, core, engine, jail
from .engine import History, Profile, compare, put, tool
from .fsnap import snap
from .model import DB, FS, b
from .pkgs import parents

CRASH = engine.register(Profile("crash", {"install": 4, "upgrade": 4, "remove": 3}, nops=(2, 5), rules=.2, forced=.6, scripts=0, admin=.2,
                                host=0, npk=(3, 5), progress=0, foreign_arch=0, autodep=.3, noupgraderules=True, symdir=0, prepop=.4))
FAULT = engine.register(Profile("fault", {"install": 4, "upgrade": 4, "remove": 3}, nops=(2, 4), rules=.3, forced=.5, scripts=0, admin=.2,
                                host=0, npk=(3, 5), progress=0, foreign_arch=0, autodep=.3, noupgraderules=True, symdir=0, prepop=.4))
TRACE = "/usr/bin/systrace"
TLOG = "/w/trace"
SKIP = engine.SKIP | {"/w/base", "/w/trace"}


def copytree(a, z):
    if os.path.lexists(z):
        engine._rmtree(z)
    subprocess.run(["/usr/bin/cp", "-a", a, z], check=True)


def lines(data):
    return set(data.split(b"\n")) - {b""}


def calls():
    out = []
    try:
        for l in open(TLOG, errors="surrogateescape"):
            p = l.rstrip("\n").split(" ", 3)
            out.append((int(p[0]), p[1] == "1", p[2], p[3] if len(p) > 3 else ""))
    except (FileNotFoundError, ValueError, IndexError):
        pass
    return out


class Scenario(History):
    """a state, an operation on it, and what the operation is to lead to"""

    def prepare(self):
        self.sigops = []
        self.setup()
        for _ in range(self.rng.randint(*self.prof.nops)):
            if self.rng.random() < self.prof.admin:
                self.admin()
            if not self.step():
                return False
        for _ in range(12):
            what, x, fl = self.choose()
            if what == "rules":
                continue
            w = self.world.copy()
            if what == "add":
                fl["f"] = self.rng.random() < self.prof.forced
                fl["i"] = False
                if w.rules_text:
                    x.ents = [e for e in x.ents if e.kind != "h"]
                o = self.model.add(w, x, u=fl["u"], f=fl["f"], i=False, rootgiven=True)
            else:
                o = self.model.rm(w, x)
            if o.code == 0 and not o.note:
                break
        else:
            return None
        self.what, self.x, self.fl, self.o = what, x, fl, o
        self.A, self.B = self.world.copy(), w
        self.name = x.name if what == "add" else x
        self.base = snap("/", skip=SKIP)
        d = compare(self.A, self.base)
        if d:
            raise RuntimeError("state before: " + "\n".join(d))
        copytree("/w/root", "/w/base")
        if what == "add":
            self.arc = "/w/pkgs/target.cards.tar" + self.rng.choice(["", ".gz", ".xz"])
            open(self.arc, "wb").write(x.archive(self.arc.rsplit(".", 1)[1] if not self.arc.endswith(".tar") else ""))
            self.argv = ["/usr/bin/pkgadd", "-r", "/w/root"] + (["-u"] if fl["u"] else []) + (["-f"] if fl["f"] else []) + [self.arc]
            self.note("target: %s [%s] (%s)" % (" ".join(self.argv), x.show(), o.cls))
        else:
            self.argv = ["/usr/bin/pkgrm", "-r", "/w/root", x]
            self.note("target: %s (%s)" % (" ".join(self.argv), o.cls))
        # what the operation may touch
        p = self.p
        t = set()
        old = self.A.db[self.name].files if self.name in self.A.db else set()
        if what == "rm" or fl["u"]:
            t |= {f for f in old if not any(f in r.files for n, r in self.A.db.items() if n != self.name)}
        if what == "add":
            for m in x.manifest():
                t.add(m)
                for q in parents(m.rstrip("/")):
                    if self.A.fs.lstat(p + q) is None:
                        t.add(q)
            t |= o.conflicts
        self.touch = {p + f.rstrip("/") for f in t}
        for pid_name in (".META", ".MTREE", ".PRER", ".POSTR", ".PRE", ".POST", ".INFO"):
            self.touch.add(p + pid_name)
        # a path below a touched directory symlink does not occur: symlinked directories are not made here
        return True

    def restore(self):
        copytree("/w/base", "/w/root")

    # -- judgements ---------------------------------------------------------------------------
    def others_intact(self, have, where, listing=True):
        """nothing that the operation does not concern has changed, and the database can be read"""
        p, out = self.p, []
        mine = p + DB + self.name
        lists = {}
        for path in sorted(set(have) | set(self.base)):
            if path == mine or path.startswith(mine + "/") or path in self.touch:
                continue
            a, c = self.base.get(path), have.get(path)
            if path.startswith(p + DB):
                n, _, f = path[len(p + DB):].partition("/")
                if f == "files.imcomplete_transaction":
                    continue
                if f == "files" and c is not None and a is not None and n in self.A.db:
                    lists[n] = c
                    continue
            if a is None:
                if c.kind == "d" and any(t.startswith(path + "/") for t in self.touch):
                    continue
                if path.startswith(p + "var/lib/pkg/rejected"):
                    continue
                out.append("%s appeared: %r" % (path, c))
            elif c is None:
                out.append("%s is gone: it was %r" % (path, a))
            elif a.key() != c.key():
                out.append("%s changed: %r -> %r" % (path, a, c))
        for n, c in lists.items():
            try:
                got = set(open("/" + p + DB + n + "/files", encoding="utf-8", errors="surrogateescape").read().split("\n")) - {""}
            except OSError as e:
                out.append("list of %s: %s" % (n, e))
                continue
            before, after = self.A.db[n].files, self.B.db[n].files if n in self.B.db else set()
            if not (after <= got <= before):
                out.append("list of files of %s is neither the old nor the new one: missing %s, extra %s"
                           % (n, sorted(after - got)[:5], sorted(got - before)[:5]))
        # the record of the package itself
        for f, opts in (("files", [w.db[self.name].files for w in (self.A, self.B) if self.name in w.db]),):
            fp = "/" + mine + "/" + f
            if os.path.lexists(fp):
                got = set(open(fp, encoding="utf-8", errors="surrogateescape").read().split("\n")) - {""}
                if got not in [set(o) for o in opts]:
                    out.append("the list of files of %s itself is neither the old nor the new one: %s" % (self.name, sorted(got)[:8]))
        fp = "/" + mine + "/META"
        if os.path.lexists(fp):
            got = open(fp, "rb").read()
            opts = [w.db[self.name].meta for w in (self.A, self.B) if self.name in w.db]
            if self.what == "add":
                opts.append(self.x.meta())
            if lines(got) not in [lines(x) for x in opts]:
                out.append("the meta data of %s is neither the old nor the new one: %r" % (self.name, got[:200]))
        if out:
            return "%s\n%s" % (where, "\n".join(out[:8]))
        if not listing:
            return None
        r = tool(["/usr/bin/pkginfo", "-r", "/w/root", "-i"])
        if r.rc != 0:
            return "%s\npkginfo -i fails: %d %s" % (where, r.rc, r.err[-500:])
        said = {}
        for l in r.out.split("\n"):
            m = re.match(r"(AUTO| MAN): \((.*)\) (\S+) (\S+)-(\d+)$", l)
            if m:
                said[m.group(3)] = m.group(4)
        for n, rec in self.A.db.items():
            if n == self.name:
                continue
            v = next((l[1:] for l in rec.lines() if l[0] == "V"), "")
            if said.get(n) != v:
                return "%s\npkginfo -i shows %s as %r, it is %r\n%s" % (where, n, said.get(n), v, r.out[-500:])
        extra = set(said) - set(self.A.db) - {self.name}
        if extra:
            return "%s\npkginfo -i shows %s" % (where, extra)
        return None

    def record_tells(self, have, where):
        """the record of the package tells what is there"""
        if self.what != "add":
            return None
        mine = self.p + DB + self.name
        old = self.A.db[self.name].meta if self.name in self.A.db else None
        new = self.B.db[self.name].meta
        if mine + "/META" not in have:
            return None if old is None else "%s\nthe package was installed, and is not known any more" % where
        got = lines(open("/" + mine + "/META", "rb").read())
        if got == (lines(old) if old else None):
            return None
        if got != lines(new):
            return "%s\nthe meta data of %s are neither the old nor the new ones: %r" % (where, self.name, sorted(got))
        self.res.counts["complete_at_kill"] += 1
        have = {q: n for q, n in have.items() if q not in [self.p + x for x in (".META", ".MTREE", ".PRE", ".POST")]}
        d = compare(self.B, have)
        if d:
            return "%s\nthe package is recorded as installed, but\n%s" % (where, "\n".join(d))
        return None

    def again(self, where, leftovers=False):
        """the operation is repeated: it must now reach the state it is to lead to"""
        rec = os.path.isdir("/w/root/" + DB + self.name)
        if self.what == "rm":
            if rec:
                r = tool(self.argv)
                if r.rc != 0:
                    return "%s\nrepeated removal fails: %d %s" % (where, r.rc, r.err[-800:])
        else:
            argv = ["/usr/bin/pkgadd", "-r", "/w/root"] + (["-u"] if rec else []) + ["-f", self.arc]
            r = tool(argv)
            if r.rc != 0:
                return "%s\nrepeated with %s fails: %d %s" % (where, argv[3:-1], r.rc, r.err[-800:])
        have = snap("/", skip=SKIP)
        meta = self.p + DB + self.name + "/META"
        if meta in have and self.name in self.B.db:
            # the mark of an automatic installation went with the old record
            got = open("/" + meta, "rb").read()
            if lines(got) - {b"d1"} == lines(self.x.meta()) - {b"d1"}:
                have[meta].data = self.B.expected()[meta].data
        if leftovers and self.name in self.A.db:
            # what could not be removed, and was said not to be, belongs to nobody now
            want = self.B.expected()
            for f in self.A.db[self.name].files:
                for q in parents(f.rstrip("/")) + [f.rstrip("/")]:
                    q = self.p + q
                    if q not in want and q in have and have[q].key() == self.base[q].key():
                        del have[q]
                    elif q in want and q in have and q in self.base and have[q].key() == self.base[q].key() and os.path.isdir("/" + q):
                        have[q] = want[q]
        d = compare(self.B, have)
        if d:
            return "%s\nrepeating the operation does not lead to its result:\n%s" % (where, "\n".join(d))
        return None


def crash_case(task):
    seed, index, quick = task
    s = Scenario(seed, CRASH, index)
    res = s.res
    ok = s.prepare()
    if ok is False:
        return res
    if ok is None:
        res.counts["no_target"] += 1
        return res
    rng = s.rng
    # an undisturbed run, for the number of calls
    r = tool([TRACE, "-o", TLOG, "--"] + s.argv)
    if r.rc == 120:
        raise core.CheckError("systrace: " + r.err)
    d = compare(s.B, snap("/", skip=SKIP))
    if r.rc != 0 or d:
        s.bad("undisturbed", "exit %d %s\n%s" % (r.rc, r.err[-500:], "\n".join(d)))
        return res
    cs = calls()
    n = len(cs)
    res.counts["calls_" + s.o.cls] += n
    points = [("-k", k) for k in range(1, n + 1)]
    points += [("-s", k) for k, _, nm, _ in cs if nm == "write"]
    lim = 45 if quick else 400
    if len(points) > lim:
        points = rng.sample(points, lim)
    for opt, k in points:
        s.restore()
        r = tool([TRACE, opt, str(k), "-o", TLOG, "--"] + s.argv)
        c = cs[k - 1]
        where = "killed %s call %d of %d: %s %s" % ("before" if opt == "-k" else "in the middle of", k, n, c[2], c[3])
        if r.rc != 137:
            res.counts["not_reached%s_%d_%s" % (opt,r.rc,c[2])] += 1
            continue
        res.counts["kills"] += 1
        res.tags.add("%s/%s/%s" % (s.o.cls, c[2], re.sub(r"\d+", "N", os.path.basename(c[3]) if DB in c[3] or "/." in c[3] else "file")))
        have = snap("/", skip=SKIP)
        m = s.others_intact(have, where) or s.record_tells(have, where)
        if m:
            s.bad(s.o.cls + ":disturbed", m)
            return res
        m = s.again(where)
        if m:
            s.bad(s.o.cls + ":repeat", m)
            return res
    res.sig = hashlib.md5("\n".join(s.trace).encode("utf-8", "surrogateescape")).hexdigest()
    res.nontrivial = n > 3
    res.sample = s.trace[-3:] + ["%d of %d points" % (len(points), n)] if index < 4 else None
    return res


ERRS = {"write": [28, 5], "openat": [24, 13, 28, 5], "open": [24, 13, 28, 5], "creat": [28, 13, 24], "rename": [5, 28, 13], "unlink": [5, 1, 16], "rmdir": [5, 16],
        "mkdir": [28, 13], "fsync": [5], "read": [5], "pread": [5], "getdents": [5], "symlink": [28], "link": [1, 31], "linkat": [1, 31], "mknod": [1, 28],
        "fchmod": [1], "fchown": [1], "lchown": [1], "chown": [1], "chmod": [1], "utimensat": [1]}


REPEATED = ("write", "pwrite", "writev", "read", "pread", "readv")


def spread(rng, points, lim):
    """a sample in which no kind of point (call, kind of file, error) crowds out another"""
    if len(points) <= lim:
        return points
    groups = {}
    for q in points:
        cl, c, e, all_ = q
        base = os.path.basename(c[3].rstrip("/"))
        what = re.sub(r"\d+", "N", base) if DB in c[3] or base == "pkgadd.conf" or "/." in c[3] else "dir" if c[3].endswith("/") else "file"
        groups.setdefault((cl, c[2], what, e if c[2] in ("open", "openat") else 0), []).append(q)
    for g in groups.values():
        rng.shuffle(g)
    order = list(groups.values())
    out = []
    while len(out) < lim:
        rng.shuffle(order)
        for g in order:
            if g and len(out) < lim:
                out.append(g.pop())
    return out


def fault_case(task):
    seed, index, quick = task
    s = Scenario(seed, FAULT, index)
    res = s.res
    ok = s.prepare()
    if ok is False:
        return res
    if ok is None:
        res.counts["no_target"] += 1
        return res
    rng = s.rng
    points = []
    for cl in ("mut", "read"):
        s.restore()
        r = tool([TRACE, "-c", cl, "-o", TLOG, "--"] + s.argv)
        if r.rc == 120:
            raise core.CheckError("systrace: " + r.err)
        d = compare(s.B, snap("/", skip=SKIP))
        if r.rc != 0 or d:
            s.bad("undisturbed", "exit %d %s\n%s" % (r.rc, r.err[-500:], "\n".join(d)))
            return res
        cs = calls()
        # a directory's mode, owner and times, set when the archive is closed, are lost without a word in libarchive itself
        cs = [c for c in cs if not (c[2] in ("fchmod", "fchown", "chmod", "chown", "lchown", "utimensat") and os.path.isdir(c[3]))]
        points += [(cl, c, e, all_) for c in cs for e in ERRS.get(c[2], [5]) for all_ in ("", ":all", ":same", ":path")
                   if not all_ or (c[0] % 5 == 0 if all_ == ":all" else e == ERRS.get(c[2], [5])[0] and (all_ == ":path" and c[2] in REPEATED or c[0] % 4 == 0))]
    res.counts["points_" + s.o.cls] += len(points)
    points = spread(rng, points, 40 if quick else 300)
    for cl, c, e, all_ in points:
        s.restore()
        r = tool([TRACE, "-c", cl, "-f", "%d:%d%s" % (c[0], e, all_), "-o", TLOG, "--"] + s.argv)
        where = "%s %s (call %d)%s fails with %s: exit %d\nstdout %s\nstderr %s" % (c[2], c[3], c[0], " and all after it" if all_ == ":all" else " and all such after it" if all_ == ":same" else " and all on that path" if all_ else "",
                                                                                os.strerror(e), r.rc, r.out[-300:], r.err[-600:])
        kind = "%s-%s%s" % (cl, c[2], all_)
        res.counts["faults_" + cl] += 1
        res.tags.add("%s/%s/%s/%d" % (s.o.cls, kind, re.sub(r"\d+", "N", os.path.basename(c[3]) if DB in c[3] or "/." in c[3] else "file"), e))
        if r.timeout:
            res.inconclusive = where
            return res
        sn = r.san()
        if sn or r.rc not in (0, 1):
            s.bad("%s:%s" % (s.o.cls, sn.split(" ")[0] if sn else "exit%d" % r.rc), where + "\n" + str(sn))
            return res
        said = [l for l in r.err.split("\n") if l.strip()]
        if r.rc != 0 and not said:
            s.bad(s.o.cls + ":mute", "fails without a word\n" + where)
            return res
        have = snap("/", skip=SKIP)
        m = s.others_intact(have, where, listing=False)
        if m:
            s.bad(s.o.cls + ":disturbed:" + kind, m)
            return res
        for q in (".META", ".MTREE"):       # the next command removes them
            have.pop(s.p + q, None)
        if r.rc == 0 and not said:
            if c[2] in ("fsync", "fdatasync"):      # whether it is on the disk is not known: that must be told
                s.bad(s.o.cls + ":silent:" + kind, "success is reported although what was written may not be on the disk\n" + where)
                return res
            d = compare(s.B, have)
            if d:
                s.bad(s.o.cls + ":silent:" + kind, "success is reported, but\n%s\n%s" % ("\n".join(d), where))
                return res
            res.counts["without_effect"] += 1
        else:
            res.counts["reported"] += 1
        m = s.again(where, "could not remove" in r.err)
        if m:
            s.bad(s.o.cls + ":repeat:" + kind, m)
            return res
    res.sig = hashlib.md5("\n".join(s.trace).encode("utf-8", "surrogateescape")).hexdigest()
    res.nontrivial = len(points) > 3
    res.sample = s.trace[-3:] if index < 4 else None
    return res


def template(scratch, variant="plain"):
    t = build.tools(variant)
    return jail.make_template(scratch, {"/usr/bin/pkgadd": t, "/usr/bin/pkgrm": t, "/usr/bin/pkginfo": t, TRACE: build.ctool("systrace")})


def crash(pid):
    c = core.Check(pid, "crash safety",
                   "A case is a package operation on a random state; it is killed before (and in the middle of) each of its modifying system "
                   "calls in turn (a random sample of them when there are many), the state found is judged, and the operation repeated. "
                   "Non-trivial: the operation makes more than three modifying calls. Distinct: state and operation differ.",
                   assumptions=["a kill of the process, not a loss of power: what was written is there",
                                "packages without scripts; no UPGRADE rules (protected files of an interrupted upgrade are not judged)"])
    t = template(c.scratch)
    n = c.size(160, 2500)
    c.run(t, crash_case, [[c.seed, i, c.tier == "quick"] for i in range(n)])
    c.finish(min_nontrivial=50)


def faults(pid):
    c = core.Check(pid, "failing system calls",
                   "A case is a package operation on a random state; single system calls of it (those that modify files, and those that read them), "
                   "or all from one on, are made to fail with a fitting error; exit status, messages and the state found are judged, and "
                   "the operation is repeated without a fault. Non-trivial: more than three calls were made to fail. Distinct: state and operation differ.",
                   assumptions=["packages without scripts; no UPGRADE rules", "a failure that is announced on the error output counts as reported"])
    t = template(c.scratch, "asan")
    n = c.size(100, 1500)
    c.run(t, fault_case, [[c.seed, i, c.tier == "quick"] for i in range(n)])
    c.finish(min_nontrivial=30)

"""`cards create`: what there is around a recipe while it is built, which recipes are built, and what becomes of the packages."""
import hashlib, os, re, threading

from . import build, c_crash, core, engine, jail
from .c_cards import BASES, CardsHistory, DEPOT, Dir, GROUPS, LOCALES, T0, compare, key_of, sub_meta
from .engine import LOG, Profile, reset, snap, tool
from .fsnap import norm
from .model import DB, FS, PkgTools, World
from .pkgs import Ent, Pkg
from .repo import Collection, Entry

GIT, PLAN, LOGS = "/w/git", "/w/plan", "/var/log/pkgbuild"
SKIP = engine.SKIP | {DEPOT, GIT, PLAN, LOGS, "/w/trace"}
# The recipe is built by the harness: it is told where, and tells how it ends
PKGMK = """#!/usr/bin/sh
echo "building in $PWD with $*"
echo "$PWD $*" > %s/ask
read how < %s/answer
echo "made: $how" >&2
case $how in kill) kill -9 $$ ;; esac
exit $how
""" % (PLAN, PLAN)


def sub(e):
    """is it a package of a group or a locale"""
    return e.pkg.group or any(x[0] == "n" for x in e.pkg.extra)


class Port:
    def __init__(self, name, coll):
        self.name, self.coll, self.n, self.release, self.words = name, coll, 0, 1, []
        self.sets, self.groups, self.nodes, self.shared = [], [], [], None

    @property
    def version(self):
        return "1.%d" % self.n


class Create(CardsHistory):
    def setup(self):
        rng = self.rng
        reset()
        self.host, self.p, self.root, self.symdir = True, "", "/", False
        self.lang, self.latest, self.clock, self.metas, self.visited = rng.choice(["C", "C.UTF-8"]), {}, 0, {}, set()
        self.model, self.havetools, self.lost = PkgTools(), set(), set()
        os.makedirs("/" + DB)
        for d in ("/etc", "/usr/share", GIT, PLAN, "/var/log"):
            os.makedirs(d, exist_ok=True)
        os.mkfifo(PLAN + "/ask")
        os.mkfifo(PLAN + "/answer")
        colls = rng.sample(["base", "cli", "gui"], rng.randint(1, 3))
        self.dirs = [Dir(DEPOT, c, None, None) for c in colls]
        self.colls = {d.path: Collection(d.coll, key_of(0)) for d in self.dirs}
        self.groups = rng.sample(GROUPS, rng.choice([0, 0, 1, 2]))
        self.logdir = rng.choice([None, LOGS, LOGS, LOGS + "/deep/er"])
        L = ["dir %s" % d.path for d in self.dirs] if rng.random() < .5 else ["depot " + DEPOT] + ["collection " + c for c in colls]
        L += ["group " + g for g in self.groups] + (["logdir " + self.logdir] if self.logdir else [])
        open("/etc/cards.conf", "w").write("\n".join(L) + "\n")
        os.makedirs("/var/lib/pkg", exist_ok=True)
        open("/var/lib/pkg/nutyx-version", "w").write("name NuTyX\nversion rolling\n")
        self.setupfile = rng.random() < .96
        if self.setupfile:
            open("/tmp/setup", "w").close()
        # the ports, those of the base first
        self.names = rng.sample(BASES, rng.randint(4, 9))
        self.ports = {}
        nbase = rng.randint(1, 3)
        for i, n in enumerate(["cards"] + self.names):
            p = self.ports[n] = Port(n, rng.choice(colls))
            p.n, p.release = rng.choice([0, 0, 8, 9, 9]), rng.choice([1, 1, 9])
            if n == "cards":
                p.groups = ["devel"]
                p.sets = rng.choice([[], ["chroot"], ["devel"]])
                continue
            if i <= nbase:
                p.sets = rng.choice([["chroot"], ["devel"], ["chroot", "devel"], ["desk", "devel"], []])
            elif rng.random() < .2:
                p.sets = ["desk"]
            p.groups = [g for g in GROUPS + LOCALES if rng.random() < .2]
            below = self.names[:i - 1]
            p.words = rng.sample(below, min(len(below), rng.choice([0, 1, 1, 2, 3])))
            p.words = [w + "." + rng.choice(self.ports[w].groups) if self.ports[w].groups and rng.random() < .25 else w for w in p.words]
            if rng.random() < .05:
                p.words.append(n)
            if rng.random() < .04:
                p.words.append("nothere")
        self.world = World(FS({}), "")
        for n in ["cards"] + self.names:
            self.write_port(self.ports[n])
        for n in ["cards"] + self.names:
            if n == "cards" or rng.random() < .85 or self.ports[n].sets:
                self.pack(self.ports[n])
            else:
                self.lost.add(n)
        for d in self.dirs:
            os.makedirs(GIT + "/" + d.coll, exist_ok=True)
            self.store(d)
        self.world.fs = FS(snap("/", skip=SKIP))
        self.note("case %d: lang %s, setup %s\n%s" % (self.index, self.lang, self.setupfile, "\n".join(L)))
        for n, p in self.ports.items():
            self.note("  port %s/%s %s-%d needs %s sets %s groups %s%s" % (p.coll, n, p.version, p.release, p.words, p.sets, p.groups, "" if self.coll_of(n).entries.get(n) else " (no package)"))

    def coll_of(self, n):
        return self.colls[DEPOT + "/" + self.ports[n].coll]

    def write_port(self, p):
        cut = self.rng.randint(0, len(p.words))
        os.makedirs("%s/%s/%s" % (GIT, p.coll, p.name), exist_ok=True)
        open("%s/%s/%s/Pkgfile" % (GIT, p.coll, p.name), "w").write("description=\"%s\"\nversion=%s\nrelease=%d\nmakedepends=(%s)\nrun=(%s)\nbuild() {\n:\n}\n" % (
            p.name, p.version, p.release, " ".join(p.words[:cut]), " ".join(p.words[cut:])))

    def store(self, d):
        """what the collection lists and holds, those archives which got lost excepted"""
        from .c_cards import Meta
        c = self.colls[d.path]
        m = Meta(c)
        self.metas[m.text] = m
        c.write(d.path, compressed=False, plain=True)
        for e in c.entries.values():
            if e.name in self.lost and os.path.exists(d.path + "/" + e.fname):
                os.unlink(d.path + "/" + e.fname)

    def pack(self, p):
        """build the packages of a port"""
        rng = self.rng
        c = self.coll_of(p.name)
        for n in [n for n in c.entries if n == p.name or n.startswith(p.name + ".")]:
            del c.entries[n]
        self.clock += rng.randint(1, 5)
        for s in [""] + p.groups:
            n = p.name + ("." + s if s else "")
            ents = [Ent("usr", "d"), Ent("usr/share", "d"), Ent("usr/share/" + n, "d")]
            for f in "abc":
                if f == "a" or rng.random() < .5:
                    ents.append(Ent("usr/share/%s/%s" % (n, f), "f", data=b"%s %s of build %d" % (n.encode(), f.encode(), self.clock), mtime=1500000000 + self.clock))
            if not s and rng.random() < .03:
                ents += [Ent("usr/share/common", "d"), Ent("usr/share/common/a", "f", data=b"of " + n.encode())]
            q = Pkg(n, p.version, str(p.release), T0 + self.clock, rng.choice(["any", "x86_64"]), ents, collection=p.coll, group=s if s in GROUPS else None)
            if s in LOCALES:
                q.extra.append("n" + s)
            q.scripts_fail, q.watch = {}, "usr/share/%s/a" % n
            if rng.random() < .3:
                q.pre = engine.script("PRE", n, q.watch, False)
            if rng.random() < .3:
                q.post = engine.script("POST", n, q.watch, False)
            q.sets = list(p.sets)
            if not s:
                for w in p.words:
                    t = w if w in self.ports else w.rsplit(".", 1)[0]
                    e = t in self.ports and self.coll_of(t).entries.get(t)
                    if e and t != p.name and rng.random() < .6:
                        q.deps.append((t, e.pkg.build))
            else:
                sub_meta(q)
            c.entries[n] = Entry(q, rng.choice(["", "xz"]))
        self.lost.discard(p.name)

    # -- what is to happen -------------------------------------------------------------------------------------
    def needs(self, n):
        """-> (ports the port needs, words that are no port)"""
        seen, gone, todo = set(), set(), [n]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for w in self.ports[x].words:
                t = w if w in self.ports else w.rsplit(".", 1)[0]
                if t in self.ports:
                    todo.append(t)
                else:
                    gone.add(w)
        return seen - {n}, gone

    def level(self, n):
        return 1 + max([self.level(t) for w in self.ports[n].words for t in [w if w in self.ports else w.rsplit(".", 1)[0]] if t in self.ports and t != n], default=-1)

    def put(self, w, p, auto=False):
        """install or (when it is) replace; -> does that work"""
        o = self.model.add(w, p, u=p.name in w.db, auto=auto)
        if o.code == 0:
            self.expect += ["%s %s" % (k, x if isinstance(x, str) else x.name) for k, x in o.events]
        return o.code == 0

    def core(self, w, dep, view):
        """-> None or why it can not be"""
        req = [n for n, (e, d) in sorted(view.items()) if set(e.pkg.sets) & {"chroot", "devel"} and not sub(e) and n not in w.db] + ["cards.devel"]
        self.members = set(req)
        seen, why, edges, auto = self.closure(req, dep, view)
        if seen is not None:
            seen, why = self.with_groups(seen, edges, auto, dep, view)
        if seen is None:
            return "core: " + why
        for n in sorted(seen):
            if n in w.db:
                continue
            if not self.put(w, view[n][0].pkg, n in auto):
                return "core conflict"
            self.coredone.add(n)
        return None

    def around(self, w, port, dep, view):
        """w becomes what is to surround the recipe; -> None or why it can not be"""
        need, gone = self.needs(port)
        if gone:
            return "missing " + str(sorted(gone))
        for n in need:
            if n not in view or view[n][1].path + "/" + view[n][0].fname not in dep:
                return "no package of " + n
        for n in [n for n, r in w.db.items() if not {"schroot", "sdevel"} & set(r.lines())]:
            self.model.rm(w, n)
        for n in sorted(need, key=lambda n: (self.level(n), n)):
            for s in [n] + [n + "." + g for g in self.groups]:
                if s in view and s not in w.db and view[s][0].pkg.group in (None, "", s[len(n) + 1:]):
                    if view[s][1].path + "/" + view[s][0].fname not in dep:
                        return "no package of " + s
                    if not self.put(w, view[s][0].pkg):
                        return "conflict"
        return None

    # -- the build as the harness plays it ------------------------------------------------------------------------
    def serve(self):
        """one thread per command: answers each pkgmk until the command is over"""
        while True:
            with open(PLAN + "/ask") as f:
                q = f.read()
            if q == "over":
                return
            try:
                how = self.built(q.strip("\n"))
            except Exception as e:
                self.crash = e
                how = "99"
            with open(PLAN + "/answer", "w") as f:
                f.write(how + "\n")

    def built(self, q):
        """pkgmk was started: look around, make the packages"""
        self.calls.append(q)
        if not self.queue:
            self.fault = ("unwanted-build", "pkgmk was run in %s, which nobody asked for" % q)
            return "1"
        name, how, makes = self.queue[0]
        p = self.ports[name]
        if q.split() != ["%s/%s/%s" % (GIT, p.coll, name), "-d"]:
            self.fault = ("build-where", "pkgmk was run as %r, wanted in %s/%s/%s with -d" % (q, GIT, p.coll, name))
            return "1"
        dep = self.depots()
        why = self.around(self.world, name, dep, self.view(dep)) if not self.fault else None
        if why:
            self.fault = ("build-anyway", "pkgmk was run for %s: %s" % (name, why))
            return "1"
        d = self.differences()
        if d:
            self.fault = ("surroundings", "%s is built, but the system is not what it is to be\n%s" % (name, "\n".join(d)))
            return "1"
        at = self.scripts() or {}
        for x in self.needs(name)[0]:
            for t in self.needs(x)[0]:
                if at.get(t, -1) > at.get(x, 10 ** 6) and not self.ports[x].sets and x not in self.needs(t)[0]:
                    self.fault = ("order", "%s was installed before %s, which it needs" % (x, t))
                    return "1"
        self.queue.pop(0)
        # what was taken away stays away
        for c in self.colls.values():
            self.lost |= {e.name for e in c.entries.values() if DEPOT + "/" + c.name + "/" + e.fname not in dep}
        self.res.counts["recipes_built"] += 1
        if makes:
            self.pack(p)
            self.store(next(x for x in self.dirs if x.coll == p.coll))
        if how == "0":
            self.after(name)
            self.again()
        return how

    def again(self):
        pass

    def after(self, name):
        """the packages are to be on the system when the command goes on"""
        dep = self.depots()
        for s, (e, d) in sorted(self.view(dep).items()):
            if s == name or s.startswith(name + ".") and sub(e):
                if d.path + "/" + e.fname not in dep or not self.put(self.world, e.pkg):
                    self.conflict = True        # listed only, or in the way of another one
                    return

    def differences(self):
        have = snap("/", skip=SKIP)
        # what is in the sets of the base may be marked when another one of them needs it, or not
        for n in self.coredone:
            r, f = self.world.db.get(n), have.get(DB + n + "/META")
            if r is not None and f is not None:
                for auto in ((False, True) if n in self.members else ()):
                    lines = [l for l in r.lines() if l != "d1"]
                    t = "".join(l + "\n" for l in sorted(lines + ["d1"], key=lambda s: s.encode())).encode() if auto else None
                    if t is not None and norm(t) == f.data:
                        r.meta = t
                if norm(r.meta) != f.data and r.auto() and n in self.members:
                    r.meta = self.latest_meta(n) or r.meta
        self.res.counts["paths_compared"] += len(have)
        self.res.counts["states_compared"] += 1
        return compare(self.world, have)

    def latest_meta(self, n):
        e = next((c.entries[n] for c in self.colls.values() if n in c.entries), None)
        return e.pkg.meta() if e else None

    def scripts(self):
        """those which ran so far"""
        got = [" ".join(l.split(" ")[:2]) for l in engine.read_log()]
        want, self.expect = self.expect, []
        if sorted(got) != sorted(want) and not self.fault:
            self.fault = ("scripts", "scripts that ran: %s, wanted %s" % (got, want))
            return
        at = {x.split(" ")[1]: i for i, x in enumerate(got)}
        return at

    # -- the commands -----------------------------------------------------------------------------------------------
    def create(self, args, queue, refuse, cls):
        """queue: [(port, how pkgmk ends, does it make packages)]; refuse: why the command is to fail before it builds"""
        self.queue, self.calls, self.fault, self.crash, self.conflict = list(queue), [], None, None, False
        plan = list(queue)
        self.before = dict(self.world.db)
        t = threading.Thread(target=self.serve, daemon=True)
        t.start()
        self.pre = ["/usr/bin/systrace", "-w", "/var/lib/pkg/DB", "-o", "/w/trace", "--"] if hash((self.index, len(self.trace))) % 2 else []
        r = self.cards("create", *args, cwd=GIT)
        with open(PLAN + "/ask", "w") as f:
            f.write("over")
        t.join(20)
        if self.crash:
            raise self.crash
        if r is None:
            return False
        out = self.unlocked()
        if out:
            self.bad(cls + ":unlocked", "the database is not locked while packages are removed or installed:\n%s\n%s" % ("\n".join(out[:6]), self.ctx))
            return False
        if self.fault:
            self.bad(cls + ":" + self.fault[0], self.fault[1] + "\n" + self.ctx)
            return False
        return r

    def unlocked(self):
        """changes of what is installed while the database was not locked"""
        if not self.pre:
            return None
        self.pre = []
        mine = {f for c in self.colls.values() for e in c.entries.values() for f in e.pkg.manifest() if not f.endswith("/")}
        mine |= {f for r in self.before.values() for f in r.files if not f.endswith("/")}
        out = []
        for k, own, name, path in c_crash.calls():
            f = os.path.normpath(path).lstrip("/")
            if own and (f in mine or f.startswith(DB)):
                self.res.counts["changes_under_lock"] += 1
                if name.endswith("!"):
                    out.append("%s %s" % (name, path))
        return out

    def stop(self, key, msg):
        self.bad(key, msg + "\n" + self.ctx)
        return False

    def c_port(self):
        rng = self.rng
        name = rng.choice(self.names)
        if rng.random() < .05:
            name = rng.choice(["nosuchport", "alph", name + ".devel"])
        p = self.ports.get(name)
        if p is not None and rng.random() < .6:
            self.bump(p)
        dep = self.depots()
        view = self.view(dep)
        how, makes = rng.choice([("0", True)] * 6 + [("0", False), ("kill", False), (str(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 42])), rng.random() < .3)])
        self.expect, self.coredone = [], set()
        if self.setupfile and p is not None:
            w = self.world.copy()
            why = self.core(w, dep, view)
            if why and "conflict" in why:
                return self.unwhole("core-conflict", [name])
            if why is None:
                self.world = w
                w2, ex = w.copy(), list(self.expect)
                why = self.around(w2, name, dep, view)
                self.expect = ex
                if why == "conflict":
                    return self.unwhole("conflict", [name])
        else:
            why = "no setup" if not self.setupfile else "no such port"
        if why:
            r = self.create([name], [], why, "refuse")
            if not r:
                return False
            cls = "create-refused-" + why.split(" ")[0].strip(":")
            self.done(cls)
            return self.code(cls, r, 1) and self.settled(cls)
        r = self.create([name], [(name, how, makes)], None, "create")
        if not r:
            return False
        cls = "create" if how == "0" else "create-failed"
        if self.queue:
            return self.stop(cls + ":notbuilt", "pkgmk was not run for " + name)
        if self.conflict:
            self.res.counts["made_in_conflict"] += 1
            return self.code(cls + "-conflict", r, 1) and False
        self.done(cls)
        return self.code(cls, r, 0 if how == "0" else 1) and self.settled(cls) and self.logged_output(cls, name, r, how)

    def settled(self, cls):
        d = self.differences()
        if d:
            return self.stop(cls + ":tree", "the system is not what it is to be\n" + "\n".join(d))
        self.scripts()
        if self.fault:
            return self.stop(cls + ":" + self.fault[0], self.fault[1])
        self.res.tags.add(hashlib.md5(repr(sorted((n, r.meta) for n, r in self.world.db.items())).encode()).hexdigest()[:12])
        return True

    def logged_output(self, cls, name, r, how):
        """what the recipe printed is on the terminal and, if there is to be one, in the log"""
        p = self.ports[name]
        want = ["building in %s/%s/%s with -d\n" % (GIT, p.coll, name), "made: %s\n" % how]
        both = r.out + r.err
        if any(w not in both for w in want):
            return self.stop(cls + ":output", "the output of the recipe is not all there, wanted %r" % want)
        if self.logdir:
            try:
                t = open("%s/%s.log" % (self.logdir, name)).read()
            except OSError as e:
                return self.stop(cls + ":nolog", "no log: %s" % e)
            if any(w not in t for w in want):
                return self.stop(cls + ":log", "the log does not hold the output of the recipe, wanted %r, it is\n%s" % (want, t))
            self.res.counts["logs_compared"] += 1
        return True

    def unwhole(self, cls, args):
        """a package is in the way of another one: refused, with no half of a package and no recipe built"""
        r = self.create(args, [], cls, cls)
        if not r:
            return False
        self.done("create-" + cls)
        if self.code("create-" + cls, r, 1):
            self.res.counts["create_" + cls] += 1
        return False        # what was installed before is not told: the history ends here

    def bump(self, p):
        if self.rng.random() < .7:
            p.n, p.release = p.n + (-1 if p.n and self.rng.random() < .2 else 1), 1
        else:
            p.release += -1 if p.release > 1 and self.rng.random() < .2 else 1
        if self.rng.random() < .2:
            p.groups = [g for g in GROUPS + LOCALES if self.rng.random() < .2]
        self.write_port(p)
        self.note("port %s is now %s-%d groups %s" % (p.name, p.version, p.release, p.groups))

    def stale(self, n, dep, view):
        """is the port to be built"""
        if n not in view:
            return True
        e, d = view[n]
        return d.path + "/" + e.fname not in dep or e.pkg.version != self.ports[n].version or int(e.pkg.release) != self.ports[n].release

    def c_dry(self):
        rng = self.rng
        self.change()
        coll = rng.choice(self.dirs).coll
        dep = self.depots()
        view = self.view(dep)
        self.expect, self.coredone = [], set()
        r = self.create([coll, "--dry"][::rng.choice([1, -1])], [], None, "dry")
        if not r:
            return False
        if not self.setupfile:
            return self.code("dry-refused", r, 1) and self.settled("dry-refused")
        self.done("dry")
        want = sorted(n for n, p in self.ports.items() if p.coll == coll and self.stale(n, dep, view))
        got = sorted(re.findall(r"^([^\s:]+)(?: |: ).*===> SHOULD BE BUILD !$", r.out, re.M))
        if got != want:
            return self.stop("dry:list", "announced %s, to be built are %s" % (got, want))
        gone = sorted(d.path + "/" + e.fname for n, (e, d) in view.items() if e.pkg.collection == coll and not sub(e) and n not in self.ports)
        if sorted(re.findall(r"^Remove : (.*)$", r.out, re.M)) != gone:
            return self.stop("dry:remove", "to be removed are %s" % gone)
        return self.code("dry", r, 0) and self.same_depots("dry", dep) and self.settled("dry")

    def c_drypkg(self):
        n = self.rng.choice(self.names)
        dep = self.depots()
        self.expect, self.coredone = [], set()
        r = self.create([n, "--dry"], [], None, "drypkg")
        if not r:
            return False
        self.done("dry")
        return self.code("drypkg", r, 0 if self.setupfile else 1) and self.same_depots("drypkg", dep) and self.settled("drypkg")

    def change(self):
        """what may have happened since the collection was built"""
        rng = self.rng
        for n in self.names:
            if rng.random() < .2:
                self.bump(self.ports[n])
        for n in self.names:
            c = self.coll_of(n)
            if n in c.entries and rng.random() < .06 and not self.ports[n].sets:
                self.lost.add(n)
                self.note("the archive of %s got lost" % n)
        if len(self.names) > 4 and rng.random() < .3:
            n = self.names.pop()        # the last one is needed by nobody
            p = self.ports.pop(n)
            for f in ("Pkgfile",):
                os.unlink("%s/%s/%s/%s" % (GIT, p.coll, n, f))
            os.rmdir("%s/%s/%s" % (GIT, p.coll, n))
            self.note("port %s is dropped" % n)
        for d in self.dirs:
            self.store(d)

    def c_coll(self):
        rng = self.rng
        self.change()
        coll = rng.choice(self.dirs).coll
        dep = self.depots()
        view = self.view(dep)
        self.expect, self.coredone = [], set()
        if not self.setupfile:
            return True
        w = self.world.copy()
        why = self.core(w, dep, view)
        if why:
            if "conflict" in why:
                return self.unwhole("core-conflict", [coll])
            r = self.create([coll], [], why, "coll")
            if not r:
                return False
            self.done("collection-refused")
            return self.code("collection-refused", r, 1) and self.same_depots("collection-refused", dep) and self.settled("collection-refused")
        self.world = w
        # obsolete binaries go
        gone = [d.path + "/" + e.fname for n, (e, d) in view.items() if e.pkg.collection == coll and not sub(e) and n not in self.ports]
        todo = sorted((n for n, p in self.ports.items() if p.coll == coll and self.stale(n, dep, view)), key=lambda n: (self.level(n), n))
        queue = []
        for n in todo:
            how = "0" if rng.random() < .93 else rng.choice(["1", "8", "kill"])
            queue.append((n, how, how == "0"))
            if how != "0":
                break
        r = self.create([coll], queue, None, "coll")
        if not r:
            return False
        if self.conflict:
            return self.code("collection-conflict", r, 1) and False
        cls = "collection"
        failed = bool(queue) and queue[-1][1] != "0" and not self.queue
        if self.queue:
            # the next one could not be built: there must be a reason
            dep2 = self.depots()
            w2 = self.world.copy()
            ex = list(self.expect)
            why = self.around(w2, self.queue[0][0], dep2, self.view(dep2))
            self.expect = ex
            if not why:
                return self.stop("collection:notbuilt", "pkgmk was not run for %s" % [q[0] for q in self.queue])
            if why == "conflict":
                return self.code("collection-conflict", r, 1) and False
            cls, failed = "collection-missing", True
        elif failed:
            cls = "collection-failed"
        self.done(cls)
        now = self.depots()
        left = [g for g in gone if g in now]
        if left and not failed:
            return self.stop(cls + ":obsolete", "still there: %s" % left)
        for g in gone:
            n = os.path.basename(g).split(".cards-")[0]
            if g not in now:
                self.lost.add(n)
        return self.code(cls, r, 1 if failed else 0) and self.settled(cls)

    def c_user(self):
        """something else is installed meanwhile"""
        dep = self.depots()
        view = self.view(dep)
        n = self.rng.choice(sorted(n for n in view if view[n][1].path + "/" + view[n][0].fname in dep) or ["none"])
        if n == "none" or n in self.world.db:
            return True
        w = self.world.copy()
        self.expect = []
        e, d = view[n]
        if not self.put(w, e.pkg):
            return True
        r = tool(["/usr/bin/pkgadd", d.path + "/" + e.fname], cwd="/", lang=self.lang)
        self.note("$ pkgadd " + n)
        self.ctx = "pkgadd %s: %d %s" % (n, r.rc, r.err)
        if r.rc:
            raise RuntimeError(self.ctx)
        self.world, self.coredone = w, set()
        engine.read_log()
        return True

    def run(self):
        rng = self.rng
        self.sigops, self.easy = [], None
        self.setup()
        ok = True
        for _ in range(rng.choice([0, 0, 1, 3])):
            ok = ok and self.c_user()
        for _ in range(rng.randint(2, 5)):
            if not ok:
                break
            ok = getattr(self, "c_" + rng.choices(["port", "coll", "dry", "drypkg", "user"], [6, 2, 1, .3, .7])[0])()
        res = self.res
        res.sig = hashlib.md5("\n".join(self.trace).encode("utf-8", "surrogateescape")).hexdigest()
        res.nontrivial = res.counts["recipes_built"] >= 1
        res.sample = self.trace[:20] if self.index % 37 == 0 or self.index < 3 else None
        return res


PROF = Profile("create", ops={}, counts=("create",))


def case(task):
    return Create(task[0], PROF, task[1]).run()


def check(pid):
    c = core.Check(pid, "cards create",
                   "A case is a tree of 4-9 ports in 1-3 collections with a base system, groups and packages of most of them, and 2-5 commands cards create PORT, COLLECTION or --dry, with recipes which "
                   "succeed, fail, are killed or make nothing. pkgmk is a stand-in which hands over to the harness: the whole system is compared with a model while the recipe is built and after the command. "
                   "Non-trivial: at least one recipe was built. Distinct: the whole written-out history differs.",
                   assumptions=["the recipes are played by the harness, pkgmk itself is the subject of C28 and C29"])
    sh = os.path.join(c.scratch.path, "pkgmk")
    open(sh, "w").write(PKGMK)
    t = build.tools("asan")
    progs = {"/usr/bin/cards": build.cards("asan"), "/usr/bin/pkgadd": t, "/usr/bin/pkgmk": sh, "/usr/bin/systrace": build.ctool("systrace")}
    tpl = jail.make_template(c.scratch, progs)
    n = c.size(300, 5000)
    c.run(tpl, case, [[c.seed, i] for i in range(n)])
    c.finish(min_nontrivial=100)

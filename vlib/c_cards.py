"""Histories of `cards` commands against mirrors, depots and an installed system, compared with a model."""
import collections, functools, hashlib, http.server, os, re, socketserver, threading

from . import build, core, engine, jail, repo
from .c_info import Facts
from .engine import LOG, History, Profile, compare, read_log, register, reset, tool
from .fsnap import snap
from .model import DB, FS, PkgTools, World, b
from .pkgs import Ent, Pkg
from .repo import Collection, Entry, Key, verify, zcompress, zdecompress, zstream

WWW, DEPOT, LOCAL = "/w/www", "/w/depot", "/w/local"
SKIP = engine.SKIP | {WWW, DEPOT, LOCAL, "/w/base", "/w/trace"}
BASES = ["alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "kappa", "lib-x", "p7zip"]
GROUPS = ["man", "devel", "lib", "doc"]
LOCALES = ["fr", "de"]
SETS = ["desk", "srv"]
SHARED = ["usr/share/common/%s" % c for c in "abcd"]
T0 = 1600000000
GREEN, NORMAL = "\033[1;32m", "\033[1;0m"


class Server:
    """one per worker: what lies under /w/www, over HTTP on the loopback"""
    inst = None

    def __init__(self):
        outer = self
        self.log, self.rule, self.moved = [], {}, 0

        class H(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                p = self.path
                if p.startswith("/moved/"):     # what the redirection says
                    p = p[6:]
                else:
                    outer.log.append(p)
                    if outer.moved and os.path.exists(WWW + p):
                        self.send_response(outer.moved)
                        self.send_header("Location", "http://127.0.0.1:%d/moved%s" % (outer.port, p))
                        self.send_header("Content-Length", "5")
                        self.end_headers()
                        self.wfile.write(b"moved")
                        return
                how = outer.rule.get(p)
                try:
                    data = open(WWW + p, "rb").read()
                except OSError:
                    self.send_error(404)
                    return
                if how == "500":
                    self.send_error(500)
                    return
                self.send_response(200)
                self.send_header("Content-Length", str(len(data)))
                self.end_headers()
                if how == "cut":        # the connection breaks in the middle
                    self.wfile.write(data[:len(data) // 2])
                    self.wfile.flush()
                    self.connection.close()
                    return
                self.wfile.write(data)

            def log_message(self, *a):
                pass

        class S(socketserver.ThreadingMixIn, http.server.HTTPServer):
            daemon_threads = True
            allow_reuse_address = True

            def handle_error(self, *a):
                pass

            def server_bind(self):      # no name lookups
                socketserver.TCPServer.server_bind(self)
                self.server_name, self.server_port = self.server_address[:2]

        self.s = S(("127.0.0.1", 0), H)
        self.port = self.s.server_address[1]
        threading.Thread(target=self.s.serve_forever, daemon=True).start()

    @classmethod
    def get(cls):
        if cls.inst is None:
            cls.inst = Server()
        cls.inst.log, cls.inst.rule, cls.inst.moved = [], {}, 0
        return cls.inst


class Dir:
    """one line of cards.conf: where a collection lies and where it comes from"""

    def __init__(self, depot, coll, url, mirror):
        self.depot, self.coll, self.url, self.mirror = depot, coll, url, mirror     # mirror: where url leads to in the jail, or None
        self.path = depot + "/" + coll

    def source(self):
        return None if self.mirror is None else "%s/x86_64/%s/%s" % (self.mirror, repo.NUTYX, self.coll)


class Meta:
    """what a .REPO file lists"""

    def __init__(self, coll):
        self.name, self.entries, self.text, self.files = coll.name, [e for e in coll.order()], coll.repo(), coll.files()


@functools.lru_cache(4)
def key_of(n):
    return Key(n)


def sub_meta(p):
    """pkgmk writes less for the packages of a group"""
    L = [l for l in Pkg.meta_lines(p) if l[0] not in "DUCMPL" or l[0] == "n"]
    p.meta_override = ("\n".join(L) + "\n").encode()


class CardsHistory(History):
    pre = []                        # what cards is run under
    def setup(self):
        rng, prof = self.rng, self.prof
        reset()
        self.host, self.p, self.root, self.symdir = True, "", "/", False
        if prof.rooted and rng.random() < prof.rooted:      # a system mounted somewhere
            self.host, self.p, self.root = False, "w/root/", "/w/root/"
            os.makedirs("/w/root/usr/bin")
            os.symlink("/usr/bin/sh", "/w/root/usr/bin/sh")
        os.makedirs(self.root + DB)
        self.lang = rng.choice(["C", "C.UTF-8"])
        self.havetools = set()
        self.latest = {}
        self.clock = 0
        self.model = PkgTools()
        self.world = World(FS({}), self.p)
        self.metas = {}             # text of a .REPO -> Meta
        self.server = Server.get()
        self.server.moved = rng.choice([0, 0, 0, 301, 302, 307])
        self.keys = {}
        self.colls = {}             # (mirror or depot path) -> Collection
        self.names = rng.sample(BASES, rng.randint(*prof.npk))
        self.big = self.prof.tag in ("cupgrade", "cinstall", "cremove") and rng.random() < (.12 if self.prof.tag == "cupgrade" else .06)
        if self.big:        # many packages: deep dependencies, and a share of them just below or above what is held back
            self.names = BASES + ["n%02d" % i for i in range(rng.randint(2, 14))]
            rng.shuffle(self.names)
        self.cyclic = rng.random() < .2
        self.conf()
        home = {}
        for n in self.names:
            home[n] = [rng.choice(self.dirs)]
            if rng.random() < .15:
                home[n].append(rng.choice(self.dirs))
        self.home = home
        self.rank = {n: i for i, n in enumerate(self.names)}
        for d in self.dirs:
            k = d.source() or d.path
            if k not in self.colls:
                self.keys[k] = key_of(rng.randrange(3))
                self.colls[k] = Collection(d.coll, self.keys[k])
        for n in self.names:
            for d in dict.fromkeys(home[n]):
                self.make(n, d)
        self.publish_all()
        for f in ("etc", "usr/share"):
            os.makedirs(self.root + f, exist_ok=True)
        os.makedirs("/etc", exist_ok=True)
        self.world.fs = FS(snap("/", skip=SKIP))
        self.note("case %d: lang %s\n%s" % (self.index, self.lang, open("/etc/cards.conf").read()))
        for k, c in sorted(self.colls.items()):
            for e in c.order():
                self.note("  %s: %s" % (k, self.show(e)))

    def show(self, e):
        p = e.pkg
        return "%s %s-%s build +%d %s deps %s%s%s [%s]" % (p.name, p.version, p.release, p.build - T0, p.collection,
                                                           ["%s+%d" % (n, t - T0) for n, t in p.deps], " sets %s" % p.sets if p.sets else "",
                                                           " group %s" % p.group if p.group else "", " ".join(x.path for x in p.ents if x.kind != "d"))

    # -- configuration ----------------------------------------------------------------------------
    def conf(self):
        rng = self.rng
        kind = rng.choice(self.prof.confs)
        http_ = rng.random() < .35
        url = ("http://127.0.0.1:%d" % self.server.port) if http_ else "file://" + WWW
        sub = rng.choice(["", "", "/mirror"])
        sp = lambda: rng.choice([" ", " ", "  ", "\t", " \t"])
        colls = rng.sample(["gui", "cli", "base"], rng.randint(2, 3))
        L, self.dirs, self.conf_url = [], [], None
        depot = DEPOT
        glob = []
        if kind in ("global", "mixed"):
            glob.append("depot" + sp() + depot)
        if kind == "global":
            glob.append("url" + sp() + url + sub)
        lines = []
        if kind == "mixed":
            # local directories first or last, and collections of one's own without a mirror
            lines.append(("own", "dir" + sp() + LOCAL + "/own"))
        for c in colls:
            if kind == "global":
                lines.append((c, "collection" + sp() + c))
            elif kind == "mixed":
                lines.append((c, "dir" + sp() + depot + "/" + c + rng.choice([" | ", "|", " |"]) + url + sub))
            else:
                lines.append((c, "dir" + sp() + depot + "/" + c + ("|" + url + sub if rng.random() < .7 else "")))
        if kind == "global" and rng.random() < .3:
            lines.append(("extra", "dir" + sp() + LOCAL + "/extra | " + url + "/other"))
        rng.shuffle(lines)
        glob += [l for _, l in lines]
        if rng.random() < .5:
            rng.shuffle(glob)
        for c, l in lines:
            v = l.split(None, 1)[1]
            if l.startswith("collection"):
                self.dirs.append(Dir(depot, c, url + sub, WWW + sub))
            else:
                d, _, u = v.partition("|")
                d, u = d.strip(), u.strip()
                m = None if not u else WWW + u[len(url):]
                self.dirs.append(Dir(d.rsplit("/", 1)[0], c, u, m))
        self.dirs = sorted(self.dirs, key=lambda d: next(i for i, l in enumerate(glob) if (l.startswith("coll") or l.startswith("dir")) and
                                                         re.search(r"(^|[/\s])%s(\s|\||$)" % d.coll, l.split("|")[0])))
        self.groups = rng.sample(GROUPS + LOCALES, rng.choice([0, 0, 1, 2, 3]))
        for g in self.groups:
            glob.append(("locale" if g in LOCALES else "group") + sp() + g)
        if rng.random() < .5:
            glob.append("version" + sp() + repo.NUTYX)
            os.makedirs("/var/lib/pkg", exist_ok=True)
            if rng.random() < .5:
                open("/var/lib/pkg/nutyx-version", "w").write("name NuTyX\nversion elsewhere\n")
        else:
            os.makedirs("/var/lib/pkg", exist_ok=True)
            open("/var/lib/pkg/nutyx-version", "w").write("name NuTyX\nversion %s\n" % repo.NUTYX)
        for l in glob:
            if rng.random() < .2:
                L.append(rng.choice(["# a comment", "", "#depot /nowhere", "unknownkey value"]))
            L.append(l + (rng.choice(["", "", " # why", " # why # and why", "#why"])))
        open("/etc/cards.conf", "w").write("\n".join(L) + "\n")

    # -- what there is on the mirrors ----------------------------------------------------------------
    def current(self, n):
        """the package of that name which is published, by the order of cards.conf"""
        for d in self.dirs:
            e = self.colls[d.source() or d.path].entries.get(n)
            if e is not None:
                return e
        return None

    def make(self, n, d):
        """a new build of a package, and those of its groups"""
        rng = self.rng
        c = self.colls[d.source() or d.path]
        old = c.entries.get(n)
        self.clock += rng.randint(1, 5)
        ver = old.pkg.version if old else "1.0"
        rel = old.pkg.release if old else "1"
        if old and rng.random() < .6:
            ver = "1.%d" % (int(ver.split(".")[1]) + 1)
        elif old and rng.random() < .5:
            rel = str(int(rel) + 1)
        ents = [Ent("usr", "d"), Ent("usr/share", "d"), Ent("usr/share/" + n, "d")]
        for f in "abc":
            if rng.random() < .6 or f == "a":
                ents.append(Ent("usr/share/%s/%s" % (n, f), "f", data=b"%s %s %s build %d\n" % (n.encode(), f.encode(), ver.encode(), self.clock), mtime=1500000000 + self.clock))
        if rng.random() < self.prof.overlap:
            ents += [Ent("usr/share/common", "d"), Ent(rng.choice(SHARED), "f", data=b"of %s" % n.encode())]
        if rng.random() < .1:
            ents.append(Ent("usr/share/%s/link" % n, "l", data=b"a"))
        p = Pkg(n, ver, rel, T0 + self.clock, rng.choice(["any", "x86_64"]), ents, collection=d.coll)
        p.watch = "usr/share/%s/a" % n
        p.scripts_fail = {}
        if rng.random() < self.prof.scripts:
            p.pre = engine.script("PRE", n, p.watch, False)
        if rng.random() < self.prof.scripts:
            p.post = engine.script("POST", n, p.watch, False)
        if old and rng.random() < .6:
            cand = [m for m, _ in old.pkg.deps]
        else:
            cand = [m for m in self.names if m != n and (self.cyclic or self.rank[m] < self.rank[n])]
            cand = rng.sample(cand, min(len(cand), rng.choice([0, 0, 1, 1, 2, 3])))
        for m in cand:
            e = self.current(m)
            if e is not None:
                p.deps.append((m, e.pkg.build))
            elif self.cyclic:
                p.deps.append((m, T0 + self.clock))
        if rng.random() < .02:
            p.deps.append(("ghost", T0 + 1))
        if rng.random() < .08 and not any(m == n for m, _ in p.deps):
            p.deps.insert(rng.randrange(len(p.deps) + 1), (n, T0 + self.clock))
        p.sets = list(old.pkg.sets) if old else [s for s in SETS if rng.random() < .15]
        if rng.random() < .1:
            p.alias = [n + "-ng"]
        if rng.random() < .4:
            p.space = rng.choice([0, 1023, 1024, rng.randrange(10 ** 5), rng.randrange(10 ** 7), rng.randrange(3 * 10 ** 9)])
        p.packager = rng.choice(["paul", "paul", "Zoe", "O'NEIL", "PAULA"])
        p.description = rng.choice(["The %s program" % n, "Library of NICE things", "tool, see also %s" % rng.choice(BASES), "caf\u00e9"])
        p.extra += ["T" + t for t in ("office", "game") if rng.random() < .1]
        c.entries[n] = Entry(p, rng.choice(["", "gz", "xz"]))
        if rng.random() < .1:       # only told, but read like that of a big one
            c.entries[n].size = rng.randrange(9 * 10 ** 9)
        for g in GROUPS + LOCALES:
            s = "%s.%s" % (n, g)
            if (s in c.entries or (old is None and rng.random() < .12)) and rng.random() < .95:
                q = Pkg(s, ver, rel, T0 + self.clock, "any", [Ent("usr", "d"), Ent("usr/share", "d"), Ent("usr/share/" + g, "d"),
                        Ent("usr/share/%s/%s" % (g, n), "f", data=b"%s %d\n" % (s.encode(), self.clock))], collection=d.coll, group=g if g in GROUPS else None)
                if g in LOCALES:
                    q.extra.append("n" + g)
                if rng.random() < .3:
                    q.deps = [(n, T0 + self.clock)]
                q.scripts_fail, q.watch = {}, "usr/share/%s/%s" % (g, n)
                q.sets = list(p.sets)
                q.alias = [a + "." + g for a in p.alias]
                q.extra += [x for x in p.extra if x[0] == "T"]
                q.space = p.space and p.space // 3
                sub_meta(q)
                c.entries[s] = Entry(q, rng.choice(["", "xz"]))
            elif s in c.entries:
                del c.entries[s]

    def drop(self, n, d):
        c = self.colls[d.source() or d.path]
        for s in [s for s in c.entries if s == n or s.startswith(n + ".")]:
            del c.entries[s]

    def publish_all(self):
        for d in self.dirs:
            self.publish(d)

    def publish(self, d):
        c = self.colls[d.source() or d.path]
        m = Meta(c)
        self.metas[m.text] = m
        c.write(d.source() or d.path, compressed=d.mirror is not None, plain=d.mirror is None)

    # -- the depots ------------------------------------------------------------------------------------
    def depots(self):
        """{path: bytes} of everything in the depots"""
        out = {}
        for top in (DEPOT, LOCAL):
            for base, ds, fs in os.walk(top):
                for f in fs:
                    out[base + "/" + f] = open(base + "/" + f, "rb").read()
        return out

    def meta_of(self, d, dep):
        t = dep.get(d.path + "/.REPO")
        return None if t is None else self.metas.get(t)

    def view(self, dep):
        """name -> (entry, dir): the first directory that lists it"""
        out = {}
        for d in self.dirs:
            m = self.meta_of(d, dep)
            if m is None:
                continue
            mine = {}
            for e in m.entries:
                mine[e.name] = (e, d)
            for n, v in mine.items():
                out.setdefault(n, v)
        return out

    # -- fetching and verifying ---------------------------------------------------------------------------
    def remote(self, d, f):
        try:
            return open(d.source() + "/" + f, "rb").read()
        except OSError:
            return None

    def pubkey(self, d, dep):
        t = dep.get(d.path + "/.PKEY")
        for i in range(3):
            if t == key_of(i).pem():
                return key_of(i).pub
        return None

    def genuine(self, e, d, data, dep):
        pub = self.pubkey(d, dep)
        try:
            sig = bytes.fromhex(e.sig)
        except ValueError:
            return False
        return pub is not None and len(sig) == 64 and verify(pub, sig, hashlib.sha512(data).digest())

    def download(self, e, d):
        return None if self.broken(d, e.fname) else self.remote(d, e.fname)

    def fetch(self, e, d, dep):
        """-> (data or None when it is to be refused, was it downloaded)"""
        cur = dep.get(d.path + "/" + e.fname)
        if d.mirror is None:
            return (cur, False)
        new = False
        if cur is None:
            cur, new = self.download(e, d), True
            if cur is None or not cur:
                return (None, True)
        if hashlib.sha512(cur).hexdigest() != e.hash.lower():
            cur, new = self.download(e, d), True
            if cur is None:
                return (None, True)
        return (cur, new) if self.genuine(e, d, cur, dep) else (None, new)

    # -- what an installation is to consist of ----------------------------------------------------------------
    def build_of(self, rec):
        return int(next((l[1:] for l in rec.lines() if l[0] == "B"), "0"))

    def item(self, rec, k):
        return next((l[1:] for l in rec.lines() if l[0] == k), "")

    def uptodate(self, p):
        r = self.world.db.get(p.name)
        if r is None:
            return False
        c = self.item(r, "c")
        return self.item(r, "V") == p.version and self.item(r, "r") == p.release and self.build_of(r) >= p.build and (not c or not p.collection or c == p.collection)

    def closure(self, requested, dep, view):
        """-> (names to install or None, why, edges name -> names it needs, those which come as a dependency)"""
        todo = [(n, 0) for n in requested]
        seen, edges, auto = {}, {}, set()
        while todo:
            n, t = todo.pop(0)
            if n in seen:
                continue
            if n not in view:
                return None, "missing " + n, edges, auto
            e, d = view[n]
            data, new = self.fetch(e, d, dep)
            self.visited.add(n)
            if data is None:
                return None, "not to be had: " + n, edges, auto
            seen[n] = data
            if t:
                auto.add(n)
            edges.setdefault(n, set())
            if self.uptodate(e.pkg):
                continue
            for m, bt in e.pkg.deps:
                if m == n:
                    continue
                r = self.world.db.get(m)
                if bt and r is not None and self.build_of(r) >= bt:
                    continue
                edges[n].add(m)
                todo.append((m, bt))
        return seen, "", edges, auto

    def with_groups(self, seen, edges, auto, dep, view):
        base = list(seen)
        for g in self.groups:
            for n in base:
                s = n + "." + g
                if s in view and s not in seen:
                    more, why, ed, au = self.closure([s], dep, view)
                    if more is None:
                        return None, why
                    for m in more:
                        seen.setdefault(m, more[m])
                    for k, v in ed.items():
                        edges.setdefault(k, set()).update(v)
                    auto |= {m for m in au if m not in base and m != s}
        return seen, ""

    # -- running ---------------------------------------------------------------------------------------------
    def cards(self, *args, cwd="/w"):
        args = list(args)
        if not self.host and args[0] in ("install", "remove", "upgrade"):
            args.insert(self.rng.randint(0, len(args)), "--root=" + self.rng.choice(["/w/root", "/w/root/", "/w/root", "root" if cwd == "/w" else "/w/root"]))
        cmd = next(a for a in args if not a.startswith("-"))
        argv = ["/usr/bin/cards"] + args
        self.note("$ " + " ".join(argv))
        try:
            os.unlink(LOG)
        except FileNotFoundError:
            pass
        self.log = None
        r = tool(self.pre + argv, cwd=cwd, lang=self.lang, timeout=60)
        self.ctx = "%s: exit %d\nstdout: %s\nstderr: %s" % (" ".join(argv), r.rc, r.out[-1800:], r.err[-1200:])
        self.res.counts["cmd_" + cmd + (":root" if not self.host else "")] += 1
        if r.timeout:
            self.bad(cmd + ":endless", "does not end within 60 s\n" + self.ctx)
            return None
        s = r.san()
        if s:
            self.bad(s.split(" ")[0], "sanitizer report or crash\n%s\n%s" % (s, self.ctx))
            return None
        return r

    def same_depots(self, cls, want, optional=()):
        """want: {path: bytes}; optional: {path: allowed contents} that may or may not be there"""
        have = self.depots()
        out = []
        for p in sorted(set(want) | set(have)):
            if want.get(p) == have.get(p):
                continue
            if p in optional and (have.get(p) is None or have[p] in optional[p]):
                continue
            out.append("%s: wanted %s, found %s" % (p, _d(want.get(p)), _d(have.get(p))))
        if out:
            self.bad(cls + ":depot", "the depots are not what they are to be\n%s\n%s" % ("\n".join(out[:8]), self.ctx))
            return False
        self.res.counts["depot_files_compared"] += len(have)
        return True

    def same_tree(self, cls):
        have = snap("/", skip=SKIP)
        d = compare(self.world, have)
        if d:
            self.bad(cls + ":tree", "the system is not what the command is to leave\n%s\n%s" % ("\n".join(d), self.ctx))
            return False
        self.res.counts["paths_compared"] += len(have)
        self.res.counts["states_compared"] += 1
        self.res.tags.add(hashlib.md5(repr(sorted((n, r.meta) for n, r in self.world.db.items())).encode()).hexdigest()[:12])
        self.world.fs = FS({p: n for p, n in have.items() if not p.startswith(self.p + DB)})
        return True

    def code(self, cls, r, want):
        if r.rc != want:
            self.bad(cls + ":exit", "exit status %d, wanted %d\n%s" % (r.rc, want, self.ctx))
            return False
        if want and not r.err.strip():
            self.bad(cls + ":silent", "refused without a message\n" + self.ctx)
            return False
        return True

    # -- the commands -------------------------------------------------------------------------------------------
    def c_sync(self):
        rng = self.rng
        dep = self.depots()
        want, fail, opt = self.sync_model(dep)
        r = self.cards("sync", *rng.choice([[], [], ["--no-progress"]]))
        if r is None:
            return False
        cls = "sync-failed" if fail else "sync"
        self.done(cls)
        return self.code(cls, r, 1 if fail else 0) and self.same_depots(cls, want, opt) and self.same_tree(cls)

    def sync_model(self, dep):
        """-> (depots afterwards, is it to fail, what may be new after a failure)"""
        want, opt, fail = dict(dep), {}, False
        for d in self.dirs:
            if d.mirror is None:
                continue
            for f in (".PKEY", ".REPO.zst", ".FILES.zst"):
                data = self.remote(d, f)
                if data is None or self.broken(d, f):
                    fail = True
                    opt[d.path + "/" + f] = {dep.get(d.path + "/" + f)} | ({data[:k] for k in range(len(data) or 1)} if data is not None else set())
                    continue
                want[d.path + "/" + f] = data
                if f != ".PKEY":
                    try:
                        want[d.path + "/" + f[:-4]] = zdecompress(data)
                    except ValueError:
                        fail = True
        if fail:
            # whatever was fetched before the failure may be there
            for p, v in want.items():
                if v != dep.get(p):
                    opt.setdefault(p, set()).update({v, dep.get(p)} - {None})
            return dict(dep), True, {p: v - {None} for p, v in opt.items()}
        return want, False, {}

    def broken(self, d, f):
        return bool(self.server.rule.get(d.source()[len(WWW):] + "/" + f)) and d.url.startswith("http")

    def resolve_args(self, args, view):
        """-> (requested names, immediate archives) or None when an argument means nothing"""
        req, files = [], []
        for a in args:
            if a.startswith("/"):
                files.append(a)
                continue
            s = sorted(n for n, (e, d) in view.items() if a in e.pkg.sets and not e.pkg.group and "." not in n)
            if not s:
                s = sorted(n for n, (e, d) in view.items() if (e.pkg.collection or d.coll) == a and not e.pkg.group and "." not in n)
            if s:
                req += [n for n in s if not self.known(n)]
            elif a in view:
                req.append(a)
            else:
                return None
        return req, files

    def known(self, n):
        return n in self.world.db or any("A" + n in r.lines() for r in self.world.db.values())

    def c_start(self):
        """a system with something on it"""
        view = self.view(self.depots())
        self.easy = [n for n in sorted(view) if "." not in n and all(m in view for m, _ in view[n][0].pkg.deps)]
        ok = self.c_install() if self.easy else True
        self.easy = None
        return ok

    def c_install(self):
        rng, w = self.rng, self.world
        dep = self.depots()
        view = self.view(dep)
        pool = sorted(n for n in view) or self.names
        bases = [n for n in pool if "." not in n] or pool
        args = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            r = rng.random()
            if r < .7:
                args.append(rng.choice(bases))
            elif r < .78:
                args.append(rng.choice(pool))
            elif r < .86:
                args.append(rng.choice(SETS))
            elif r < .90:
                args.append(rng.choice([d.coll for d in self.dirs]))
            elif r < .94:
                args.append(rng.choice(["ghost", "alph", "nothing-at-all"]))
            else:
                args.append("FILE")
        files = {}
        if self.easy:
            args = rng.sample(self.easy, min(len(self.easy), rng.choice([1, 2, 3])))
        if "FILE" in args:      # archives given by hand only go with each other
            args = ["FILE"] * args.count("FILE")
        for i, a in enumerate(args):
            if a == "FILE":
                n = rng.choice([n for n in self.names if n not in [q.name for q in files.values()]])
                self.clock += 1
                v, rel = "9.%d" % self.clock, "1"
                if n in view and rng.random() < .5:     # another release of what a collection has
                    v, rel = view[n][0].pkg.version, rng.choice(["77", view[n][0].pkg.release])
                p = Pkg(n, v, rel, T0 + self.clock, "any", [Ent("usr", "d"), Ent("usr/share", "d"), Ent("usr/share/" + n, "d"),
                        Ent("usr/share/%s/%s" % (n, rng.choice("abz")), "f", data=b"by hand")], collection="own")
                p.scripts_fail, p.watch = {}, "usr/share/%s/a" % n
                arc = "/w/pkgs/%s.cards-%s-1" % (n, p.version)
                open(arc, "wb").write(p.archive())
                args[i] = arc
                files[arc] = p
        f, dscr = rng.random() < self.prof.forced, rng.random() < .1
        f = f or bool(self.easy)
        opts = [rng.choice(["-f", "--force"])] * f + ["-d"] * dscr + ["--nolog"] * (rng.random() < .2) + ["-u"] * (rng.random() < .1)
        argv = args + opts
        rng.shuffle(argv)
        args = [a for a in argv if a not in opts or not a.startswith("-")]
        return self.install(args, argv, files, f, dscr, dep, view)

    def install(self, args, argv, files, f, dscr, dep, view):
        w = self.world
        self.visited = set()
        before = w.copy()
        res = self.resolve_args(args, view)
        r = self.cards("install", *argv)
        if r is None:
            return False
        adds = re.findall(r"   ADD: \((.*?)\) (\S+) (\S+)-(\S+), \d+ files: ", r.out)
        events = []
        if res is None:
            cls = "install-unknown"
            self.done(cls)
            if adds:
                self.bad(cls + ":added", "something was installed\n" + self.ctx)
                return False
            return self.code(cls, r, 1) and self.same_depots(cls, dep) and self.same_tree(cls)
        req, arcs = res
        adds = list(adds)
        # archives given as files come first
        snapshot = w.copy()
        for a in arcs:
            p = files[a]
            o = self.model.add(w, p, u=self.known(p.name), f=f, i=dscr, rootgiven=not self.host)
            if o.code:
                cls = "install-file-refused"
                self.done(cls)
                if adds:
                    self.bad(cls + ":added", "%s was installed after a refused archive\n%s" % (adds, self.ctx))
                    return False
                return self.code(cls, r, 1) and self.events(cls, events) and self.same_depots(cls, dep) and self.same_tree(cls)
            self.latest[p.name] = p
            events += o.events
            if not adds or adds.pop(0)[1] != p.name:
                self.bad("install:file", "the archive %s was not installed (first)\n%s" % (a, self.ctx))
                return False
        # what is installed already is what was when the command began
        now, self.world = self.world, snapshot
        seen, why, edges, auto = self.closure(req, dep, view)
        if seen is not None:
            seen, why = self.with_groups(seen, edges, auto, dep, view)
        self.world = now
        opt = self.fetched(dep, view, view if seen is None else None)
        if seen is None:
            cls = "install-unobtainable"
            self.done(cls)
            if adds:
                self.bad(cls + ":added", "%s, and yet %s was installed\n%s" % (why, adds, self.ctx))
                return False
            return self.code(cls, r, 1) and self.events(cls, events) and self.same_depots(cls, dep, opt) and self.same_tree(cls)
        auto = {n for n in auto if n not in req and n not in before.db}
        cls = "install-deps" if len(seen) > 1 else "install-one" if seen else "install-nothing"
        if not self.apply(cls, r, adds, seen, edges, auto, view, f, dscr, events):
            return False
        want = dict(dep)
        if r.rc == 0:
            for n in seen:
                e, d = view[n]
                want[d.path + "/" + e.fname] = seen[n]
        return self.same_depots(cls, want, opt) and self.same_tree(cls)

    def fetched(self, dep, view, names=None):
        """downloads that are allowed, complete or broken off"""
        out = {}
        for n in self.visited if names is None else names:
            e, d = view[n]
            if d.mirror is not None:
                p = d.path + "/" + e.fname
                x = self.remote(d, e.fname)
                out[p] = {v for v in (dep.get(p), x) if v is not None}
                if x is not None and self.broken(d, e.fname):
                    out[p] |= {x[:len(x) // 2], b""}
        return out

    def apply(self, cls, r, adds, names, edges, auto, view, f, dscr, events):
        """follow the announced order; check that it is one that respects the dependencies"""
        w = self.world
        left = dict(names)
        done = set()
        reach = self.reach(edges)
        for coll, n, ver, rel in adds:
            if n not in left:
                self.bad(cls + ":unwanted", "%s was installed, which is %s\n%s" % (n, "done already" if n in done else "not asked for and not needed", self.ctx))
                return False
            wait = [m for m in edges.get(n, ()) if m in left and n not in reach.get(m, ())]
            if wait:
                self.bad(cls + ":order", "%s was installed before %s which it needs\n%s" % (n, wait, self.ctx))
                return False
            p = view[n][0].pkg
            if (ver, rel) != (p.version, p.release):
                self.bad(cls + ":version", "%s %s-%s announced, %s-%s is in the collection\n%s" % (n, ver, rel, p.version, p.release, self.ctx))
                return False
            o = self.model.add(w, p, u=self.known(n), f=f, i=dscr, auto=n in auto, rootgiven=not self.host)
            if o.code:
                self.bad(cls + ":conflict", "%s was installed although %s %s\n%s" % (n, o.cls, o.lists, self.ctx))
                return False
            events += o.events
            self.latest[n] = p
            del left[n]
            done.add(n)
        if r.rc == 0:
            if left:
                self.bad(cls + ":missing", "success, but %s not installed\n%s" % (sorted(left), self.ctx))
                return False
            self.done(cls)
        else:
            # one of those left must be one that can not be installed
            why = []
            for n in left:
                if any(m in left and n not in reach.get(m, ()) for m in edges.get(n, ())):
                    continue
                w2 = w.copy()
                o = self.model.add(w2, view[n][0].pkg, u=self.known(n), f=f, i=dscr, rootgiven=not self.host)
                if o.code:
                    why.append((n, o))
            if not why:
                self.bad(cls + ":refused", "refused without a reason, %s left\n%s" % (sorted(left), self.ctx))
                return False
            cls += "-conflict"
            self.done(cls)
            # the refused one may have run its own script before
            log = self.logged()
            events = events + next((o.events for n, o in why if self.names_of(events + o.events) == log), why[0][1].events)
        self.res.counts["packages_added"] += len(done)
        self.res.counts["packages_added_auto"] += len(done & auto)
        return self.code(cls, r, 0 if r.rc == 0 else 1) and self.events(cls, events)

    def reach(self, edges):
        out = {}
        for n in edges:
            seen, todo = set(), [n]
            while todo:
                for m in edges.get(todo.pop(), ()):
                    if m not in seen:
                        seen.add(m)
                        todo.append(m)
            out[n] = seen
        return out

    def logged(self):
        """the scripts the last command ran"""
        if self.log is None:
            self.log = [" ".join(l.split(" ")[:2]) for l in read_log()]
        return self.log

    def names_of(self, events):
        return ["%s %s" % (k, x if isinstance(x, str) else x.name) for k, x in events]

    def events(self, cls, events):
        got = self.logged()
        want = self.names_of(events)
        if got != want:
            self.bad(cls + ":scripts", "scripts that ran: %s, wanted %s\n%s" % (got, want, self.ctx))
            return False
        self.res.counts["script_runs"] += len(got)
        return True

    def done(self, cls):
        self.res.counts["op_" + cls] += 1
        self.sigops.append(cls)

    # -- remove ------------------------------------------------------------------------------------------------
    def c_remove(self):
        rng, w = self.rng, self.world
        inst = sorted(w.db)
        bases = [n for n in inst if "." not in n]
        args = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.random()
            if k < .71 and bases:
                # rather something nobody needs
                free = [n for n in bases if not self.needed(n)]
                easy = [n for n in free if self.item(w.db[n], "c") != "base"]
                args.append(rng.choice(easy if easy and rng.random() < .7 else free if free and rng.random() < .6 else bases))
            elif k < .76 and inst:
                args.append(rng.choice(inst))
            elif k < .83:
                args.append(rng.choice(SETS))
            elif k < .88:
                args.append(rng.choice([d.coll for d in self.dirs] + self.groups + ["base"]))
            elif k < .95:
                known = [l[1:] for r in w.db.values() for l in r.lines() if l[0] == "A"]
                args.append(rng.choice(known if known and rng.random() < .8 else [n + "-ng" for n in self.names]))
            else:
                args.append(rng.choice(["ghost", "alph"] + self.names))
        f = rng.random() < .4
        dep = self.depots()
        want = self.removal(args, f)
        argv = args + ["-f"] * f
        rng.shuffle(argv)
        r = self.cards("remove", *argv)
        if r is None:
            return False
        gone = re.findall(r"REMOVE: \((.*?)\) (\S+) (\S+)-(\S+), \d+ files: ", r.out)
        if want is None:
            cls = "remove-refused"
            self.done(cls)
            return self.code(cls, r, 1) and self.same_depots(cls, dep) and self.same_tree(cls)
        first, rest = want
        cls = "remove" if not rest else "remove-orphans"
        self.done(cls)
        if sorted(g[1] for g in gone) != sorted(first | rest):
            self.bad(cls + ":set", "removed %s, wanted %s and then %s\n%s" % ([g[1] for g in gone], sorted(first), sorted(rest), self.ctx))
            return False
        for n in [g[1] for g in gone]:
            self.model.rm(w, n)
        self.res.counts["packages_removed"] += len(gone)
        self.res.counts["packages_removed_orphans"] += len(rest)
        return self.code(cls, r, 0) and self.same_depots(cls, dep) and self.same_tree(cls)

    def deps_of(self, rec):
        return {l[1:-10] for l in rec.lines() if l[0] == "R" and len(l) > 11}

    def needed(self, n):
        own = self.alias(n)
        return [m for m, r in self.world.db.items() if m != own and n in self.deps_of(r)]

    def alias(self, a):
        if a in self.world.db:
            return a
        own = [n for n, r in self.world.db.items() if "A" + a in r.lines()]
        return own[0] if len(own) == 1 else None

    def removal(self, args, f):
        """-> None when refused, else (removed on request, removed because nothing needs them any more)"""
        w = self.world
        out = set()
        for a in args:
            if a == "base":
                return None
            real = self.alias(a)
            if self.needed(a) or (real and self.needed(real)):
                return None
            s = {n for n, r in w.db.items() if self.item(r, "c") == a or self.item(r, "g") == a}
            if not s:
                s = {n for n, r in w.db.items() if "s" + a in r.lines()}
            if real:
                s.add(real)
            if not s:
                return None
            out |= s
        for n in list(out):
            for g in self.groups:
                if g != "lib" and n + "." + g in w.db:
                    out.add(n + "." + g)
        if not f and any(self.item(w.db[n], "c") == "base" for n in out):
            return None
        left = {n: r for n, r in w.db.items() if n not in out}
        live, todo = set(), [n for n, r in left.items() if not r.auto()]
        while todo:
            n = todo.pop()
            if n in live:
                continue
            live.add(n)
            todo += [m for m in self.deps_of(left[n]) if m in left]
        rest = set(left) - live
        for n in list(rest):
            for g in self.groups:
                if g != "lib" and n + "." + g in left:
                    rest.add(n + "." + g)
        return out, rest

    # -- upgrade, diff, purge ----------------------------------------------------------------------------------------
    def space(self, r):
        return int(self.item(r, "S") or 0)

    def tell_sizes(self, view, st):
        db = self.world.db
        new = [n for n, s in st.items() if s in ("NEWBUILD", "OUTOFDATE")]
        add = sum(int(next((l[1:] for l in view[n][0].pkg.meta().decode().split("\n") if l[:1] == "S"), 0)) for n in new)
        rem = sum(self.space(db[n]) for n in new + [n for n, s in st.items() if s == "OBSOLET"])
        self.sizes = {"Total download size:": sum(view[n][0].size for n in new), "Total size of reinstalled packages:": add,
                      "Total size of remove packages:": rem, "Total amount of added bytes:": add - rem if add > rem else None,
                      "Total amount of removed bytes:": rem - add if rem > add else None}

    def statuses(self, view):
        out = {}
        for n, r in self.world.db.items():
            if n in view:
                p = view[n][0].pkg
                if p.build and self.build_of(r) >= p.build:
                    out[n] = "OK"
                elif (self.item(r, "V"), self.item(r, "r")) == (p.version, p.release):
                    out[n] = "NEWBUILD"
                else:
                    out[n] = "OUTOFDATE"
            else:
                out[n] = "OBSOLET" if r.auto() else "UNMAINT"
        self.tell_sizes(view, out)
        return out

    def c_upgrade(self, opts=None):
        rng, w = self.rng, self.world
        opts = opts if opts is not None else rng.choice([["--proceed"], ["-p"], ["-p"], ["-p"], ["-p"], [], [], ["--check"], ["-c"], ["--size"], ["-s"]])
        dep = self.depots()
        want, fail, opt = self.sync_model(dep)
        r = self.cards("upgrade", *opts)
        if r is None:
            return False
        if fail:
            self.done("upgrade-nosync")
            return self.code("upgrade-nosync", r, 1) and self.same_depots("upgrade-nosync", want, opt) and self.same_tree("upgrade-nosync")
        view = self.view(want)
        st = self.statuses(view)
        c = collections.Counter(st.values())
        size = len(st) - c["OK"]
        self.res.counts.update({"status_" + k: v for k, v in c.items()})
        o = opts[0] if opts else ""
        if o in ("--check", "-c", "--size", "-s"):
            cls = "upgrade-query"
            self.done(cls)
            said = r.out.strip().split("\n")[-1] if r.out.strip() else ""
            exp = ("yes" if size else "no") if o in ("--check", "-c") else str(size)
            if said != exp:
                self.bad(cls + ":answer", "%r, wanted %r (%s)\n%s" % (said, exp, st, self.ctx))
                return False
            return self.code(cls, r, 0) and self.same_depots(cls, want) and self.same_tree(cls)
        ratio = 100 - int(c["OK"] * 100 // len(st)) if st else 0
        self.res.counts["ratio_%s" % (ratio if 18 <= ratio <= 23 else "elsewhere")] += 1
        if ratio > 20 and o not in ("--proceed", "-p"):
            cls = "upgrade-held"
            self.done(cls)
            return self.code(cls, r, 0) and self.same_depots(cls, want) and self.same_tree(cls) and self.info(cls, r.out, st, False)
        if not any(n in view for n in w.db):
            cls = "upgrade-norepo"
            self.done(cls)
            return self.code(cls, r, 1) and self.same_depots(cls, want) and self.same_tree(cls)
        self.visited = set()
        upd = {n for n, s in st.items() if s in ("NEWBUILD", "OUTOFDATE")}
        for g in self.groups:
            for n, rec in w.db.items():
                s = n + "." + g
                if not self.item(rec, "g") and s in view and not (s in w.db and self.build_of(w.db[s]) >= view[s][0].pkg.build):
                    upd.add(s)
        gone = {n for n, s in st.items() if s == "OBSOLET"}
        adds = re.findall(r"   ADD: \((.*?)\) (\S+) (\S+)-(\S+), \d+ files: ", r.out)
        if not upd and not gone:
            cls = "upgrade-nothing"
            self.done(cls)
            if "Your system is up to date." not in r.out:
                self.bad(cls + ":said", "not said that nothing is to do\n" + self.ctx)
                return False
            return self.code(cls, r, 0) and self.same_depots(cls, want) and self.same_tree(cls)
        seen, why, edges, auto = self.closure(sorted(upd), want, view)
        opt = self.fetched(want, view, view if seen is None else None)
        if seen is None:
            cls = "upgrade-unobtainable"
            self.done(cls)
            if adds:
                self.bad(cls + ":added", "%s, and yet %s was installed\n%s" % (why, adds, self.ctx))
                return False
            return self.code(cls, r, 1) and self.same_depots(cls, want, opt) and self.same_tree(cls)
        auto = {n for n in auto if n not in upd and n not in w.db}
        cls = "upgrade-packages" if not gone else "upgrade-obsolete"
        if not self.apply(cls, r, adds, seen, edges, auto, view, True, False, []):
            return False
        if r.rc == 0:
            for n in sorted(gone):
                self.model.rm(w, n)
            self.purged(want)
            opt = {}
            if not self.info(cls, r.out, st, False):
                return False
        self.res.counts["packages_removed_obsolete"] += len(gone)
        return self.same_depots(cls, want, opt) and self.same_tree(cls)

    def purged(self, want):
        for p in list(want):
            for d in self.dirs:
                if d.mirror is not None and p.startswith(d.path + "/") and "/." not in p[len(d.path):]:
                    want.pop(p, None)

    def info(self, cls, out, st, details):
        """the summary of diff and upgrade"""
        c = collections.Counter(st.values())
        lab = {"Number of Packages:": len(st), "Unchanged Packages:": c["OK"], "Out of Date Packages (different version):": c["OUTOFDATE"]}
        for k, l in (("NEWBUILD", "Rebuild Packages (newer build date):"), ("OBSOLET", "Obsoletes Packages (will be removed):"),
                     ("UNMAINT", "Unmaintained Packages (should be removed):")):
            if c[k]:
                lab[l] = c[k]
            elif l in out:
                self.bad(cls + ":summary", "%r is there for no package\n%s" % (l, self.ctx))
                return False
        if len(st) == c["OK"]:
            if "Your system is up to date." not in out:
                self.bad(cls + ":summary", "not said that the system is up to date\n" + self.ctx)
                return False
            return True
        for l, v in lab.items():
            m = re.search(re.escape(l) + r"\s*(-?\d+)", out)
            if not m or int(m.group(1)) != v:
                self.bad(cls + ":summary", "%s %s, wanted %d (%s)\n%s" % (l, m and m.group(1), v, st, self.ctx))
                return False
        for l, v in self.sizes.items():
            m = re.search(re.escape(l) + r"\s*(.*?)bytes", out)
            if (m and m.group(1).strip()) != (human(v).strip() if v is not None else None):
                self.bad(cls + ":sizes", "%s %s, wanted %s (%s)\n%s" % (l, m and m.group(1), v, st, self.ctx))
                return False
        self.res.counts["sizes_compared"] += len(self.sizes)
        return True

    def c_diff(self):
        if not self.host:       # it knows of no other root
            return True
        dep = self.depots()
        want, fail, opt = self.sync_model(dep)
        r = self.cards("diff")
        if r is None:
            return False
        if fail:
            self.done("diff-nosync")
            return self.code("diff-nosync", r, 1) and self.same_depots("diff-nosync", want, opt) and self.same_tree("diff-nosync")
        view = self.view(want)
        st = self.statuses(view)
        self.done("diff")
        if not (self.code("diff", r, 0) and self.same_depots("diff", want) and self.same_tree("diff") and self.info("diff", r.out, st, True)):
            return False
        # by name
        got = {}
        part = None
        for l in r.out.split("\n"):
            k = next((k for k, t in (("OUTOFDATE", "Out of Date Packages"), ("NEWBUILD", "Rebuild Packages"), ("OBSOLET", "Obsoletes Packages"),
                                     ("UNMAINT", "Unmaintained Packages")) if l.startswith(t)), None)
            if k:
                part = k
            elif not l.strip() or l.startswith(("Name:", "Available space")):
                if not l.startswith("Name:"):
                    part = None
            elif part:
                q = l.split()
                got[q[0]] = part
                if part == "OUTOFDATE":
                    rec, p = self.world.db.get(q[0]), view.get(q[0])
                    if rec is None or p is None or q[1:] != ["%s-%s" % (self.item(rec, "V"), self.item(rec, "r")), "%s-%s" % (p[0].pkg.version, p[0].pkg.release)]:
                        self.bad("diff:versions", "%r\n%s" % (l, self.ctx))
                        return False
        exp = {n: s for n, s in st.items() if s != "OK"}
        if got != exp:
            self.bad("diff:names", "listed %s, wanted %s\n%s" % (got, exp, self.ctx))
            return False
        return True

    def c_purge(self):
        want = self.depots()
        self.purged(want)
        r = self.cards("purge")
        if r is None:
            return False
        self.done("purge")
        return self.code("purge", r, 0) and self.same_depots("purge", want) and self.same_tree("purge")

    # -- queries ------------------------------------------------------------------------------------------------------
    def c_query(self):
        rng = self.rng
        dep = self.depots()
        if rng.random() < .3:
            return self.c_installed(dep)
        view = self.view(dep)
        metas = [(d, self.meta_of(d, dep)) for d in self.dirs]
        if any(m is None for _, m in metas):
            return True
        k = rng.choice(["listb", "lists", "search", "search", "searchn", "infob", "infob", "infos", "queryb", "filesb", "filesb"])
        cls = "query-" + k
        self.done(cls)
        names = sorted(view) + ["ghost"]
        every = [(e, d) for d, m in metas for e in m.entries]
        coll = lambda e, d: e.pkg.collection or d.coll
        if k == "listb":
            r = self.cards("list", rng.choice(["-b", "--binaries"]))
            want = sorted("(%s) %s %s-%s" % (coll(e, d), e.name, e.pkg.version, e.pkg.release) for e, d in every)
            got = r and sorted(r.out.split("\n")[:-1])
        elif k == "lists":
            r = self.cards("list", rng.choice(["-S", "--sets"]))
            want = sorted({s for e, d in every for s in e.pkg.sets})
            got = r and r.out.split("\n")[:-1]
        elif k in ("search", "searchn"):
            x = rng.choice(["al", "ph", "Alpha", "GAMMA", "ta", "nice", "1.0", "cli", "paul", "x.org", "zoe", "O'N", "neil", "PAUL", "program", "http", "man", "zz", ".d", "lib-X", "office", "desk", rng.choice(names)])
            r = self.cards("search", *([x] + ["-n"] * (k == "searchn")))
            want = []
            for e, d in every:
                p = e.pkg
                m = {l[0]: l[1:] for l in p.meta().decode().split("\n") if l}
                keys = [e.name] if k == "searchn" else [coll(e, d), e.name, m.get("D", ""), m.get("U", ""), m.get("P", ""), p.version] + p.sets + \
                    [l[1:] for l in p.meta().decode().split("\n") if l[:1] == "T"]
                if any(x.lower() in s.lower() for s in keys) and (k == "searchn" or "n" not in m):
                    want.append("(%s) %s%s%s %s %s" % (coll(e, d), GREEN if self.known(e.name) else "", e.name, NORMAL, p.version, m.get("D", "")))
            want.sort()
            got = r and sorted(r.out.split("\n")[:-1])
        elif k == "infos":
            x = rng.choice(SETS + [d.coll for d in self.dirs] + ["ghost"])
            r = self.cards("info", rng.choice(["-S", "--sets"]), x)
            s = sorted(n for n, (e, d) in view.items() if x in e.pkg.sets and not e.pkg.group and "." not in n)
            if not s:
                s = sorted(n for n, (e, d) in view.items() if coll(e, d) == x and not e.pkg.group and "." not in n)
            want = ["(%s) %s" % (x, n) for n in s]
            got = r and r.out.split("\n")[:-1]
        elif k == "queryb":
            x = rng.choice(["alpha", "/a$", "^/usr/share/common/", "share/.*/b", "link$", "nomatch", "man/", "^usr", "/$", "/(alpha|beta)/[ab]$", "al+pha", "share/(common|fr|man)/", "a{2}", "p?7zip/a", "^/usr/share/[^/]+/[bc]$",
                            "(.)/", "e{1,2}ta/", "/alpha/(a|)$", rng.choice(BASES)])
            r = self.cards("query", rng.choice(["-b", "--binaries"]), x)
            want = sorted((d.coll, e.fname, "/" + f) for d, m in metas for e in m.entries for f in e.pkg.manifest() if re.search(x, "/" + f))
            got = None
            if r:
                ls = r.out.split("\n")[:-1]
                got = [] if "no owner" in r.out else sorted(tuple(l.split(None, 2)) for l in ls[1:])
        elif k == "filesb":
            n = rng.choice(names)
            r = self.cards("files", rng.choice(["-b", "--binaries"]), n)
            want = sorted(view[n][0].pkg.manifest()) if n in view else []
            got = r and sorted(r.out.split("\n")[:-1])
        elif k == "infob":
            n = rng.choice(names)
            r = self.cards("info", rng.choice(["-b", "--binaries"]), n)
            want, got = {}, {}
            if n in view:
                e, d = view[n]
                p = e.pkg
                m = {l[0]: l[1:] for l in p.meta().decode().split("\n") if l}
                base = view.get(n.rsplit(".", 1)[0]) if "." in n else None
                want = {"Name": n, "Archive name": e.fname, "Collection": coll(e, d), "Version": p.version, "Release": p.release, "Hashsum": e.hash, "Signature": e.sig,
                        "Arch": p.arch, "Local folder": d.path, "Archive Size": human(e.size).strip() + "bytes"}
                if not p.group and "n" not in m:
                    want.update({"Description": m.get("D", ""), "URL": m.get("U", ""), "License": m.get("L", ""), "Packager": m.get("P", "")})
                if d.mirror is not None:
                    want["Binary URL"] = "%s/x86_64/%s/%s" % (d.url, repo.NUTYX, d.coll)
                if p.deps:
                    want["Dependencies"] = " ".join(sorted({x for x, _ in p.deps}))
                if p.sets:
                    want["Sets"] = " ".join(sorted(p.sets))
                if p.alias:
                    want["Alias"] = " ".join(sorted(p.alias))
                if p.group:
                    want["Group"] = p.group
            if r:
                for l in r.out.split("\n"):
                    m = re.match(r"([A-Z][\w .()]*?)\s*:\s?(.*)$", l)
                    if m:
                        got[m.group(1)] = m.group(2).strip()
                for kk in ("Sets", "Alias", "Group", "Dependencies"):
                    if kk not in want and kk in got:
                        want[kk] = None
                if n not in view and r.out.strip():
                    got = {"said": r.out}
                elif n in view:
                    got = {kk: got.get(kk) for kk in want}
        if r is None:
            return False
        if r.rc != 0:
            return self.code(cls, r, 0)
        if got != want:
            self.bad(cls + ":answer", "got  %r\nwant %r\n%s" % (got, want, self.ctx))
            return False
        self.res.counts["answers_nonempty"] += bool(want)
        return self.same_depots(cls, dep) and self.same_tree(cls)

    def c_installed(self, dep):
        """the same questions about what is installed"""
        rng, w = self.rng, self.world
        k = rng.choice(["list", "info", "info", "query", "files", "files"])
        cls = "installed-" + k
        self.done(cls)
        F = {n: Facts(n, r.meta) for n, r in w.db.items()}
        alias = {}
        for n, f in F.items():
            for a in f.all.get("A", []):
                alias.setdefault(a, set()).add(n)
        called = {a: next(iter(s)) for a, s in alias.items() if len(s) == 1 and a not in F}
        called.update({n: n for n in F})
        n = rng.choice((sorted(called) or ["ghost"]) * 4 + ["ghost", "alp", "alpha.", "ALPHA"])
        code = 0
        if k == "list":
            r = self.cards("list")
            want = sorted("(%s) %s %s-%s" % (f.one("c"), m, f.one("V"), f.one("r", "1")) for m, f in F.items() if not w.db[m].auto())
            got = r and sorted(r.out.split("\n")[:-1])
        elif k == "files":
            if n not in called and any(os.path.lexists(d + "/" + n) for d in ("/w", "/")):
                return True
            r = self.cards("files", n)
            want, code = sorted(w.db[called[n]].files) if n in called else [], int(n not in called)
            got = r and sorted(r.out.split("\n")[:-1])
        elif k == "query":
            x = rng.choice(["alpha", "/a$", "^/usr/share/common/", "share/.*/b", "link$", "nomatch", "man/", "^usr", "/(alpha|beta)/[ab]$", "al+pha", "a{2}", "e{1,2}ta/", rng.choice(BASES)])
            r = self.cards("query", x)
            want = sorted((f.one("c"), m, p) for m, f in F.items() for p in w.db[m].files if re.search(x, "/" + p))
            got = None
            if r:
                ls = r.out.split("\n")[:-1]
                got = [] if "no owner" in r.out else sorted(tuple(l.split(None, 2)) for l in ls[1:])
        else:
            r = self.cards("info", n)
            want, got = {}, {}
            if r:
                for l in r.out.split("\n"):
                    m = re.match(r"([A-Z][\w .()]*?)\s*:\s?(.*)$", l)
                    if m:
                        got[m.group(1)] = " ".join(sorted(m.group(2).split())) if m.group(1) in ("Sets", "Alias", "Categories", "Dependencies") else m.group(2).strip()
            if n in called:
                f = F[called[n]]
                want = {"Name": f.name, "Description": f.one("D"), "Collection": f.one("c"), "URL": f.one("U"), "License": f.one("L"), "Packager": f.one("P"), "Version": f.one("V"),
                        "Release": f.one("r", "1"), "Arch": f.one("a"), "Group": f.one("g", None), "Man. installed": "No" if w.db[f.name].auto() else "Yes"}
                for kk, letter in (("Sets", "s"), ("Alias", "A"), ("Categories", "T")):
                    want[kk] = " ".join(sorted(f.all.get(letter, []))) or None
                want["Dependencies"] = " ".join(sorted(f.deps())) or None
            got = {kk: got.get(kk) for kk in (want or got)}
        if r is None:
            return False
        if r.rc != code:
            return self.code(cls, r, code)
        if got != want:
            self.bad(cls + ":answer", "got  %r\nwant %r\n%s" % (got, want, self.ctx))
            return False
        self.res.counts["answers_nonempty"] += bool(want)
        return self.same_depots(cls, dep) and self.same_tree(cls)

    def all_of_it(self):
        """everything installed at once, and then some of it published anew"""
        rng = self.rng
        dep = self.depots()
        view = self.view(dep)
        names = [n for n in sorted(view) if "." not in n]
        rng.shuffle(names)
        names = names[:len(names) if self.prof.tag == "cupgrade" else rng.choice([len(names), 3])]
        if not self.install(names, names + ["-f"], {}, True, False, dep, view):
            return False
        if self.prof.tag != "cupgrade":
            return True
        n = len(self.world.db)
        if n < 8:
            return True
        # some are republished, some come from nowhere: such that the share is the one that is wanted
        want = rng.choice([20, 21, 21])
        k, m = min(((k, m) for k in range(n) for m in range(7)), key=lambda q: (abs(100 - (n - q[0]) * 100 // (n + q[1]) - want), q[1]))
        if m:
            files = {}
            for i in range(m):
                p = Pkg("hand%d" % i, "1.0", "1", T0, "any", [Ent("usr", "d"), Ent("usr/share", "d"), Ent("usr/share/hand%d" % i, "f", data=b"by hand")], collection="own")
                p.scripts_fail, p.watch = {}, "usr/share/hand%d" % i
                arc = "/w/pkgs/%s.cards-1.0-1" % p.name
                open(arc, "wb").write(p.archive())
                files[arc] = p
            if not self.install(list(files), list(files), files, False, False, self.depots(), view):
                return False
        mine = [m for m in sorted(self.world.db) if "." not in m]
        rng.shuffle(mine)
        for m in mine:
            d = next((d for d in self.dirs if m in self.colls[d.source() or d.path].entries and self.current(m) is self.colls[d.source() or d.path].entries[m]), None)
            own = [x for x in self.world.db if x == m or x.startswith(m + ".")]
            if d is None or len(own) > k:
                continue
            self.make(m, d)
            k -= len(own)
            self.note("  " + self.show(self.colls[d.source() or d.path].entries[m]))
        self.publish_all()
        self.note("published; %d left for %d %%" % (k, want))
        if rng.random() < .3 and not self.c_diff():
            return False
        return self.c_upgrade(rng.choice([[], [], [], ["--check"], ["-p"]]))

    # -- what happens elsewhere ------------------------------------------------------------------------------------------
    def c_publish(self):
        rng = self.rng
        for _ in range(rng.choice([1, 1, 2, 4])):
            n = rng.choice(self.names)
            autos = [m for m in self.names if m in self.world.db and self.world.db[m].auto()]
            away = rng.random() < .2
            if away and autos and rng.random() < .6:
                n = rng.choice(autos)
            d = rng.choice(self.home[n])
            if away:
                self.drop(n, d)
                self.note("  drop %s from %s" % (n, d.path))
            else:
                self.make(n, d)
                self.note("  " + self.show(self.colls[d.source() or d.path].entries[n]))
        self.publish_all()
        self.note("published")
        return True

    def c_tamper(self):
        """somebody, or the weather, changes what lies on a mirror or in a depot"""
        rng = self.rng
        ds = [d for d in self.dirs if d.mirror is not None]
        if not ds:
            return True
        d = rng.choice(ds)
        src = d.source()
        c = self.colls[src]
        arcs = sorted(e.fname for e in c.entries.values() if os.path.exists(src + "/" + e.fname))
        inst = sorted(f for f in (os.listdir(d.path) if os.path.isdir(d.path) else []) if not f.startswith("."))
        k = rng.choice(["mirror", "mirror", "swap", "depot", "depot", "both", "nofile", "sig", "hash", "sigother", "key", "nokey", "cut", "older", "zst", "zst"])
        def bend(p):
            data = bytearray(open(p, "rb").read())
            how = rng.randrange(4)
            if how == 0 and data:
                data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
            elif how == 1:
                data += b"x"
            elif how == 2:
                data = data[:rng.randrange(len(data) + 1)]
            else:
                data = bytearray(self.evil())
            open(p, "wb").write(data)
        what = ""
        if k == "mirror" and arcs:
            f = rng.choice(arcs)
            bend(src + "/" + f)
            what = f
        elif k == "swap" and len(arcs) > 1:
            a, z = rng.sample(arcs, 2)
            da = open(src + "/" + z, "rb").read()
            open(src + "/" + a, "wb").write(da)
            what = "%s = %s" % (a, z)
        elif k == "depot" and inst:
            f = rng.choice(inst)
            bend(d.path + "/" + f)
            what = f
        elif k == "both" and arcs:
            f = rng.choice(arcs)
            bend(src + "/" + f)
            os.makedirs(d.path, exist_ok=True)
            open(d.path + "/" + f, "wb").write(open(src + "/" + f, "rb").read())
            what = f
        elif k == "nofile" and arcs:
            what = rng.choice(arcs)
            os.unlink(src + "/" + what)
        elif k in ("sig", "hash", "sigother") and c.entries:
            n = rng.choice(sorted(c.entries))
            e = c.entries[n].copy()
            if k == "hash":
                e.hash = rng.choice(["0" * 128, "", e.hash.upper(), e.hash[:-1] + ("0" if e.hash[-1] != "0" else "1")])
            elif k == "sigother":
                e.sig = key_of((rng.randrange(3))).sign(e.digest).hex() if rng.random() < .5 else key_of(0).sign(hashlib.sha512(b"x").digest()).hex()
            else:
                e.sig = rng.choice(["", "00" * 64, e.sig[:-2] + "00", e.sig[:-1], "zz" * 64, e.sig + "00", "xyz", e.sig.upper(), "-1" * 64])
            c2 = Collection(c.name, c.key)
            c2.entries = dict(c.entries)
            c2.entries[n] = e
            m = Meta(c2)
            self.metas[m.text] = m
            open(src + "/.REPO.zst", "wb").write(zcompress(m.text))
            what = n
        elif k == "key":
            o = rng.randrange(3)
            open(src + "/.PKEY", "wb").write(key_of(o).pem())
            what = str(o)
        elif k == "nokey":
            open(src + "/.PKEY", "wb").write(rng.choice([b"-----BEGIN PUBLIC KEY-----\nxxxx\n-----END PUBLIC KEY-----\n", b"\n", b"garbage" * 100]))
        elif k == "cut" and d.url.startswith("http") and arcs:
            f = rng.choice(arcs + [".REPO.zst", ".FILES.zst"])
            self.server.rule[src[len(WWW):] + "/" + f] = rng.choice(["cut", "500"])
            what = f
        elif k == "zst":
            f = rng.choice([".REPO.zst", ".FILES.zst"])
            text = c.repo() if f == ".REPO.zst" else c.files()
            if f == ".REPO.zst":
                self.metas[text] = Meta(c)
            good = zcompress(text)
            how = rng.choice(["empty", "cut", "garbage", "append", "stream", "flip", "frames"])
            if how == "stream":
                bad = zstream(text)
            elif how == "frames":
                bad = zcompress(b"") + zstream(text)
            elif how == "flip":
                bad = bytearray(good)
                bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
                bad = bytes(bad)
                try:
                    zdecompress(bad)
                    return True         # a frame without a checksum: still one
                except ValueError:
                    pass
            else:
                bad = {"empty": b"", "cut": good[:rng.randrange(1, len(good))], "garbage": b"\n" * rng.choice([1, 5, 600]), "append": good + b"xxxx"[:rng.randrange(1, 5)]}[how]
            open(src + "/" + f, "wb").write(bad)
            what = f + " " + how
        else:
            return True
        self.note("tamper %s in %s: %s" % (k, d.path, what))
        self.res.counts["tamper_" + k] += 1
        return self.use(k, d, c, what) if rng.random() < .75 else True

    def use(self, k, d, c, what):
        """what was meddled with is asked for right away"""
        rng = self.rng
        if k in ("sig", "hash", "sigother", "key", "nokey", "zst") or ".REPO" in what or ".FILES" in what:
            ok = self.c_sync()
            if not ok:
                return False
        if k in ("mirror", "swap", "nofile", "cut") and rng.random() < .7:
            if not self.c_purge():
                return False
        names = [n for n, e in c.entries.items() if e.fname == what.split(" ")[0] or n == what] or [n for n in sorted(c.entries) if n not in self.world.db]
        if not names:
            return True
        dep = self.depots()
        n = rng.choice(names)
        if n in self.world.db and rng.random() < .5:
            if not self.take(n):
                return False
        return self.install([n], [n, "-f"], {}, True, False, dep, self.view(dep))

    def take(self, n):
        """off the system, so that it has to come back"""
        self.note("$ pkgrm " + n)
        r = tool(["/usr/bin/pkgrm", n] + ([] if self.host else ["-r", "/w/root"]), lang=self.lang)
        self.ctx = "pkgrm %s: %d %s" % (n, r.rc, r.err)
        self.model.rm(self.world, n)
        return self.same_tree("pkgrm")

    def evil(self):
        p = Pkg("alpha", "6.66", "1", T0 + 10 ** 6, "any", [Ent("usr/share/evil", "f", data=b"evil")], collection="cli")
        return p.archive()

    def c_repair(self):
        self.server.rule.clear()
        self.publish_all()
        self.note("mirrors as published again")
        return True

    # -- histories -----------------------------------------------------------------------------------------------------------
    def step(self):
        kind = self.rng.choices(list(self.prof.ops), list(self.prof.ops.values()))[0]
        return getattr(self, "c_" + kind)()

    def run(self):
        self.sigops = []
        self.easy = None
        self.setup()
        ok = self.c_sync() if self.big or self.rng.random() < .95 else True
        if ok and self.big:
            ok = self.all_of_it()
        for _ in range(self.rng.randint(*self.prof.start)):
            ok = ok and self.c_start()
        n = self.rng.randint(*self.prof.nops)
        i = 0
        while ok and i < n:
            try:
                ok = self.step()
            except Exception as e:
                raise RuntimeError("%r\n%s" % (e, "\n".join(self.trace[-12:]))) from e
            i += 1
        res = self.res
        res.sig = hashlib.md5("\n".join(self.trace).encode("utf-8", "surrogateescape")).hexdigest()
        res.nontrivial = sum(1 for c in self.sigops if self.counts_as(c)) >= 1
        res.sample = self.trace[:12] if self.index % 37 == 0 or self.index < 3 else None
        return res


def human(v):
    for k, u in ((1 << 30, "G"), (1 << 20, "M"), (1 << 10, "K")):
        if v >= k:
            return "%5.2f %s" % (v / k, u)
    return "%d" % v


def _d(x):
    return "nothing" if x is None else "%d bytes %s" % (len(x), hashlib.md5(x).hexdigest()[:8])


ALL = ["global", "global", "mixed", "dirs"]
PROFS = {
    "cinstall": Profile("cinstall", start=(0, 1), ops=dict(install=8, remove=2, sync=1, publish=1.5, upgrade=1, purge=.3), nops=(5, 10), npk=(4, 9), overlap=.15, forced=.25, scripts=.15,
                        counts=("install-deps", "install-one", "install-unob")),
    "cremove": Profile("cremove", start=(1, 4), ops=dict(install=4, remove=7, publish=.7, upgrade=.7, sync=.5), nops=(6, 12), npk=(4, 9), overlap=.1, forced=.5, scripts=0, counts=("remove",)),
    "cupgrade": Profile("cupgrade", start=(1, 4), ops=dict(install=3, publish=5, upgrade=6, diff=3, remove=.7, purge=.2), nops=(6, 12), npk=(4, 9), overlap=.1, forced=.5, scripts=.1,
                        counts=("upgrade", "diff")),
    "cverify": Profile("cverify", start=(0, 1), ops=dict(install=6, tamper=7, repair=1.5, sync=4, upgrade=1.5, publish=1.5, remove=2, purge=1), nops=(6, 11), npk=(4, 8), overlap=.05, forced=.5,
                       scripts=.1, counts=("install-unob", "upgrade-unob")),
    "csync": Profile("csync", start=(0, 1), ops=dict(sync=6, publish=3, purge=3, tamper=3, repair=1.5, install=3, diff=1), nops=(6, 12), npk=(3, 7), overlap=.05, forced=.5, scripts=0,
                     counts=("sync", "purge")),
    "cquery": Profile("cquery", start=(1, 3), ops=dict(query=12, install=2, publish=1.5, sync=1.5, upgrade=.5), nops=(8, 16), npk=(5, 10), overlap=.2, forced=.5, scripts=0, counts=("query",)),
}
for p in PROFS.values():
    p.confs = ALL
    p.rooted = .12 if p.tag in ("cinstall", "cremove", "cupgrade") else 0
    register(p)
RULE = ("A case is a history of cards commands on a random system: 4-9 packages with dependencies (some cyclic), groups, locales, sets, aliases, in 2-4 collections with and without "
        "mirror (file:// or HTTP), new builds published and packages dropped in between; after every command exit status, announced order, the whole tree, the database and the "
        "depots are compared with a model. Non-trivial: at least one command of the kind the property is about. Distinct: the whole written-out history differs.")


def template(scratch):
    t = build.tools("asan")
    return jail.make_template(scratch, {"/usr/bin/cards": build.cards("asan"), "/usr/bin/pkgadd": t, "/usr/bin/pkgrm": t, "/usr/bin/pkginfo": t})


def case(task):
    seed, tag, index = task[:3]
    return CardsHistory(seed, PROFS[tag], index).run()


def _run(pid, tag, title, quick, thorough, minimum):
    c = core.Check(pid, title, RULE, assumptions=["observed on a Linux file system inside a user namespace", "libcurl, OpenSSL, zstd and libarchive behave as installed here"])
    n = c.size(quick, thorough)
    c.run(template(c.scratch), case, [[c.seed, tag, i] for i in range(n)])
    c.finish(min_nontrivial=minimum)


def install(pid):
    _run(pid, "cinstall", "cards install", 260, 4000, 120)


def remove(pid):
    _run(pid, "cremove", "cards remove", 240, 4000, 120)


def upgrade(pid):
    _run(pid, "cupgrade", "cards upgrade and diff", 240, 4000, 120)


def verified(pid):
    _run(pid, "cverify", "verified packages only", 260, 4000, 80)


def sync(pid):
    _run(pid, "csync", "sync and purge", 240, 4000, 120)


def query(pid):
    _run(pid, "cquery", "queries", 260, 4000, 120)

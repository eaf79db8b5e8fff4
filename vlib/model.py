"""Executable reference model of what pkgadd and pkgrm are to do to a file system and a package database.

Written from the documented behaviour; it shares no code with the tools.  Paths are relative to the
top of the observed tree; `prefix` is where the installation root lies in it ("" or "w/root/").
"""
import re
from .fsnap import Node, norm

DB = "var/lib/pkg/DB/"
REJ = "var/lib/pkg/rejected"


def b(s):
    return s.encode("utf-8", "surrogateescape")


class FS:
    """just enough of a POSIX tree: what lstat/remove/mkdir/create do, symbolic links included"""

    def __init__(self, nodes):
        self.n = nodes

    def copy(self):
        return FS({k: v.copy() for k, v in self.n.items()})

    def resolve(self, path, last=False, depth=0):
        """-> canonical path of `path` (symlinks in the parents followed; in the last one if `last`)
        or None when a parent does not exist or is no directory"""
        if depth > 40:
            return None
        trailing = path.endswith("/")
        parts = [p for p in path.split("/") if p not in ("", ".")]
        cur = ""
        for i, p in enumerate(parts):
            if p == "..":
                cur = cur.rsplit("/", 1)[0] if "/" in cur else ""
                continue
            nxt = cur + "/" + p if cur else p
            final = i == len(parts) - 1
            nd = self.n.get(nxt)
            if nd is not None and nd.kind == "l" and (not final or last or trailing):
                t = nd.data.decode("utf-8", "surrogateescape")
                t = t if t.startswith("/") else (cur + "/" + t)
                rest = "/".join(parts[i + 1:])
                return self.resolve(t + ("/" + rest if rest else "") + ("/" if trailing else ""),
                                    last, depth + 1)
            if not final and (nd is None or nd.kind != "d"):
                return None
            if final and trailing and nd is not None and nd.kind != "d":
                return None
            cur = nxt
        return cur

    def lstat(self, path):
        r = self.resolve(path)
        if r is None:
            return None
        if r == "":
            return Node("d", 0o755, 0, 0)
        return self.n.get(r)

    def isdir(self, path):
        r = self.resolve(path, last=True)
        return r is not None and (r == "" or (self.n.get(r) is not None and self.n[r].kind == "d"))

    def children(self, r):
        p = r + "/" if r else ""
        return [k for k in self.n if k.startswith(p)]

    def remove(self, path):
        """remove(3).  True when something went away"""
        r = self.resolve(path.rstrip("/"))
        if not r or r not in self.n:
            return False
        nd = self.n[r]
        if path.endswith("/") and nd.kind != "d":
            return False
        if nd.kind == "d" and self.children(r):
            return False
        del self.n[r]
        return True

    def mkparents(self, path):
        """missing parents are made 0755 root; False if one of them is in the way"""
        parts = path.split("/")[:-1]
        for i in range(1, len(parts) + 1):
            d = "/".join(parts[:i])
            if not d:
                continue
            if self.isdir(d):
                continue
            r = self.resolve(d)
            if r is None or r in self.n:
                return False
            self.n[r] = Node("d", 0o755, 0, 0)
        return True

    def put(self, path, node):
        """extract one member at path.  False when it could not be"""
        path = path.rstrip("/")
        if not self.mkparents(path):
            return False
        r = self.resolve(path)
        if r is None:
            return False
        old = self.n.get(r)
        if node.kind == "d":
            if old is not None and old.kind == "l" and self.isdir(r):
                # the directory behind the link is used; the owner goes to the link
                old.uid, old.gid = node.uid, node.gid
                return True
            if old is not None and old.kind != "d":
                del self.n[r]
            if r in self.n:
                self.n[r].mode, self.n[r].uid, self.n[r].gid = node.mode, node.uid, node.gid
            else:
                self.n[r] = node
            return True
        if old is not None:
            if old.kind == "d":
                if self.children(r):
                    return False
            del self.n[r]
        self.n[r] = node
        return True


class Rec:
    def __init__(self, meta, files, prer=None, postr=None):
        self.meta, self.files, self.prer, self.postr = meta, set(files), prer, postr

    def copy(self):
        return Rec(self.meta, self.files, self.prer, self.postr)

    def lines(self):
        return [x for x in self.meta.decode("utf-8", "surrogateescape").split("\n") if x]

    def auto(self):
        return "d1" in self.lines()


class World:
    def __init__(self, fs, prefix):
        self.fs, self.p = fs, prefix
        self.db = {}
        self.rules_text = ""
        self.script_log = []

    def copy(self):
        w = World(self.fs.copy(), self.p)
        w.db = {k: v.copy() for k, v in self.db.items()}
        w.rules_text = self.rules_text
        return w

    # the database as files; part of the expected tree
    def db_nodes(self):
        out = {}
        for name, r in self.db.items():
            d = self.p + DB + name
            out[d] = Node("d", 0o755, 0, 0)
            out[d + "/META"] = Node("f", 0o644, 0, 0, norm(r.meta))
            out[d + "/files"] = Node("f", 0o644, 0, 0, norm(b("".join(f + "\n" for f in sorted(r.files, key=b)))))
            if r.prer is not None:
                out[d + "/PRER"] = Node("f", 0o644, 0, 0, norm(r.prer.encode()))
            if r.postr is not None:
                out[d + "/POSTR"] = Node("f", 0o644, 0, 0, norm(r.postr.encode()))
        return out

    def expected(self):
        out = dict(self.fs.n)
        out.update(self.db_nodes())
        return out

    def owners(self, path):
        return [n for n, r in self.db.items() if path in r.files]


EVENTS = {"UPGRADE", "INSTALL", "LDCONF", "MIME_DB", "INFO", "ICONS", "FONTS", "QUERY_PIXBUF", "GIO_QUERY",
          "QUERY_IMOD3", "QUERY_IMOD2", "SCHEMAS", "DESKTOP_DB"}


class RuleError(Exception):
    pass


def parse_rules(text):
    rules = []
    for line in text.split("\n"):
        if not line or line[0] == "#":
            continue
        if len(b(line)) >= 1024:
            raise RuleError("long")
        w = line.split()
        if len(w) != 3:
            raise RuleError("words")
        if w[0] not in EVENTS:
            raise RuleError("event")
        if w[2] not in ("YES", "NO"):
            raise RuleError("action")
        rules.append((w[0], w[1], w[2] == "YES"))
    return rules


def ere(pattern):
    """the POSIX extended expressions the generator makes use of, as Python expressions"""
    return re.compile(pattern.replace("[:alnum:]", "a-zA-Z0-9").replace("[:digit:]", "0-9"), re.S)


def verdict(rules, event, path, default):
    """the last rule of `event` that matches decides"""
    v = default
    for ev, pat, act in rules:
        if ev == event and ere(pat).search(path):
            v = act
    return v


class Outcome:
    def __init__(self, code, err=None, lists=(), cls=""):
        self.code = code            # expected exit status: 0, or 1 for a refusal
        self.err = err              # expected piece of the error output
        self.lists = set(lists)     # paths which must be listed on stderr (and no others)
        self.cls = cls
        self.events = []            # expected script runs, in order: (kind, package, cwd)
        self.rejected = set()       # announced as rejected
        self.ignored = set()
        self.note = ""


class PkgTools:
    """pkgadd / pkgrm on a World"""

    def __init__(self, machine="x86_64"):
        self.machine = machine
        self.noshell = False        # no script can be run

    def add(self, w, pkg, u=False, f=False, i=False, rootgiven=False, auto=False):
        """pkg: the package to add (auto: as a dependency).  Changes w; -> Outcome"""
        try:
            rules = parse_rules(w.rules_text)
        except RuleError as e:
            return Outcome(1, cls="refused-rules")
        if pkg.arch not in (self.machine, "any") and not rootgiven:
            return Outcome(1, cls="refused-arch")
        installed = pkg.name in w.db
        # the name can also be another name of an installed package
        if (installed or any("A" + pkg.name in r.lines() for r in w.db.values())) and not u:
            return Outcome(1, "already installed", cls="refused-installed")
        if not installed and u:
            return Outcome(1, "not previously installed", cls="refused-notinstalled")
        o = Outcome(0, cls="upgrade" if u else "install")
        manifest = [m for m in pkg.manifest() if not m.startswith(".")]
        ignored = {m for m in manifest if not verdict(rules, "INSTALL", m, True)}
        files = [m for m in manifest if m not in ignored]
        o.ignored = ignored
        if not i and pkg.pre is not None:
            o.events.append(("PRE", pkg))
            if pkg.scripts_fail.get("pre") or self.noshell:
                o.code, o.cls = 1, "refused-pre"
                return o
        # conflicts
        own = w.db[pkg.name].files if installed else set()
        conf = set()
        for m in files:
            if not m.endswith("/"):
                if any(m in r.files for n, r in w.db.items() if n != pkg.name):
                    conf.add(m)
                elif w.fs.lstat(w.p + m) is not None:
                    conf.add(m)
            parts = m.split("/")[:-1]
            for k in range(1, len(parts) + 1):
                d = "/".join(parts[:k])
                if w.fs.lstat(w.p + d) is not None and not w.fs.isdir(w.p + d):
                    conf.add(d)
        conf -= own
        o.conflicts = conf
        if conf and not f:
            o.code, o.cls, o.lists, o.err = 1, "refused-conflict", conf, "listed file(s) already installed"
            return o
        keep_rule = lambda m: not verdict(rules, "UPGRADE", m, True)
        if conf:
            o.cls += "-forced"
            for n, r in w.db.items():
                r.files -= conf
            for m in sorted(conf, key=b, reverse=True):
                if not (u and keep_rule(m)):
                    w.fs.remove(w.p + m)
        keep = set()
        if u:
            auto = auto or w.db[pkg.name].auto()
            keep = {m for m in files if keep_rule(m)}
            old = w.db.pop(pkg.name)
            gone = {m for m in old.files if m not in keep and not w.owners(m)}
            for m in sorted(gone, key=b, reverse=True):
                w.fs.remove(w.p + m)
        # extraction, in the order of the archive
        for e in pkg.ents:
            m = e.name()
            if m in ignored:
                continue
            node = self.node(w, e)
            if node is None:
                o.note += "unlinkable %s;" % m
                continue
            if m in keep and w.fs.lstat(w.p + m) is not None:
                self.reject(w, e, m, node, o)
                continue
            if not w.fs.put(w.p + m, node):
                o.note += "could not install %s;" % m
        meta = pkg.meta()
        if auto:
            lines = set(x for x in meta.decode("utf-8", "surrogateescape").split("\n"))
            if meta.endswith(b"\n") or not meta:
                # the piece after the last newline is no line
                l = meta.decode("utf-8", "surrogateescape").split("\n")
                lines = set(l[:-1])
            lines.add("d1")
            meta = b("".join(x + "\n" for x in sorted(lines, key=b)))
        w.db[pkg.name] = Rec(meta, files, pkg.prer, pkg.postr)
        if not i and pkg.post is not None:
            o.events.append(("POST", pkg))
        return o

    def node(self, w, e):
        if e.kind == "h":
            t = w.fs.resolve(w.p + e.data.decode())
            return w.fs.n[t].copy() if t in w.fs.n and w.fs.n[t].kind == "f" else None
        return Node(e.kind, e.mode, e.uid, e.gid, norm(e.data) if e.kind in "fl" else b"", e.mtime if e.kind == "f" else 0)

    def reject(self, w, e, m, node, o):
        """an existing kept path: what the package brings goes to the reject directory unless it is the same"""
        old = w.fs.n[w.fs.resolve(w.p + m)]
        dst = w.p + REJ + "/" + m
        if e.kind == "d":
            w.fs.put(dst, node)
            return      # directories below the reject directory are not compared
        if not w.fs.put(dst, node):
            o.note += "could not reject %s;" % m
            return
        same = old.kind == node.kind and (old.kind == "l" or old.mode == node.mode) \
            and (old.uid, old.gid) == (node.uid, node.gid) \
            and (node.kind == "f" and (node.data == b"" or node.data == old.data) or node.kind == "l" and node.data == old.data)
        if same:
            w.fs.remove(dst)
            d = dst.rsplit("/", 1)[0]
            while d != w.p + REJ:
                if not w.fs.remove(d):
                    break
                d = d.rsplit("/", 1)[0]
        else:
            o.rejected.add(m)

    def rm(self, w, name):
        try:
            parse_rules(w.rules_text)
        except RuleError:
            return Outcome(1, cls="refused-rules")
        if name not in w.db:
            return Outcome(1, "not yet installed", cls="refused-notinstalled")
        o = Outcome(0, cls="remove")
        r = w.db[name]
        if r.prer is not None:
            o.events.append(("PRER", name))
            if r.prer_fails() or self.noshell:
                o.code, o.cls = 1, "refused-prer"
                return o
        del w.db[name]
        for m in sorted((m for m in r.files if not w.owners(m)), key=b, reverse=True):
            w.fs.remove(w.p + m)
        if r.postr is not None:
            o.events.append(("POSTR", name))
        return o


def fails(script):
    """does the (generated) script end with a failure?"""
    return script is not None and re.search(r"^(exit [1-9]|kill )", script, re.M) is not None


def _prer_fails(self):
    return fails(self.prer)


Rec.prer_fails = _prer_fails

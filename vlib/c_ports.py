"""Ports: levels of compilation, dependencies, trees and reverse dependencies against the recipes as they are written."""
import hashlib, os, re

from . import build, core, jail
from .engine import reset, tool
from .fsnap import snap

COLLS = ["base", "cli", "gui", "extra", "cli-extra"]
BASES = ["zlib", "glibc", "bash", "gcc", "lua5.1", "lua", "python3.11", "gtk+", "lib_x", "qt5-base", "qt5", "a", "b", "xorg-server", "Xorg", "libxml2", "curl", "node.js"]
SUBS = ["devel", "lib", "man", "fr", "doc"]


class Port:
    __slots__ = ("name", "coll", "version", "release", "words", "text")


class Ports:
    def __init__(self, seed, index):
        self.rng = core.rng_for("ports", seed, index)
        self.index = index
        self.res = core.Result()
        self.log = []

    # -- a recipe ---------------------------------------------------------------------------------
    def array(self, key, words):
        """key=( words ) the many ways people write it"""
        rng = self.rng
        style = rng.randrange(6)
        tail = rng.choice(["", "", "", " # %s (old)" % rng.choice(BASES), "  "])
        words = list(words)
        if words and rng.random() < .1:
            words.append(rng.choice(words))
        if style == 0:
            return [key + "=(" + " ".join(words) + ")" + tail]
        if style == 1:
            return [key + "=(" + rng.choice([", ", ",", " ,", "  ", "\t"]).join(words) + ")" + tail]
        L = [key + "=(" + (rng.choice(["", " "]) if style != 4 else "")]
        if style == 2 and words:
            L[0] += words.pop(0)
        pad = rng.choice(["", "  ", "\t", "             "])
        while words:
            k = rng.choice([1, 1, 2, 3])
            t = pad + " ".join(words[:k]) + rng.choice(["", "", " ", " \\", ","])
            if rng.random() < .15:
                t += rng.choice([" # needed for %s" % rng.choice(BASES), "  #%s)" % rng.choice(BASES)])
                t = re.sub(r"[\\,]( *#)", r" \1", t)
            L.append(t)
            words = words[k:]
            if rng.random() < .12:
                L.append(rng.choice(["# " + rng.choice(BASES), "\t#%s" % rng.choice(BASES), "", "  "]))
        if style == 5 or L[-1].find("#") >= 0:
            L.append(rng.choice([")", " ) "]) + tail)
        else:
            L[-1] = L[-1].rstrip("\\") + ")" + tail
        return L

    def recipe(self, p, deps):
        rng = self.rng
        cut = rng.randint(0, len(deps))
        run, mk = deps[:cut], deps[cut:]
        L = []
        head = ["description=\"%s of the %s\"" % (rng.choice(["A port", "The library (small)", "Needs # nothing"]), p.name), "url=https://%s.org/" % rng.choice(BASES), "packager=\"me <me@x>\"", "maintainer=you", "contributors=\"a, b\""]
        rng.shuffle(head)
        head = head[:rng.randint(1, 5)]
        body = [["version=" + p.version + rng.choice(["", "", " ", " # why"])]]
        if p.release != 1 or rng.random() < .5:
            body.append(["release=%d" % p.release + rng.choice(["", "", " # rebuilt"])])
        if mk or rng.random() < .4:
            body.append(self.array("makedepends", mk))
        if run or rng.random() < .4:
            body.append(self.array("run", run))
        body += [[h] for h in head]
        body.append(["source=(https://x.org/%s-$version.tar.gz" % p.name, "    fix.patch)"] if rng.random() < .6 else ["source=()"])
        if rng.random() < .3:
            body.append(["set=(cli-base)"])
        rng.shuffle(body)
        for b in body:
            if rng.random() < .2:
                L.append(rng.choice(["", "# " + rng.choice(BASES) + ")", "#makedepends=(%s)" % rng.choice(BASES)]))
            L += b
        L += ["build() {", "\tcd $name-$version", "\t./configure --prefix=/usr \\", "\t\t--with-%s" % rng.choice(BASES), "\tmake DESTDIR=$PKG install", "}"]
        return "\n".join(L) + rng.choice(["\n", "\n", ""])

    def setup(self):
        rng = self.rng
        reset()
        os.makedirs("/w/ports")
        colls = rng.sample(COLLS, rng.randint(1, 4))
        L = []
        if rng.random() < .5:
            L += ["depot /srv/depot"] + ["collection " + c for c in colls]
        else:
            L += ["dir /srv/depot/%s%s" % (c, rng.choice(["", "|http://127.0.0.1:1", "/"])) for c in colls]
        if rng.random() < .3:
            L.insert(rng.randrange(len(L)), "dir /home/me/" + rng.choice(colls))
        self.colls = list(dict.fromkeys(re.search(r"([a-z-]+)/?(\||$)", l).group(1) for l in L if not l.startswith("depot")))
        for _ in range(rng.choice([0, 1, 2])):
            L.insert(rng.randrange(len(L)), rng.choice(["", "# dir /x/none", "group devel", "logdir /var/log"]))
        os.makedirs("/etc", exist_ok=True)
        open("/etc/cards.conf", "w").write("\n".join(L) + "\n")
        names = rng.sample(BASES, rng.choice([1, 2, 4, 8, 12, len(BASES)]))
        order = list(names)
        kind = rng.choice(["tree", "tree", "chain", "cyclic", "missing"])
        self.kind = kind
        everything = {}
        for i, n in enumerate(order):
            cs = [rng.choice(self.colls)]
            if rng.random() < .15:
                cs.append(rng.choice(self.colls))
            for c in dict.fromkeys(cs):
                p = Port()
                p.name, p.coll = n, c
                p.version, p.release = rng.choice(["1.0", "2.5.1", "20240101", "1.0rc1"]), rng.choice([1, 1, 2, 17])
                below = order[:i]
                if kind == "chain":
                    deps = ([order[i - 1]] if i else []) + rng.sample(below, min(len(below), rng.choice([0, 0, 1])))
                elif kind == "cyclic":
                    deps = rng.sample(order, min(len(order), rng.choice([0, 1, 1, 2]))) if rng.random() < .4 else rng.sample(below, min(i, rng.choice([0, 1, 2])))
                else:
                    deps = rng.sample(below, min(i, rng.choice([0, 1, 2, 3, 6])))
                deps = [d + "." + rng.choice(SUBS) if rng.random() < .15 else d for d in deps]
                if rng.random() < .08:
                    deps.append(n)
                if kind == "missing" and rng.random() < .4:
                    deps.append(rng.choice(["nothere", "nothere.devel", "none", rng.choice(BASES)]) if kind != "missing" else rng.choice(["nothere", "none.lib", "gone"]))
                rng.shuffle(deps)
                p.words = list(dict.fromkeys(deps))
                p.text = self.recipe(p, p.words)
                everything[c, n] = p
        for c in self.colls:
            if rng.random() < .9 or any(k[0] == c for k in everything):
                os.makedirs("/w/ports/" + c, exist_ok=True)
        for (c, n), p in everything.items():
            d = "/w/ports/%s/%s" % (c, n)
            if rng.random() < .08:
                os.makedirs("/w/elsewhere/%s-%s" % (c, n))
                os.symlink("../../elsewhere/%s-%s" % (c, n), d)
            else:
                os.makedirs(d)
            open(d + "/Pkgfile", "w").write(p.text)
            if rng.random() < .3:
                open(d + "/fix.patch", "w").write("makedepends=(x)\n")
        for c in self.colls:
            if not os.path.isdir("/w/ports/" + c):
                continue
            if rng.random() < .3:
                open("/w/ports/%s/README" % c, "w").write("makedepends=(x)\n")
            if rng.random() < .3:
                os.makedirs("/w/ports/%s/.git" % c)
                open("/w/ports/%s/.git/Pkgfile" % c, "w").write("version=1\n")
            if rng.random() < .3:
                os.makedirs("/w/ports/%s/notaport" % c)
        # the collection listed first in cards.conf has precedence
        self.ports = {}
        for c in self.colls:
            for (cc, n), p in everything.items():
                if cc == c and n not in self.ports:
                    self.ports[n] = p
        self.log.append("case %d\n%s" % (self.index, "\n".join(L)))
        for (c, n), p in sorted(everything.items()):
            self.log.append("%s/%s:\n%s" % (c, n, "\n".join("      | " + l for l in p.text.split("\n"))))

    # -- the model --------------------------------------------------------------------------------
    def model(self):
        self.deps, self.missing = {}, {}
        for n, p in self.ports.items():
            d, m = set(), set()
            for w in p.words:
                t = w if w in self.ports else w.rsplit(".", 1)[0]
                if t in self.ports:
                    d.add(t)
                else:
                    m.add(w)
            self.deps[n], self.missing[n] = d, m
        self.level = {}
        n = 0
        while True:
            new = [p for p in self.ports if p not in self.level and all(d in self.level or d == p for d in self.deps[p])]
            if not new:
                break
            for p in new:
                self.level[p] = n
            n += 1
        self.lost = {p for p in self.ports if p not in self.level}      # in a cycle, or in need of one

    def reach(self, n):
        seen, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += self.deps[x]
        return seen

    # -- the questions -----------------------------------------------------------------------------
    def ask(self, *a):
        r = tool(["/usr/bin/cards"] + list(a), cwd="/w/ports", lang=self.rng.choice(["C", "C.UTF-8"]), timeout=60)
        self.log.append("cards %s -> %d" % (" ".join(a), r.rc))
        s = r.san()
        if s or r.timeout:
            self.bad(s.split("\n")[0] if s else "hang", s or "does not end")
            return None
        self.res.counts["asked_" + a[0]] += 1
        return r

    def bad(self, key, msg):
        self.res.bad(key, self.log[-1] + "\n" + msg + "\n" + "\n".join(self.log[:-1]))

    def run(self):
        res, rng = self.res, self.rng
        self.setup()
        self.model()
        before = snap("/", skip={"/proc", "/dev", "/sys", "/usr"})
        todo = ["level"] * 2
        for n in rng.sample(sorted(self.ports), min(len(self.ports), 6)):
            todo += [("depends", n), ("deptree", n), ("dependent", n)]
        todo += [("dependent", "nothere"), ("depends", "nosuchport"), ("deptree", "nosuchport.lib")]
        rng.shuffle(todo)
        for q in todo:
            ok = self.q_level() if q == "level" else getattr(self, "q_" + q[0])(q[1])
            if not ok:
                return res
        now = snap("/", skip={"/proc", "/dev", "/sys", "/usr"})
        if {p: n.key(False) for p, n in now.items()} != {p: n.key(False) for p, n in before.items()}:
            self.bad("changed", "a question changed the files")
            return res
        lv = max(self.level.values(), default=0)
        res.counts["ports"] += len(self.ports)
        res.counts["deepest_level_%d" % lv if lv < 6 else "deepest_level_6_or_more"] += 1
        res.counts["cases_with_cycles"] += bool(self.lost)
        res.counts["cases_with_missing_ports"] += any(self.missing.values())
        res.sig = hashlib.md5("\n".join(self.log).encode()).hexdigest()
        res.nontrivial = lv >= 1
        res.sample = self.log[-1:] if self.index < 3 else None
        return res

    def differ(self, key, want, got):
        self.bad(key, "expected\n%s\ngot\n%s" % ("\n".join("    " + str(w) for w in want), "\n".join("    " + str(w) for w in got)))
        return False

    def q_level(self):
        r = self.ask("level")
        if r is None:
            return False
        L = r.out.split("\n")[:-1]
        warn = sorted(re.sub(" +", " ", l) for l in L if l.startswith("WARNING"))
        want = sorted("WARNING %s from %s (%s) NOT FOUND ..." % (m.rsplit(".", 1)[0], n, self.ports[n].coll) for n in self.ports for m in self.missing[n])
        if warn != want:
            return self.differ("level:warnings", want, warn)
        got = [l for l in L if not l.startswith("WARNING")]
        # ports without an order are only required to be there once
        name = lambda l: l.split("/", 1)[1] if "/" in l else l
        if sorted(name(l) for l in got) != sorted(self.ports):
            return self.differ("level:ports", sorted(self.ports), got)
        want = ["%d: %s/%s" % (self.level[n], self.ports[n].coll, n) for n in sorted(self.level, key=lambda n: (self.level[n], n))]
        got = [l for l in got if name(l) not in self.lost]
        if got != want or r.rc != 0:
            return self.differ("level:order", want, got)
        return True

    def q_depends(self, n):
        r = self.ask("depends", n)
        if r is None:
            return False
        if n not in self.ports:
            return self.absent(r)
        L = r.out.split("\n")[:-1]
        need = self.reach(n)
        if need & self.lost:
            # there is no order, but nothing else than what it needs is listed, and the port itself at the end
            names = [l.split(": ")[1] for l in L]
            extra = set(names) - need - set().union(*(self.missing[x] for x in need))
            if extra or not names or names[-1] != n or r.rc != 0:
                return self.differ("depends:cyclic", sorted(need), L)
            return True
        want = ["%d: %s" % (self.level[x], x) for x in sorted(need - {n}, key=lambda x: (self.level[x], x))] + ["%d: %s" % (self.level[n], n)]
        gone = set().union(*(self.missing[x] for x in need))
        got = [l for l in L if l.split(": ")[-1] not in gone]
        if got != want or r.rc != 0:
            return self.differ("depends:list", want, L)
        return True

    def tree(self, n, depth, seen, out):
        mark = ""
        first = n not in seen
        if not first and n in self.ports and (self.deps[n] or self.missing[n]):
            mark = " -->"
        out.append("%s%d) %s%s" % ("  " * depth, depth, n, mark))
        if first:
            seen.add(n)
            if n in self.ports:
                for d in sorted(self.deps[n] | self.missing[n]):
                    if d != n:
                        self.tree(d, depth + 1, seen, out)

    def q_deptree(self, n):
        r = self.ask("deptree", n)
        if r is None:
            return False
        if n not in self.ports:
            return self.absent(r)
        want = []
        self.tree(n, 0, set(), want)
        got = r.out.split("\n")[1:-1]
        if got != want or r.rc != 0:
            return self.differ("deptree", want, got)
        return True

    def absent(self, r):
        if r.rc == 0 or not r.err.strip():
            self.bad("absent", "no such port, but %r %r" % (r.out, r.err))
            return False
        self.res.counts["asked_for_none"] += 1
        return True

    def q_dependent(self, n):
        r = self.ask("dependent", n)
        if r is None:
            return False
        show = lambda p: "(%s) %s %s-%d" % (p.coll, p.name, p.version, p.release)
        want = sorted(show(p) for x, p in self.ports.items() if x != n and n in self.deps[x] | self.missing[x])
        got = [l for l in r.out.split("\n")[:-1] if n not in self.ports or l != show(self.ports[n])]
        if got != want or r.rc != 0:
            return self.differ("dependent", want, got)
        return True


def case(task):
    return Ports(*task[:2]).run()


def check(pid):
    c = core.Check(pid, "ports and their order",
                   "A case is a tree of 1-18 ports in 1-4 collections (recipes in the many ways they are written, ports of the same name in two collections, dependencies on subpackages, on themselves, missing and cyclic ones) "
                   "and about 20 questions level, depends, deptree and dependent, answered by the instrumented cards and compared line by line with a model. Non-trivial: at least two levels. Distinct: the trees or the questions differ.",
                   assumptions=["the order of ports which need each other is not specified; they are only required to be listed once"])
    tpl = jail.make_template(c.scratch, {"/usr/bin/cards": build.cards("asan")})
    n = c.size(500, 8000)
    c.run(tpl, case, [[c.seed, i] for i in range(n)])
    c.finish(min_nontrivial=150)

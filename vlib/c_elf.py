"""Which libraries files need, and which packages provide them: pkginfo -L, -R, --runtimelibs, --runtimedepfiles."""
import hashlib, os, re, stat

from . import build, core, elf, engine, jail
from .core import Result, rng_for
from .engine import tool
from .fsnap import snap
from .model import DB
from .pkgs import Ent, Pkg, parents

LIBS = ["libfoo.so.1", "libfoo.so.11", "libfoo.so", "libbar-2.0.so.0", "libc.so.6", "libstdc++.so.6", "ld-linux.so.2", "plug.so", "libfoo.so.1.2",
        "xlibfoo.so.1", "libz.so.1x"]
DIRS = ["usr/lib", "usr/bin", "usr/lib/foo", "usr/libexec", "lib", "usr/lib32"]


class Case:
    def __init__(self, seed, index):
        self.rng = rng_for(seed, "elf", index)
        self.index, self.res, self.trace = index, Result(), []

    def bad(self, key, msg):
        self.res.bad(key, msg + "\n--- case %d ---\n" % self.index + "\n".join(self.trace))

    def elf_blob(self):
        rng = self.rng
        needed = rng.sample(LIBS, rng.randint(0, 4))
        so = rng.choice(LIBS) if rng.random() < .5 else None
        bits = rng.choice([64, 64, 32])
        d = elf.make(rng, needed, so, bits)
        want = set(needed) | ({so} if so else set())
        if elf.libs(d) != want:
            raise core.CheckError("the two halves of elf.py do not agree: %s %s" % (elf.libs(d), want))
        return d, "ELF%d needed %s soname %s" % (bits, needed, so)

    def make(self):
        rng = self.rng
        engine.reset()
        os.makedirs("/w/root/" + DB)
        self.pk, self.hostile = {}, set()
        for name in rng.sample(["foo", "bar", "glibc", "app", "app.lib"], rng.randint(1, 4)):
            p = Pkg(name, build=1600000000 + rng.randint(0, 9))
            used = {f for q in self.pk.values() for f in q.manifest()}
            for _ in range(rng.randint(1, 5)):
                path = rng.choice(DIRS) + "/" + rng.choice(LIBS + ["prog", "tool", "data.txt", ".hidden"])
                have = {e.path for e in p.ents}
                if path in used or path in have or any(q in have and not any(e.path == q and e.kind == "d" for e in p.ents) for q in parents(path)) \
                        or any(h.startswith(path + "/") for h in have | used):
                    continue
                for d in parents(path):
                    if d not in have and rng.random() < .9:
                        p.ents.append(Ent(d, "d"))
                        have.add(d)
                k = rng.random()
                if k < .6:
                    d, txt = self.elf_blob()
                    if rng.random() < .22:
                        d = elf.damage(rng, d)
                        self.hostile.add(path)
                        txt += " damaged"
                    p.ents.append(Ent(path, "f", 0o755, data=d))
                    self.trace.append("%s %s %s" % (name, path, txt))
                elif k < .7:
                    p.ents.append(Ent(path, "f", data=rng.choice([b"", b"#!/bin/sh\n", b"\x7fEL", b"\x7fELF", b"\x7fELF\x02\x01\x01" + b"\0" * rng.randrange(80), b"x" * 70])))
                elif k < .75:
                    p.ents.append(Ent(path, "p", 0o600))
                elif k < .95:
                    els = [e.path for e in p.ents if e.kind == "f"]
                    t = os.path.relpath(rng.choice(els), os.path.dirname(path)) if els and rng.random() < .8 else "nowhere"
                    p.ents.append(Ent(path, "l", data=t.encode()))
                else:
                    p.ents.append(Ent(path, "d"))
            if not p.ents:
                p.ents.append(Ent("usr/share/%s" % name, "f", data=b"x"))
            if rng.random() < .3:
                p.alias = [name + "-alias"]
            open("/w/pkgs/%s.cards.tar" % name, "wb").write(p.archive())
            r = tool(["/usr/bin/pkgadd", "-r", "/w/root", "/w/pkgs/%s.cards.tar" % name])
            if r.rc != 0:
                raise RuntimeError("pkgadd: %s %s" % (r.err, p.show()))
            self.pk[name] = p

    def libs_of(self, path):
        """-> (names, sure)"""
        try:
            st = os.stat(path)
        except OSError:
            return set(), True
        if not stat.S_ISREG(st.st_mode):
            return set(), True
        if os.path.relpath(os.path.realpath(path), "/w/root") in self.hostile:
            return set(), False
        d = open(path, "rb").read()
        return (elf.libs(d) if len(d) > 64 and d[:4] == b"\x7fELF" and d != b"\x7fELF\x02\x01\x01" + b"\0" * (len(d) - 7) else set()), True

    def run(self, *args):
        rng = self.rng
        argv = ["/usr/bin/pkginfo"] + (["-r", "/w/root"] + list(args) if rng.random() < .5 else list(args) + ["--root", "root"])
        r = tool(argv, cwd="/w", timeout=40)
        self.res.counts["query_" + args[0].strip("-")] += 1
        self.ctx = "%s: exit %d\nstdout %s\nstderr %s" % (" ".join(argv), r.rc, r.out[-1500:], r.err[-800:])
        if r.timeout:
            self.bad("hang", "no end\n" + self.ctx)
            return None
        s = r.san()
        if s:
            self.bad(s.split(" ")[0], s + "\n" + self.ctx)
            return None
        if r.rc != 0:
            self.bad(args[0] + ":exit", "exit %d\n%s" % (r.rc, self.ctx))
            return None
        return r.out

    def judge(self, what, got, want, may, sure):
        """want: must be there; may: can be there"""
        if not (want <= got) or (sure and not got <= want | may):
            self.bad(what, "missing %s, too much %s\n%s" % (sorted(want - got), sorted(got - want - may), self.ctx))
            return False
        return True

    def providers(self, libs):
        must, may = set(), set()
        for n, p in self.pk.items():
            for f in p.manifest():
                base = f.rsplit("/", 1)[1] if "/" in f else None
                for l in libs:
                    if base == l:
                        must.add(n)
                    elif base and base.startswith(l + "."):
                        may.add(n)
        return must, may

    def go(self):
        rng, res = self.rng, self.res
        self.make()
        before = snap("/", skip=engine.SKIP)
        nz = 0
        for _ in range(3):
            how = rng.choice(["-L", "--libraries", "-R", "--runtimedep", "--runtimelibs", "--runtimedepfiles"])
            if how in ("--runtimelibs", "--runtimedepfiles"):
                d = rng.choice(["usr", "usr/lib", "", "lib"])
                path = "/w/root/" + d
                if not os.path.isdir(path):
                    continue
                files = []
                for dp, dn, fn in os.walk(path):
                    dn[:] = [x for x in dn if not x.startswith(".")]
                    files += [os.path.join(dp, f) for f in fn if not f.startswith(".") and not os.path.islink(os.path.join(dp, f))]
                arg = path if rng.random() < .7 else os.path.relpath(path, "/w")
                out = self.run(how, arg)
            else:
                n = rng.choice(sorted(self.pk))
                files = ["/w/root/" + f for f in self.pk[n].manifest()]
                out = self.run(how, rng.choice([n] + self.pk[n].alias))
            if out is None:
                return res
            want, sure = set(), True
            for f in files:
                w, s = self.libs_of(f)
                want |= w
                sure &= s
            nz += len(want)
            ls = [l for l in out.split("\n") if l]
            if how in ("-L", "--libraries", "-R", "--runtimedep"):
                if not ls or ls[0] != "Librairies":
                    self.bad("head", self.ctx)
                    return res
                ls = ls[1:]
            if how in ("-L", "--libraries", "--runtimelibs"):
                ok = self.judge("libraries", set(ls), want, set(), sure)
            else:
                must, may = self.providers(want)
                got = set(",".join(ls).split(",")) - {""} if how in ("-R", "--runtimedep") else set(ls)
                if how == "--runtimedepfiles":
                    must = {n + str(self.pk[n].build) for n in must}
                    may = {n + str(self.pk[n].build) for n in may}
                ok = self.judge("providers", got, must, may, sure)
            if not ok:
                return res
            res.counts["names_compared"] += len(want)
            res.counts["hostile_files"] += not sure
        after = snap("/", skip=engine.SKIP)
        if {p: n.key() for p, n in before.items()} != {p: n.key() for p, n in after.items()}:
            self.bad("changed", "a query changed the system")
        res.sig = hashlib.md5(("\n".join(self.trace) + repr(sorted(self.pk))).encode()).hexdigest()
        res.nontrivial = nz > 0
        res.sample = self.trace[:5] if self.index % 50 == 0 else None
        return res


def case(task):
    return Case(*task[:2]).go()


def check(pid):
    from .c_info import template
    c = core.Check(pid, "runtime libraries",
                   "A case is a set of installed packages with synthesised ELF files (32 and 64 bits, varied layout; some of them damaged), other files, links and FIFOs; "
                   "what pkginfo reports as libraries and as their providers is compared with a reader of our own. Non-trivial: a library name was "
                   "to be reported. Distinct: the files differ.",
                   assumptions=["symbolic links of absolute target are not followed below the root"])
    n = c.size(700, 15000)
    c.run(template(c.scratch), case, [[c.seed, i] for i in range(n)])
    c.finish(min_nontrivial=200)

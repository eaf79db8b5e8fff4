"""Damaged and unfit archives: refused as a whole, or installed as a whole."""
import hashlib, os, re

from . import build, core, engine, jail
from .c_crash import SKIP, Scenario
from .engine import Profile, compare, register, tool
from .fsnap import snap

PROF = register(Profile("damaged", {"install": 4, "upgrade": 5}, nops=(1, 3), rules=.25, forced=.4, scripts=0, admin=.15, host=0, npk=(2, 4), progress=0,
                        foreign_arch=0, autodep=.2, symdir=0, prepop=.4, ignore_scripts=0))
COMP = ["", "gz", "bz2", "xz", "zst"]


class Damaged(Scenario):
    def choose(self):
        while True:
            r = super().choose()
            if r[0] == "add":
                return r

    def boundaries(self, raw):
        """offsets at which a member of the plain archive begins"""
        out, pos = [], 0
        while pos + 512 <= len(raw) and raw[pos:pos + 1] != b"\0":
            out.append(pos)
            size = int(raw[pos + 124:pos + 135].split(b"\0")[0] or b"0", 8)
            pos += 512 + (size + 511) // 512 * 512
        out.append(pos)
        return out

    def damage(self):
        """-> (file name, bytes, what was done) of an archive that is to be refused, or does no harm"""
        rng, x = self.rng, self.x
        comp = rng.choice(COMP if os.path.exists("/usr/bin/zstd") else COMP[:4])
        raw = x.archive("")
        data = bytearray(raw if not comp else x.archive(comp))
        bounds = self.boundaries(raw)
        name = "/w/pkgs/damaged.cards.tar" + ("." + comp if comp else "")
        kinds = ["cut", "cut", "cutend", "garbage", "unfit", "append"]
        kinds += ["flip", "flip", "zero"] if comp in ("bz2", "xz", "zst") else []
        kinds += ["header", "header"] if not comp else []
        k = rng.choice(kinds)
        if k in ("cut", "cutend"):
            n = len(data)
            p = rng.randrange(n) if k == "cut" else n - rng.randint(1, min(n, 24))
            if not comp:
                p = rng.randrange(bounds[-1])
                # between two members nothing tells that there was more
                if p % 512 == 0 and p in bounds:
                    p += 1
                # in the padding of a member all of it is there
            return name, bytes(data[:p]), "%s at %d of %d %s" % (k, p, n, comp)
        if k == "flip":
            p = rng.randrange(len(data))
            data[p] ^= 1 << rng.randrange(8)
            return name, bytes(data), "bit at %d of %d %s" % (p, len(data), comp)
        if k == "zero":
            p = rng.randrange(len(data))
            n = rng.choice([4, 64, 4096])
            data[p:p + n] = bytes(len(data[p:p + n]))
            return name, bytes(data), "%d zeros at %d of %d %s" % (n, p, len(data), comp)
        if k == "header":
            p = rng.choice(bounds[:-1])
            f = rng.choice([0, 1, 100, 103, 124, 130, 148, 150, 156])
            data[p + f] ^= rng.choice([1, 2, 0x40])
            if raw[p + f] == data[p + f]:
                return None
            return name, bytes(data), "header of member %d byte %d" % (bounds.index(p), f)
        if k == "append":
            return name, bytes(data) + rng.choice([b"\n", b"garbage" * 99, bytes(777)]), "appended " + comp
        if k == "garbage":
            g = rng.choice([b"", b"\0", b"no archive\n", bytes(rng.randrange(256) for _ in range(rng.choice([10, 600, 5000]))), bytes(10240), b"\x1f\x8b\x08", b"\xfd7zXZ\0",
                            b"PK\x03\x04" + bytes(30), b"#mtree\nusr/x type=file\n", bytes(data[:3])])
            return name, g, "garbage %r" % g[:12]
        u = rng.choice(["nometa", "nomtree", "emptymeta", "emptymtree", "noname", "arch"])
        import copy
        y = copy.copy(x)
        if u == "emptymeta":
            y.meta_override = rng.choice([b"", b"\n\n"])
        elif u == "emptymtree":
            y.mtree_override = b""
        elif u == "noname":
            y.meta_override = b"".join(l + b"\n" for l in x.meta().split(b"\n") if l and l[:1] != b"N")
        r2 = y.archive("")
        if u in ("nometa", "nomtree"):
            b2 = self.boundaries(r2)
            i = 0 if u == "nometa" else 1
            r2 = r2[:b2[i]] + r2[b2[i + 1]:]
        elif u == "arch":
            return None
        from .pkgs import compress
        return name, compress(r2, comp), "unfit: %s %s" % (u, comp)


def case(task):
    seed, index, quick = task
    s = Damaged(seed, PROF, index)
    res = s.res
    ok = s.prepare()
    if ok is False:
        return res
    if ok is None:
        res.counts["no_target"] += 1
        return res
    tried = 0
    for _ in range(10 if quick else 40):
        d = s.damage()
        if d is None:
            continue
        arc, data, what = d
        s.restore()
        open(arc, "wb").write(data)
        argv = [a if a != s.arc else arc for a in s.argv]
        r = tool(argv)
        os.unlink(arc)
        kind = re.sub(r"[\d ]+", " ", what.split("%")[0]).split(" of ")[0].strip()
        ctx = "%s: %s: exit %d\nstdout %s\nstderr %s" % (" ".join(argv), what, r.rc, r.out[-400:], r.err[-700:])
        tried += 1
        if r.timeout:
            res.inconclusive = ctx
            return res
        sn = r.san()
        if sn:
            s.bad(sn.split(" ")[0], sn + "\n" + ctx)
            return res
        have = snap("/", skip=SKIP)
        if r.rc == 0:
            if what.startswith("unfit"):
                s.bad("accepted:" + what.split()[1], "accepted\n" + ctx)
                return res
            diff = compare(s.B, have)
            if diff:
                s.bad("partial", "success is reported, but not all is installed\n%s\n%s" % ("\n".join(diff), ctx))
                return res
            res.counts["harmless"] += 1
        else:
            if not r.err.strip():
                s.bad("mute", "refused without a word\n" + ctx)
                return res
            diff = compare(s.A, have)
            if diff:
                s.bad("changed", "refused, but not without effect\n%s\n%s" % ("\n".join(diff), ctx))
                return res
            res.counts["refused"] += 1
        res.counts["damage_" + what.split()[0].rstrip(":")] += 1
        res.tags.add("%s/%s/%d/%s" % (s.o.cls, what.split()[0], r.rc, arc.rsplit(".", 1)[1]))
    res.sig = hashlib.md5("\n".join(s.trace).encode("utf-8", "surrogateescape")).hexdigest()
    res.nontrivial = tried > 3
    res.sample = s.trace[-2:] if index < 4 else None
    return res


def check(pid):
    c = core.Check(pid, "damaged archives",
                   "A case is a package to be installed or upgraded on a random state; damaged and unfit variants of its archive (cut anywhere, bits changed, zeroed, "
                   "headers broken, without meta data or list ...) are given to pkgadd, which must refuse them with everything as before, or, where the damage does no "
                   "harm, install all of the package. Non-trivial: more than three variants were tried. Distinct: state and package differ.",
                   assumptions=["an uncompressed archive cut exactly between two members, and changed contents of one, or of a gzip stream, are not told by the format"])
    t = build.tools("asan")
    tpl = jail.make_template(c.scratch, {"/usr/bin/pkgadd": t, "/usr/bin/pkgrm": t, "/usr/bin/pkginfo": t}, systools=jail.SYSTOOLS + ["zstd"])
    n = c.size(200, 3000)
    c.run(tpl, case, [[c.seed, i, c.tier == "quick"] for i in range(n)])
    c.finish(min_nontrivial=50)

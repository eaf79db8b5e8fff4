"""Package specifications and archives (the input side of every workload)."""
import io, random, subprocess, tarfile

ARCH = "x86_64"


class Ent:
    """one archive member.  kind: d f l p h(ardlink)"""
    __slots__ = ("path", "kind", "mode", "uid", "gid", "data", "mtime")

    def __init__(self, path, kind, mode=None, uid=0, gid=0, data=b"", mtime=1500000000):
        self.path, self.kind = path, kind
        self.mode = mode if mode is not None else {"d": 0o755, "l": 0o777}.get(kind, 0o644)
        self.uid, self.gid, self.data, self.mtime = uid, gid, data, mtime

    def name(self):
        return self.path + ("/" if self.kind == "d" else "")

    def show(self):
        return "%s %o %d:%d %s%s" % (self.kind, self.mode, self.uid, self.gid, self.name(),
                                     " " + repr(self.data[:24]) if self.data else "")


class Pkg:
    def __init__(self, name, version="1.0", release="1", build=1600000000, arch="any", ents=(), extra=(),
                 pre=None, post=None, prer=None, postr=None, collection="cli", deps=(), alias=(), sets=(),
                 description="a package", group=None):
        self.name, self.version, self.release, self.build, self.arch = name, version, release, build, arch
        self.ents, self.extra = list(ents), list(extra)
        self.pre, self.post, self.prer, self.postr = pre, post, prer, postr
        self.collection, self.deps, self.alias, self.sets = collection, list(deps), list(alias), list(sets)
        self.description, self.group = description, group
        self.space = None
        self.packager = "paul"
        self.tail = True        # trailing newline on .META and .MTREE
        self.meta_override = None
        self.mtree_override = None

    def meta_lines(self):
        m = ["N" + self.name, "V" + self.version]
        if self.release is not None:
            m.append("r" + self.release)
        m += ["B%d" % self.build, "S%d" % (self.space if self.space is not None else sum(len(e.data) for e in self.ents)), "c" + self.collection,
              "a" + self.arch, "D" + self.description, "Uhttp://x.org/" + self.name, "Cjohn", "Mmary", "P" + self.packager, "LGPL"]
        if self.group:
            m.append("g" + self.group)
        m += ["R%s%010d" % (n, b) for n, b in self.deps]
        m += ["A" + a for a in self.alias]
        m += ["s" + a for a in self.sets]
        m += list(self.extra)
        return m

    def meta(self):
        if self.meta_override is not None:
            return self.meta_override
        return ("\n".join(self.meta_lines()) + ("\n" if self.tail else "")).encode()

    def manifest(self):
        return [e.name() for e in self.ents]

    def mtree(self):
        if self.mtree_override is not None:
            return self.mtree_override
        return ("\n".join(self.manifest()) + ("\n" if self.tail else "")).encode("utf-8", "surrogateescape")

    def archive(self, comp="", fmt=tarfile.GNU_FORMAT):
        bio = io.BytesIO()
        tf = tarfile.open(fileobj=bio, mode="w", format=fmt)

        def add(name, data, mode=0o644):
            ti = tarfile.TarInfo(name)
            ti.size, ti.mode, ti.mtime = len(data), mode, 1500000000
            tf.addfile(ti, io.BytesIO(data))

        add(".META", self.meta())
        add(".MTREE", self.mtree())
        for n, s in ((".PRE", self.pre), (".POST", self.post), (".PRER", self.prer), (".POSTR", self.postr)):
            if s is not None:
                add(n, s.encode())
        for e in self.ents:
            ti = tarfile.TarInfo(e.path)
            ti.mode, ti.uid, ti.gid, ti.mtime = e.mode, e.uid, e.gid, e.mtime
            if e.kind == "d":
                ti.type = tarfile.DIRTYPE
                tf.addfile(ti)
            elif e.kind == "f":
                ti.size = len(e.data)
                tf.addfile(ti, io.BytesIO(e.data))
            elif e.kind == "l":
                ti.type, ti.linkname = tarfile.SYMTYPE, e.data.decode()
                tf.addfile(ti)
            elif e.kind == "h":
                ti.type, ti.linkname = tarfile.LNKTYPE, e.data.decode()
                tf.addfile(ti)
            elif e.kind == "p":
                ti.type = tarfile.FIFOTYPE
                tf.addfile(ti)
        tf.close()
        return compress(bio.getvalue(), comp)

    def show(self):
        s = "%s %s-%s [%s]" % (self.name, self.version, self.release, ", ".join(e.show() for e in self.ents))
        for n in ("pre", "post", "prer", "postr"):
            if getattr(self, n) is not None:
                s += " %s=%r" % (n, getattr(self, n))
        return s


def compress(raw, comp):
    import bz2, gzip, lzma
    if comp == "gz":
        return gzip.compress(raw, 1, mtime=0)
    if comp == "bz2":
        return bz2.compress(raw, 1)
    if comp == "xz":
        return lzma.compress(raw, preset=0)
    if comp == "zst":
        return subprocess.run(["zstd", "-1", "-q", "-c"], input=raw, stdout=subprocess.PIPE, check=True).stdout
    return raw


DIRS = ["etc", "etc/conf.d", "usr", "usr/share", "usr/share/doc", "usr/lib", "opt", "opt/app", "srv", "srv/www"]
LEAVES = ["etc/%s.conf" % c for c in "abcd"] + ["etc/B.conf", "etc/conf.d/#old"] + ["etc/conf.d/%s" % c for c in ("net", "host", "x y")] + \
         ["usr/share/%s" % c for c in ("info.dat", "icon", "theme.d")] + ["usr/share/doc/%s" % c for c in "rst"] + \
         ["usr/lib/lib%s.so" % c for c in "xyz"] + ["opt/app/%s" % c for c in ("run", "data", "-opt", "t\u00e9st")] + \
         ["srv/www/%s" % c for c in ("index", "page", ".hidden", "a/b/c", "a/b/d")] + ["top", "srv/" + "long" * 30]
NAMES = ["alpha", "beta", "gamma", "delta", "alpha.man", "alpha-x", "lib+y"]


def parents(path):
    out = []
    while "/" in path:
        path = path.rsplit("/", 1)[0]
        out.append(path)
    return out[::-1]


def vary(rng, data):
    """a slightly different content"""
    k = rng.randrange(5)
    if not data or k == 0:
        return data + b"+"
    if k == 1:
        return data[:-1]
    i = {2: 0, 3: len(data) - 1, 4: rng.randrange(len(data))}[k]
    return data[:i] + bytes([data[i] ^ 1]) + data[i + 1:]


def gen_ents(rng, nmax=7, leaves=None, with_links=True, uids=(0, 0, 0, 33), typechange=0.0):
    leaves = leaves or LEAVES
    n = rng.randint(1, nmax)
    chosen = rng.sample(leaves, min(n, len(leaves)))
    ents, seen = [], set()
    listdirs = rng.random() < 0.85
    for p in sorted(chosen):
        if listdirs:
            for d in parents(p):
                if d not in seen:
                    seen.add(d)
                    ents.append(Ent(d, "d", mode=0o755 if rng.random() < .9 else rng.choice([0o700, 0o775, 0o1777]),
                                    uid=rng.choice(uids), gid=rng.choice(uids)))
        k = "f"
        r = rng.random()
        if with_links and r < 0.12:
            k = "l"
        elif with_links and r < 0.15:
            k = "p"
        elif with_links and r < 0.20 and any(e.kind == "f" for e in ents):
            k = "h"
        elif r < 0.24:
            k = "d"
        mt = 1500000000 + rng.randint(0, 10 ** 6)
        u, g = rng.choice(uids), rng.choice(uids)
        if k == "d":
            if any(x.path.startswith(p + "/") for x in ents):
                continue
            ents.append(Ent(p, "d", mode=0o755, uid=u, gid=g))
        elif k == "l":
            ents.append(Ent(p, "l", uid=u, gid=g, data=rng.choice([b"nowhere", b"../x", b"/etc/a.conf", b"a.conf"])))
        elif k == "p":
            ents.append(Ent(p, "p", mode=0o600, uid=u, gid=g, mtime=mt))
        elif k == "h":
            t = rng.choice([e for e in ents if e.kind == "f"])
            ents.append(Ent(p, "h", mode=t.mode, uid=t.uid, gid=t.gid, data=t.path.encode(), mtime=t.mtime))
        else:
            size = rng.choice([0, 1, 5, 5, 5, 300, 8191, 8192, 8193, 9000, 16384])
            data = bytes(rng.choice(b"abcdefgh\n\0\xff") for _ in range(min(size, 40))) * (size // 40 + 1) if size else b""
            data = data[:size]
            ents.append(Ent(p, "f", mode=rng.choice([0o644, 0o644, 0o755, 0o600, 0o4755, 0o444]), uid=u, gid=g,
                            data=data, mtime=mt))
    # no member may sit below a non-directory member
    nd = {e.path for e in ents if e.kind != "d"}
    ents = [e for e in ents if not any(q in nd for q in parents(e.path))]
    return ents

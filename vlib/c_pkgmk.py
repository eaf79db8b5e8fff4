"""pkgmk: what a port installs becomes packages.

The script of the tree is run in the jail on generated ports; the archives, the index, the footprints and everything
else it leaves are compared with a model of what the port's build function installed."""
import bz2, gzip, hashlib, io, lzma, os, re, stat, tarfile, time

from . import build, core, elf, engine, jail, repo
from .engine import _rmtree, reset, tool
from .fsnap import snap
from .model import DB
from .pkgs import Ent, Pkg, parents

PORTS, SRV = "/ports", "/srv"
TOOLS = ["bash", "sh", "env", "find", "sort", "sed", "grep", "cut", "du", "file", "strip", "gzip", "bzip2", "xz", "zstd", "diff", "mv", "rm", "cp", "mkdir", "ls", "cat",
         "basename", "dirname", "date", "uname", "getconf", "touch", "stat", "sha512sum", "curl", "readlink", "ln", "chmod", "chown", "kill", "sleep", "tar", "uniq", "tr", "head",
         "mktemp", "rmdir", "true", "false", "tail", "install", "id", "expr", "wc", "seq"]
ARCH = os.uname().machine
GROUPS = ["lib", "devel", "man", "doc", "service"]
LOCALES = ["fr", "de", "pt"]
EXE, LIB = "/usr/lib/samples/exe", "/usr/lib/samples/libdep.so.1"
SKIP = {"/proc", "/dev", "/sys", "/usr/bin", "/usr/lib", "/lib64", "/lib", "/opt/wrap", "/w"}
SUFFIX = {"gz": gzip.decompress, "bz2": bz2.decompress, "xz": lzma.decompress, "zst": repo.zdecompress}


class F:
    """a file as a port installs it"""
    __slots__ = ("kind", "mode", "data", "uid", "gid", "mtime", "what")

    def __init__(self, kind, mode, data=b"", uid=0, gid=0, mtime=1500000000, what=""):
        self.kind, self.mode, self.data, self.uid, self.gid, self.mtime, self.what = kind, mode, data, uid, gid, mtime, what

    def copy(self, **kw):
        n = F(self.kind, self.mode, self.data, self.uid, self.gid, self.mtime, self.what)
        for k, v in kw.items():
            setattr(n, k, v)
        return n


FAILS = ["build", "install", "prepare", "unpacked", "usrsbin", "sbin", "nothing", "cutsource", "nosource", "rundep", "nofunction", "badname", "othername", "noversion",
         "badrelease", "nodescription", "longdescription"]


class Port:
    def __init__(self, name, coll):
        self.name, self.coll = name, coll
        self.dir = "%s/%s/%s" % (PORTS, coll, name)
        self.version, self.release = "1.0", 1
        self.tree = {}
        self.vars = {}
        self.scripts = {}           # file name below the port -> text
        self.built = None           # subpackage name -> Built
        self.nostrip = None
        self.fail = None
        self.run = []
        self.url = False


class Built:
    def __init__(self, fname, files, meta, times):
        self.fname, self.files, self.meta, self.times = fname, files, meta, times


class Pkgmk:
    tag = "pkgmk"

    def __init__(self, seed, index):
        self.rng = core.rng_for(self.tag, seed, index)
        self.index = index
        self.res = core.Result()
        self.trace = []
        self.footprints = {}        # path -> lines it has to have
        self.inst = set()
        self.nfail = 0
        self.owner = {}
        self.edited = set()         # packages of which the footprint was changed by hand

    def note(self, s):
        self.trace.append(s)

    def bad(self, key, msg):
        self.res.bad(key, msg + "\n--- history ---\n" + "\n".join(self.trace))

    # -- the setting ----------------------------------------------------------------------------------
    def setup(self):
        reset()
        rng = self.rng
        for p in (PORTS, SRV + "/src", "/etc", DB, "/w", "/root"):
            os.makedirs("/" + p.strip("/"), exist_ok=True)
        self.shared = rng.random() < .5
        coll = rng.choice(["base", "cli", "gui", "own"])
        names = rng.sample(["foo", "foo-bar", "libx++", "a", "xfce4_x"], rng.choice([1, 1, 2, 2, 3]))
        if rng.random() < .5:
            names = [n for n in ("foo", "foo-bar", "a") if n in names or n != "a"][:max(2, len(names))]
        self.ports = [Port(n, coll) for n in names]
        self.dlib = rng.choice(["dep1", "dep1", "libdevel", "x-devel-2", "dep1.devel", "dep-two.devel", "lib++x.devel"])    # the package of the library the samples need
        self.coll = coll
        c = self.cfg = {}
        c["GROUPS"] = rng.sample(GROUPS, rng.choice([0, 1, 2, 4, 5]))
        if rng.random() < .3:
            c["GROUPS"] = ["devel", "man", "doc", "service"]
        c["LOCALES"] = rng.sample(LOCALES, rng.choice([0, 0, 1, 2]))
        c["COMPRESS"] = rng.choice([None, None, "xz", "gz", "zst", "bz2"])
        c["KEEP_SOURCES"] = rng.random() < .4
        c["IGNORE_REPO"] = rng.random() < .3
        c["IGNORE_FOOTPRINT"] = rng.random() < .3
        c["IGNORE_NEW"] = rng.choice([None, "yes", "no"])
        c["NO_STRIP"] = rng.random() < .3
        c["KEEP_LA"] = rng.random() < .3
        c["DEPS"] = rng.random() < .6
        c["LIBS"] = rng.random() < .4
        c["SOURCE_DIR"] = rng.random() < .4
        c["WORK_DIR"] = rng.random() < .4
        c["CLEAN"] = rng.random() < .4
        self.pkgdir = "%s/pk/%s" % (SRV, coll) if self.shared else None
        if self.shared:
            os.makedirs(self.pkgdir)
        for d in ([SRV + "/sources"] if c["SOURCE_DIR"] else []) + ([SRV + "/build"] if c["WORK_DIR"] else []):
            os.makedirs(d)
        self.conf()
        for p in self.ports:
            os.makedirs(p.dir)
            self.new_tree(p)
            self.new_vars(p)
            self.write(p)
        # what is installed
        self.have = {}
        for n in (self.dlib, "dep2", "dep2.lib"):
            if rng.random() < .8:
                self.dep(n)

    def dep(self, n):
        rng = self.rng
        q = Pkg(n, build=1600000000 + rng.randrange(99), ents=[Ent("usr", "d"), Ent("usr/share", "d"), Ent("usr/share/%s" % n, "f")])
        if n == self.dlib:
            q.ents += [Ent("usr/lib", "d"), Ent("usr/lib/libdep.so.1", "f", 0o755, data=open(LIB, "rb").read())]
            q.extra = []
        os.makedirs("/w/pkgs", exist_ok=True)
        f = "/w/pkgs/%s.cards-1.0-1" % n
        open(f, "wb").write(q.archive())
        r = tool(["/usr/bin/pkgadd", f])
        if r.rc != 0:
            raise core.CheckError("pkgadd %s: %s" % (n, r.err))
        self.have[n] = q.build

    def conf(self):
        c = self.cfg
        L = ["PKGMK_GROUPS=(%s)" % " ".join(c["GROUPS"]), "PKGMK_LOCALES=(%s)" % " ".join(c["LOCALES"])]
        yn = lambda b: "yes" if b else "no"
        if c["COMPRESS"]:
            L += ["PKGMK_COMPRESS_PACKAGE=yes", "PKGMK_COMPRESSION_MODE=" + c["COMPRESS"], "PKGMK_COMPRESSION_OPTS=-1"]
        # what the configuration says counts more than options, so it says nothing where it would say no
        for k, x in (("KEEP_SOURCES", c["KEEP_SOURCES"]), ("IGNORE_REPO", c["IGNORE_REPO"]), ("IGNORE_FOOTPRINT", c["IGNORE_FOOTPRINT"]), ("NO_STRIP", c["NO_STRIP"]), ("KEEP_LA_LIBS", c["KEEP_LA"]),
                     ("IGNORE_RUNTIMEDEPS", not c["DEPS"]), ("IGNORE_RUNTIMELIBS", not c["LIBS"])):
            if x:
                L.append("PKGMK_%s=yes" % k)
        L.append("PKGMK_CLEAN=" + yn(c["CLEAN"]))
        if c["IGNORE_NEW"]:
            L.append("PKGMK_IGNORE_NEW=" + c["IGNORE_NEW"])
        if self.shared:
            L.append("PKGMK_PACKAGE_DIR=" + self.pkgdir)
        if c["SOURCE_DIR"]:
            L.append("PKGMK_SOURCE_DIR=%s/sources" % SRV)
        if c["WORK_DIR"]:
            L.append("PKGMK_WORK_DIR=%s/build/work" % SRV)
        self.conffile = "/etc/pkgmk.conf" if self.rng.random() < .7 else "/etc/other.conf"
        open(self.conffile, "w").write("\n".join(L) + "\n")
        self.note("; ".join(L))

    def work(self, p):
        return SRV + "/build/work" if self.cfg["WORK_DIR"] else p.dir + "/work"

    def where(self, p):
        return self.pkgdir or p.dir

    # -- ports ----------------------------------------------------------------------------------------
    def new_tree(self, p):
        rng = self.rng
        t = p.tree = {}
        blob = lambda: bytes(rng.choice(b"abc \n\0\xff") for _ in range(rng.choice([0, 1, 30, 600])))
        mt = lambda: 1500000000 + rng.randrange(10**6)

        def put(path, kind="f", mode=None, data=b"", what=""):
            if path in t or any(q in t and t[q].kind != "d" for q in parents(path)) or any(q.startswith(path + "/") for q in t):
                return False
            for q in parents(path):
                t.setdefault(q, F("d", 0o755, mtime=mt()))
            uid, gid = (rng.choice([33, 1000]), rng.choice([0, 33])) if rng.random() < .1 and not what and kind in "fd" else (0, 0)
            t[path] = F(kind, mode if mode is not None else {"d": 0o755, "l": 0o777}.get(kind, 0o644), data, uid, gid, mt(), what)
            return True

        n = p.name
        tops = ["usr"] + (["opt/%s" % n] if rng.random() < .35 else [])
        cand = []
        for top in tops:
            cand += [top + x for x in ("/bin/%s", "/bin/%s-2", "/lib/lib%s.so", "/lib/lib%s.a", "/lib64/%s.so", "/lib/%s/plug.so", "/lib/lib%s.la", "/lib/%s/x.la", "/include/%s.h", "/include/%s/in.h",
                                       "/lib/pkgconfig/%s.pc", "/share/pkgconfig/%s.pc", "/lib/cmake/%s.cmake", "/lib/qt6/mkspecs/%s.pri", "/lib/qt6/metatypes/%s.json", "/lib/qt6/%s.so",
                                       "/share/doc/%s/README", "/share/gtk-doc/%s.html", "/share/man/man1/%s.1", "/share/man/man3/%s.3.gz", "/share/man/fr/man1/%s.1", "/share/info/%s.info",
                                       "/share/%s/data", "/share/caf\u00e9-%s", "/share/sp ace %s", "/share/locale/fr/LC_MESSAGES/%s.mo", "/share/locale/fr_CA/LC_MESSAGES/%s.mo", "/share/locale/de/%s.mo",
                                       "/share/locale/ja/LC_MESSAGES/%s.mo", "/share/locale/pt_BR/%s.mo", "/share/%s/.hidden", "/share/%s/.config/x")]
        cand += ["usr/lib/systemd/system/%s.service", "usr/lib/systemd/user/%s.service", "usr/lib/systemd/%s-helper", "etc/%s.conf", "etc/%s.d/a", "var/lib/%s/x", "boot/%s"]
        for x in rng.sample(cand, min(len(cand), rng.choice([2, 5, 9, 16, 30]))):
            path = x % n
            k = rng.random()
            if path.endswith((".so", "-2")) or "/bin/" in path:
                if k < .5:
                    put(path, mode=rng.choice([0o755, 0o555, 0o4755, 0o644]), data=EXEDATA if "/bin/" in path else LIBDATA, what="elf")
                    continue
            if path.endswith(".gz"):
                put(path, data=gzip.compress(b"a page", mtime=0), what="gz")
            elif "/man/" in path or "/info/" in path:
                if put(path, data=blob() + b"page", mode=rng.choice([0o644, 0o444])) and k < .4:
                    put(path + "x", "l", data=os.path.basename(path).encode())
            else:
                put(path, mode=rng.choice([0o644, 0o644, 0o755, 0o600, 0o2755, 0o4711]), data=blob())
                if path.endswith(".la") and k < .3:
                    put(path[:-3] + "-2.la", "l", data=os.path.basename(path).encode())
                elif k < .12:
                    put(path + ".lnk", "l", data=rng.choice([os.path.basename(path), "/usr/share/elsewhere", "../x"]).encode())
                elif k < .2 and t[path].kind == "f" and not path.endswith((".la", ".a")):
                    if put(path + ".hard", "f"):
                        t[path + ".hard"] = t[path].copy(kind="h", what=path)
        for _ in range(rng.choice([0, 0, 1, 2])):
            put(rng.choice(["usr/share/%s/empty", "var/empty-%s", "etc/%s.d", "usr/include/%s-e", "usr/lib/%s/e"]) % n, "d", rng.choice([0o755, 0o700, 0o1777]))
        if rng.random() < .3:
            for i in range(rng.choice([1, 2])):
                put("usr/share/applications/%s%d.desktop" % (n, i), data=b"[Desktop Entry]\nName=x\nCategories=%s;\n" % b";".join(rng.sample([b"Game", b"Office", b"Qt"], rng.choice([1, 2]))))
        if not any(f.kind == "f" for q, f in t.items() if not re.search(r"(^|/)share/locale/|\.la$", q)):
            put("etc/%s.always" % n, data=b"x")

    def new_vars(self, p):
        rng = self.rng
        v = p.vars = {}
        v["description"] = rng.choice(["A tool", "caf\u00e9 & co: $5 `x` \"q\"", "back\\slash n", "x" * 250])
        for k, vals in (("url", ["https://x.org/a?b&c"]), ("packager", ["Paul, paul at x dot org"]), ("maintainer", ["Mary"]), ("contributors", ["John, Jim"]), ("license", ["BSD", "GPL 2"])):
            if rng.random() < .6:
                v[k] = rng.choice(vals)
        for k, vals in (("alias", ["%s-ng" % p.name, "old-%s" % p.name]), ("set", ["desktop", "server"]), ("categories", ["office", "net"]), ("conflicts", ["foo-old", "b"])):
            v[k] = rng.sample(vals, rng.choice([0, 0, 1, 2]))
        p.run = [d for d in (self.dlib, "dep2", "dep2.lib", p.name + ".lib") if rng.random() < .3] if rng.random() < .5 else []
        p.run_devel = rng.choice([[], [], ["dep2"]])
        p.scripts = {}
        for n in [p.name] + ["%s.%s" % (p.name, g) for g in self.cfg["GROUPS"] + self.cfg["LOCALES"]]:
            for k in ("pre-install", "post-install", "pre-remove", "post-remove"):
                if rng.random() < .15:
                    p.scripts["%s.%s" % (n, k)] = "#!/bin/sh\n# %s of %s %d\n" % (k, n, rng.randrange(99))
        p.nostrip = rng.choice([None, None, None, "bin/", "nothing", ".*-2$\nlib64"])
        p.url = rng.random() < .4
        p.named = rng.random() < .7
        p.pkgfn = rng.random() < .3
        p.prepare = rng.random() < .3
        p.comp = rng.choice(["gz", "xz", "bz2"])
        p.extra = rng.random() < .4
        p.fns = [g for g in self.cfg["GROUPS"] if rng.random() < .12] + ["locale_" + g for g in self.cfg["LOCALES"] if rng.random() < .2]

    def fn_dir(self, p, g):
        """what a function of the port puts into a group or locale"""
        return "usr/share/locale/" + g[7:] if g.startswith("locale_") else "usr/share/" + p.name

    def source(self, p):
        return "%s-%s.tar.%s" % (p.name, p.version, p.comp)

    def tarball(self, p):
        bio = io.BytesIO()
        with tarfile.open(fileobj=bio, mode="w:" + p.comp) as tf:
            top = "%s-%s" % (p.name, p.version)
            for path, f in [("", F("d", 0o755))] + [("/tree", F("d", 0o755))] + [("/tree/" + q, p.tree[q]) for q in sorted(p.tree)]:
                ti = tarfile.TarInfo(top + path)
                ti.mode, ti.mtime = f.mode, f.mtime
                ti.uid = ti.gid = self.rng.choice([0, 1234])    # nobody's business
                if f.kind == "d":
                    ti.type = tarfile.DIRTYPE
                    tf.addfile(ti)
                elif f.kind == "l":
                    ti.type, ti.linkname = tarfile.SYMTYPE, f.data.decode()
                    tf.addfile(ti)
                elif f.kind == "h":
                    ti.type, ti.linkname = tarfile.LNKTYPE, top + "/tree/" + f.what
                    tf.addfile(ti)
                else:
                    ti.size = len(f.data)
                    tf.addfile(ti, io.BytesIO(f.data))
        return bio.getvalue()

    def write(self, p):
        """Pkgfile, sources and scripts of a port"""
        rng = self.rng
        q = lambda s: "'" + s.replace("'", "'\\''") + "'"
        L = [k + "=" + q(v) for k, v in p.vars.items() if isinstance(v, str)]
        L += ["%s=(%s)" % (k, " ".join(v)) for k, v in p.vars.items() if isinstance(v, list) and v]
        if p.named or not re.fullmatch("[a-z0-9]+", p.name):
            L.append("name=" + p.name)
            p.named = True
        L.append("version=" + p.version)
        if p.release != 1 or rng.random() < .5:
            L.append("release=%d" % p.release)
        src = []
        s = self.source(p)
        for f in os.listdir(p.dir):
            if f.endswith((".install", "-install", "-remove", ".txt", ".nostrip")) or (".tar." in f and ".cards-" not in f):
                os.unlink(p.dir + "/" + f)
        if p.url:
            src.append("file://%s/src/%s" % (SRV, s))
            open("%s/src/%s" % (SRV, s), "wb").write(self.tarball(p))
        else:
            src.append(s)
            open(p.dir + "/" + s, "wb").write(self.tarball(p))
        if p.extra:
            src.append("extra.txt")
            open(p.dir + "/extra.txt", "w").write("extra of %s\n" % p.version)
        L.append("source=(%s)" % rng.choice([" ", "\n    "]).join(src))
        if p.run:
            L.append("run=(%s)" % " ".join(p.run))
        if p.run_devel:
            L.append("run_devel=(%s)" % " ".join(p.run_devel))
        B = []
        if p.prepare:
            L.append("prepare() {\n\ttest -d %s\n\techo prepared > prepared%s\n}" % ("$name-$version" if p.fail != "unpacked" else "nothing", "\n\tfalse\n\techo on" if p.fail == "prepare" else ""))
            B.append("test -f prepared")
        B.append("cd $name-$version")
        own = [(path, f) for path, f in sorted(p.tree.items()) if (f.uid or f.gid) and f.kind != "h"]
        inst = ["cp -a tree/. $PKG"] + ["chown -h %d:%d \"$PKG/%s\"\nchmod %o \"$PKG/%s\"\ntouch -h -d @%d \"$PKG/%s\"" % (f.uid, f.gid, path, f.mode, path, f.mtime, path) for path, f in own]
        if p.extra:
            inst += ["mkdir -p $PKG/etc", "cp -p ../extra.txt $PKG/etc/extra-%s" % p.name]
        if p.fail == "usrsbin":
            inst += ["mkdir -p $PKG/usr/sbin", "touch $PKG/usr/sbin/x"]
        if p.fail == "sbin":
            inst += ["mkdir -p $PKG/sbin", "touch $PKG/sbin/x"]
        if p.fail == "nothing":
            inst = ["true"]
        if p.fail == "build":
            B.append("false")
        if p.fail == "install":
            inst.append("ls /nonexistent")
        if p.pkgfn:
            L.append("package() {\n\tcd $name-$version\n\t%s\n}" % "\n\t".join(inst).replace("\n", "\n\t").replace("\t\t", "\t"))
        else:
            B += inst
        if p.fail != "nofunction":
            L.append("build() {\n\t%s\n}" % "\n\t".join(B).replace("\n", "\n\t").replace("\t\t", "\t"))
        for i, g in enumerate(p.fns):
            sub, d = g.replace("locale_", ""), self.fn_dir(p, g)
            L.append("%s() {\n\tcd $PKG\n\tif [ -d %s ]; then\n\t\tbsdtar -r -f $PKGMK_PACKAGE_DIR/${name}.%s${PKGMK_PACKAGE_EXT}$version-$release %s\n\t\trm -r %s\n\tfi%s\n}" %
                     (g, d, sub, d, d, "\n\tfalse" if p.fail == "function" and i == len(p.fns) - 1 else ""))
        if p.fail == "badname":
            L.append("name=Bad@name")
        elif p.fail == "othername":
            L.append("name=other")
        elif p.fail == "noversion":
            L.append("version=")
        elif p.fail == "badrelease":
            L.append("release=1a")
        elif p.fail == "nodescription":
            L.append("description=")
        elif p.fail == "longdescription":
            L.append("description=" + "y" * 256)
        elif p.fail == "rundep":
            L.append("run=(%s ghost)" % self.dlib)
        open(p.dir + "/Pkgfile", "w").write("\n".join(L) + "\n")
        for f, t in p.scripts.items():
            open(p.dir + "/" + f, "w").write(t)
        if p.nostrip:
            open(p.dir + "/.nostrip", "w").write(p.nostrip + "\n")
        if p.fail == "cutsource":
            f = SRV + "/src/" + s if p.url else p.dir + "/" + s
            d = open(f, "rb").read()
            open(f, "wb").write(d[:len(d) // 2])
        elif p.fail == "nosource":
            os.unlink(SRV + "/src/" + s if p.url else p.dir + "/" + s)
        # a source which was fetched before is another one
        for d in (SRV + "/sources/", p.dir + "/"):
            if p.url and os.path.exists(d + s):
                os.unlink(d + s)

    # -- the model ------------------------------------------------------------------------------------
    def split(self, p, opts):
        """-> subpackage -> path -> F, as the port's files are to be packed"""
        c = self.cfg
        t = {q: f.copy() for q, f in p.tree.items()}
        if p.extra:
            t.setdefault("etc", F("d", 0o755, mtime=None))
            t["etc/extra-" + p.name] = F("f", 0o644, b"extra of %s\n" % p.version.encode(), mtime=None)
        for q, f in list(t.items()):
            if f.kind == "h":
                t[q] = f.copy(kind="f", what="hard")
                if t[f.what].what == "":
                    t[f.what].what = "hard"
        if not c["NO_STRIP"] and "-ns" not in opts:
            pat = [x for x in (p.nostrip or "").split("\n") if x]
            for q, f in t.items():
                if f.what == "elf" and not any(re.search(x, q) for x in pat):
                    f.what = "stripped"
        for q, f in list(t.items()):
            if re.search(r"(^|/)share/(man|info)/", q) and not q.endswith(".gz"):
                if f.kind == "f":
                    if f.what == "hard":
                        f.what = "hardpage"
                        continue
                    del t[q]
                    t[q + ".gz"] = f.copy(what="page")
                elif f.kind == "l":
                    del t[q]
                    t[q + ".gz"] = f.copy(data=f.data + b".gz", mtime=None)
        if not c["KEEP_LA"]:
            for q in [q for q, f in t.items() if q.endswith(".la") and f.kind != "d"]:
                del t[q]
        out = {}

        def take(sub, d, but=None):
            got = {q: f for q, f in t.items() if (q == d or q.startswith(d + "/")) and not (but and (q == but or q.startswith(but + "/")))}
            if d in t and t[d].kind == "d":
                out.setdefault(sub, {}).update(got)
                for q in got:
                    if not (but and q == d and but in t):
                        del t[q]
                    else:
                        t[q] = t[q].copy(mode=0o755, uid=0, gid=0)
                return True

        opt = ["opt/" + x for x in sorted({q.split("/")[1] for q in t if q.startswith("opt/")})]
        for g in c["GROUPS"]:
            if g in p.fns:
                take(g, self.fn_dir(p, g))
                continue
            for top in ["usr"] + opt:
                if g == "lib":
                    for d in ("lib", "lib64"):
                        take(g, "%s/%s" % (top, d), "%s/%s/pkgconfig" % (top, d))
                elif g == "devel":
                    for d in ("include", "lib/pkgconfig", "share/pkgconfig", "lib/cmake", "lib/qt6/mkspecs", "lib/qt6/metatypes"):
                        take(g, "%s/%s" % (top, d))
                elif g in ("doc", "man"):
                    for d in {"doc": ("doc", "gtk-doc"), "man": ("info", "man")}[g]:
                        take(g, "%s/share/%s" % (top, d))
            if g == "service":
                for d in ("usr/lib/systemd/system", "usr/lib/systemd/user"):
                    take(g, d)
                if "usr/lib/systemd" in t and not any(q.startswith("usr/lib/systemd/") for q in t):
                    del t["usr/lib/systemd"]
        for g in c["LOCALES"]:
            if "locale_" + g in p.fns:
                take(g, self.fn_dir(p, "locale_" + g))
                continue
            for top in ["usr"] + opt:
                for d in sorted(q for q in t if re.fullmatch(re.escape(top) + "/share/locale/" + g + "[^/]*", q)):
                    take(g, d)
        for q in [q for q in t if re.match(r"(usr|opt/[^/]*)/share/locale(/|$)", q)]:
            del t[q]
        out[""] = t
        return out

    def categories(self, p, main):
        if p.vars["categories"]:
            return list(p.vars["categories"])
        r = set()
        for q, f in main.items():
            if q.startswith("usr/share/applications/") and f.kind == "f":
                for l in f.data.decode().split("\n"):
                    if l.startswith("Categories="):
                        r |= {x for x in l[11:].split(";") if x}
        return sorted(r)

    def meta(self, p, sub, files, cats):
        v = p.vars
        n = p.name + ("." + sub if sub else "")
        L = ["N" + n, "V" + p.version, "r%d" % p.release, "c" + p.coll, "a" + ARCH]
        if not sub:
            L += ["D" + v["description"], "U" + v.get("url", "none"), "C" + v.get("contributors", "none"), "M" + v.get("maintainer", "none"), "P" + v.get("packager", "none"), "L" + v.get("license", "GPL")]
        elif sub in self.cfg["GROUPS"]:
            L.append("g" + sub)
        else:
            L.append("n" + sub)
        if self.cfg["DEPS"]:
            elfs = [f for f in files.values() if f.what in ("elf", "stripped")]      # (a library counts for its own name)
            if elfs and self.dlib in self.have and not self.dlib.endswith(".devel"):
                L.append("R%s%d" % (self.dlib, self.have[self.dlib]))
            if not sub:
                L += ["R%s%s" % (d, self.have.get(d, "BUILD")) for d in p.run]
            elif sub == "devel":
                L += ["R%s%s" % (d, self.have[d]) for d in p.run_devel]
        if self.cfg["LIBS"]:
            L += ["l" + x for x in {l for f in files.values() if f.what in ("elf", "stripped") for l in elf.libs(f.data)}]
        L += ["A" + a + ("." + sub if sub else "") for a in v["alias"]]
        L += ["s" + s for s in v["set"]] + ["T" + s for s in cats] + ["o" + s for s in v["conflicts"]]
        return L

    # -- commands -------------------------------------------------------------------------------------
    def run(self, p, *args, timeout=120, env=None):
        argv = ["/usr/bin/pkgmk"] + list(args) + ([] if self.conffile == "/etc/pkgmk.conf" else ["-cf", self.conffile])
        t0 = int(time.time())
        e = {"PATH": "/usr/bin", "HOME": "/root"}
        e.update(env or {})
        r = tool(argv, cwd=p.dir, timeout=timeout, env=e)
        self.t0, self.t1 = t0, int(time.time())
        self.note("%s$ %s -> %d" % (p.dir, " ".join(argv[1:]), r.rc))
        self.res.counts["commands"] += 1
        s = r.san()
        if r.timeout or (s and r.rc in (99,)) or "AddressSanitizer" in r.err or "runtime error" in r.err:
            self.bad("end", "%s: %d %s\n%s" % (argv, r.rc, s, r.err[-1500:]))
        return r

    def look(self):
        return snap("/", skip=SKIP)

    def changes(self, a, z, allowed, prefixes=()):
        out = []
        for q in sorted(set(a) | set(z)):
            x, y = a.get(q), z.get(q)
            if x is y or (x is not None and y is not None and x.key(False) == y.key(False)):
                continue
            if "/" + q in allowed or any(("/" + q).startswith(d + "/") or "/" + q == d for d in prefixes):
                continue
            out.append("/%s: was %r, is %r" % (q, x, y))
        return out

    def open(self, f):
        """-> members of an archive: name -> (TarInfo, data); None if it is none"""
        data = open(f, "rb").read()
        ext = f.rpartition(".")[2]
        if ext in SUFFIX:
            data = SUFFIX[ext](data)
        out = {}
        with tarfile.open(fileobj=io.BytesIO(data), mode="r:") as tf:
            for m in tf.getmembers():
                n = m.name.rstrip("/")
                d = b""
                if m.isfile():
                    d = tf.extractfile(m).read()
                elif m.islnk():
                    d = out[m.linkname][1]
                out[n] = (m, d)
        return out, len(data)

    def check_archive(self, path, p, sub, files, cats, out):
        try:
            have, size = self.open(path)
        except Exception as x:
            return out.append("%s cannot be read: %r" % (path, x))
        want = dict(files)
        name = p.name + ("." + sub if sub else "")
        dots = {".META", ".MTREE"}
        for k, f in (("pre-install", ".PRE"), ("post-install", ".POST"), ("pre-remove", ".PRER"), ("post-remove", ".POSTR")):
            if name + "." + k in p.scripts:
                dots.add(f)
                if f in have and have[f][1].decode() != p.scripts[name + "." + k]:
                    out.append("%s: %s is not %s.%s" % (path, f, name, k))
        for q in sorted(set(have) | set(want) | dots):
            if q in dots and q in have:
                continue
            if q not in have:
                out.append("%s: %s is missing" % (path, q))
                continue
            m, d = have[q]
            if q not in want:
                if m.isdir() and any(w.startswith(q + "/") for w in want):
                    continue
                out.append("%s: %s is not to be there" % (path, q))
                continue
            f = want[q]
            kind = "d" if m.isdir() else "l" if m.issym() else "f" if m.isfile() or m.islnk() else "?"
            if kind != f.kind:
                out.append("%s: %s is %s, not %s" % (path, q, kind, f.kind))
                continue
            if kind != "l" and (m.mode & 0o7777) != f.mode:
                out.append("%s: mode of %s is %o, not %o" % (path, q, m.mode, f.mode))
            if (m.uid, m.gid) != (f.uid, f.gid):
                out.append("%s: owner of %s is %d:%d, not %d:%d" % (path, q, m.uid, m.gid, f.uid, f.gid))
            if kind == "l" and os.fsencode(m.linkname) != f.data:
                out.append("%s: %s leads to %s, not %s" % (path, q, m.linkname, f.data))
            if kind == "f":
                if f.what == "page":
                    try:
                        d = gzip.decompress(d)
                    except OSError:
                        d = b"no gzip file"
                if f.what == "stripped":
                    if b".symtab\0" in d or elf.libs(d) != elf.libs(f.data):
                        out.append("%s: %s is not what it was without symbols" % (path, q))
                    self.res.counts["stripped"] += 1
                elif d != f.data:
                    out.append("%s: %s is %r, not %r" % (path, q, d[:50], f.data[:50]))
                elif f.what != "page" and f.mtime is not None and int(m.mtime) != f.mtime:
                    out.append("%s: time of %s is %d, not %d" % (path, q, m.mtime, f.mtime))
        if ".META" not in have or ".MTREE" not in have:
            return
        # the list of files
        mt = have[".MTREE"][1].decode("utf-8", "surrogateescape").split("\n")
        mt = [l for l in mt if l and not l.startswith(".")]
        real = [q + ("/" if m.isdir() else "") for q, (m, _) in have.items() if not q.startswith(".")]
        # the directories above what makes up a group need not be listed
        real = [q for q in real if q in mt or q.rstrip("/") in files or not q.endswith("/")]
        if sorted(set(mt)) != sorted(real):
            out.append("%s: .MTREE has %s too many, %s missing" % (path, sorted(set(mt) - set(real))[:4], sorted(set(real) - set(mt))[:4]))
        # metadata
        L = [l for l in have[".META"][1].decode("utf-8", "surrogateescape").split("\n") if l]
        b = [l for l in L if l[0] == "B"]
        s = [l for l in L if l[0] == "S"]
        if len(b) != 1 or not re.fullmatch(r"B\d{10}", b[0]) or not self.t0 <= int(b[0][1:]) <= self.t1:
            out.append("%s: build date %s, not in %d..%d" % (path, b, self.t0, self.t1))
            return
        total = sum(len(f.data) for f in files.values() if f.kind == "f" and not f.what)
        if len(s) != 1 or not re.fullmatch(r"S\d+", s[0]) or not total <= int(s[0][1:]) <= size + 20480:
            out.append("%s: space %s, files have %d, archive %d" % (path, s, total, size))
        want = [l.replace("BUILD", b[0][1:]) for l in self.meta(p, sub, files, cats)]
        got = [l for l in L if l[0] not in "BS"]
        # found in the files and named by the port
        want, got = [[l for i, l in enumerate(x) if l[0] != "R" or l not in x[:i]] for x in (want, got)]
        if sorted(got) != sorted(want):
            out.append("%s: .META has %s too many, %s missing" % (path, minus(got, want), minus(want, got)))
        if L[0] != "N" + name:
            out.append("%s: .META begins with %s" % (path, L[0]))
        self.res.counts["archives"] += 1
        self.res.counts["members"] += len(have)

    def check_index(self, p, out):
        """.REPO and .FILES of the directory of packages: what pkgmk says of this port"""
        d = self.where(p)
        data = {}
        for f in (".REPO", ".FILES"):
            try:
                data[f] = open(d + "/" + f, "rb").read()
            except OSError as x:
                return out.append(str(x))
        try:
            z = repo.zdecompress(open(d + "/.FILES.zst", "rb").read())
            if z != data[".FILES"]:
                out.append(d + "/.FILES.zst is not .FILES")
        except (OSError, ValueError) as x:
            out.append(d + "/.FILES.zst: %s" % x)
        blocks = {}
        for f in data:
            b = blocks[f] = {}
            for x in data[f].split(b"\n\n"):
                if x.strip(b"\n"):
                    L = x.strip(b"\n").split(b"\n")
                    if L[0] in b:
                        out.append("%s/%s: %s is there twice" % (d, f, L[0]))
                    b[L[0]] = L[1:]
        mine = {k for k in blocks[".REPO"] if re.match(re.escape(b"@" + p.name.encode()) + rb"(\.[^.]*)?\.cards-", k)}
        want = {b"@" + b.fname.encode() for b in p.built.values()} if p.built else set()
        if mine != want:
            return out.append("%s/.REPO: entries %s, packages %s" % (d, sorted(mine), sorted(want)))
        for b in (p.built or {}).values():
            k = b"@" + b.fname.encode()
            have, _ = self.open(d + "/" + b.fname)
            raw = open(d + "/" + b.fname, "rb").read()
            meta = [l for l in have[".META"][1].split(b"\n") if l]
            w = sorted(meta + [b"i%d" % len(raw), b"H" + hashlib.sha512(raw).hexdigest().encode()])
            if sorted(blocks[".REPO"][k]) != w:
                out.append("%s/.REPO: %s: %s too many, %s missing" % (d, k, minus(blocks[".REPO"][k], w), minus(w, blocks[".REPO"][k])))
            fl = sorted(l for l in blocks[".FILES"].get(k, ()) if l[:1] != b".")
            w = sorted(l for l in set(have[".MTREE"][1].split(b"\n")) if l and l[:1] != b".")
            if sorted(set(fl)) != w:
                out.append("%s/.FILES: %s: %s too many, %s missing" % (d, k, minus(fl, w)[:5], minus(w, fl)[:5]))
        self.res.counts["entries"] += len(want)
        return blocks[".REPO"]

    # -- operations -----------------------------------------------------------------------------------
    def files_of(self, p):
        """the archives of the port which lie in its directory of packages"""
        return {f for f in os.listdir(self.where(p)) if re.match(re.escape(p.name) + r"(\.[^.]*)?\.cards-", f)}

    def others(self, p):
        try:
            return {x.split(b"\n")[0]: x for x in open(self.where(p) + "/.REPO", "rb").read().split(b"\n\n")
                    if x.strip(b"\n") and not re.match(re.escape(b"@" + p.name.encode()) + rb"(\.[^.]*)?\.cards-", x)}
        except FileNotFoundError:
            return {}

    def needed(self, p):
        """is there something to build?"""
        if p.built is None:
            return True
        d = self.where(p)
        t = os.stat(p.dir + "/Pkgfile").st_mtime_ns
        return any(os.stat(d + "/" + b.fname).st_mtime_ns <= t for b in p.built.values())

    def problem(self, p, opts):
        """why a build must fail, if so"""
        if p.fail in ("badname", "othername", "noversion", "badrelease", "nodescription", "longdescription"):
            return p.fail
        need = self.needed(p)
        if need is False and "-f" not in opts:
            return None
        if p.fail == "rundep" or (self.cfg["DEPS"] and self.missing_run(p)):
            return "rundep" if self.cfg["DEPS"] else None
        if p.url and p.fail != "nosource" and "-d" not in opts and not os.path.exists((SRV + "/sources" if self.cfg["SOURCE_DIR"] else p.dir) + "/" + self.source(p)):
            return "nodownload"
        if p.fail == "unpacked" and not p.prepare or p.fail == "prepare" and not p.prepare:
            return None
        return p.fail

    def missing_run(self, p):
        m = [d for d in p.run if d not in self.have and d.split(".")[0] != p.name]
        if p.run_devel and "devel" in self.split(p, ()):
            m += [d for d in p.run_devel if d not in self.have]
        return m

    def o_build(self, p=None, force=False):
        rng = self.rng
        p = p or rng.choice(self.ports)
        opts = []
        if p.url and (force or rng.random() < .85):
            opts.append("-d")
        if force or rng.random() < .25:
            opts.append("-f")
        if rng.random() < .15:
            opts.append("-ns")
        if rng.random() < .15:
            opts.append("-if")
        if rng.random() < .15:
            opts.append("-ir")
        if rng.random() < .1:
            opts.append("-kw")
        if rng.random() < .2:
            n = {p.name + ("." + s if s else "") for s, f in self.split(p, opts).items() if f}
            if n <= self.inst:
                opts.append("-u")
            elif not n & self.inst:
                opts.append("-i")
        rng.shuffle(opts)
        why = self.problem(p, opts)
        need = self.needed(p)
        build_it = why is None and (need or "-f" in opts)
        before = self.look()
        others = self.others(p)
        d = self.where(p)
        src = (SRV + "/sources" if self.cfg["SOURCE_DIR"] else p.dir) + "/" + self.source(p)
        foots = self.footprint_state(p)
        alt = {"-d": "--download", "-f": "--force", "-ns": "--no-strip", "-if": "--ignore-footprint", "-ir": "--ignore-repo", "-kw": "--keep-work", "-i": "--install", "-u": "--upgrade"}
        r = self.run(p, *[alt[o] if rng.random() < .3 else o for o in opts])
        inst = {"-i", "-u"} & set(opts)
        if why or self.res.viol:
            self.res.counts["refused_%s" % why] += 1
            if r.rc == 0:
                self.bad("fail:%s" % why, "%s, and pkgmk succeeds\n%s\n%s" % (why, r.out[-500:], r.err[-800:]))
            if not r.err.strip():
                self.bad("mute:%s" % why, "fails without a word")
            allow = [self.work(p)] + ([src] if p.url else [])
            ch = self.changes(before, self.look(), {src, src + ".partial"}, [self.work(p)])
            # a failed build leaves packages, index and footprints as they are
            if why == "rundep":
                ch = [c for c in ch if ".footprint" not in c]
            if ch:
                self.bad("fail:touch:%s" % why, "\n".join(ch[:8]) + "\n" + r.err[-600:])
            return
        # footprints may refuse
        mism = None
        if build_it and not self.cfg["IGNORE_FOOTPRINT"] and "-if" not in opts:
            mism = foots
        if mism is not None and self.cfg["IGNORE_NEW"] == "no" and "Footprint mismatch" in r.err:
            told = re.findall(r"ERROR: Footprint mismatch in (\S+)\.cards-\S+ found", r.err)
            if r.rc == 0:
                self.bad("footprint:ok", "says %s, and succeeds" % told)
            if not set(told) & self.edited:
                self.res.counts["mismatch_unplanned"] += 1
            ch = [c for c in self.changes(before, self.look(), {src}, [self.work(p)]) if ".footprint: was None" not in c]
            if ch:
                self.bad("footprint:touch", "\n".join(ch[:6]))
            if set(told) - set(foots):
                self.bad("footprint:none", "refused because of %s, of which there was no footprint" % sorted(set(told) - set(foots)))
            for n in told:
                try:
                    os.unlink(p.dir + "/%s.footprint" % n)
                except OSError:
                    pass
            self.res.counts["mismatch"] += 1
            return
        if r.rc != 0:
            if inst and self.cfg is not None and "pkgadd" in r.out + r.err and build_it is not None and "Installing '" in r.err:
                self.res.counts["install_refused"] += 1
                moved = {q for l in r.err.split("\n") for q in [l.strip()] if q in self.owner}
                if "-u" in opts and "already installed" in r.err and moved and any(q in b.files and self.owner[q] != p.name + ("." + s if s else "") for s, b in p.built.items() for q in moved):
                    return      # what a package installed before has is in another one now, which comes first
                self.bad("install:fail", "pkgadd of what was built fails\n%s\n%s" % (r.out[-600:], r.err[-800:]))
                return
            return self.bad("build:fail", "exit %d\n%s\n%s" % (r.rc, r.out[-800:], r.err[-1500:]))
        out = []
        if build_it:
            parts = self.split(p, opts)
            cats = self.categories(p, parts[""])
            comp = "." + self.cfg["COMPRESS"] if self.cfg["COMPRESS"] else ""
            p.built = {s: Built("%s.cards-%s-%d%s" % (p.name + ("." + s if s else ""), p.version, p.release, comp), f, None, None) for s, f in parts.items() if f}
            self.res.counts["builds"] += 1
            self.res.counts["subpackages"] += len(p.built) - 1
        want = {b.fname for b in p.built.values()}
        cleaned = inst and self.cfg["CLEAN"]
        have = self.files_of(p)
        if cleaned:
            if have:
                out.append("after an installation with PKGMK_CLEAN there are %s" % sorted(have))
        elif have != want:
            out.append("packages %s, to be %s" % (sorted(have), sorted(want)))
        elif build_it:
            for s, b in p.built.items():
                self.check_archive(d + "/" + b.fname, p, s, b.files, cats, out)
        if inst:
            for s, b in p.built.items():
                for q, f in b.files.items():
                    if not os.path.lexists("/" + q):
                        out.append("installed, but /%s is not there" % q)
            self.inst |= {p.name + ("." + s if s else "") for s in p.built}
            self.owner.update({q: p.name + ("." + s if s else "") for s, b in p.built.items() for q, f in b.files.items() if f.kind != "d"})
            self.res.counts["installed"] += 1
        # everything else
        allowed = {src} | {"%s/%s" % (d, f) for f in have | want | self.old(before, p)} | {p.dir + "/%s.footprint" % (p.name + ("." + s if s else "")) for s in p.built}
        if not self.cfg["IGNORE_REPO"] and "-ir" not in opts:
            allowed |= {d + "/" + f for f in (".REPO", ".FILES", ".FILES.zst")}
            if not cleaned and not out:
                now = self.check_index(p, out)
                gone = {k: x for k, x in others.items() if now is None or k not in now or [l for l in x.split(b"\n") if l and l[:1] != b"@"] != now[k]}
                if gone and now is not None:
                    out.append(".REPO: what it says of other packages is changed: %s" % sorted(gone)[:3])
        elif cleaned:
            allowed |= {d + "/.REPO"}
        if inst:
            z = self.look()
            pre = {"/" + q for b in p.built.values() for f in b.files for q in [f] + parents(f)}
            allowed |= pre | {"/" + x for x in z if x.startswith(DB)} | {"/.META", "/.MTREE"} | {"/" + x for x in before if x.startswith(DB)} | {"/etc/ld.so.cache"}
            allowed |= {"/" + q for q in before if q not in z and q.startswith(("usr/", "etc/", "opt/", "var/", "boot/"))}
            allowed |= {"/" + q for q in z if q.startswith("var/lib/pkg/")}
        prefixes = [self.work(p)] if build_it else []
        if cleaned:
            allowed |= {"/" + q for q in before if q.startswith(p.dir[1:]) and q.endswith(".footprint")}
        z = self.look()
        out += self.changes(before, z, allowed, prefixes)
        if build_it and "-kw" not in opts and os.path.lexists(self.work(p)):
            out.append("the working directory is still there")
        if p.url and build_it:
            gone = not os.path.exists(src)
            if gone == self.cfg["KEEP_SOURCES"]:
                out.append("the downloaded source is %s" % ("gone" if gone else "still there"))
        if not build_it:
            self.res.counts["up_to_date"] += 1
            for f in want:
                a, b = before.get((d + "/" + f)[1:]), z.get((d + "/" + f)[1:])
                if not cleaned and (a is None or b is None or a.key(True) != b.key(True)):
                    out.append("%s is built once more though up to date" % f)
        if build_it and mism is not None and not cleaned:
            self.check_footprints(p, r, foots, out)
        if out:
            self.bad("build:" + kind_of(out[0]), "\n".join(out[:10]) + "\n" + r.err[-300:])
        if cleaned:
            p.built = None

    def old(self, snapshot, p):
        d = self.where(p)[1:] + "/"
        return {q[len(d):] for q in snapshot if q.startswith(d) and re.match(re.escape(p.name) + r"(\.[^.]*)?\.cards-", q[len(d):])}

    def footprint_state(self, p):
        r = {}
        for f in os.listdir(p.dir):
            if f.endswith(".footprint"):
                r[f[:-10]] = open(p.dir + "/" + f, encoding="utf-8", errors="surrogateescape").read()
        return r

    def fp_of(self, p, b):
        r = tool(["/usr/bin/pkginfo", "--footprint", self.where(p) + "/" + b.fname])
        return sorted(l for l in r.out.split("\n") if l and not re.search(r"\t\.(META|MTREE|PRE|POST|PRER|POSTR)$", l))

    def check_footprints(self, p, r, before, out):
        for s, b in p.built.items():
            n = p.name + ("." + s if s else "")
            want = [l for l in self.fp_of(p, b) if not l.endswith("/") or l.split("\t")[-1].rstrip("/") in b.files]
            try:
                got = open(p.dir + "/%s.footprint" % n, encoding="utf-8", errors="surrogateescape").read().split("\n")
            except OSError as x:
                out.append(str(x))
                continue
            got = sorted(l for l in got if l)
            if got != want:
                out.append("footprint of %s: %s too many, %s missing" % (n, minus(got, want)[:4], minus(want, got)[:4]))
            self.res.counts["footprints"] += 1
            if n in before and self.cfg["IGNORE_NEW"] == "no" and sorted(l.split() for l in before[n].split("\n") if l) != sorted(l.split() for l in want):
                out.append("footprint of %s is another one, and the build succeeds" % n)
            if n in before:
                was = sorted(l for l in before[n].split("\n") if l)
                for l in minus(want, was):
                    if "NEW       " + l.expandtabs() not in r.err.replace("\t", " ") and not any(x.startswith("NEW") and x.split()[-1] == l.split("\t")[-1].split()[-1] for x in r.err.split("\n")):
                        out.append("footprint: %r is new, and not told" % l)

    def o_change(self):
        rng = self.rng
        p = rng.choice(self.ports)
        k = rng.choice(["tree", "version", "release", "vars", "fail", "fail"])
        if p.fail:
            p.fail = None
        elif k == "fail":
            self.nfail += 1
            p.fail = FAILS[(self.index * 5 + self.nfail) % len(FAILS)]
            if p.fail in ("prepare", "unpacked"):
                p.prepare = True
            if p.fail == "install":
                p.pkgfn = rng.random() < .5
            if p.fail == "nothing" and p.extra:
                p.extra = False
            if p.fns and rng.random() < .3:
                p.fail = "function"
        if k == "version":
            p.version = "%d.%d" % (rng.randint(1, 3), rng.randint(0, 9))
        elif k == "release":
            p.release = rng.choice([1, 2, 3, 10])
        elif k == "tree":
            self.new_tree(p)
        elif k == "vars":
            self.new_vars(p)
        self.note("change of %s: %s" % (p.name, p.fail or k))
        self.write(p)
        if p.fail and p.fail != "rundep":
            for d in self.missing_run(p) if self.cfg["DEPS"] else ():
                self.dep(d)
        if p.fail and rng.random() < .9:
            self.o_build(p, True)

    def o_deps(self):
        n = self.rng.choice([self.dlib, "dep2", "dep2.lib"])
        if n in self.have and self.rng.random() < .4:
            tool(["/usr/bin/pkgrm", n])
            del self.have[n]
            self.note("removed " + n)

    def o_ask(self):
        """what changes nothing"""
        rng = self.rng
        p = rng.choice(self.ports)
        bad = p.fail in ("othername", "noversion")
        syntax = p.fail in ("badname", "badrelease", "nodescription", "longdescription")
        k = rng.choice(["-sv", "-utd", "-cs", "-v", "-h", "-x"])
        before = self.look()
        r = self.run(p, k)
        ch = self.changes(before, self.look(), set())
        if ch:
            self.bad("ask:touch", "\n".join(ch[:5]))
        ok = {"-sv": not bad and p.fail != "badname", "-utd": not bad and not syntax, "-cs": not bad and not syntax, "-v": True, "-h": True, "-x": False}[k]
        if ok != (r.rc == 0):
            return self.bad("ask:" + k, "exit %d, Pkgfile: %s\n%s\n%s" % (r.rc, p.fail, r.out[-300:], r.err[-400:]))
        if ok and k == "-sv" and r.out.strip().split("\n")[-1] != p.version:
            self.bad("ask:version", "%r, is %s" % (r.out, p.version))
        if ok and k == "-utd":
            said = "not up to date" not in r.out
            if said == self.needed(p):
                self.bad("ask:uptodate", "says up to date: %s, is: %s\n%s" % (said, not self.needed(p), r.out[-400:]))
        self.res.counts["asked"] += 1

    def o_clean(self):
        p = self.rng.choice(self.ports)
        if p.fail:
            return
        before = self.look()
        src = (SRV + "/sources" if self.cfg["SOURCE_DIR"] else p.dir) + "/" + self.source(p)
        r = self.run(p, self.rng.choice(["-co", "--clean-only"]))
        d = self.where(p)
        ch = self.changes(before, self.look(), {d + "/" + f for f in self.old(before, p)} | ({src} if p.url else set()) | {p.dir + "/" + n + ".footprint" for n in self.footprint_state(p)} |
                          {"/" + q for q in before if q.startswith(p.dir[1:] + "/") and q.endswith(".footprint")})
        if r.rc != 0 or ch or self.files_of(p) or (p.url and os.path.exists(src)):
            self.bad("clean", "exit %d, left %s\n%s\n%s" % (r.rc, sorted(self.files_of(p)), "\n".join(ch[:5]), r.err[-400:]))
        p.built = None
        self.res.counts["cleaned"] += 1

    def o_source(self):
        """download, extract"""
        rng = self.rng
        p = rng.choice(self.ports)
        if p.fail:
            return
        k = rng.choice(["-do", "-eo"])
        before = self.look()
        src = (SRV + "/sources" if self.cfg["SOURCE_DIR"] else p.dir) + "/" + self.source(p)
        opts = [k] + (["-d"] if k == "-eo" else [])
        r = self.run(p, *opts)
        out = self.changes(before, self.look(), {src} if p.url else set(), [self.work(p)] if k == "-eo" else [])
        if r.rc != 0:
            out.append("exit %d %s" % (r.rc, r.err[-400:]))
        elif p.url and open(src, "rb").read() != open("%s/src/%s" % (SRV, self.source(p)), "rb").read():
            out.append("%s is not what was to be downloaded" % src)
        elif k == "-eo":
            top = "%s/src/%s-%s/tree/" % (self.work(p), p.name, p.version)
            for q, f in p.tree.items():
                st = os.lstat(top + q) if os.path.lexists(top + q) else None
                if st is None or (st.st_uid, st.st_gid) != (0, 0) or (f.kind in "fd" and stat.S_IMODE(st.st_mode) != f.mode):
                    out.append("%s of the source: %s" % (q, st))
            _rmtree(self.work(p))
        if out:
            self.bad("source" + k, "\n".join(out[:5]))
        self.res.counts["sources"] += 1

    def o_footprint(self):
        """the footprint of the port is of something else"""
        rng = self.rng
        p = rng.choice(self.ports)
        fs = self.footprint_state(p)
        if not fs:
            return
        n = rng.choice(sorted(fs))
        L = [l for l in fs[n].split("\n") if l]
        if not L:
            return
        k = rng.choice(["less", "more", "mode", "order", "order"])
        if k == "order":    # means nothing
            rng.shuffle(L)
        elif k == "less":
            L.remove(rng.choice(L))
        elif k == "more":
            L.append("-rw-r--r--\troot/root\tusr/share/not-there-any-more")
        else:
            i = rng.randrange(len(L))
            L[i] = "?" + L[i][1:]
        open(p.dir + "/%s.footprint" % n, "w", encoding="utf-8", errors="surrogateescape").write("\n".join(L) + "\n")
        self.note("footprint of %s: %s" % (n, k))
        if k != "order":
            self.edited.add(n)

    def go(self):
        self.setup()
        rng = self.rng
        ops = [(self.o_build, 8), (self.o_change, 4), (self.o_ask, 1.5), (self.o_clean, .5), (self.o_source, .6), (self.o_footprint, .8), (self.o_deps, .3)]
        for _ in range(rng.randint(5, 10)):
            if not self.res.viol:
                rng.choices([o for o, _ in ops], [w for _, w in ops])[0]()
        self.res.sig = hashlib.md5("\n".join(self.trace).encode("utf-8", "surrogateescape")).hexdigest()
        self.res.nontrivial = self.res.counts["builds"] > 0
        self.res.sample = self.trace[-6:] if self.index < 4 else None
        return self.res


def minus(a, b):
    b = list(b)
    out = []
    for x in a:
        if x in b:
            b.remove(x)
        else:
            out.append(x)
    return out


def kind_of(m):
    for k, w in (("META", ".META has"), ("MTREE", ".MTREE"), ("missing", " is missing"), ("extra", "not to be there"), ("mode", "mode of"), ("owner", "owner of"), ("time", "time of"), ("repo", ".REPO"), ("files", ".FILES"),
                 ("packages", "packages "), ("footprint", "footprint"), ("touched", ": was ")):
        if w in m:
            return k
    return "other"


EXEDATA = LIBDATA = b""


def load():
    global EXEDATA, LIBDATA
    EXEDATA, LIBDATA = open(EXE, "rb").read(), open(LIB, "rb").read()


BSDTAR = """#!/usr/bin/sh
# stands in for bsdtar, which is not installed here
case $1 in -*) ;; *) a=-$1; shift; set -- "$a" "$@" ;; esac
exec /usr/bin/tar --quoting-style=literal --numeric-owner "$@"
"""


def template(scratch):
    t = build.tools("asan")
    exe, lib = build.samples()
    b = scratch.path + "/bsdtar"
    open(b, "w").write(BSDTAR)
    progs = {"/usr/bin/pkgadd": t, "/usr/bin/pkgrm": t, "/usr/bin/pkginfo": t, "/usr/bin/pkgmk": build.pkgmk(), "/usr/bin/bsdtar": b, EXE: exe, LIB: lib}
    for d, _, fs in os.walk("/usr/lib/locale/C.utf8"):
        for f in fs:
            progs[d + "/" + f] = d + "/" + f
    w = scratch.path + "/which"
    open(w, "w").write("#!/usr/bin/sh\nfor i; do command -v -- \"$i\" || exit 1; done\n")
    progs["/usr/bin/which"] = w
    m = os.path.realpath("/usr/lib/file/magic.mgc")
    progs["/usr/share/misc/magic.mgc"] = m
    return jail.make_template(scratch, progs, systools=TOOLS)


def case(task):
    seed, index = task[:2]
    return Pkgmk(seed, index).go()


def check(pid):
    c = core.Check(pid, "pkgmk",
                   "A case is a history of pkgmk on 1-3 generated ports of a collection (trees of files, groups, locales, metadata, scripts, sources) under a random pkgmk.conf: builds, changes and failures of ports, questions, "
                   "cleaning. After every command archives, metadata, index, footprints and the rest of the system are compared with a model. Non-trivial: at least one package was built. Distinct: the history differs.",
                   assumptions=["bsdtar is stood in for by GNU tar", "names without blanks in directories that make up groups"])
    n = c.size(300, 3000)
    c.run(template(c.scratch), case, [[c.seed, i] for i in range(n)], init=load)
    c.finish(min_nontrivial=80)

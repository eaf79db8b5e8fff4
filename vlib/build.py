"""Builds instrumented variants of /repo's programs from its current working tree.

Nothing is written in /repo.  Objects live under /verif/build/<variant>/ (git-ignored) and are keyed
by the content of the source, of every header and of the flags, so a changed tree is always rebuilt.
"""
import concurrent.futures as cf
import fcntl, hashlib, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

BASE = ["-std=c++17", "-D_GNU_SOURCE", "-D_LARGEFILE_SOURCE", "-D_FILE_OFFSET_BITS=64",
        '-DPACKAGE_VERSION="3.5.93"', "-w", "-g1", "-fno-omit-frame-pointer"]
VARIANTS = {
    # address + undefined behaviour together, fatal reports; bounds-checked libstdc++ containers
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG"],
    # the same code as shipped (dynamic, -O2): used where kills and syscall faults are injected
    "plain": ["-O2", "-DNDEBUG"],
    # for valgrind memcheck (uninitialised values)
    "vg": ["-O0", "-g"],
}
# scanf of C23 goes by names the sanitizer does not know
LINK = {"asan": ["-fsanitize=address,undefined", "-static-libasan", "-static-libubsan",
                 "-Wl,--defsym,__isoc23_sscanf=__isoc99_sscanf,--defsym,__isoc23_fscanf=__isoc99_fscanf"],
        "plain": [], "vg": []}


class BuildError(Exception):
    pass


def _sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout


def objects(var):
    mk = open(os.path.join(REPO, "src/Makefile")).read().replace("\\\n", " ")
    m = re.search(r"^%s\s*\+?=(.*)$" % var, mk, re.M)
    return [o[:-2] for o in m.group(1).split() if o.endswith(".o")]


def _headers_key():
    h = hashlib.sha256()
    d = os.path.join(REPO, "src")
    for f in sorted(os.listdir(d)):
        if f.endswith((".h", ".hxx", ".hpp")) and f != "libcards.h":
            h.update(f.encode() + b"\0" + open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def compile_objects(variant, names, cxx="g++"):
    """-> {name: object path}; compiled in parallel, cached by content"""
    hk = _headers_key()
    flags = BASE + VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)

    def one(n):
        src = os.path.join(REPO, "src", n + ".cxx")
        key = hashlib.sha256((hk + " ".join(flags) + cxx).encode() + open(src, "rb").read()).hexdigest()[:16]
        obj = os.path.join(out, "%s.%s.o" % (n, key))
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            _sh([cxx, "-c", *flags, "-iquote", os.path.join(REPO, "src"), "-o", tmp, src])
            os.rename(tmp, obj)
        return n, obj

    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        return dict(ex.map(one, names))


def pkgconfig(*a):
    return _sh(["pkg-config", *a]).split()


def _link(variant, objs, out, libs, cxx="g++"):
    key = hashlib.sha256(" ".join(sorted(objs) + libs + LINK[variant] + [cxx]).encode()).hexdigest()[:16]
    exe = "%s.%s" % (out, key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        _sh([cxx, *LINK[variant], "-o", tmp, *objs, *libs])
        os.rename(tmp, exe)
    return exe


class _Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tools(variant="asan"):
    """pkgadd / pkgrm / pkginfo multi-call program"""
    with _Lock():
        o = compile_objects(variant, objects("TOOLSOBJECTS"))
        return _link(variant, list(o.values()), os.path.join(BUILD, variant, "pkgadd"),
                     pkgconfig("--libs", "libarchive"))


def cards(variant="asan"):
    with _Lock():
        o = compile_objects(variant, objects("CARDSOBJECTS"))
        return _link(variant, list(o.values()), os.path.join(BUILD, variant, "cards"),
                     pkgconfig("--libs", "libarchive") + ["-lcurl", "-lssl", "-lcrypto", "-lzstd"])


def harness(variant, src, objs=("CARDSOBJECTS",), drop=("cards", "tools"), libs=(), extra=()):
    """Link a driver of ours (in /verif/native) against the objects of the real code."""
    with _Lock():
        names = []
        for v in objs:
            names += [n for n in objects(v) if n not in names and n not in drop]
        o = compile_objects(variant, names)
        flags = BASE + VARIANTS[variant] + list(extra)
        body = open(src, "rb").read()
        key = hashlib.sha256((_headers_key() + " ".join(flags)).encode() + body).hexdigest()[:16]
        base = os.path.splitext(os.path.basename(src))[0]
        obj = os.path.join(BUILD, variant, "h_%s.%s.o" % (base, key))
        if not os.path.exists(obj):
            tmp = obj + ".tmp"
            _sh(["g++", "-c", *flags, "-iquote", os.path.join(REPO, "src"), "-o", tmp, src])
            os.rename(tmp, obj)
        return _link(variant, [obj] + list(o.values()), os.path.join(BUILD, variant, "h_" + base),
                     pkgconfig("--libs", "libarchive") + ["-lcurl", "-lssl", "-lcrypto", "-lzstd", *libs])


def ctool(name):
    """a plain C helper of ours"""
    src = os.path.join(VERIF, "native", name + ".c")
    with _Lock():
        key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
        exe = os.path.join(BUILD, "%s.%s" % (name, key))
        if not os.path.exists(exe):
            tmp = exe + ".tmp"
            _sh(["gcc", "-O2", "-Wall", "-static", "-o", tmp, src])
            os.rename(tmp, exe)
        return exe


def samples():
    """an executable and the library it needs, with all their symbols: what ports install"""
    src = [os.path.join(VERIF, "native", n) for n in ("sample_lib.c", "sample_exe.c")]
    with _Lock():
        key = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
        d = os.path.join(BUILD, "samples." + key)
        if not os.path.exists(d):
            tmp = d + ".%d.tmp" % os.getpid()
            os.makedirs(tmp)
            _sh(["gcc", "-g", "-O0", "-shared", "-fPIC", "-Wl,-soname,libdep.so.1", "-o", tmp + "/libdep.so.1", src[0]])
            _sh(["gcc", "-g", "-O0", "-o", tmp + "/exe", src[1], tmp + "/libdep.so.1"])
            os.rename(tmp, d)
        return d + "/exe", d + "/libdep.so.1"


def pkgmk():
    """the script, made as scripts/Makefile makes it"""
    body = open(os.path.join(REPO, "scripts/pkgmk.in"), "rb").read()
    m = re.search(r"^VERSION\s*=\s*(\S+)", open(os.path.join(REPO, "Makefile.inc")).read(), re.M)
    body = body.replace(b"#VERSION#", (m.group(1) if m else "0").encode())
    with _Lock():
        f = os.path.join(BUILD, "pkgmk.%s" % hashlib.sha256(body).hexdigest()[:16])
        if not os.path.exists(f):
            open(f + ".tmp", "wb").write(body)
            os.chmod(f + ".tmp", 0o755)
            os.rename(f + ".tmp", f)
    return f


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan", "plain"]:
        print(tools(v))
        print(cards(v))

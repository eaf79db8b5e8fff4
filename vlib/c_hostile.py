"""Hostile archives, databases, configurations and command lines: the tools end by themselves, in order, without a memory error."""
import copy, hashlib, io, os, random, re, shutil, stat, struct, subprocess, tarfile, zipfile

from . import build, core, engine, jail
from .engine import tool, reset, _rmtree
from .fsnap import snap
from .pkgs import LEAVES, NAMES, Ent, Pkg, compress, gen_ents

R = "/w/root"
NASTY = ["", ".", "..", "/", "//", "a" * 255, "a" * 256, "x" * 5000, "\n", "a\nb", "\t", " ", "-", "--", "-x", "%s%n%s", "\xff\xfe", "\u00e9\u4e2d", "*", "[", "(", "\\", "a/b", "../../x",
         "@x", "#", "alpha", "beta", "usr/lib/libx.so", "\x01\x02", "0", "-1", "99999999999999999999", "1e9", "=", "a=b", "\r", "a\r", "\x1b[0m", "é" * 400]


def word(rng):
    r = rng.random()
    if r < .5:
        return rng.choice(NASTY)
    if r < .7:
        return rng.choice(NAMES)
    return "".join(rng.choice("abcXYZ019 ._-+/\\@#|:%\t\xe9\u20ac") for _ in range(rng.choice([1, 2, 5, 20, 200])))


def bts(s):
    return s.encode("utf-8", "surrogateescape")


def number(rng):
    return rng.choice(["0", "1", "-1", "", "abc", "12", "1700000000", "2147483647", "2147483648", "4294967296", "18446744073709551616", "9" * 40, "99999999999999999", "-99999999999999999", "0x10", " 5", "1.5", "١"])


def blob(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 7, 64, 255, 4096, 9000]) if n is None else n
    k = rng.random()
    if k < .3:
        return bytes(rng.randrange(256) for _ in range(min(n, 600))) * (max(n, 1) // 600 + 1)
    return bytes([rng.choice(b"\0\n aN\xff")]) * n


def meta(rng, name="alpha"):
    """META text: a valid one, bent"""
    L = ["N" + name, "DA package", "Uhttp://x.org", "Llicense", "Mme", "Pmaintainer", "Cbase", "V1.0", "r1", "ax86_64", "B1700000000", "S12345"]
    for _ in range(rng.choice([0, 1, 3])):
        L.append(rng.choice("RglAsTcdHionN") + word(rng))
    for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
        k = rng.randrange(9)
        i = rng.randrange(len(L)) if L else 0
        if k == 0 and L:
            del L[i]
        elif k == 1 and L:
            L[i] = L[i][:1] + word(rng)
        elif k == 2:
            L.insert(i, rng.choice(["", " ", "N", "V", "B", "S", "R", "\0", "\0" * 50, "\xff", "A", "c", "s", "Zx", "\t", "RB", "R" + "x" * 9000]))
        elif k == 3 and L:
            L[i] = rng.choice(["B", "S", "r", "R", "c"]) + number(rng)
        elif k == 4 and L:
            L.append(L[i])
        elif k == 5:
            L.append("R" + rng.choice(NAMES) + number(rng))
        elif k == 6:
            L.insert(i, "".join(chr(rng.choice([9, 32, 33, 65, 78, 86, 126, 233])) for _ in range(rng.randrange(80))))
        elif k == 7 and L:
            L[i] = L[i][1:]
        else:
            rng.shuffle(L)
    r = rng.random()
    eol = "\n" if r < .9 else rng.choice(["\r\n", "\n\n", "\0", ""])
    data = bts(eol.join(L)) + (b"\n" if rng.random() < .8 else b"")
    return mutate(rng, data) if rng.random() < .15 else data


def mutate(rng, data):
    d = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 5, 20])):
        n = len(d)
        k = rng.randrange(7)
        p = rng.randrange(n + 1)
        if k == 0 and n:
            d[p % n] ^= 1 << rng.randrange(8)
        elif k == 1 and n:
            d[p % n] = rng.choice([0, 0xff, 0x7f, 0x80, 10, 32, 0x37])
        elif k == 2:
            d[p:p] = blob(rng, rng.choice([1, 2, 16, 512]))
        elif k == 3:
            del d[p:p + rng.choice([1, 2, 16, 100, 512, 4000])]
        elif k == 4:
            q = rng.randrange(n + 1)
            d[p:p] = d[q:q + rng.choice([1, 8, 512, 1024])]
        elif k == 5:
            d[p:p + 8] = struct.pack("<Q", rng.choice([0, 1, 2 ** 31, 2 ** 32 - 1, 2 ** 63, 2 ** 64 - 1, n]))
        else:
            d[p:p + 4] = rng.choice([b"\0\0\0\0", b"7777", b"\xff\xff\xff\xff", b"-001"])
    return bytes(d)


def hostile_tar(rng):
    bio = io.BytesIO()
    fmt = rng.choice([tarfile.GNU_FORMAT, tarfile.GNU_FORMAT, tarfile.PAX_FORMAT, tarfile.USTAR_FORMAT])
    tf = tarfile.open(fileobj=bio, mode="w", format=fmt, errors="surrogateescape")
    names = [".META", ".MTREE"]
    members = []
    name = rng.choice(NAMES)
    members.append((".META", tarfile.REGTYPE, meta(rng, name), ""))
    members.append((".MTREE", tarfile.REGTYPE, blob(rng) if rng.random() < .3 else b"#mtree\n", ""))
    for n in (".PRE", ".POST", ".PRER", ".POSTR"):
        if rng.random() < .12:
            members.append((n, tarfile.REGTYPE, blob(rng), ""))
    paths = []
    for e in gen_ents(rng, rng.choice([1, 3, 7, 12])):
        t = {"d": tarfile.DIRTYPE, "f": tarfile.REGTYPE, "l": tarfile.SYMTYPE, "h": tarfile.LNKTYPE, "p": tarfile.FIFOTYPE}[e.kind]
        members.append((e.path, t, e.data if e.kind == "f" else b"", e.data.decode("utf-8", "replace") if e.kind in "lh" else ""))
        paths.append(e.path)
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        k = rng.randrange(12)
        i = rng.randrange(len(members))
        m = members[i]
        if k == 0:
            members[i] = (word(rng) or "e", m[1], m[2], m[3])
        elif k == 1:
            members[i] = (m[0], rng.choice([tarfile.DIRTYPE, tarfile.SYMTYPE, tarfile.LNKTYPE, tarfile.FIFOTYPE, tarfile.CHRTYPE, tarfile.BLKTYPE, b"Z", tarfile.CONTTYPE]), b"", rng.choice([m[0], ".META", "nowhere", word(rng)]))
        elif k == 2:
            members.append(m)
        elif k == 3:
            members.insert(i, members.pop())
        elif k == 4:
            members[i] = ("./" + m[0], *m[1:])
        elif k == 5:
            members[i] = (rng.choice(["/", "//", "../", "a/../../", "./././", "//../"]) + m[0], *m[1:])
        elif k == 6:
            members.append((rng.choice([".META", ".MTREE", ".PRE", ".POST", ".META/x", ".MTREE/", "./.META", ".META ", ".metA", "META", "var/lib/pkg/DB/alpha/META", "var/lib/pkg/DB", "var/lib/pkg/pkgadd.conf", "etc/pkgadd.conf"]),
                            rng.choice([tarfile.REGTYPE, tarfile.DIRTYPE]), meta(rng), ""))
        elif k == 7:
            members.insert(0, m)
        elif k == 8:
            members[i] = (m[0] + "/" + rng.choice(["x", "x/" * 60 + "y", "z" * 200]), *m[1:])
        elif k == 9 and len(members) > 1:
            del members[i]
        elif k == 10:
            members.append((m[0], tarfile.SYMTYPE, b"", rng.choice(["..", "/", "/w", m[0], "a" * 300, "loop"])))
        else:
            members.append((rng.choice(paths) if paths else "x", tarfile.LNKTYPE, b"", rng.choice(paths + ["nothere", "../../w/x", ".META"])))
    for n, t, data, link in members:
        ti = tarfile.TarInfo(n)
        ti.type, ti.linkname = t, link
        ti.mode = rng.choice([0o644, 0o644, 0o755, 0, 0o7777, 0o200])
        ti.mtime = rng.choice([1500000000] * 4 + [0, -1, 2 ** 33, 2 ** 40])
        ti.uid = rng.choice([0] * 5 + [33, 65535, 70000, 2 ** 21])
        ti.size = len(data) if t in (tarfile.REGTYPE, tarfile.CONTTYPE, b"Z") else 0
        ti.devmajor, ti.devminor = 1, 3
        if fmt == tarfile.PAX_FORMAT and rng.random() < .3:
            ti.pax_headers = {rng.choice(["path", "linkpath", "mtime", "size", "uid", "SCHILY.xattr.user.x", "GNU.sparse.map", "GNU.sparse.major", "hdrcharset", "LIBARCHIVE.creationtime"]): rng.choice([n, number(rng) or "0", word(rng) or "0"])}
        try:
            tf.addfile(ti, io.BytesIO(data) if ti.size else None)
        except (ValueError, UnicodeError, struct.error):
            pass
    tf.close()
    return bio.getvalue()


def other_format(rng):
    k = rng.randrange(6)
    if k == 0:
        bio = io.BytesIO()
        z = zipfile.ZipFile(bio, "w")
        for n, d in ((".META", meta(rng)), (".MTREE", b"#mtree\n"), ("usr/share/x", b"hello")):
            if rng.random() < .9:
                z.writestr(n, d)
        z.close()
        return bio.getvalue()
    if k == 1:      # cpio newc
        out = b""
        for n, d in ((".META", meta(rng)), (".MTREE", b"#mtree\n"), ("usr/share/x", b"hello"), ("TRAILER!!!", b"")):
            nm = n.encode() + b"\0"
            h = b"070701" + b"".join(b"%08x" % v for v in (1, 0o100644, 0, 0, 1, 1500000000, len(d), 0, 0, 0, 0, len(nm), 0))
            out += (h + nm).ljust((len(h + nm) + 3) // 4 * 4, b"\0") + d.ljust((len(d) + 3) // 4 * 4, b"\0")
        return out
    if k == 2:
        return b"!<arch>\n" + b"%-16s%-12s%-6s%-6s%-8s%-10d`\n" % (b".META/", b"0", b"0", b"0", b"100644", 6) + b"Nalpha"
    if k == 3:
        return b"#mtree\n.META type=file\nusr/x type=file size=5 mode=0644\n" + bts(word(rng))
    if k == 4:
        return b"07070100000000"
    return blob(rng)


def archive(rng):
    r = rng.random()
    if r < .72:
        data = hostile_tar(rng)
    elif r < .82:
        data = other_format(rng)
    else:
        p = Pkg(rng.choice(NAMES), "1.%d" % rng.randrange(3), ents=gen_ents(rng))
        data = p.archive("")
    if rng.random() < .3:
        data = mutate(rng, data)
    comp = rng.choice(["", "", "", "gz", "bz2", "xz", "zst"])
    data = compress(data, comp)
    if rng.random() < .12:
        data = mutate(rng, data)
    if rng.random() < .05:
        data = compress(data, rng.choice(["gz", "xz"]))
    return data


def regex(rng):
    atoms = ["a", "usr", ".*", "^", "$", "[a-z]", "[", "]", "(", ")", "\\", "\\.", "|", "*", "+", "?", "{1}", "{", "}", "{1,3}", "{3,1}", "{,2}", "[[:alpha:]]", "[[:foo:]]", "[[.a.]]", "[[=a=]]", "[z-a]", "\\1", "\\(", ".", "/",
             "etc", "lib", "()", "^*", "a**", "\xff", "é", "\\<", "\\w"]
    return "".join(rng.choice(atoms) for _ in range(rng.choice([1, 2, 3, 5, 8])))


def longrule(rng):
    """words of any length in any place, up to the longest line and beyond"""
    w = [rng.choice(["INSTALL", "UPGRADE", "x"]), rng.choice(["^etc/", ".*", "x"]), rng.choice(["YES", "NO", "x"]), "y"][:rng.choice([1, 2, 3, 3, 4, 4])]
    i = rng.randrange(len(w))
    rest = len(" ".join(w)) - len(w[i])
    w[i] = rng.choice("ax*.^") * rng.choice([15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 500, 511, 512, 900, 1000, 1022 - rest, 1023 - rest, 1024 - rest, 1100])
    return rng.choice([" ", "\t"]).join(w)


def rules(rng):
    def good():
        return "%s%s%s%s%s" % (rng.choice(["INSTALL", "UPGRADE"]), rng.choice(["\t", " ", "\t\t "]), regex(rng) if rng.random() < .5 else rng.choice(["^etc/.*$", ".*", "^usr", "x"]),
                               rng.choice(["\t", " "]), rng.choice(["YES", "NO"]))
    L = []
    for _ in range(rng.choice([0, 1, 2, 4, 12])):
        r = rng.random()
        if r < .65:
            L.append(good())
        elif r < .8:
            L.append(word(rng))
        elif r < .9:
            L.append(longrule(rng))
        else:
            L.append(rng.choice(["", "#", "INSTALL", "INSTALL x", "INSTALL x YES y", "UPGRADE\t\tNO", "install x YES", "INSTALL x MAYBE", "\0", "INSTALL \0 YES", "#" * 5000, "INSTALL " + "a" * 5000 + " YES", "\x0b\x0c"]))
    if rng.random() < .5:
        # what is wrong ends the reading: sometimes it is only the last line
        L = [good() for _ in range(rng.choice([0, 1, 3]))] + [longrule(rng)]
    data = bts("\n".join(L)) + (b"\n" if rng.random() < .7 else b"")
    return mutate(rng, data) if rng.random() < .1 else data


def listing(rng):
    L = [rng.choice(LEAVES) for _ in range(rng.choice([0, 1, 3, 8, 40]))]
    for _ in range(rng.choice([0, 0, 1, 3])):
        L.insert(rng.randrange(len(L) + 1), word(rng))
    data = bts("\n".join(L)) + (b"\n" if rng.random() < .8 else b"")
    return mutate(rng, data) if rng.random() < .1 else data


VGARGS = ["/usr/bin/valgrind.bin", "-q", "--tool=memcheck", "--error-exitcode=98", "--leak-check=no", "--undef-value-errors=yes", "--track-origins=no", "--num-callers=12"]


def vg(self, prog, argv, lang, cwd="/w"):
    """the same command once more, the program not instrumented but watched by valgrind: reads of uninitialised values"""
    env = {"VALGRIND_LIB": "/usr/libexec/valgrind", "VALGRIND_LAUNCHER": "/usr/bin/valgrind.bin"}
    q = tool(VGARGS + ["/vg/" + prog] + argv[1:], lang=lang, timeout=120, env=env, cwd=cwd)
    if q.timeout:
        self.res.counts["valgrind_slow"] += 1
        return True
    self.res.counts["runs_under_valgrind"] += 1
    if q.rc in (98, 126, 127) or q.rc < 0:
        m = re.search(r"==\d+== (\S[^\n]*)\n(?:==\d+==[^\n]*\n)*?==\d+==[^\n]*?: (\w[^\n(]*)\(?[^\n]*\((\w+\.cxx):", q.err)
        self.bad("valgrind:%s@%s" % (m.group(1), m.group(3)) if m else "valgrind:%d" % q.rc, q.err[-3000:])
        return False
    return True


class Hostile:
    vg = False
    R = R

    def __init__(self, seed, index):
        self.rng = core.rng_for("hostile", seed, index)
        self.index = index
        self.res = core.Result()
        self.trace = []

    def write(self, path, data):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)

    def state(self):
        rng, R = self.rng, self.R
        for d in ("/var/lib/pkg/DB", "/etc", "/tmp", "/usr/lib"):
            os.makedirs(R + d, exist_ok=True)
        db = R + "/var/lib/pkg/DB"
        for _ in range(rng.choice([0, 1, 2, 4])):
            n = rng.choice(NAMES)
            self.write("%s/%s/META" % (db, n), bts("N%s\nDd\nV1\nr1\nB1600000000\nS5\nax86_64\nCbase\n" % n))
            self.write("%s/%s/files" % (db, n), "\n".join(sorted(rng.sample(LEAVES, 3))).encode() + b"\n")
        self.hostile_db = rng.random() < .5
        if self.hostile_db:
            for _ in range(rng.choice([1, 1, 2, 4])):
                n = rng.choice(NAMES + ["zz", "a b", "-x", "\xe9", "n" * 255, "..x", "#new", "alpha.new"])
                d = "%s/%s" % (db, n)
                k = rng.randrange(12)
                try:
                    if k == 0:
                        self.write(d, blob(rng))
                    elif k == 1:
                        os.makedirs(d, exist_ok=True)
                    elif k == 2:
                        self.write(d + "/META", meta(rng, n))
                    elif k == 3:
                        self.write(d + "/files", listing(rng))
                    elif k == 4:
                        os.makedirs(d + "/files")
                        self.write(d + "/META", meta(rng, n))
                    elif k == 5:
                        os.makedirs(d + "/META")
                        self.write(d + "/files", listing(rng))
                    elif k == 6:
                        os.symlink(rng.choice([".", "nowhere", "alpha", "/", db]), d)
                    elif k == 7:
                        os.makedirs(d, exist_ok=True)
                        os.symlink(rng.choice(["META", "nowhere", "/dev/null", "../alpha/META"]), d + "/META")
                        self.write(d + "/files", listing(rng))
                    elif k == 8:
                        self.write(d + "/META", blob(rng))
                        self.write(d + "/files", blob(rng))
                    else:
                        self.write(d + "/META", meta(rng, rng.choice([n, "alpha"])))
                        self.write(d + "/files", listing(rng))
                        for s in ("PRE", "POST", "PRER", "POSTR"):
                            if rng.random() < .1:
                                self.write(d + "/" + s, blob(rng, 9))
                except OSError:
                    pass
        if rng.random() < .08:
            _rmtree(db)
            k = rng.randrange(3)
            if k == 0:
                self.write(db, b"x")
            elif k == 1:
                os.symlink("DB", db)
        if rng.random() < .5:
            self.write(R + "/var/lib/pkg/pkgadd.conf", rules(rng))
        elif rng.random() < .1:
            os.makedirs(R + "/var/lib/pkg/pkgadd.conf", exist_ok=True)
        for _ in range(rng.choice([0, 1, 3])):
            p = R + "/" + rng.choice(LEAVES)
            try:
                k = rng.randrange(4)
                if k == 0:
                    os.makedirs(p)
                elif k == 1:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    os.symlink(rng.choice(["x", "nowhere", "."]), p)
                else:
                    self.write(p, blob(rng))
            except OSError:
                pass

    def command(self):
        rng = self.rng
        prog = rng.choice(["pkgadd", "pkgadd", "pkgadd", "pkginfo", "pkginfo", "pkgrm"])
        arcs = []

        def arc():
            n = "/w/pkgs/%s.cards.tar" % rng.choice(["a1.0", "b", "x" * 60, "é", "-n"])
            r = rng.random()
            if r < .9:
                self.write(n, archive(rng))
            elif r < .93:
                n = "/w/pkgs/none.cards.tar"
            elif r < .96:
                n = rng.choice(["/w", "/dev/null", "/w/pkgs/fifo-not", "", R])
            arcs.append(n)
            return n

        def name():
            return rng.choice(NAMES) if rng.random() < .7 else word(rng)

        root = rng.choice([["-r", R]] * 6 + [["--root", R], ["-r", R + "/"]])
        if prog == "pkgadd":
            a = [o for o in ("-u", "-f", "-i") if rng.random() < .35]
            a += [arc()]
        elif prog == "pkgrm":
            a = [name()]
        else:
            o = rng.choice(["-i", "-n", "-d", "-l", "-R", "-o", "-a", "-m", "-f", "-L", "--runtimedepfiles", "--runtimelibs", "-b"])
            a = [o]
            if o in ("-a", "-m", "-f") or o == "-l" and rng.random() < .5:
                a += [arc()]
            elif o in ("--runtimedepfiles", "--runtimelibs"):
                a += [rng.choice([R, "/w/pkgs", R + "/usr", word(rng), "/w/pkgs/nothing"])]
            elif o == "-o":
                a += [rng.choice([regex(rng), word(rng), "libx", rng.choice(LEAVES)])]
            elif o not in ("-i", "-n"):
                a += [name()]
            if o in ("-i",) and rng.random() < .3:
                a += ["-i"]
        a = root + a if rng.random() < .7 else a + root
        bent = ""
        if rng.random() < .12:
            bent = "bent"
            for _ in range(rng.choice([1, 2])):
                i = rng.randrange(len(a) + 1)
                k = rng.randrange(4)
                if k == 0 and a:
                    # never the root: what is done stays below it
                    j = rng.randrange(len(a))
                    if a[j] not in ("-r", "--root", R, R + "/"):
                        del a[j]
                elif k == 1 and not (i and a[i - 1] in ("-r", "--root")):
                    a.insert(i, word(rng).replace("\0", ""))
                elif k == 2 and not (i and a[i - 1] in ("-r", "--root")):
                    a.insert(i, rng.choice(["-u", "-f", "-i", "-v", "-h", "--help", "--version", "-d", "-q", "--all", "-", "--force=1", "-l", "-o"]))
                else:
                    if a and a[-1] not in (R, R + "/"):
                        a.append(rng.choice(a))
            if not any(a[i] in ("-r", "--root") and a[i + 1].rstrip("/") == R for i in range(len(a) - 1)):
                return None
        lang = rng.choice(["C.UTF-8", "C.UTF-8", "C", "POSIX", "xx_YY"])
        return prog, a, lang, bent

    def run(self):
        res, rng = self.res, self.rng
        reset()
        self.state()
        outside = snap("/", skip={"/proc", "/dev", "/sys", "/w", "/tmp"})
        for step in range(14):
            c = self.command()
            if c is None:
                continue
            prog, a, lang, bent = c
            argv = ["/usr/bin/" + prog] + [x.replace("\0", "") for x in a]
            r = tool(argv, lang=lang, timeout=40)
            self.trace.append("%s %r -> %d" % (prog, a, r.rc))
            if r.timeout:
                r = tool(argv, lang=lang, timeout=120)
                if r.timeout:
                    res.bad("hang:%s %s" % (prog, " ".join(x for x in a if x.startswith("-"))), "does not end\n" + "\n".join(self.trace))
                    return res
                res.counts["slow"] += 1
            res.counts["runs_" + prog] += 1
            res.counts["accepted" if r.rc == 0 else "refused"] += 1
            if self.hostile_db:
                res.counts["runs_on_hostile_database"] += 1
            if bent:
                res.counts["bent_command_lines"] += 1
            s = r.san()
            if s:
                self.bad(s.split("\n")[0].split(" (exit")[0], s)
                return res
            if self.vg and not vg(self, prog, argv, lang):
                return res
            if r.rc != 0 and not (r.err + r.out).strip():
                self.bad("mute:" + prog, "fails with %d without a word" % r.rc)
                return res
            msg = re.sub(r"[^a-zA-Z ]", "", re.sub(r"'[^']*'|\"[^\"]*\"|/\S+", "", r.err))[:40]
            res.tags.add("%s/%s/%d/%s" % (prog, " ".join(sorted(x for x in a if re.fullmatch("--?[a-zA-Z]+", x))), r.rc, msg))
            now = None
            if step % 7 == 6:
                now = snap("/", skip={"/proc", "/dev", "/sys", "/w", "/tmp"})
                if {p: n.key(False) for p, n in now.items()} != {p: n.key(False) for p, n in outside.items()}:
                    d = [p for p in set(now) | set(outside) if p not in now or p not in outside or now[p].key(False) != outside[p].key(False)]
                    self.bad("outside", "changed outside of the root: %r" % [(p, outside.get(p), now.get(p)) for p in sorted(d)[:9]])
                    return res
        res.sig = hashlib.md5(repr(self.trace).encode("utf-8", "surrogateescape")).hexdigest()
        res.nontrivial = res.counts["accepted"] > 0 and res.counts["refused"] > 0
        res.sample = [t[:200] for t in self.trace[-3:]] if self.index < 4 else None
        return res

    def bad(self, key, msg):
        self.res.bad(key, "%s\n" % self.trace[-1][:300] + msg + "\n" + "\n".join(t[:500] for t in self.trace[-6:]))


def case(task):
    seed, index = task[:2]
    h = Hostile(seed, index)
    h.vg = index % 40 == 3
    return h.run()


def check(pid):
    c = core.Check(pid, "hostile inputs of the package tools",
                   "A case is a root with a (half of the time malformed) database, rules file and tree and 14 runs of the ASan+UBSan-instrumented, assertion-enabled pkgadd, pkgrm and pkginfo with structure-aware malformed archives "
                   "(odd member names, kinds, sizes, links, formats, filters, byte damage), meta data and command lines. Every run must end by itself with an exit status, and with a word if it is a failure; nothing outside the root may change. "
                   "Non-trivial: the case saw accepted and refused commands. Distinct: commands and outcomes differ.",
                   assumptions=["decompression bombs and expressions that exhaust the C library's regcomp are not generated", "memory errors are those ASan, UBSan and libstdc++'s assertions see"])
    t = build.tools("asan")
    v = build.tools("vg")
    tpl = jail.make_template(c.scratch, dict({"/usr/bin/pkgadd": t, "/usr/bin/pkgrm": t, "/usr/bin/pkginfo": t, "/usr/bin/zstd": "/usr/bin/zstd",
                                              "/vg/pkgadd": v, "/vg/pkgrm": v, "/vg/pkginfo": v}, **jail.valgrind_programs()))
    n = c.size(700, 12000)
    c.run(tpl, case, [[c.seed, i] for i in range(n)])
    c.finish(min_nontrivial=200)

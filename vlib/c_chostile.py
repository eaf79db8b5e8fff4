"""Hostile mirrors, meta data, configurations, ports and command lines for cards: it ends by itself, in order, without a
memory error, and what only asks changes nothing."""
import hashlib, os, random, re

from . import build, core, engine, jail, repo
from .c_cards import key_of
from .c_hostile import NASTY, Hostile, archive, blob, bts, listing, meta, mutate, number, regex, rules, vg, word
from .engine import _rmtree, reset, tool
from .fsnap import snap
from .pkgs import LEAVES, NAMES, Pkg, gen_ents

COLLS = ["cli", "gui", "own"]
DEPOT, LOCAL, WWW, PORTS = "/w/depot", "/w/local", "/w/www", "/w/ports"
USER = 1000


def user():
    os.setgroups([])
    os.setresgid(USER, USER, USER)
    os.setresuid(USER, USER, USER)


def long_number(rng):
    return rng.choice([number(rng), "99999999999999999", "999999999999999999", "-99999999999999999", "67767976233532799", "67768036191676800", "9223372036854775807"])


class CHostile(Hostile):
    R = ""

    def __init__(self, seed, index):
        super().__init__(seed, index)
        self.rng = core.rng_for("chostile", seed, index)

    # -- what lies on the mirrors and in the depots -------------------------------------------------
    def entry(self, coll):
        """an archive in a collection and what .REPO and .FILES say about it"""
        rng = self.rng
        r = rng.random()
        n = rng.choice(NAMES)
        if r < .6:
            p = Pkg(n, "1.%d" % rng.randrange(3), ents=gen_ents(rng, 4))
            p.build = 1600000000 + rng.randrange(3)
            p.collection = rng.choice([coll, "base"])
            p.deps = [(rng.choice(NAMES), 1600000000 + rng.randrange(3)) for _ in range(rng.choice([0, 0, 1, 2]))]
            p.sets = rng.choice([[], [], ["myset"], ["chroot"]])
            text = p.meta()
            data = p.archive(rng.choice(["", "", "gz", "xz", "zst"]))
        else:
            text = meta(rng, n)
            data = archive(rng)
        f = "%s.cards-1.0-1" % n
        k = rng.random()
        if k < .15:
            f = rng.choice(["x.cards-", ".cards-1-1", "..", "a/b.cards-1", "../up.cards-1", "../../../../w/escaped.cards-1", "/w/escaped.cards-1", "é.cards-1", "n" * 250 + ".cards-1", "n" * 5000 + ".cards-1", "cards", "", " .cards- ", word(rng) + ".cards-" + word(rng)])
        if rng.random() < .2:
            data = rng.choice([b"", mutate(rng, data), data[:len(data) // 2], data + b"x"])
        return n, f.replace("\0", "").replace("\n", ""), text, data

    def lists(self, entries, key):
        rng = self.rng
        R_, F = [], []
        for n, f, text, data in entries:
            dig = hashlib.sha512(data).digest()
            L = [b"@" + bts(f)] + [l for l in text.split(b"\n") if l]
            h = b"H" + dig.hex().encode() if rng.random() < .85 else b"H" + bts(rng.choice(["", "00", dig.hex().upper(), word(rng)]))
            s = b"I" + key.sign(dig).hex().encode() if rng.random() < .85 else b"I" + bts(rng.choice(["", "0", "zz", "00" * 64, "ab" * 5000, word(rng)]))
            L += [h, s, b"i" + (b"%d" % len(data) if rng.random() < .8 else bts(long_number(rng)))]
            for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
                i = rng.randrange(len(L))
                k = rng.randrange(9)
                if k == 0:
                    del L[i]
                elif k == 1:
                    L[i] = L[i][:1] + bts(word(rng))
                elif k == 2:
                    L.insert(i, rng.choice([b"", b" ", b"N", b"@", b"@x", b"R", b"RB", b"R" + b"x" * 9, b"g", b"n", b"n" + b"f" * 300, b"gfr", b"\0", b"\xff" * 9, b"a", b"s", b"T", b"C", b"V"]))
                elif k == 3:
                    c = rng.choice([b"B", b"B", b"S", b"r", b"i", b"c"])
                    L[[j for j, x in enumerate(L) if x[:1] == c][0] if any(x[:1] == c for x in L) else i] = c + bts(long_number(rng))
                elif k == 4:
                    L.append(L[i])
                elif k == 5:
                    L.append(b"R" + bts(rng.choice(NAMES) + rng.choice(["1600000000", "1600000001", "", "x", "9999999999"])))
                elif k == 6:
                    L.append(rng.choice([b"s", b"T", b"C", b"A", b"l", b"g", b"n"]) + bts(rng.choice(NAMES + ["myset", "fr", "devel", "base", ""])))
                elif k == 7:
                    rng.shuffle(L)
                else:
                    L[i] = L[i] * 200
                if not L:
                    L = [b"@"]
            R_.append(b"\n".join(L) + b"\n")
            F.append(b"@" + bts(f) + b"\n" + listing(rng).replace(b"\n\n", b"\n"))
        a, b = b"\n".join(R_), b"\n".join(F)
        if rng.random() < .85:
            a, b = a + b"\n", b + b"\n"
        if rng.random() < .15:
            a = mutate(rng, a)
        if rng.random() < .15:
            b = mutate(rng, b)
        if rng.random() < .07:
            a = rng.choice([b"", b"\n", b"@", b"N", blob(rng), b"\n\n\n", b"A"])
        if rng.random() < .07:
            b = rng.choice([b"", b"\n", b"@", b"@a.cards-", blob(rng), b"x"])
        return a, b

    def collection(self, d, coll, packed, names):
        rng = self.rng
        os.makedirs(d, exist_ok=True)
        key = key_of(rng.randrange(2))
        es = [self.entry(coll) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        a, b = self.lists(es, key)

        def w(n, data):
            k = rng.random()
            if k < .04:
                return
            if k < .06:
                os.makedirs(d + "/" + n)
            elif k < .07:
                os.symlink(rng.choice(["nowhere", n, "."]), d + "/" + n)
            elif k < .08:
                self.write(d + "/" + n, b"")
            else:
                self.write(d + "/" + n, data)

        pem = key.pem()
        if rng.random() < .15:
            pem = rng.choice([b"", mutate(rng, pem), key.private_pem(), b"x", key_of(2).pem(), b"-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----\n",
                              b"-----BEGIN PUBLIC KEY-----\nMFwwDQYJKoZIhvcNAQEBBQADSwAwSAJBAKj34GkxFhD90vcNLYLInFEX6Ppy1tPf9Cnzj4p4WGeKLs1Pt8QuKUpRKfFLfRYC9AIKjbJTWit+CqvjWYzvQwECAwEAAQ==\n-----END PUBLIC KEY-----\n", pem * 3])
        w(".PKEY", pem)
        for n, x in ((".REPO", a), (".FILES", b)):
            if packed:
                z = repo.zcompress(x) if rng.random() < .8 else rng.choice([repo.zstream(x), repo.zcompress(x)[:-1], mutate(rng, repo.zcompress(x)), b"", x, blob(rng), repo.zcompress(x) * 2])
                w(n + ".zst", z)
            if not packed or rng.random() < .3:
                w(n, x)
        for n, f, text, data in es:
            names.append(n)
            f = os.path.basename(f)
            if f not in ("", ".", "..") and len(bts(f)) < 250 and rng.random() < .9 and not os.path.lexists(d + "/" + f):
                self.write(bts(d + "/" + f), data)
                self.files.append(d + "/" + f)

    # -- configuration -------------------------------------------------------------------------------
    def conf(self):
        rng = self.rng
        L = []
        sp = lambda: rng.choice([" ", " ", "\t", "  "])
        url = lambda: rng.choice(["file://" + WWW] * 5 + ["http://127.0.0.1:1", "file:///w/nowhere", "", "x://y", "file://", "|", "file://" + WWW + "/" + "u" * 3000, word(rng).replace("\n", "").replace("\0", "")])
        if rng.random() < .4:
            L.append("depot" + sp() + rng.choice([DEPOT, DEPOT, DEPOT + "/", "rel", "/w"]))
            if rng.random() < .6:
                L.append("url" + sp() + url())
        for c in rng.sample(COLLS, rng.randint(1, 3)):
            k = rng.random()
            if k < .3:
                L.append("collection" + sp() + c)
            elif k < .75:
                L.append("dir" + sp() + DEPOT + "/" + c + rng.choice([" | ", "|"]) + url())
            else:
                L.append("dir" + sp() + rng.choice([LOCAL, DEPOT]) + "/" + c)
        for _ in range(rng.choice([0, 0, 1, 2])):
            L.append(rng.choice(["locale", "group", "version", "arch", "logdir", "keypath", "name", "hostname", "collection", "dir"]) +
                     sp() + rng.choice(["fr", "devel", "man", "/w/keys", "", "lib", "x" * 4000, "(", "[a", "*", "é"]))
        if rng.random() < .7:
            L.append("keypath /w/keys")
        if rng.random() < .6:
            L.append("version rolling")
        rng.shuffle(L)
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            i = rng.randrange(len(L) + 1)
            L.insert(i, rng.choice(["dir", "dir ", "dir |", "dir  x", "dir x|file://" + WWW, "dir cli | file://" + WWW, "dir " + DEPOT + "/cli/ | file://" + WWW, "collection", "collection ", "url", "depot", "url\t", "#", " ", "\t", "dir\t" + DEPOT + "/" + "d" * 300,
                                    "dir " + DEPOT + "/" + ("d" * 200 + "/") * 25 + "x | file://" + WWW, "collection " + "c" * 5000, word(rng).replace("/", "")]))
        self.conf_lines = L
        data = bts("\n".join(L) + "\n")
        self.bent_conf = rng.random() < .06
        if self.bent_conf:
            data = mutate(rng, data)
        self.write("/etc/cards.conf", data)
        k = rng.random()
        if k < .6:
            self.write("/var/lib/pkg/nutyx-version", b"name NuTyX\nversion rolling\n" if k < .5 else mutate(rng, b"name NuTyX\nversion rolling\n"))
        if rng.random() < .04:
            os.unlink("/etc/cards.conf")
            if rng.random() < .5:
                os.makedirs("/etc/cards.conf")

    # -- ports ----------------------------------------------------------------------------------------
    def ports(self, names):
        rng = self.rng
        for c in COLLS:
            if rng.random() < .3:
                continue
            for _ in range(rng.choice([0, 1, 2, 4, 6])):
                n = rng.choice(NAMES + ["zeta", "eta", "theta"])
                dep = lambda: rng.choice(NAMES + ["zeta", "eta", "theta", "none", "zeta.lib", "."]) if rng.random() < .9 else word(rng)
                L = ['description="A port of %s"' % n, "url=http://x", "version=1.%d" % rng.randrange(3), "release=%s" % rng.choice(["1", "2", long_number(rng)]), "packager=me", "maintainer=me", "contributors=you",
                     "makedepends=(%s)" % " ".join(dep() for _ in range(rng.choice([0, 1, 2, 5]))), "run=(%s)" % rng.choice([" ", ",", "\n", "\\\n"]).join(dep() for _ in range(rng.choice([0, 0, 1, 3]))), "build() {", "\tmake", "}"]
                for _ in range(rng.choice([0, 0, 1, 2])):
                    i = rng.randrange(len(L) + 1)
                    L.insert(i, rng.choice(["makedepends=(", "run=(", ")", "makedepends=(a", "makedepends=()", "run=(\\", "#", "", "version=", "release=", "release=#", "=", "description=", "makedepends=(%s)" % n, word(rng)]))
                data = bts("\n".join(L) + "\n")
                if rng.random() < .1:
                    data = mutate(rng, data)
                d = PORTS + "/" + c + "/" + n
                if os.path.lexists(d):
                    continue
                k = rng.random()
                try:
                    if k < .03:
                        os.makedirs(d + "/Pkgfile")
                    elif k < .06:
                        self.write(d, b"x")
                    elif k < .08:
                        os.makedirs(d)
                        os.symlink(rng.choice(["nowhere", "Pkgfile"]), d + "/Pkgfile")
                    elif k < .1:
                        os.makedirs(d)
                    else:
                        self.write(d + "/Pkgfile", data)
                    names.append(n)
                except OSError:
                    pass

    def setup(self):
        rng = self.rng
        reset()
        for d in (DEPOT, LOCAL, WWW, PORTS, "/w/keys", "/w/home"):
            os.makedirs(d, exist_ok=True)
        for d in ("/w/keys", "/w/home"):
            os.chown(d, USER, USER)
        self.state()
        self.files, self.names = [], list(NAMES)
        for c in COLLS:
            if rng.random() < .85:
                self.collection("%s/x86_64/%s/%s" % (WWW, "rolling", c), c, True, self.names)
            if rng.random() < .8:
                self.collection("%s/%s" % (DEPOT, c), c, False, self.names)
            if rng.random() < .5:
                self.collection("%s/%s" % (LOCAL, c), c, False, self.names)
        self.ports(self.names)
        self.conf()
        if rng.random() < .4:
            self.write("/tmp/setup", b"")
        if rng.random() < .5:
            self.write("/w/keys/.PSKEY" if rng.random() < .05 else "/w/keys/" + SECRET, rng.choice([key_of(0).private_pem()] * 4 + [b"", blob(rng), key_of(0).pem(), mutate(rng, key_of(0).private_pem())]))
        if rng.random() < .5:
            # the depots belong to the packager
            for d, dirs, files in list(os.walk(DEPOT)) + list(os.walk("/w/keys")):
                for n in [d] + [d + "/" + f for f in files]:
                    os.chown(n, USER, USER, follow_symlinks=False)

    def command(self):
        rng = self.rng
        name = lambda: rng.choice(self.names) if rng.random() < .75 else rng.choice(["myset", "chroot", "cli", "gui", "base", "own", "fr"]) if rng.random() < .6 else word(rng)
        cmd = rng.choice(["install"] * 5 + ["remove"] * 3 + ["upgrade"] * 4 + ["diff"] * 3 + ["sync"] * 4 + ["purge"] * 2 + ["list"] * 2 + ["info"] * 4 + ["search"] * 2 + ["query"] * 3 + ["files"] * 3 +
                         ["config", "level", "level", "depends", "depends", "deptree", "deptree", "dependent", "dependent", "repo", "repo", "keys", "create", "help", "word"])
        a, asuser = [cmd], False
        if cmd == "install":
            for _ in range(rng.choice([1, 1, 2, 4])):
                a.append(rng.choice(self.files) if self.files and rng.random() < .3 else name())
            a += [o for o in ("-u", "-f", "-d") if rng.random() < .2]
        elif cmd == "remove":
            a += [name() for _ in range(rng.choice([1, 1, 2, 4]))] + [o for o in ("-f",) if rng.random() < .4]
        elif cmd == "upgrade":
            a += [o for o, p in (("-p", .4), ("--no-sync", .4), ("-c", .15), ("-s", .15), ("--download-only", .2), ("--ready", .2), ("--no-progress", .3)) if rng.random() < p]
        elif cmd == "sync":
            a += rng.choice([[], ["--no-progress"]])
        elif cmd in ("list", "info"):
            a += rng.choice([["-b"], ["-S"], []])
        elif cmd == "search":
            a += rng.choice([["-n"], []])
        elif cmd in ("query", "files"):
            a += rng.choice([["-b"], ["-b"], []])
        elif cmd == "repo":
            asuser = rng.random() < .8
            a += rng.choice([[], [], [rng.choice(COLLS)], [name()]]) + rng.choice([[], []])
        elif cmd == "keys":
            asuser = rng.random() < .8
        elif cmd == "word":
            a = [word(rng).replace("\0", "")]
        if cmd in ("info", "files", "depends", "deptree", "dependent", "create"):
            a.append(name())
        elif cmd == "search":
            a.append(rng.choice([name(), regex(rng), "al"]))
        elif cmd == "query":
            a.append(rng.choice([regex(rng), word(rng), "libx", rng.choice(LEAVES)]))
        if rng.random() < .06 and cmd not in ("keys", "repo"):
            asuser = True
        if rng.random() < .1:
            for _ in range(rng.choice([1, 2])):
                i = rng.randrange(len(a) + 1)
                k = rng.randrange(4)
                if k == 0 and a:
                    del a[rng.randrange(len(a))]
                elif k == 1:
                    a.insert(i, word(rng))
                elif k == 2:
                    a.insert(i, rng.choice(["-u", "-f", "-b", "-v", "-h", "--help", "--version", "-S", "-n", "-", "--", "--force=1", "-c", "-s", "--dry", "--conf", "--conf=", "--no-progress=1", "-bf", "-fu"]))
                elif a:
                    a.append(rng.choice(a))
        a = [x.replace("\0", "") for x in a]
        return a, asuser, rng.choice(["C.UTF-8", "C.UTF-8", "C", "xx_YY"])

    READONLY = {"list", "info", "search", "query", "files", "config", "level", "depends", "deptree", "dependent", "help"}

    def run(self):
        res, rng = self.res, self.rng
        self.setup()
        own = ("w", "tmp")
        skip = {"/proc", "/dev", "/sys", "/usr/lib/x86_64-linux-gnu", "/usr/bin", "/lib64"}
        before = None
        for step in range(14):
            a, asuser, lang = self.command()
            cmd = a[0] if a else ""
            argv = ["/usr/bin/cards"] + a
            ro = cmd in self.READONLY
            keepsit = cmd in ("purge", "sync", "diff", "keys", "repo")
            if ro or keepsit:
                before = snap("/", skip=skip)
            cwd = PORTS if cmd in ("level", "depends", "deptree", "dependent", "create") or rng.random() < .3 else "/w/home"
            kw = dict(lang=lang, cwd=cwd)
            if asuser:
                kw["preexec"] = user
            try:
                r = tool(argv, timeout=60, **kw)
                if r.timeout:
                    r = tool(argv, timeout=150, **kw)
            except (PermissionError, OSError) as e:
                res.counts["not_started"] += 1
                self.trace.append("%r not started: %s" % (a, e))
                continue
            self.trace.append("cards %r%s -> %d" % (a, " (user)" if asuser else "", r.rc))
            if r.timeout:
                self.bad("hang:%s" % cmd, "does not end")
                return res
            res.counts["runs"] += 1
            res.counts["runs_" + (cmd if cmd in self.READONLY or keepsit or cmd in ("install", "remove", "upgrade", "create") else "others")] += 1
            res.counts["accepted" if r.rc == 0 else "refused"] += 1
            if asuser:
                res.counts["runs_as_user"] += 1
            s = r.san()
            if s:
                self.bad(s.split("\n")[0].split(" (exit")[0], s)
                return res
            if re.search(r"terminate called|what\(\):", r.err):
                self.bad("exit:%d" % r.rc, "not by itself\n" + r.err[-2000:])
                return res
            if self.vg and not asuser and cmd not in ("install", "remove", "upgrade", "create") and not vg(self, "cards", argv, lang, cwd):
                return res
            if r.rc != 0 and not (r.err + r.out).strip():
                self.bad("mute:" + cmd, "fails with %d without a word" % r.rc)
                return res
            msg = re.sub(r"[^a-zA-Z ]", "", re.sub(r"'[^']*'|\"[^\"]*\"|/\S+", "", r.err))[-40:]
            res.tags.add("%s/%s/%d/%s" % (cmd if len(cmd) < 12 else "?", " ".join(sorted(x for x in a if re.fullmatch("--?[a-zA-Z-]+", x))), r.rc, msg))
            if ro or keepsit:
                now = snap("/", skip=skip)
                d = sorted(p for p in set(now) | set(before) if p not in now or p not in before or now[p].key(False) != before[p].key(False))
                if ro and d:
                    self.bad("changed:" + cmd, "a question changes %r" % d[:9])
                    return res
                # what is synchronised, cleaned up or signed lies in the directories of cards.conf
                ok = {"purge": ("w/depot", "w/local"), "sync": ("w/depot", "w/local"), "diff": ("w/depot", "w/local"), "keys": ("w/keys", "w/home", "w/ports"), "repo": ("w/depot", "w/local")}[cmd] if not ro else ()
                if not self.bent_conf and not any(re.match(r"(dir|depot|collection)\s", l) and not re.match(r"(dir|depot)\s+/w/(depot|local)/|depot\s+/w/depot$|collection\s+(cli|gui|own)$", l) for l in self.conf_lines):
                    d = [p for p in d if not (p in ok or p.startswith(tuple(o + "/" for o in ok)))]
                    if d:
                        self.bad("elsewhere:" + cmd, "changes outside of the collections: %r" % d[:9])
                        return res
                    res.counts["containment_checks"] += 1
                elif cmd == "purge":
                    d = [p for p in d if p.split("/")[0] in ("etc", "usr", "opt", "srv", "var", "lib64", "top")]
                    if d:
                        self.bad("purge:elsewhere", "%r" % d[:9])
                        return res
        res.sig = hashlib.md5(repr(self.trace).encode("utf-8", "surrogateescape")).hexdigest()
        res.nontrivial = res.counts["accepted"] > 0 and res.counts["refused"] > 0
        res.sample = [t[:200] for t in self.trace[-3:]] if self.index < 4 else None
        return res


SECRET = ".private.key"


def case(task):
    seed, index = task[:2]
    h = CHostile(seed, index)
    h.vg = index % 40 == 3
    return h.run()


def check(pid):
    c = core.Check(pid, "hostile inputs of cards",
                   "A case is a system with (mostly malformed) mirrors, keys, compressed meta data, depots, cards.conf, database, rules and ports tree, and 14 runs of the ASan+UBSan-instrumented, assertion-enabled cards, "
                   "every command and option of it, as root and as a user. Every run must end by itself with an exit status, and with a word if it is a failure; a question changes nothing, and sync, purge, diff, repo and keys "
                   "change nothing outside of the directories of cards.conf. Non-trivial: the case saw accepted and refused commands. Distinct: commands and outcomes differ.",
                   assumptions=["decompression bombs and expressions that exhaust the C library's regcomp are not generated", "memory errors are those ASan, UBSan and libstdc++'s assertions see"])
    t = build.tools("asan")
    cr = build.cards("asan")
    v = build.cards("vg")
    tpl = jail.make_template(c.scratch, dict({"/usr/bin/cards": cr, "/usr/bin/pkgadd": t, "/usr/bin/pkgrm": t, "/usr/bin/pkginfo": t, "/usr/bin/zstd": "/usr/bin/zstd", "/vg/cards": v}, **jail.valgrind_programs()))
    n = c.size(700, 12000)
    c.run(tpl, case, [[c.seed, i] for i in range(n)], copies=True)
    c.finish(min_nontrivial=200)

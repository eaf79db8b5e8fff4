"""Containment: every execution of the code under test happens in a worker process that
  * has dropped to an unprivileged range of user ids (100000..165535 outside),
  * is "root" only inside a user namespace of its own (so getuid()==0 holds and chown works), and
  * is chroot()ed into a scratch directory that the check created.
A call that escapes whatever root the tool was given can therefore reach scratch files only.
"""
import atexit, ctypes, os, pickle, select, shutil, signal, stat, struct, subprocess, sys, tempfile, time, traceback

# modules the workers may need after chroot() must be loaded before it
import encodings.idna, encodings.utf_8, encodings.latin_1, encodings.ascii  # noqa
import base64, binascii, bz2, collections, concurrent.futures, copy, errno, fcntl, gzip, hashlib, io, itertools  # noqa
import json, locale, lzma, multiprocessing, queue, random, re, resource, shlex, socket, string, tarfile  # noqa
import threading, types, zlib, textwrap, fnmatch, http.server, socketserver, http.client, email.message, mimetypes  # noqa
import tarfile as _t
import hmac

libc = ctypes.CDLL(None, use_errno=True)
CLONE_NEWUSER, CLONE_NEWNS = 0x10000000, 0x20000
UIDBASE = 100000


class JailError(Exception):
    pass


def _open(path):
    """make the directories below path removable; the files are links to those of the other jails and stay as they are"""
    subprocess.run(["find", path, "-type", "d", "-exec", "chmod", "u+rwx", "{}", ";"], stderr=subprocess.DEVNULL)


class Scratch:
    """One scratch directory per check run, removed at exit."""

    def __init__(self, tag="x"):
        base = os.environ.get("VERIF_SCRATCH", "/tmp")
        self.path = tempfile.mkdtemp(prefix="cardsv-%s-" % tag, dir=base)
        os.chmod(self.path, 0o755)
        self.pid = os.getpid()
        atexit.register(self.close)

    def close(self):
        if os.getpid() == self.pid and os.path.isdir(self.path):
            _open(self.path)
            shutil.rmtree(self.path, ignore_errors=True)


def _ldd(path):
    out = subprocess.run(["ldd", path], capture_output=True, text=True).stdout
    libs = []
    for line in out.splitlines():
        for w in line.split():
            if w.startswith("/"):
                libs.append(w)
                break
    return libs


SYSTOOLS = ["sh", "cat", "touch", "sleep", "rm", "mkdir", "ls", "mv", "cp", "kill", "env", "true", "false"]


def make_template(scratch, programs, systools=SYSTOOLS):
    """programs: {path inside the jail: host path}.  -> template directory"""
    t = os.path.join(scratch.path, "template")
    files = {}
    for dst, src in programs.items():
        files[dst] = src
    for n in systools:
        src = "/usr/bin/" + n
        if os.path.exists(src):
            files["/usr/bin/" + n] = os.path.realpath(src)
    libs = set()
    for src in list(files.values()):
        for l in _ldd(src):
            libs.add(l)
    for l in libs:
        if l.startswith("/lib64/"):
            dst = l
        else:
            dst = "/usr/lib/x86_64-linux-gnu/" + os.path.basename(l)
        files[dst] = os.path.realpath(l)
    for dst, src in files.items():
        d = t + dst
        os.makedirs(os.path.dirname(d), exist_ok=True)
        if not os.path.exists(d):
            shutil.copyfile(src, d)
            os.chmod(d, 0o555)
            os.chown(d, UIDBASE, UIDBASE)
    os.makedirs(t + "/etc", exist_ok=True)
    for n, body in (("passwd", "root:x:0:0:root:/root:/usr/bin/sh\nusera:x:33:33::/:/usr/bin/sh\n"),
                    ("group", "root:x:0:\ngroupa:x:33:\n"), ("hosts", "127.0.0.1 localhost\n")):
        open(t + "/etc/" + n, "w").write(body)
        os.chmod(t + "/etc/" + n, 0o444)
        os.chown(t + "/etc/" + n, UIDBASE, UIDBASE)
    return t


def populate(root, template, copies=False):
    """make the jail root: directories owned by the jail's root, files hard-linked from the template, or copies of them"""
    os.makedirs(root, exist_ok=True)
    for d, dirs, files in os.walk(template):
        rel = os.path.relpath(d, template)
        nd = os.path.normpath(os.path.join(root, rel))
        os.makedirs(nd, exist_ok=True)
        os.chown(nd, UIDBASE, UIDBASE)
        os.chmod(nd, 0o755)
        for f in files:
            dst = os.path.join(nd, f)
            try:
                if copies:
                    raise OSError
                os.link(os.path.join(d, f), dst)
            except OSError:
                shutil.copyfile(os.path.join(d, f), dst)
                shutil.copymode(os.path.join(d, f), dst)
                os.chown(dst, UIDBASE, UIDBASE)
    for n, mode in (("tmp", 0o1777), ("dev", 0o755), ("var", 0o755), ("proc", 0o755)):
        p = os.path.join(root, n)
        os.makedirs(p, exist_ok=True)
        os.chown(p, UIDBASE, UIDBASE)
        os.chmod(p, mode)
    p = os.path.join(root, "dev/null")
    if not os.path.exists(p):
        open(p, "w").close()
        os.chown(p, UIDBASE, UIDBASE)
        os.chmod(p, 0o666)


def _enter(root, rd, wr):
    os.setgroups([])
    os.setresgid(UIDBASE, UIDBASE, UIDBASE)
    os.setresuid(UIDBASE, UIDBASE, UIDBASE)
    libc.prctl(4, 1, 0, 0, 0)  # PR_SET_DUMPABLE: /proc/self writable by the parent
    newns = True
    if libc.unshare(CLONE_NEWUSER | CLONE_NEWNS) != 0:
        newns = False
        if libc.unshare(CLONE_NEWUSER) != 0:
            raise JailError("unshare: " + os.strerror(ctypes.get_errno()))
    os.write(wr, b"u")
    if os.read(rd, 1) != b"m":
        raise JailError("uid map refused")
    os.setresgid(0, 0, 0)
    os.setresuid(0, 0, 0)
    if newns:
        # best effort: a /proc makes sanitizer reports nicer, nothing depends on it
        libc.mount(b"/proc", (root + "/proc").encode(), None, 4096 | 16384, None)
        libc.mount(b"/dev/null", (root + "/dev/null").encode(), None, 4096, None)
    os.chdir(root)
    os.chroot(root)
    os.chdir("/")
    os.umask(0o022)


class _CapHdr(ctypes.Structure):
    _fields_ = [("version", ctypes.c_uint32), ("pid", ctypes.c_int)]


class _CapData(ctypes.Structure):
    _fields_ = [("eff", ctypes.c_uint32), ("perm", ctypes.c_uint32), ("inh", ctypes.c_uint32)]


def _map(pid):
    """give the worker's namespace its ids.  Done by a helper that has the id of the namespace's owner
    and still may set ids (all that is needed; no other privilege is)."""
    h = os.fork()
    if h == 0:
        code = 1
        try:
            libc.prctl(8, 1, 0, 0, 0)       # PR_SET_KEEPCAPS
            os.setgroups([])
            os.setresgid(UIDBASE, UIDBASE, UIDBASE)
            os.setresuid(UIDBASE, UIDBASE, UIDBASE)
            hdr = _CapHdr(0x20080522, 0)
            dat = (_CapData * 2)()
            libc.capget(ctypes.byref(hdr), dat)
            for d in dat:
                d.eff = d.perm
            libc.capset(ctypes.byref(hdr), dat)
            for n in ("uid_map", "gid_map"):
                fd = os.open("/proc/%d/%s" % (pid, n), os.O_WRONLY)
                os.write(fd, b"0 %d 65536" % UIDBASE)
                os.close(fd)
            code = 0
        except OSError as e:
            sys.stderr.write("id map: %s\n" % e)
        finally:
            os._exit(code)
    if os.waitpid(h, 0)[1] != 0:
        raise JailError("the ids of the worker could not be mapped")


class Worker:
    """A jailed child that runs func(task) for tasks sent by the parent."""

    def __init__(self, root, func, init=None):
        self.root, self.func = root, func
        pr, cw = os.pipe()
        cr, pw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                os.close(pr)
                os.close(pw)
                os.setpgid(0, 0)
                libc.prctl(1, signal.SIGKILL, 0, 0, 0)  # PR_SET_PDEATHSIG
                _enter(root, cr, cw)
                libc.prctl(1, signal.SIGKILL, 0, 0, 0)
                rf, wf = os.fdopen(cr, "rb"), os.fdopen(cw, "wb")
                pickle.dump(("ready", None), wf)
                wf.flush()
                if init:
                    init()
                while True:
                    try:
                        task = pickle.load(rf)
                    except EOFError:
                        break
                    try:
                        res = ("ok", func(task))
                    except BaseException:
                        res = ("exc", traceback.format_exc())
                    pickle.dump(res, wf)
                    wf.flush()
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(cw)
        os.close(cr)
        try:
            if os.read(pr, 1) != b"u":
                raise JailError("worker did not enter its namespace")
            _map(self.pid)
            os.write(pw, b"m")
        except Exception:
            self.kill()
            raise
        self.r, self.w = os.fdopen(pr, "rb", buffering=0), os.fdopen(pw, "wb")
        m = self._recv(60)
        if m[0] != "ready":
            raise JailError("worker not ready")

    def send(self, task):
        pickle.dump(task, self.w)
        self.w.flush()

    def _recv(self, timeout):
        end = time.time() + timeout
        buf = b""
        while True:
            left = end - time.time()
            if left <= 0:
                return ("timeout", None)
            if not select.select([self.r], [], [], left)[0]:
                return ("timeout", None)
            try:
                b = os.read(self.r.fileno(), 1 << 20)
            except OSError:
                b = b""
            if not b:
                return ("dead", None)
            buf += b
            if buf.endswith(b"."):
                try:
                    return pickle.loads(buf)
                except Exception:
                    continue

    def kill(self):
        for p in (-self.pid, self.pid):
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


class Pool:
    """runs func over tasks in n jailed workers; yields (task, status, result).
    status: ok | exc | dead | timeout (the last two restart the worker in a fresh jail)"""

    def __init__(self, scratch, template, func, n=None, init=None, copies=False):
        self.scratch, self.template, self.func, self.init, self.copies = scratch, template, func, init, copies
        self.n = n or min(8, os.cpu_count() or 4)
        self.k = 0
        self.workers = []

    def _new(self):
        root = os.path.join(self.scratch.path, "jail%d" % self.k)
        self.k += 1
        populate(root, self.template, self.copies)
        return Worker(root, self.func, self.init)

    def map(self, tasks, timeout=120):
        it = iter(tasks)
        live = {}
        exhausted = False
        try:
            while True:
                while not exhausted and len(live) < self.n:
                    try:
                        t = next(it)
                    except StopIteration:
                        exhausted = True
                        break
                    w = self.workers.pop() if self.workers else self._new()
                    w.send(t)
                    live[w] = (t, time.time() + timeout)
                if not live:
                    return
                fds = {w.r.fileno(): w for w in live}
                rd, _, _ = select.select(list(fds), [], [], 1.0)
                done = [fds[f] for f in rd]
                now = time.time()
                for w in list(live):
                    t, end = live[w]
                    if w in done:
                        st, res = w._recv(60)
                    elif now > end:
                        st, res = "timeout", None
                    else:
                        continue
                    del live[w]
                    if st in ("dead", "timeout"):
                        w.kill()
                        self._rm(w.root)
                    else:
                        self.workers.append(w)
                    yield t, st, res
        finally:
            for w in live:
                w.kill()

    def _rm(self, root):
        _open(root)
        shutil.rmtree(root, ignore_errors=True)

    def close(self):
        for w in self.workers:
            w.kill()
            self._rm(w.root)
        self.workers = []


def valgrind_programs():
    """what valgrind needs inside the jail: {path inside: host path}"""
    out = {"/usr/bin/valgrind.bin": "/usr/bin/valgrind.bin"}
    for n in ("memcheck-amd64-linux", "vgpreload_core-amd64-linux.so", "vgpreload_memcheck-amd64-linux.so", "default.supp"):
        out["/usr/libexec/valgrind/" + n] = "/usr/libexec/valgrind/" + n
    for l in ("/lib64/ld-linux-x86-64.so.2", "/lib/x86_64-linux-gnu/libc.so.6"):
        t = subprocess.run(["readelf", "-n", l], capture_output=True, text=True).stdout
        b = [w.split()[-1] for w in t.splitlines() if "Build ID" in w]
        if b:
            p = "/usr/lib/debug/.build-id/%s/%s.debug" % (b[0][:2], b[0][2:])
            if os.path.exists(p):
                out[p] = p
    return out

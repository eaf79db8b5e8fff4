"""Observation of a filesystem tree (what is really there)."""
import os, stat, hashlib


class Node:
    __slots__ = ("kind", "mode", "uid", "gid", "data", "mtime", "ino")

    def __init__(self, kind, mode, uid, gid, data=b"", mtime=0, ino=0):
        self.kind, self.mode, self.uid, self.gid, self.data, self.mtime, self.ino = kind, mode, uid, gid, data, mtime, ino

    def key(self, mtime=True):
        return (self.kind, None if self.kind == "l" else self.mode, self.uid, self.gid,
                self.data, self.mtime if mtime and self.kind == "f" else 0)

    def copy(self):
        return Node(self.kind, self.mode, self.uid, self.gid, self.data, self.mtime, self.ino)

    def __repr__(self):
        return "%s %o %d:%d %r @%d" % (self.kind, self.mode, self.uid, self.gid, self.data[:30], self.mtime)


SKIP = {"/proc", "/dev", "/tmp/work", "/sys"}
INFRA = ("/usr/bin", "/lib64", "/usr/lib/x86_64-linux-gnu")


def snap(top="/", skip=SKIP):
    """-> {path relative to top: Node}"""
    out = {}
    top = top.rstrip("/")

    def rec(d, rel):
        try:
            it = list(os.scandir(d or "/"))
        except OSError:
            return
        for e in it:
            p = d + "/" + e.name
            if p in skip:
                continue
            r = rel + e.name
            st = os.lstat(p)
            m = st.st_mode
            if stat.S_ISDIR(m):
                out[r] = Node("d", stat.S_IMODE(m), st.st_uid, st.st_gid)
                rec(p, r + "/")
            elif stat.S_ISREG(m):
                if d.startswith(INFRA):
                    data = b"%d" % st.st_size
                else:
                    with open(p, "rb") as f:
                        data = f.read()
                    if len(data) > 4096:
                        data = b"sha:" + hashlib.sha1(data).hexdigest().encode()
                out[r] = Node("f", stat.S_IMODE(m), st.st_uid, st.st_gid, data, int(st.st_mtime), st.st_ino)
            elif stat.S_ISLNK(m):
                out[r] = Node("l", 0o777, st.st_uid, st.st_gid, os.readlink(p).encode("utf-8", "surrogateescape"))
            else:
                out[r] = Node("p" if stat.S_ISFIFO(m) else "?", stat.S_IMODE(m), st.st_uid, st.st_gid)

    rec(top, "")
    return out


def norm(data):
    return data if len(data) <= 4096 else b"sha:" + hashlib.sha1(data).hexdigest().encode()


def diff(want, have, limit=6, mtime=True, ignore=lambda p: False):
    """human readable differences"""
    out = []
    for p in sorted(set(want) | set(have)):
        if ignore(p):
            continue
        a, b = want.get(p), have.get(p)
        if a is None:
            out.append("unexpected %s: %r" % (p, b))
        elif b is None:
            out.append("missing %s: wanted %r" % (p, a))
        elif a.key(mtime) != b.key(mtime):
            out.append("differs %s: wanted %r found %r" % (p, a, b))
        if len(out) >= limit:
            break
    return out

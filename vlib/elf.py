"""ELF files: a writer for the workload, and a reader of our own for the oracle."""
import struct

DT_NULL, DT_NEEDED, DT_STRTAB, DT_STRSZ, DT_SONAME, DT_RPATH = 0, 1, 5, 10, 14, 15


def make(rng, needed, soname=None, bits=64, extra_tables=True):
    """a shared library with these entries; sections and segments in an order of their own"""
    big = bits == 64
    strs = b"\0"
    offs = {}
    words = [("n", x) for x in needed] + ([("s", soname)] if soname else []) + [("x", "/usr/lib/private"), ("x", "GLIBC_2.2.5")]
    order = words[:]
    rng.shuffle(order)
    for _, w in order:
        if w not in offs:
            offs[w] = len(strs)
            strs += w.encode() + b"\0"
    ent = lambda t, v: struct.pack("<QQ" if big else "<II", t, v)
    base = 0x400000
    ehsize, phsize, shsize = (64, 56, 64) if big else (52, 32, 40)
    nph = rng.choice([1, 2, 3, 4])
    dynpos = rng.randrange(nph)
    names = b"\0.dynstr\0.dynamic\0.strtab\0.shstrtab\0.text\0"
    other = b"\0libwrong.so.9\0main\0printf\0" + b"libnot.so\0" * 3
    blobs = {"dynstr": strs, "strtab": other, "shstrtab": names, "text": bytes(rng.randrange(256) for _ in range(rng.choice([0, 7, 64])))}
    tags = [(DT_NEEDED, offs[x]) for x in needed] + ([(DT_SONAME, offs[soname])] if soname else []) + [(DT_RPATH, offs["/usr/lib/private"])]
    if rng.random() < .3:
        rng.shuffle(tags)
    ndyn = len(tags) + 3 + rng.randrange(3)
    dynsize = ndyn * (16 if big else 8)
    lay = ["dynstr", "dynamic", "strtab", "shstrtab", "text"]
    rng.shuffle(lay)
    pos, at = ehsize, {}
    shfirst = rng.random() < .2
    phoff = pos
    pos += nph * phsize
    nsec = 6
    if shfirst:
        shoff = pos
        pos += nsec * shsize
    for n in lay:
        pos += -pos % 8
        at[n] = pos
        pos += dynsize if n == "dynamic" else len(blobs[n])
    if not shfirst:
        pos += -pos % 8
        shoff = pos
        pos += nsec * shsize
    dyn = b"".join(ent(*t) for t in tags) + ent(DT_STRTAB, base + at["dynstr"]) + ent(DT_STRSZ, len(strs))
    dyn += ent(0, 0)
    # what is behind the end is no entry
    while len(dyn) < dynsize:
        dyn += ent(DT_NEEDED, offs["GLIBC_2.2.5"])
    blobs["dynamic"] = dyn[:dynsize]
    secs = [n for n in lay]
    rng.shuffle(secs)
    idx = {n: i + 1 for i, n in enumerate(secs)}
    typ = {"dynstr": 3, "strtab": 3, "shstrtab": 3, "dynamic": 6, "text": 1}

    def sh(name, n):
        nm = names.index(b"." + n.encode() + b"\0") if n else 0
        t, o, s, link = (typ[n], at[n], len(blobs[n]), idx["dynstr"] if n == "dynamic" else 0) if n else (0, 0, 0, 0)
        if big:
            return struct.pack("<IIQQQQIIQQ", nm, t, 0, base + o if n else 0, o, s, link, 0, 8, 16 if n == "dynamic" else 0)
        return struct.pack("<IIIIIIIIII", nm, t, 0, base + o if n else 0, o, s, link, 0, 4, 8 if n == "dynamic" else 0)

    def ph(t, o, s):
        if big:
            return struct.pack("<IIQQQQQQ", t, 5, o, base + o, base + o, s, s, 8)
        return struct.pack("<IIIIIIII", t, o, base + o, base + o, s, s, 5, 4)

    phs = []
    for i in range(nph):
        phs.append(ph(2, at["dynamic"], len(blobs["dynamic"])) if i == dynpos else ph(rng.choice([1, 0x6474e551, 4]) if i else 1, 0, pos))
    ident = b"\x7fELF" + bytes([2 if big else 1, 1, 1, 0]) + b"\0" * 8
    eh = ident + struct.pack("<HHIQQQIHHHHHH" if big else "<HHIIIIIHHHHHH", 3, 62 if big else 3, 1, base, phoff, shoff, 0, ehsize, phsize, nph, shsize, nsec, idx["shstrtab"])
    out = bytearray(pos)
    out[:len(eh)] = eh
    out[phoff:phoff + nph * phsize] = b"".join(phs)
    for n in lay:
        out[at[n]:at[n] + len(blobs[n])] = blobs[n]
    out[shoff:shoff + nsec * shsize] = sh("", None) + b"".join(sh("", n) for n in secs)
    return bytes(out)


def libs(data):
    """names in DT_NEEDED and DT_SONAME of a well-formed file, by its sections"""
    if data[:4] != b"\x7fELF":
        return set()
    big = data[4] == 2
    e = struct.unpack_from("<HHIQQQIHHHHHH" if big else "<HHIIIIIHHHHHH", data, 16)
    phoff, shoff, phs, phn, shs, shn = e[4], e[5], e[8], e[9], e[10], e[11]
    if not shn:
        return set()
    link = None
    for i in range(shn):
        f = struct.unpack_from("<IIQQQQIIQQ" if big else "<IIIIIIIIII", data, shoff + i * shs)
        if f[1] == 6:
            link = f[6]
            break
    if link is None:
        return set()
    f = struct.unpack_from("<IIQQQQIIQQ" if big else "<IIIIIIIIII", data, shoff + link * shs)
    stro, strn = f[4], f[5]
    out = set()
    for i in range(phn):
        p = struct.unpack_from("<IIQQQQQQ" if big else "<IIIIIIII", data, phoff + i * phs)
        if p[0] != 2:
            continue
        o, s = (p[2], p[5]) if big else (p[1], p[4])
        for k in range(s // (16 if big else 8)):
            t, v = struct.unpack_from("<QQ" if big else "<II", data, o + k * (16 if big else 8))
            if t == DT_NULL:
                break
            if t in (DT_NEEDED, DT_SONAME):
                w = data[stro + v:data.index(b"\0", stro + v)]
                if w and not w.endswith(b"."):
                    out.add(w.decode("latin-1"))
    return out


def damage(rng, data):
    """a hostile variant"""
    d = bytearray(data)
    k = rng.randrange(5)
    if k == 0:
        return bytes(d[:rng.randrange(len(d) + 1)])
    n = rng.choice([1, 1, 2, 5])
    big = d[4] == 2
    for _ in range(n):
        # headers are the interesting part
        where = rng.random()
        if where < .4:
            o = rng.randrange(16, min(64, len(d)))
        elif where < .8:
            hdr = struct.unpack_from("<QQ" if big else "<II", d, 32 if big else 28)
            o = hdr[rng.randrange(2)] % max(1, len(d)) + rng.randrange(200)
        else:
            o = rng.randrange(len(d))
        w = rng.choice([1, 2, 4, 8])
        if o + w > len(d):
            continue
        v = rng.choice([0, 1, 0xff, 0x7f, 0x80, len(d), len(d) - 1, len(d) + 1, rng.getrandbits(w * 8), 1 << (w * 8 - 1), (1 << (w * 8)) - 1])
        d[o:o + w] = (v & ((1 << (w * 8)) - 1)).to_bytes(w, "little")
    return bytes(d)

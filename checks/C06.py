"""C06 damaged SDS files are refused or reported; nothing crashes, nothing else suffers."""
import os, struct, itertools
import numpy as np
import gen as G
import sdsgen as X
from gen import check
from pbt import law, rc, Fail

RULE = ("a case writes a generated file, damages its bytes (truncation, byte and bit flips anywhere, header and array-block fields set to extreme or nearby values, "
        "names without terminators, zeroed or swapped ranges, garbage), and runs read calls on it next to an undamaged file; non-trivial = the damaged bytes differ "
        "from the written ones and at least one call looked at them")
ASSUMPTIONS = ["a crash or hang of the process that reads is a violation; any Python exception is a refusal",
               "a truncated file, and with checksums a file whose compressed bytes were altered, must never yield arrays that differ from what was written",
               "altered header fields and array descriptions, uncompressed data and band tables carry no checksum: there only well-formed results are demanded",
               "one process at a time uses the file; sizes that memory cannot hold raise"]
REFUSE = Exception
_k = itertools.count()
HDR = [(0, 4), (4, 2), (6, 2), (8, 2), (10, 2), (12, 2), (16, 8), (24, 8), (32, 8), (40, 2), (42, 2), (44, 4), (48, 8), (56, 8), (64, 8), (72, 8), (80, 8), (88, 8),
       (96, 8), (104, 8), (112, 8), (120, 8), (128, 8), (136, 8), (144, 8), (152, 8), (160, 8), (168, 8), (176, 8), (184, 8), (192, 8), (200, 8)]
HOT = [(16, 8), (24, 8), (32, 8), (56, 8), (64, 8), (72, 8), (80, 8), (88, 8), (96, 8), (160, 8), (168, 8), (176, 8)]
BLK = [(4, 1), (5, 1), (6, 1), (7, 1), (8, 4), (12, 4)] + [(16 + 8 * i, 8) for i in range(5)] + [(56 + 8 * i, 8) for i in range(5)] + [(96, 8), (104, 8), (112, 8), (120, 4), (124, 4)]


def i8(b, o):
    return struct.unpack_from("<q", b, o)[0]


def layout(b, at=0):
    """where things are in an undamaged file: names, metadata, array blocks, and per array its bytes and whether they are zstd frames"""
    d = dict(names=(i8(b, at + 24), i8(b, at + 16)), meta=(i8(b, at + 56), i8(b, at + 64)), blocks=(i8(b, at + 88), i8(b, at + 96)), arrays=[])
    d["metacomp"] = i8(b, at + 64) != i8(b, at + 72)
    for i in range(d["blocks"][1]):
        o = d["blocks"][0] + 128 * i
        off, cs, us = i8(b, o + 96), i8(b, o + 104), i8(b, o + 112)
        nb, = struct.unpack_from("<i", b, o + 120)
        fr = []
        if nb > 0:
            ends = [i8(b, off + 8 * j) for j in range(nb)]
            prev = 0
            for e in ends:
                if b[off + 8 * nb + prev: off + 8 * nb + prev + 4] == b"\x28\xb5\x2f\xfd":
                    fr.append((off + 8 * nb + prev, e - prev))
                prev = e
        elif cs != us:
            fr.append((off, cs))
        d["arrays"].append(dict(at=off, n=cs, frames=fr))
    return d


def value(c, old, size, bits):
    k = c.weighted([(4, "near"), (3, "ext"), (3, "bit"), (1, "rand")])
    if k == "near":
        v = old + c.choice([-1, 1, -8, 8, 2, -2, 16, 128, -128, 512])
    elif k == "ext":
        v = c.choice([0, -1, 1, 2, 255, 256, (1 << 15) - 1, (1 << 31) - 1, -(1 << 31), 1 << 32, 1 << 33, 1 << 40, 1 << 60, (1 << 63) - 1, -(1 << 63), size, size + 1, size - 1, old * 2, old // 2])
    elif k == "bit":
        v = old ^ (1 << c.below(bits))
    else:
        v = c.below(1 << 32) - (1 << 31)
    return v & ((1 << bits) - 1)


def put(b, o, n, v):
    b[o:o + n] = int(v & ((1 << (8 * n)) - 1)).to_bytes(n, "little")


def damage(c, raw, L, at=0):
    """damaged copy, and what may be expected of it: 'trunc', 'frames', 'any', 'magic'"""
    b = bytearray(raw)
    kind = c.weighted([(4, "trunc"), (5, "frame"), (6, "header"), (6, "block"), (3, "flip"), (2, "names"), (1, "zero"), (1, "garbage"), (1, "metaflip"), (1, "append"), (1, "magic")])
    n = len(b)
    if kind == "trunc":
        p = c.weighted([(3, "any"), (1, "head"), (2, "tail"), (2, "edge")])
        if p == "any":
            k = c.below(n)
        elif p == "head":
            k = c.below(min(n, 600))
        elif p == "tail":
            k = n - 1 - c.below(min(n, 40))
        else:
            e = [L["names"][0], sum(L["names"]), L["meta"][0], sum(L["meta"]), L["blocks"][0], L["blocks"][0] + 128 * L["blocks"][1]] + [x["at"] + x["n"] for x in L["arrays"]] + [x["at"] for x in L["arrays"]]
            k = max(0, min(n - 1, c.choice(e) + c.choice([-1, 0, 1, -8])))
        return bytes(b[:k]), "trunc", "truncated to %d of %d" % (k, n)
    if kind == "frame":
        fr = [f for a in L["arrays"] for f in a["frames"]] + ([L["meta"]] if L["metacomp"] else [])
        fr = [f for f in fr if f[1] > 0]
        if fr:
            o, m = c.choice(fr)
            what = []
            for _ in range(c.weighted([(3, 1), (1, 2), (1, 5)])):
                j = o + c.below(m)
                b[j] ^= 1 << c.below(8) if c.bool() else 1 + c.below(255)
                what.append(j)
            return bytes(b), "frames", "bytes %r within the compressed data of %d bytes at %d" % (what, m, o)
        kind = "flip"
    if kind == "header":
        what = []
        for _ in range(c.weighted([(4, 1), (1, 2), (1, 3)])):
            o, m = c.choice(HOT) if c.bool(.6) else c.choice(HDR)
            v = value(c, int.from_bytes(b[at + o:at + o + m], "little", signed=True), n, 8 * m)
            put(b, at + o, m, v)
            what.append((at + o, m, v))
        return bytes(b), "any", "header fields %r" % (what,)
    if kind == "block" and L["arrays"]:
        what = []
        i = c.below(len(L["arrays"]))
        for _ in range(c.weighted([(3, 1), (2, 2), (1, 3)])):
            o, m = c.choice(BLK)
            o += L["blocks"][0] + 128 * i
            v = value(c, int.from_bytes(b[o:o + m], "little", signed=True), n, 8 * m)
            put(b, o, m, v)
            what.append((o, m, v))
        return bytes(b), "any", "array block %d fields %r" % (i, what)
    if kind == "names" and L["names"][1]:
        o, m = L["names"]
        for _ in range(c.int(1, 3)):
            j = o + c.below(m)
            b[j] = c.choice([0, 1, 47, 200, 255])
        if c.bool(.3):
            for j in range(o, o + m):
                b[j] = b[j] or 65
        return bytes(b), "any", "names"
    if kind == "zero":
        o = c.below(n)
        m = min(n - o, c.choice([1, 8, 64, 512, 4096]))
        b[o:o + m] = bytes([c.choice([0, 255])]) * m
        return bytes(b), "any", "filled %d at %d" % (m, o)
    if kind == "garbage":
        g = c.nprng().integers(0, 256, c.choice([0, 1, 100, 512, 600, 3000]), dtype=np.uint8).tobytes()
        if c.bool():
            return g, "magic", "garbage of %d bytes" % len(g)
        return bytes(b[:8]) + g, "any", "garbage behind the magic"
    if kind == "metaflip" and L["meta"][1]:
        b[L["meta"][0] + c.below(L["meta"][1])] ^= 1 << c.below(8)
        return bytes(b), "frames" if L["metacomp"] else "any", "metadata byte"
    if kind == "append":
        return bytes(b) + bytes(c.int(1, 600)), "same", "bytes appended"
    if kind == "magic":
        b[at + c.below(4)] ^= 1 << c.below(8)
        return bytes(b), "magic" if at == 0 else "any", "magic"
    j = [c.below(n) for _ in range(c.weighted([(3, 1), (2, 3), (1, 20)]))]
    for x in j:
        b[x] ^= 1 << c.below(8) if c.bool() else 1 + c.below(255)
    return bytes(b), "any", "bytes %r" % (j[:6],)


def arrays(r):
    """everything array-like in a result, read in full"""
    out = []
    if isinstance(r, np.ndarray):
        r.tobytes()
        check(r.nbytes < 1 << 36, "an array of %d bytes", r.nbytes)
        out.append(r)
    elif isinstance(r, (list, tuple)):
        for x in r:
            out += arrays(x)
    return out


def tryit(f, *a, **kw):
    try:
        return f(*a, **kw), None
    except REFUSE as e:
        return None, e


def judge(c, r, e, f, expect, what, order):
    if e is not None:
        c.event("refused")
        return
    arrays(r)
    c.event("read")
    if expect == "magic":
        raise Fail("%s: a file without the magic number was read as %r" % (what, str(r)[:200]))
    if expect in ("trunc", "same") or (expect == "frames" and f.chk):
        if order is not None:
            X.expect(r[order], f, what)


@law(1300, 25000)
def damaged(c):
    """every read call on a damaged file raises or gives well-formed arrays - the written ones if only data was lost or, with checksums, altered; other files stay readable"""
    f = X.afile(c, k=c.weighted([(1, 0), (4, c.int(1, 4)), (1, 9)]), big=.01, med=500)
    g = X.afile(c, k=c.int(1, 3), big=0, med=60)
    d = X.tmp()
    names = []
    try:
        p, q = os.path.join(d, "bad%s.sds" % c.choice(["", "%s", "_%d%n"])), os.path.join(d, "good.sds")
        f.write(p)
        g.write(q)
        raw = open(p, "rb").read()
        L = layout(raw)
        bad, expect, what = damage(c, raw, L)
        ops = [c.choice(["read", "info", "multi", "multiinfo", "stack", "mask", "share", "good", "possibly"]) for _ in range(c.int(2, 5))]
        c.note(file=f.describe(), damage=what, ops=ops, good=g.describe())
        with open(p, "wb") as h:
            h.write(bad)
        for j, op in enumerate(ops):
            w = "%s of the damaged file (%s)" % (op, what)
            if op == "read":
                r, e = tryit(rc.DecompressFile, p.encode(), 3)
                judge(c, r, e, f, expect, w, 0)
            elif op == "info":
                r, e = tryit(rc.DecompressFile, p.encode(), 5)
                judge(c, r, e, f, "any" if expect != "magic" else expect, w, None)
            elif op == "multi":
                r, e = tryit(rc.MultiDecompressFiles, [p, q] if c.bool() else [p])
                judge(c, r, e, f, expect, w, 0) if r is not None and len(r) and isinstance(r[0][0], bytes) else None
            elif op == "multiinfo":
                r, e = tryit(rc.MultiDecompressFiles, [q, p], 5)
                r is not None and arrays(r)
            elif op in ("stack", "possibly"):
                r, e = tryit(rc.MultiStackFiles if op == "stack" else rc.MultiPossiblyStackFiles, [q, p] if c.bool() else [p])
                r is not None and arrays(r)
            elif op == "mask":
                m = c.nprng().random(c.choice([0, 5, 100, 1000])) < .5
                r, e = tryit(rc.MultiStackFiles, [p], mask=m)
                r is not None and arrays(r)
            elif op == "share":
                s = "%s_%d_%d" % (os.path.basename(os.environ["VERIF_TMP"]), os.getpid(), next(_k))
                names.append("/dev/shm/Global_%s!%s" % (s, os.path.basename(p)))
                for rep in range(2):
                    r, e = tryit(rc.DecompressFile, p.encode(), 3, s.encode())
                    judge(c, [r[0] if len(r) == 1 else r] if r is not None else None, e, f, expect, w + " through a share", 0)
                r = None
            X.expect(rc.DecompressFile(q.encode(), 3)[0], g, "undamaged file after " + w)
        check(open(p, "rb").read() == bad, "reading changed the damaged file")
        check(sorted(os.listdir(d)) == sorted([os.path.basename(p), "good.sds"]), "files in the folder: %r", os.listdir(d))
        c.nontrivial(bad != raw)
        c.event(expect)
    finally:
        for s in names:
            if os.path.exists(s):
                os.unlink(s)
        X.drop(d)


@law(500, 8000)
def damaged_sections(c):
    """damage to a file of several sections or to a concatenated file: refused or well-formed, other files unharmed"""
    k = c.int(2, 3)
    st = [X.afile(c, k=c.int(1, 3), rows=c.int(0, 60), big=0, ftype=X.DATASET) for _ in range(k)]
    g = X.afile(c, k=2, big=0, med=40)
    d = X.tmp()
    try:
        p, q = os.path.join(d, "bad.sds"), os.path.join(d, "good.sds")
        concat = c.bool(.4)
        if concat:
            ps = []
            for i, f in enumerate(st):
                ps.append(os.path.join(d, "p%d.sds" % i))
                f.write(ps[-1])
            tryit(rc.MultiConcatFiles, ps, output=p)
        else:
            for i, f in enumerate(st):
                f.section = "s%d" % i
                f.write(p)
        g.write(q)
        raw = open(p, "rb").read()
        # the section table: names and offsets
        so, ss, sc = i8(raw, 168), i8(raw, 160), i8(raw, 176)
        offs = [0]
        x = so
        for _ in range(sc):
            x = raw.index(b"\0", x) + 1
            offs.append(i8(raw, x))
            x += 8
        at = c.choice(offs)
        b = bytearray(raw)
        if c.bool(.4) and ss:
            j = []
            for _ in range(c.int(1, 3)):
                o = so + c.below(ss)
                v = c.choice([0, 1, 65, 255, b[o] ^ (1 << c.below(8))])
                b[o] = v
                j.append((o, v))
            bad, what = bytes(b), "section table %r" % (j,)
        else:
            bad, _, what = damage(c, raw, layout(raw, at), at)
        c.note(files=" | ".join(f.describe() for f in st), concat=concat, damage=what, good=g.describe())
        with open(p, "wb") as h:
            h.write(bad)
        for op in [c.choice(["read", "multi", "stack", "info", "append", "concat"]) for _ in range(c.int(2, 4))]:
            if op == "read":
                r, e = tryit(rc.DecompressFile, p.encode(), 3)
            elif op == "multi":
                r, e = tryit(rc.MultiDecompressFiles, [p, q])
            elif op == "stack":
                r, e = tryit(rc.MultiStackFiles, [p])
            elif op == "info":
                r, e = tryit(rc.MultiDecompressFiles, [p], 5)
            elif op == "concat":
                r, e = tryit(rc.MultiConcatFiles, [p, q], output=os.path.join(d, "out.sds"))
                r, e = tryit(rc.MultiDecompressFiles, [os.path.join(d, "out.sds")])
            else:
                h = X.File(g.arrays, g.names, g.flags, g.meta, section="later", **X.settings(c))
                r, e = tryit(h.write, p)
                r, e = tryit(rc.MultiDecompressFiles, [p])
            if r is not None:
                arrays(r)
                c.event("read")
            else:
                c.event("refused")
            X.expect(rc.DecompressFile(q.encode(), 3)[0], g, "undamaged file after %s of the damaged one" % op)
        c.nontrivial(bad != raw)
    finally:
        X.drop(d)

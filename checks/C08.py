"""C08 in-memory compression round-trips."""
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc, Fail

RULE = ("a case draws lists of arrays or byte strings (dtype, length, entropy), the compression level, the checksum setting, and any damage; "
        "non-trivial = more than 8 bytes of content, or a damaged buffer")
ASSUMPTIONS = ["arrays have one dimension and native byte order (others are refused; structured types come back as plain records of the same bytes)",
               "damage that leaves a frame decodable to the recorded size is only detected with checksums on"]
DT = G.INTS + ["?", "f4", "f8", "g", "S1", "S3", "S17", "U1", "U4", "V5", "c8", "c16"]


def content(c, nbytes):
    k = c.weighted([(3, "random"), (3, "runs"), (1, "zeros"), (2, "text")])
    r = c.nprng()
    if k == "random":
        a = r.integers(0, 256, nbytes).astype("u1")
    elif k == "runs":
        a = np.repeat(r.integers(0, 256, nbytes // 7 + 1), 7)[:nbytes].astype("u1")
    elif k == "zeros":
        a = np.zeros(nbytes, "u1")
    else:
        a = r.integers(97, 101, nbytes).astype("u1")
    return a


def column(c):
    d = np.dtype(c.choice(DT))
    n = G.size(c, med=2000, big=.05)
    if d.kind == "U":
        a = np.array(["ab\u3042"[i % 3] * (i % 4) for i in range(min(n, 50))], d)
        return np.resize(a, n) if n else np.zeros(0, d)
    if d.kind == "b":
        return content(c, n).astype(bool)
    return content(c, n * d.itemsize).view(d)


def level(c):
    return c.weighted([(3, None), (6, c.int(1, 6)), (2, c.int(-3, 0)), (1, c.int(7, 13)), (1, 40)])


@law(900, 12000)
def arrays(c):
    """decompressing what CompressDecompressArrays compressed gives arrays equal in dtype, length and every byte"""
    big = 0
    cols = []
    for _ in range(c.int(1, 6)):
        a = column(c)
        if a.nbytes > 3e5:
            big += 1
            if big > 1:
                a = a[:100]
        cols.append(a)
    lv = level(c)
    m = min(min(map(len, cols)) if c.bool() else len(cols[0]), 3000 if lv and lv > 6 else 1 << 60)
    cols = [np.resize(a, m) if len(a) else np.zeros(m, a.dtype) for a in cols]      # all arrays have the same number of rows
    lay = [G.layout(c, a, .25) for a in cols]
    cks = c.bool()
    box = c.choice([list, tuple])
    c.note(level=lv, checksum=cks, cols=[G.show(a) if a.dtype.kind != "V" else a[:9].tobytes().hex() for a in cols])
    c.event("checksum" if cks else "plain")
    c.nontrivial(sum(a.nbytes for a in cols) > 8)
    rc.SetZstdChecksumming(cks)
    try:
        z = rc.CompressDecompressArrays(box(lay), 0, *([] if lv is None else [lv]))
    finally:
        rc.SetZstdChecksumming(True)
    check(len(z) == len(cols), "%d compressed arrays for %d", len(z), len(cols))
    for a, k in zip(lay, cols):
        check(a.tobytes() == k.tobytes(), "an argument changed")
    keep = [x.tobytes() for x in z]
    z = [np.frombuffer(k, "u1").copy() if c.bool(.3) else x for x, k in zip(z, keep)]
    order = c.sample(range(len(z)), len(z)) if len(z) < 4 and c.bool() else list(range(len(z)))
    r = rc.CompressDecompressArrays(box([z[i] for i in order]), 1)
    for i, b in zip(order, r):
        a = cols[i]
        check(b.dtype == a.dtype, "dtype %s became %s", a.dtype, b.dtype)
        check(b.shape == a.shape, "shape %s became %s", a.shape, b.shape)
        check(b.tobytes() == a.tobytes(), "the bytes of a %s array differ", a.dtype)
        check(z[i].tobytes() == keep[i], "the compressed array changed")


@law(500, 6000)
def refused(c):
    """what cannot be given back (several dimensions, objects, other modes) is refused"""
    n = c.int(1, 30)
    k = c.choice(["2d", "object", "mode", "none", "list", "date", "objfield", "0d", "5d", "number"])
    a = c.nprng().integers(0, 256, n).astype("u1")
    mode = 0
    if k == "2d":
        a = np.asfortranarray(np.arange(4 * n).reshape(4, n))
    elif k == "5d":
        a = np.arange(32 * n).reshape(2, 2, 2, 2, 2 * n)
    elif k == "0d":
        a = np.array(3)
    elif k == "object":
        a = np.array([object() for _ in range(n)], object)
    elif k == "objfield":
        a = np.zeros(n, [("a", "i4"), ("b", "O")])
    elif k == "date":
        a = a.astype("M8[s]")
    elif k == "none":
        a = None
    elif k == "list":
        a = [1, 2]
    elif k == "number":
        a = 5
    else:
        mode = c.choice([2, 3, 4, 5, -1, 77])
    c.note(kind=k, n=n, mode=mode)
    c.event(k)
    c.nontrivial(True)
    arg = [a] if c.bool() or not isinstance(a, (list, np.ndarray)) else (a,)
    if c.bool(.5):
        arg = type(arg)([np.arange(9)]) + arg
    try:
        z = rc.CompressDecompressArrays(arg, mode)
    except (ValueError, TypeError, SystemError):
        return
    check(mode == 0, "mode %d was taken", mode)
    check(k in ("2d", "5d", "0d", "date"), "%s was compressed" % k)
    r = rc.CompressDecompressArrays([z[-1]], 1)[0]
    check(r.dtype == a.dtype and r.shape == a.shape and (r == a).all(), "%s was compressed and came back as %s %s", k, r.dtype, r.shape)


def damage(c, b):
    b = bytearray(b)
    k = c.weighted([(4, "flip"), (3, "cut"), (3, "header"), (1, "extend"), (1, "garbage"), (1, "swap")])
    n = len(b)
    if k == "flip":
        for _ in range(c.int(1, 3)):
            b[c.below(n)] ^= 1 << c.below(8)
    elif k == "cut":
        b = b[:c.below(n)]
    elif k == "header":
        i = c.below(min(n, 60))
        b[i] = c.choice([0, 1, 2, 3, 4, 8, 17, 20, 127, 128, 253, 255])
    elif k == "extend":
        b += bytes(c.int(1, 40))
    elif k == "garbage":
        b = bytearray(c.nprng().integers(0, 256, c.int(0, 200)).astype("u1").tobytes())
    else:
        i = c.below(n)
        b = b[i:] + b[:i]
    return k, bytes(b)


@law(2500, 40000)
def damaged_arrays(c):
    """a damaged compressed array is refused, or gives an array of the size its header records; with checksums its bytes are intact"""
    d = c.choice(DT[:14])
    n = c.int(0, 60)
    a = content(c, n * np.dtype(d).itemsize)
    a = (a & 1).view("?") if d == "?" else a.view(d)
    cks = c.bool(.7)
    rc.SetZstdChecksumming(cks)
    try:
        z = rc.CompressDecompressArrays([a], 0)[0].tobytes()
    finally:
        rc.SetZstdChecksumming(True)
    kind, y = damage(c, z)
    c.note(dtype=d, a=a.tobytes().hex(), checksum=cks, damage=kind, was=z.hex(), now=y.hex())
    c.event(kind)
    c.nontrivial(y != z)
    y = np.frombuffer(y, "u1").copy()
    others = [rc.CompressDecompressArrays([np.arange(9)], 0)[0] for _ in range(c.int(0, 2))]
    try:
        r = rc.CompressDecompressArrays([y] + others, 1)
    except (ValueError, MemoryError):
        return c.event("refused")
    b = r[0]
    if b is None:
        return c.event("None")
    c.event("taken")
    if cks and bytes(y[48:]) != z[48:48 + len(y)]:
        check(b.nbytes == 0 or b.tobytes() == a.tobytes(), "a damaged frame with a checksum came back as if intact")
    for o in r[1:]:
        check((o == np.arange(9)).all(), "an undamaged array beside it differs")


@law(1500, 20000)
def strings(c):
    """DecompressString(CompressString(b)) is b"""
    n = c.weighted([(2, c.int(0, 3)), (6, c.int(0, 400)), (1, c.int(400, 200000))])
    b = content(c, n).tobytes()
    lv = level(c)
    if lv and lv > 6:
        b = b[:5000]
    c.note(level=lv, bytes=b[:100], n=len(b))
    c.nontrivial(n > 8)
    z = rc.CompressString(b, *([] if lv is None else [lv]))
    check(type(z) is bytes, "CompressString gave %s", type(z))
    r = rc.DecompressString(z)
    check(r == b, "came back as %r (%d bytes), was %r (%d bytes)", r[:40], len(r), b[:40], len(b))


@law(1200, 20000)
def damaged_strings(c):
    """a damaged compressed string is refused, or gives back the bytes"""
    n = c.int(0, 200)
    b = content(c, n).tobytes()
    z = rc.CompressString(b)
    kind, y = damage(c, z)
    c.note(bytes=b, damage=kind, was=z.hex(), now=y.hex())
    c.event(kind)
    c.nontrivial(y != z)
    try:
        r = rc.DecompressString(y)
    except (ValueError, MemoryError):
        return c.event("refused")
    c.event("taken")
    check(r == b or len(r) == 0, "a damaged string came back as if intact: %r", r[:40])

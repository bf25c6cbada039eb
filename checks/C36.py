"""C36 utility kernels: checksum, bit count, trailing spaces, records to columns, interpolation."""
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc, Fail

RULE = ("a case draws the arrays (dtype, width, layout, dimensions, length crossing the parallel chunk) and contents; "
        "non-trivial = at least two elements or rows, and something to count, strip, split or interpolate")
ASSUMPTIONS = ["the checksum is CRC-64/XZ (ECMA polynomial, reflected, inverted in and out) returned as a signed 64-bit integer; it refuses arrays that are not C contiguous",
               "interpolation points increase strictly; all interpolation arrays have one float dtype",
               "columns of Python objects are not covered"]

POLY = 0xC96C5795D7870F42
TAB = []
for _i in range(256):
    _v = _i
    for _ in range(8):
        _v = (_v >> 1) ^ POLY if _v & 1 else _v >> 1
    TAB.append(_v)


def crc64(b):
    v = (1 << 64) - 1
    for x in b:
        v = TAB[(v ^ x) & 255] ^ (v >> 8)
    v ^= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


assert crc64(b"123456789") & (1 << 64) - 1 == 0x995DC9BBDF1939FA


@law(1500, 20000)
def checksum(c):
    """CalculateCRC is CRC-64/XZ of the array's bytes"""
    d = c.choice(["u1", "i1", "i4", "f8", "i8", "S3", "V7", "?", "V5", "u2"])
    n = G.size(c, med=900, big=0)
    w = np.dtype(d).itemsize
    style = c.weighted([(4, "random"), (1, "zeros"), (1, "ones"), (2, "onebit")])
    if style == "random":
        a = c.nprng().integers(0, 256, n * w).astype("u1")
    elif style == "ones":
        a = np.full(n * w, 255, "u1")
    else:
        a = np.zeros(n * w, "u1")
        if style == "onebit" and n:
            a[c.below(n * w)] = 1 << c.below(8)
    a = a.view(d)
    off = c.bool(.3)
    if off:
        a = G.layout(c, a, 1, kinds=("misaligned", "offset"))
    shape = None
    if n and c.bool(.2):
        q = c.choice([k for k in (1, 2, 3, 4) if n % k == 0])
        a = a.reshape(q, n // q)
    b = a.copy()
    c.note(dtype=d, shape=a.shape, style=style, a=a.tobytes()[:120].hex())
    c.event("%d bytes mod 8" % (a.nbytes % 8))
    c.nontrivial(a.nbytes > 8)
    got = rc.CalculateCRC(a)
    want = crc64(b.tobytes())
    check(got == want, "CalculateCRC %d, expected %d", got, want)
    check(a.tobytes() == b.tobytes(), "the argument changed")
    if n > 2 and a.ndim == 1 and w > 0:
        s = a[::2]
        try:
            check(rc.CalculateCRC(s) == crc64(s.tobytes()), "checksum of a sliced array")
        except ValueError:
            pass


@law(1500, 20000)
def bit_count(c):
    """BitCount counts the set bits of every element"""
    d = c.choice(G.INTS + ["?", "f4", "f8", "S1", "S2", "S4", "S8", "S3", "V4", "M8[s]"])
    n = G.size(c, med=300)
    w = np.dtype(d).itemsize
    if d == "?":
        a = c.nprng().integers(0, 2, n).astype("?")
    elif c.bool(.3):
        a = (np.uint64(1) << c.nprng().integers(0, 8 * min(w, 8), n).astype("u8")).astype("u%d" % w).view(d) if w in (1, 2, 4, 8) else np.zeros(n, d)
        if c.bool():
            a = (~a.view("u%d" % w)).view(d) if w in (1, 2, 4, 8) else a
    else:
        a = c.nprng().integers(0, 256, n * w).astype("u1").view(d)
    bits = np.unpackbits(np.ascontiguousarray(a).view("u1").reshape(n, w), axis=1).sum(1).astype("i1") if n else np.zeros(0, "i1")
    if n and c.bool(.3):
        q = c.choice([k for k in (1, 2, 3, 4) if n % k == 0])
        a, bits = a.reshape(q, n // q), bits.reshape(q, n // q)
        if c.bool():
            a = np.asfortranarray(a)
        elif c.bool():
            a, bits = a.T, bits.T
    else:
        a = G.layout(c, a, .4)
    c.note(dtype=d, shape=a.shape, a=a.tobytes()[:120].hex())
    c.event("%d bytes" % w)
    b = a.copy()
    c.nontrivial(a.size > 1 and bits.any())
    try:
        r = rc.BitCount(a)
    except ValueError:
        check(w not in (1, 2, 4, 8), "BitCount refused items of %d bytes" % w)
        return
    check(w in (1, 2, 4, 8), "BitCount took items of %d bytes" % w)
    check(r.shape == bits.shape, "shape %s, expected %s", r.shape, bits.shape)
    check(r.dtype == np.int8, "dtype %s", r.dtype)
    same(np.ascontiguousarray(r).ravel(), np.ascontiguousarray(bits).ravel(), "BitCount")
    check(a.tobytes() == b.tobytes(), "the argument changed")


@law(1500, 20000)
def trailing_spaces(c):
    """RemoveTrailingSpaces strips the trailing spaces of every string in place and nothing else"""
    w = c.int(1, 12)
    uni = c.bool()
    n = G.size(c, med=200)
    alpha = c.choice([" a", " ab\t", "   x", "xy ", " \t"]) + ("\u3042\u2003\x20\U0001f600" if uni and c.bool() else "")
    if n < 14:
        vals = ["".join(c.choice(alpha) for _ in range(c.int(0, w))) for _ in range(n)]
    else:
        r = c.nprng()
        vals = ["".join(alpha[j] for j in r.integers(0, len(alpha), r.integers(0, w + 1))) for _ in range(min(n, 400))]
        vals = (vals * (n // len(vals) + 1))[:n]
    if c.bool(.15):
        vals = [v.replace("a", "\0") for v in vals]
    d = "U%d" % w if uni else "S%d" % w
    a = np.array([v if uni else v.encode() for v in vals], d)
    # a string ends before its trailing spaces (and NULs, which are the padding)
    want = np.array([(v.rstrip(" \0") if uni else v.rstrip(" \0").encode()) for v in vals], d)
    if n == 0:
        a, want = np.zeros(0, d), np.zeros(0, d)
    base = None
    if n and c.bool(.4):
        s = c.int(2, 3)
        base = np.full(n * s, ("q" + " " * (w - 1)) if uni else b"q" + b" " * (w - 1), d)
        x = base[::s] if c.bool() else base[::s][::-1]
        x[...] = a
        a = x
        others = base.copy()
        mark = np.ones(n * s, bool)
        mark[::s] = False
    elif n and c.bool(.2):
        q = c.choice([k for k in (1, 2, 3) if n % k == 0])
        a, want = a.reshape(q, n // q), want.reshape(q, n // q)
        if c.bool():
            a = np.asfortranarray(a)
    ro = c.bool(.1)
    if ro:
        a.flags.writeable = False
    keep = a.copy()
    c.note(dtype=d, layout=a.strides, ro=ro, values=vals[:30])
    c.nontrivial(n > 1 and bool((keep != want).any()))
    try:
        r = rc.RemoveTrailingSpaces(a)
    except ValueError:
        check(ro, "refused")
        check(a.tobytes() == keep.tobytes(), "the read-only array changed")
        return
    if ro:
        check(a.tobytes() == keep.tobytes(), "the read-only array changed")
        return
    check(r is a, "RemoveTrailingSpaces returned another object")
    same(np.ascontiguousarray(a).ravel(), np.ascontiguousarray(want).ravel(), "stripped")
    if base is not None:
        same(base[mark], others[mark], "elements between those of the sliced array")


@law(1200, 15000)
def records(c):
    """RecordArrayToColMajor copies every field into its column"""
    n = G.size(c, med=300, big=.1)
    nf = c.int(1, 6)
    dts = [c.choice(["i1", "i2", "i4", "i8", "f4", "f8", "u1", "?", "S3", "S7", "S16", "U2", "U5", "g"]) for _ in range(nf)]
    dt = np.dtype([("f%d" % i, d) for i, d in enumerate(dts)], align=c.bool(.3))
    raw = c.nprng().integers(0, 256, n * dt.itemsize).astype("u1")
    rec = raw.view(dt)
    pick = [i for i in range(nf) if c.bool(.8)] or [0]
    if c.bool(.3):
        pick = c.sample(pick, len(pick))
    offs = np.array([dt.fields["f%d" % i][1] for i in pick], np.int64)
    cols = np.empty(len(pick), object)
    guards = []
    for j, i in enumerate(pick):
        w = np.dtype(dts[i]).itemsize
        g = np.full(n * w + 64, 0x5A, "u1")
        lead = 32
        cols[j] = g[lead:lead + n * w].view(dts[i])
        guards.append(g)
    bad = c.weighted([(8, None), (1, "short"), (1, "offset"), (1, "readonly"), (1, "count"), (1, "type"), (1, "negative")])
    if n == 0:
        bad = None
    args = [rec, offs, cols]
    j = c.below(len(pick))
    if bad == "short":
        cols[j] = cols[j][:-1]
    elif bad == "offset":
        offs[j] = dt.itemsize - cols[j].dtype.itemsize + 1
    elif bad == "negative":
        offs[j] = -1
    elif bad == "readonly":
        cols[j].flags.writeable = False
    elif bad == "count":
        args[1] = offs[:-1]
    elif bad == "type":
        args[1] = offs.astype("i4")
    keep = rec.tobytes()
    c.note(n=n, fields=dts, pick=pick, bad=bad, rec=keep[:200].hex())
    c.event("bad" if bad else "big" if n > 16384 else "small")
    c.nontrivial(n > 1 and len(pick) > 1)
    try:
        rc.RecordArrayToColMajor(*args)
        check(bad is None, "accepted: %s" % bad)
    except (ValueError, TypeError):
        check(bad is not None, "refused columns that fit")
    check(rec.tobytes() == keep, "the records changed")
    for j, i in enumerate(pick):
        w = np.dtype(dts[i]).itemsize
        g = guards[j]
        check((g[:32] == 0x5A).all() and (g[32 + n * w:] == 0x5A).all(), "column %d was written outside of its rows", j)
        if bad is None:
            o = int(offs[j])
            check(g[32:32 + n * w].tobytes() == raw.reshape(n, dt.itemsize)[:, o:o + w].tobytes(), "column %d (field %d, %s) differs from the records", j, i, dts[i])


@law(2000, 30000)
def interpolate(c):
    """InterpExtrap2d is the piecewise-linear function through the points, clipped or extrapolated at the ends"""
    d = c.choice(["f8", "f4"])
    n = G.size(c, med=300, big=.08)
    m = c.int(2, 9)
    two = c.bool()
    r = c.nprng()
    rows = n if two else 1
    step = r.integers(1, 9, (rows, m)) * c.choice([1.0, 0.125, 16.0])
    xp = np.cumsum(step, 1) + r.integers(-40, 40, (rows, 1))
    fp = r.integers(-1000, 1000, (rows, m)) / c.choice([1.0, 8.0, 3.0])
    x = np.where(r.random(n) < .5, r.uniform(-80, 120, n), 0)
    at = r.random(n)
    rr = np.arange(n) if two else np.zeros(n, int)
    knot = xp[rr, r.integers(0, m, n)] if n else np.zeros(0)
    x = np.where(at < .3, knot, x)
    x = np.where((at > .9) & (at < .95), np.nan, x)
    x, xp, fp = x.astype(d), xp.astype(d), fp.astype(d)
    clip = c.choice([0, 1])
    X, XP, FP = [v.astype(np.longdouble) for v in (x, xp, fp)]
    # the segment whose right end is the first point not below x; the end segments extrapolate
    P, F = XP[rr] if n else XP[:0], FP[rr] if n else FP[:0]
    j = np.clip((P < X[:, None]).sum(1), 1, m - 1)
    i = np.arange(n)
    x0, x1, y0, y1 = P[i, j - 1], P[i, j], F[i, j - 1], F[i, j]
    s = (y1 - y0) / (x1 - x0)
    want = y0 + s * (X - x0)
    tol = 12 * np.finfo(d).eps * (abs(y0) + abs(y1) + abs(s) * (abs(X) + abs(x0) + abs(x1)))
    if clip and n:
        lo, hi = X <= P[:, 0], X >= P[:, -1]
        want = np.where(lo, F[:, 0], np.where(hi, F[:, -1], want))
        tol = np.where(lo | (X > P[:, -1]), 0, tol)
    xpa, fpa = (xp, fp) if two else (xp[0], fp[0])
    xa = G.layout(c, x, .3)
    lay = c.weighted([(6, "c"), (1, "f"), (1, "strided")])
    if lay == "f" and two:
        xpa = np.asfortranarray(xpa)
    elif lay == "strided":
        z = np.full(xpa.shape[:-1] + (2 * m,), 7, d)
        z[..., ::2] = xpa
        xpa = z[..., ::2]
    ok_refuse = not xpa.flags.c_contiguous
    c.note(dtype=d, n=n, two=two, clip=clip, lay=lay, x=G.show(x), xp=xp[:6].tolist(), fp=fp[:6].tolist())
    c.event("2d" if two else "1d")
    c.nontrivial(n > 1)
    keep = [v.copy() for v in (xa, xpa, fpa)]
    try:
        got = rc.InterpExtrap2d(xa, xpa, fpa, clip) if clip or c.bool() else rc.InterpExtrap2d(xa, xpa, fpa)
    except ValueError:
        check(ok_refuse, "refused")
        return
    check(got.dtype == np.dtype(d) and got.shape == (n,), "returned %s %s", got.dtype, got.shape)
    g = np.asarray(got).astype(np.longdouble)
    nan = np.isnan(X)
    bad = np.flatnonzero(np.where(nan, ~np.isnan(g), ~(abs(g - want) <= tol)))
    check(len(bad) == 0, "%d of %d differ, first at %d: %r, expected %r (x %r)",
          len(bad), n, bad[0] if len(bad) else 0, g[bad[0]] if len(bad) else 0, want[bad[0]] if len(bad) else 0, x[bad[0]] if len(bad) else 0)
    for v, k in zip((xa, xpa, fpa), keep):
        check(v.tobytes() == k.tobytes(), "an argument changed")

"""C31: cutting values by sorted bin edges (BinsToCutsBSearch, BinsToCutsSorted, NanInfCountFromSort) against exact searching."""
import numpy as np
import gen as G
from gen import check
from pbt import law, rc, Fail
from C29 import hard, align

RULE = ("a case draws sorted edges (any numeric dtype, 1 to 30002 of them), values on, next to and between the edges, outside them, invalid and infinite, of the same or another dtype, "
        "and a side convention; non-trivial = at least two edges and two values")
ASSUMPTIONS = ["edges hold no nan and, for bins (mode 0), are distinct", "integers are compared with float edges, and with float values, as doubles (documented resolution), as are long doubles by the sorted variant",
               "mode 0: a value equal to the first edge is in bin 1; outside, invalid and infinite values are in bin 0", "modes 1 and 2 are numpy's searchsorted left and right, nan sorted last, integers taken as they are",
               "the sorted variant numbers bins from 2, gives 1 to values outside and 0 to invalid or infinite ones, and needs at least two edges", "the sort index is a true sort of the values",
               "byte strings are cut in mode 0 only; unicode strings are refused"]

VD = G.NUM + ["g", "q", "Q", "?"]
ED = ["f8", "f4", "i4", "i8", "i1", "i2", "u8", "q", "Q"]


def near(c, e, d, n):
    """n values of dtype d on or around the edges e"""
    dt = np.dtype(d)
    if dt.kind == "b":
        return G.values(c, "?", n)
    r = c.nprng()
    k = c.below(4)
    if k == 0:
        v = G.values(c, {"g": "f8", "q": "i8", "Q": "u8"}.get(d, d), n).astype(d)
    else:
        p = e[r.integers(0, len(e), n)]
        with np.errstate(all="ignore"):
            if dt.kind == "f":
                v = p.astype(dt)
                m = r.integers(0, 5, n)
                v = np.where(m == 1, np.nextafter(v, dt.type(np.inf)), v)
                v = np.where(m == 2, np.nextafter(v, dt.type(-np.inf)), v)
                v = np.where(m == 3, v + dt.type(.25), v).astype(dt)
            else:
                ii = np.iinfo(dt)
                q = np.asarray(p, np.longdouble)
                q = np.clip(np.floor(q) + r.integers(-1, 3, n), ii.min, ii.max)
                v = q.astype(dt) if dt.itemsize < 8 else np.array([int(x) for x in q], dt)
    if n and k and c.bool(.4):
        z = r.random(n)
        bad = G.invalid(dt)
        v = np.where(z < .1, bad, v).astype(dt)
        if dt.kind == "f":
            v = np.where((z > .1) & (z < .15), dt.type(np.inf), v)
            v = np.where((z > .15) & (z < .2), dt.type(-np.inf), v).astype(dt)
    return v


def edges(c, d, n, distinct):
    dt = np.dtype(d)
    k = c.below(4)
    r = c.nprng()
    if dt.kind in "iu":
        ii = np.iinfo(dt)
        span = int(ii.max) - int(ii.min) + 1
        step = 1 if n >= span // 2 else c.choice([1, 2, 7, max(1, span // (n + 1) // 2)])
        lo = int(ii.min) + c.below(max(1, span - step * n)) if c.bool(.5) else max(int(ii.min), min(-(n // 2) * step, int(ii.max) - step * n))
        e = np.array([lo + i * step for i in range(n) if lo + i * step <= ii.max], dt)
    else:
        if k == 0:
            e = np.unique(G.values(c, d, n, style="full", specials=False))
        elif k == 1:
            e = (np.arange(n) - c.int(0, n)).astype(d) * dt.type(c.choice([.1, .5, 1, 3]))
        elif k == 2:
            e = np.sort(r.integers(-3 * n, 3 * n, n)).astype(d) / dt.type(4)
        else:
            e = np.sort(c.choice([1e-3, 1, 1e6, 1e18]) * r.standard_normal(n)).astype(d)
        if c.bool(.15) and len(e) > 1:
            e[0] = -np.inf
        if c.bool(.15) and len(e) > 1:
            e[-1] = np.inf
        e = np.sort(e)
    if distinct:
        e = np.unique(e)
    elif c.bool(.3) and len(e) > 1:
        e = np.sort(e[r.integers(0, len(e), len(e))])
    return e if len(e) else np.zeros(1, dt)


def key(a, other):
    if a.dtype.kind in "iub" and other.dtype.kind == "f" and other.dtype.itemsize < 16:
        a = a.astype("f8")
    return a.astype(np.longdouble)


def outside(v):
    """invalid or infinite"""
    if v.dtype.kind == "f":
        return ~np.isfinite(v)
    if v.dtype.kind == "b":
        return np.zeros(v.shape, bool)
    return v == G.invalid(v.dtype)


def expected(v, e, mode):
    V, E = key(v, e), key(e, v)
    if mode:
        return np.searchsorted(E, V, "left" if mode == 1 else "right")
    k = np.searchsorted(E, V, "left")
    k[V == E[0]] = 1
    with np.errstate(invalid="ignore"):
        k[~((V >= E[0]) & (V <= E[-1]))] = 0
    k[outside(v)] = 0
    return k


def outtype(n):
    return np.dtype("i1" if n <= 100 else "i2" if n <= 30000 else "i4")


def nedges(c):
    return c.weighted([(8, c.int(1, 12)), (3, c.int(2, 60)), (2, c.choice([99, 100, 101, 102])), (1, c.int(100, 400))])


def judge(got, want, v, e, what):
    check(isinstance(got, np.ndarray), "%s gave %r" % (what, got))
    check(got.dtype == outtype(len(e)), "%s: dtype %s for %d edges" % (what, got.dtype, len(e)))
    check(got.shape == v.shape, "%s: shape %s of %s" % (what, got.shape, v.shape))
    bad = got != want
    if bad.any():
        i = np.unravel_index(int(np.argmax(bad)), bad.shape)
        raise Fail("%s: value %s of dtype %s got %s, expected %s at %s of %s, %d edges of dtype %s from %s to %s" % (
            what, G.show(v[i]), v.dtype, got[i], np.asarray(want)[i], i, v.shape, len(e), e.dtype, G.show(e[0]), G.show(e[-1])))


def lengths(c, big=.06):
    return G.size(c, big, med=300)


@law(7000, 120000)
def search(c):
    """bins and both searchsorted sides, same or other dtype, any alignment, threaded or not"""
    mode = c.int(0, 2)
    ed = c.choice(ED)
    e = edges(c, ed, nedges(c), mode == 0)
    vd = ed if c.bool(.5) else c.choice(VD)
    v = near(c, e, vd, lengths(c))
    if c.bool(.2):
        v = align(c, v)
    if c.bool(.2):
        v = G.layout(c, v, 1.0)
    if c.bool(.1):
        e = G.layout(c, e, 1.0)
    c.note(mode=mode, vd=vd, ed=ed, v=G.show(v), e=G.show(e))
    if mode == 0 and not (np.diff(key(e, v)) > 0).all():
        c.event("edges equal as doubles")
        return
    bv, be = v.tobytes(), e.tobytes()
    got = rc.BinsToCutsBSearch(v, e, mode)
    check(v.tobytes() == bv and e.tobytes() == be, "an argument was changed")
    judge(got, expected(v, e, mode), v, e, "mode %d" % mode)
    c.event("mode%d" % mode)
    c.event("same" if vd == ed else "cross")
    c.nontrivial(v.size > 1 and e.size > 1)


@law(60, 600)
def many(c):
    """so many edges that the bin number takes 16 or 32 bits"""
    mode = c.int(0, 2)
    ed = c.choice(["f8", "i4", "i8", "f4"])
    n = c.choice([29999, 30000, 30001, 30002, 127, 128, 129, 255, 256, 257, 300, 20000])
    e = np.unique(np.arange(n) - c.int(0, n)).astype(ed)
    v = near(c, e, ed if c.bool(.6) else c.choice(VD), lengths(c, .4))
    c.note(mode=mode, n=n, v=G.show(v), ed=ed)
    judge(rc.BinsToCutsBSearch(v, e, mode), expected(v, e, mode), v, e, "mode %d" % mode)
    c.nontrivial(v.size > 1)


@law(3000, 50000)
def sorted_variant(c):
    """counting the values that are invalid from their sort, and cutting by that sort, agrees with searching"""
    e = edges(c, "f8", max(2, nedges(c)), True)
    if len(e) < 2:
        e = np.array([0., 1.])
    vd = c.choice(VD)
    v = near(c, e, vd, lengths(c, .03))
    if vd == "g":
        v[np.isfinite(v) & (np.abs(v) > 1e300)] = 0
    if c.bool(.2):
        v = G.layout(c, v, 1.0)
    ls = np.argsort(v, kind="stable").astype(c.choice(["i4", "i8", "q"]))
    if c.bool(.1):
        ls = G.layout(c, ls, 1.0)
    if c.bool(.1):
        e = G.layout(c, e, 1.0)
    c.note(vd=vd, v=G.show(v), e=G.show(e))
    counts = rc.NanInfCountFromSort(v, ls)
    if v.dtype.kind == "f":
        want = (int(np.isnan(v).sum()), int((v == np.inf).sum()), int((v == -np.inf).sum()))
    elif v.dtype.kind == "b":
        want = (0, 0, 0)
    else:
        m = int((v == G.invalid(v.dtype)).sum())
        want = (0, 0, m) if v.dtype.kind == "i" else (0, m, 0)
    check(counts == want, "NanInfCountFromSort gave %s, expected %s" % (counts, want))
    got = rc.BinsToCutsSorted(v, e, ls, counts, c.int(0, 1))
    k = expected(v.astype("f8") if vd == "g" else v, e, 0)
    w = np.where(outside(v), 0, k + 1)
    judge(got, w, v, e, "sorted")
    c.nontrivial(v.size > 1)
    if v.size and (k > 0).any():
        c.event("in a bin")


@law(2000, 30000)
def bytes_bins(c):
    """byte strings in bins of byte strings"""
    e = np.unique(G.strings(c, "S", nedges(c)))
    if c.bool(.5):
        e = e[e != b""] if (e != b"").any() else np.array([b"m"])
    n = lengths(c)
    v = G.strings(c, "S", n)
    if n and c.bool(.6):
        r = c.nprng()
        p = e[r.integers(0, len(e), n)]
        v = np.where(r.random(n) < .5, p, v)
        if c.bool(.5):
            v = np.where(r.random(n) < .2, np.char.add(p, b"a"), v)
    if c.bool(.3):
        v = v.astype("S%d" % (v.dtype.itemsize + c.int(1, 5)))
    if c.bool(.2):
        v = G.layout(c, v, 1.0)
    c.note(v=G.show(v), e=G.show(e))
    got = rc.BinsToCutsBSearch(v, e, 0)
    k = np.searchsorted(e, v, "left")
    k[v == e[0]] = 1
    k[~((v >= e[0]) & (v <= e[-1])) | (v == b"")] = 0
    judge(got, k, v, e, "bytes")
    c.nontrivial(v.size > 1 and e.size > 1)


@law(400, 2000)
def refused(c):
    """no edges, types it does not search and lengths that do not match are refused or answered as numpy does"""
    n = c.int(0, 5)
    k = c.below(5)
    c.note(k=k, n=n)
    try:
        if k == 0:
            mode = c.int(0, 2)
            d = c.choice(["f8", "i4", "u1", "S3"])
            got = rc.BinsToCutsBSearch(np.zeros(n, d), np.zeros(0, d if d != "u1" else "f8"), mode)
            check((np.asarray(got) == 0).all(), "mode %d without edges gave %s" % (mode, got))
        elif k == 1:
            d = c.choice(["U3", "O", "c16", "M8[ns]", "f2"])
            mode = c.int(0, 2)
            got = rc.BinsToCutsBSearch(np.zeros(n, d), np.zeros(2, d if c.bool() else "f8"), mode)
            check(not isinstance(got, np.ndarray), "%s values gave %s" % (d, got))
        elif k == 2:
            got = rc.BinsToCutsBSearch(np.array([b"a", b"b"]), np.array([b"a", b"b"]), c.choice([1, 2]))
            raise Fail("searchsorted of bytes gave %s" % got)
        elif k == 3:
            got = rc.BinsToCutsSorted(np.zeros(n), np.array([0., 1.]), np.arange(n + 1 + c.below(3), dtype="i4"), (0, 0, 0), 0)
            check(got is None, "a longer sort gave %s" % got)
        else:
            t = c.choice([(n + 1, 0, 0), (0, 0, n + 1), (1, 0, n), (-1, 0, 0), (0, 0, -1)])
            got = rc.BinsToCutsSorted(np.zeros(n), np.array([0., 1.]), np.arange(n, dtype="i4"), t, 0)
            check(got is None, "counts %s of %d values gave %s" % (t, n, got))
    except (ValueError, TypeError, SystemError):
        c.event("refused")
    c.nontrivial()

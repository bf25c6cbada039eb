"""C25: ConvertSafe / ConvertUnsafe for every dtype pair, shape and memory layout."""
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc, Fail

RULE = ("a case draws a source dtype, a target dtype, a shape of 1 to 3 dimensions, a memory layout (C, Fortran, sliced, transposed, reversed, broadcast, misaligned) and values "
        "with invalids and boundary values; non-trivial = more than one element and source and target dtypes differ")
ASSUMPTIONS = ["float values that do not fit an integer target are not generated (the C cast is undefined); infinite values convert safely to the invalid integer",
               "bool has no invalid value", "arrays are in native byte order"]

D = ["i4", "f8", "i8", "f4", "i1", "i2", "u1", "u2", "u4", "u8", "?", "g", "q", "Q"]


def rawarr(c, d, n):
    if d == "g":
        r = c.nprng()
        a = G.values(c, "f8", n).astype("g")
        if c.bool(.5) and n:
            a = np.where(r.random(n) < .3, a * np.longdouble(3) / 7, a)
        return a
    return G.values(c, d, n)


def shaped(c, d, t, finite):
    """an array of 1 to 3 dimensions in some layout, and its name; the values fit dtype t"""
    def arr(c, d, n):
        return fit(rawarr(c, d, n), t, finite)

    nd = c.weighted([(5, 1), (4, 2), (2, 3)])
    if nd == 1:
        a = arr(c, d, G.size(c, big=.05))
        return G.layout(c, a, .45), "1d"
    sh = tuple(c.int(0 if c.bool(.1) else 1, 7 if nd == 2 else 5) for _ in range(nd))
    if c.bool(.03):
        sh = (c.choice([200, 257, 3]), 257) if nd == 2 else (33, 33, 33)
    n = int(np.prod(sh))
    a = arr(c, d, n).reshape(sh)
    k = c.choice(["C", "F", "T", "slice", "sliceF", "rev", "step", "bcast", "swap", "window"])
    if k == "F":
        return np.asfortranarray(a), "F"
    if k == "T":
        return a.T, "T"
    if k in ("slice", "sliceF", "step"):
        lo = [c.int(0, 2) for _ in sh]
        st = [c.int(1, 3) if k == "step" else 1 for _ in sh]
        big = np.zeros([l + s * t + c.int(0, 2) for l, s, t in zip(lo, sh, st)], a.dtype, order="F" if k == "sliceF" or c.bool(.2) else "C")
        v = big[tuple(slice(l, l + s * t, t) for l, s, t in zip(lo, sh, st))]
        v[...] = a
        return v, k
    if k == "rev":
        ax = [c.bool() for _ in sh]
        sl = tuple(slice(None, None, -1 if x else 1) for x in ax)
        return np.ascontiguousarray(a[sl])[sl], "rev%s" % ax
    if k == "bcast" and n:
        sh2 = tuple(1 if c.bool() else s for s in sh)
        a = arr(c, d, int(np.prod(sh2))).reshape(sh2)
        return np.broadcast_to(a, sh), "bcast%s" % (sh2,)
    if k == "swap" and nd == 3:
        return a.transpose(c.perm(3)), "swap"
    if k == "window" and nd == 2 and sh[1] and sh[0]:
        return np.lib.stride_tricks.sliding_window_view(arr(c, d, sh[0] + sh[1] - 1), sh[1]), "window"
    return a, "C"


def fit(v, d, finite):
    """replace floats that dtype d cannot hold by 1"""
    d = np.dtype(d)
    if v.dtype.kind == "f" and d.kind in "iu":
        ii = np.iinfo(d)
        with np.errstate(all="ignore"):
            ok = np.isfinite(v) & (v > -1 if d.kind == "u" else v > v.dtype.type(ii.min) - (1 if ii.min > -2**31 else 0)) & (v < v.dtype.type(ii.max) + (0 if v.dtype.itemsize < 16 and d.itemsize > 2 else 1))
            if not finite:
                ok |= ~np.isfinite(v)
        return np.where(ok, v, v.dtype.type(1))
    return v


def conv(src, d, safe=True):
    """the conversion's definition: a C cast of every element; safe: invalid to invalid"""
    d = np.dtype(d)
    with np.errstate(all="ignore"):
        want = src.astype(d)
    if safe and src.dtype.kind in "iuf" and d.kind in "iuf" and src.dtype != d:
        bad = G.isinv(src)
        if d.kind in "iu" and src.dtype.kind == "f":
            bad = ~np.isfinite(src)
        want[bad] = G.invalid(d)
    return want


def run(c, safe):
    s, t = c.choice(D), c.choice(D)
    v, lay = shaped(c, s, t, not safe)
    c.note(v=G.show(v) if v.ndim == 1 else "%s %s %s" % (s, v.shape, v.ravel()[:12].tolist()), lay=lay, strides=v.strides, to=t)
    keep = np.array(v).tobytes() if s != "g" else None
    d = np.dtype(t)
    got = (rc.ConvertSafe if safe else rc.ConvertUnsafe)(v, d.num)
    src = np.array(v)
    want = conv(src, d, safe)
    c.event(lay if not lay.startswith(("rev", "bcast")) else lay[:3])
    c.nontrivial(v.size > 1 and s != t)
    check(got is not v or s == t, "the argument itself was returned")
    same(got, want, "%s to %s" % (s, t), sign=True)
    if v.flags.f_contiguous:
        check(got.flags.f_contiguous, "Fortran order was lost")
    if v.flags.c_contiguous:
        check(got.flags.c_contiguous, "C order was lost")
    check(keep is None or keep == np.array(v).tobytes(), "the argument was changed")


@law(6000, 100000)
def safe(c):
    """invalid to invalid, other values as a C cast"""
    run(c, True)


@law(5000, 80000)
def unsafe(c):
    """a C cast of every element"""
    run(c, False)

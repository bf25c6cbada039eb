"""C26: HStack, HomogenizeArrays, GetUpcastNum and ShiftArrays against numpy."""
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc, Fail
from C25 import conv, fit, rawarr

RULE = ("a case draws a list of 0 to 6 arrays of mixed dtypes, lengths (around the chunk size too) and memory layouts, a target dtype or none, or a shift; "
        "non-trivial = at least two arrays of which one holds two or more elements (shift: a non-zero shift shorter than an array)")
ASSUMPTIONS = ["the stacked dtype of mixed numeric arrays is numpy's result type", "floats that do not fit an integer target are not generated",
               "ShiftArrays works in place on contiguous arrays and leaves the vacated elements as they were; two-dimensional arrays are shifted by rows when in Fortran order; "
               "two-dimensional C-order arrays are not covered"]

D = ["i4", "f8", "i8", "f4", "i1", "i2", "u1", "u2", "u4", "u8", "?", "g", "q", "Q"]


def arrays(c, t, kmin=0, big=.04, p=.35):
    k = c.int(kmin, 5)
    pal = [c.choice(D) for _ in range(c.int(1, 3))]
    out = []
    for _ in range(k):
        d = c.choice(pal)
        n = 0 if c.bool(.12) else G.size(c, big=big, med=80)
        out.append((d, n))
    # a run of stacking that crosses the chunk size with many small arrays is drawn by big lengths
    vals = [rawarr(c, d, n) for d, n in out]
    return vals


def wrap(c, vals):
    return tuple(vals) if c.bool(.3) else list(vals)


@law(4000, 60000)
def hstack(c):
    """elements of the inputs in order, invalids to invalids"""
    vals = arrays(c, None)
    if vals and c.bool(.5):
        t = np.dtype(c.choice(D))
        args = (t.num,)
    else:
        t = np.result_type(*vals) if vals else None
        args = () if c.bool() else (-1,)
    if t is not None:
        vals = [fit(v, t, False) for v in vals]
    ins = [G.layout(c, v, .35) for v in vals]
    c.note(ins=[G.show(a, 12) for a in ins], to=None if not args else args[0])
    keep = [a.tobytes() for a in ins]
    try:
        got = rc.HStack(wrap(c, ins), *args)
    except ValueError:
        check(not ins, "refused")
        c.event("empty list")
        return
    if not vals:
        check(isinstance(got, np.ndarray) and len(got) == 0, "the stack of no arrays is not empty")
        return
    want = np.concatenate([conv(v, t) for v in vals])
    c.nontrivial(len(vals) > 1 and max(map(len, vals)) > 1)
    c.event("given" if args and args[0] >= 0 else "upcast")
    check(got.dtype.kind == t.kind and got.dtype.itemsize == t.itemsize, "dtype %s, expected %s", got.dtype, t)
    same(got, want, "HStack", dtype=False, sign=True)
    check(keep == [a.tobytes() for a in ins], "an argument was changed")
    check(not any(np.shares_memory(got, a) for a in ins if a.size), "the result shares memory with an argument")


@law(1500, 20000)
def hstack_str(c):
    """strings in order in the width of the widest"""
    d = c.choice(["S", "U"])
    k = c.int(1, 5)
    vals = [G.strings(c, d, 0 if c.bool(.1) else G.size(c, big=.05, med=80)) for _ in range(k)]
    ins = [G.layout(c, v, .35) for v in vals]
    c.note(ins=[G.show(a, 8) for a in ins])
    got = rc.HStack(wrap(c, ins))
    c.nontrivial(k > 1 and max(map(len, vals)) > 1)
    same(got, np.concatenate(vals), "HStack of strings")
    # mixed kinds are declined
    if c.bool(.2):
        other = np.array([1, 2]) if c.bool() else np.array(["x"] if d == "S" else [b"x"])
        try:
            got = rc.HStack(ins + [other])
        except ValueError:
            pass
        else:
            raise Fail("strings stacked with %s gave %s" % (other.dtype, got.dtype))


@law(2500, 40000)
def homogenize(c):
    """every array in one dtype, same values"""
    n = G.size(c, big=.04, med=80)
    k = c.int(1, 5)
    pal = [c.choice(D) for _ in range(c.int(1, 3))]
    vals = [rawarr(c, c.choice(pal), n) for _ in range(k)]
    given = c.bool()
    t = np.dtype(c.choice(D)) if given else np.result_type(*vals)
    vals = [fit(v, t, False) for v in vals]
    ins = [G.layout(c, v, .35) for v in vals]
    c.note(ins=[G.show(a, 12) for a in ins], to=t.str if given else None)
    keep = [a.tobytes() for a in ins]
    got = rc.HomogenizeArrays(wrap(c, ins), t.num if given else -1)
    c.nontrivial(k > 1 and n > 1)
    check(isinstance(got, list) and len(got) == k, "not a list of %d arrays" % k)
    for g, v in zip(got, vals):
        check(g.dtype.kind == t.kind and g.dtype.itemsize == t.itemsize, "dtype %s, expected %s", g.dtype, t)
        same(g, conv(v, t), "homogenized", dtype=False, sign=True)
    check(keep == [a.tobytes() for a in ins], "an argument was changed")


@law(800, 10000)
def upcast(c):
    """the dtype number that holds all"""
    ds = [np.dtype(c.choice(D)) for _ in range(c.int(1, 5))]
    vals = [np.zeros(c.int(0, 3), d) for d in ds]
    c.note(ds=[d.str for d in ds])
    t = np.result_type(*ds)
    got = rc.GetUpcastNum(wrap(c, vals))
    c.nontrivial(len(set(ds)) > 1)
    d = np.dtype(np.sctypeDict[got]) if got in np.sctypeDict else None
    check(d is not None and d.kind == t.kind and d.itemsize == t.itemsize, "upcast dtype number %s (%s), expected %s", got, d, t)


@law(2500, 30000)
def shift(c):
    """elements move by the offset, the rest stays"""
    k = c.int(1, 5)
    arrs, want = [], []
    sizes = []
    shapes = []
    for _ in range(k):
        d = c.choice(D + ["S", "U"])
        two = c.bool(.3)
        n = G.size(c, big=.03, med=80)
        cols = c.int(1, 5) if two else 1
        if d == "M8[ns]":
            v = rawarr(c, "i8", n * cols).view(d)
        elif d == "c16":
            v = rawarr(c, "f8", n * cols * 2).view(d)
        elif d in "SU":
            v = G.strings(c, d, n * cols)
        else:
            v = rawarr(c, d, n * cols)
        if two and n > 1 and cols > 1:
            v = np.asfortranarray(v.reshape(n, cols))
        else:
            v = G.layout(c, v, .2, kinds=("misaligned", "offset"))
        sizes.append(len(v))
        arrs.append(v)
    m = max(sizes) if c.bool(.7) else min(sizes)
    s = c.int(0, m + 3) * (1 if c.bool() else -1)
    if c.bool(.05):
        s *= 1 << 40
    c.note(arrs=[G.show(a, 12) for a in arrs], shape=[a.shape for a in arrs], shift=s)
    for v in arrs:
        w = v.copy(order="K")
        n = len(v)
        if 0 <= s < n:
            w[:n - s] = v[s:]
        elif 0 < -s < n:
            w[-s:] = v[:n + s]
        want.append(w)
    lst = wrap(c, arrs)
    got = rc.ShiftArrays(lst, s)
    c.nontrivial(s != 0 and abs(s) < max(sizes))
    check(got is lst, "the list itself is not returned")
    for a, w in zip(arrs, want):
        check(a.tobytes() == w.tobytes(), "shifted by %d: %s, expected %s", s, G.show(a, 12), G.show(w, 12))
    # an array that cannot be shifted in place is refused and not changed
    if c.bool(.2):
        a = np.arange(20)[::2]
        b = np.arange(10)
        if c.bool():
            a = np.arange(10)
            a.flags.writeable = False
        ka, kb = a.tobytes(), b.tobytes()
        try:
            rc.ShiftArrays([b, a], 2)
        except ValueError:
            pass
        else:
            raise Fail("shifting a sliced or read-only array succeeded")
        check(a.tobytes() == ka and b.tobytes() == kb, "a refused shift changed an array")

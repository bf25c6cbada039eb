"""C30: reductions of a whole array (Reduce) against exact arithmetic over its elements."""
import math
import numpy as np
import gen as G
from gen import check
from pbt import law, rc, Fail
from C25 import rawarr
from C27 import operand_shape, place, canary
from C29 import hard, align

RULE = "a case draws a function, a dtype, a shape and memory layout, values (with invalids, extremes and infinities) and for variances the degrees of freedom; non-trivial = more than one element and an answer"
ASSUMPTIONS = ["sums, means and variances of floats are compared within the rounding of a plain double sum, and only where the sum of magnitudes stays below 1e300",
               "sums of 64-bit integers beyond the integer range come back as a double; within 1e-9 of the edge of the range they are not judged",
               "integer invalids make the plain forms invalid (nan, the invalid integer, or the position of the first invalid) and are skipped by the nan forms",
               "documented: nanmean of no valid value is 0.0; nansum is 0; nanvar and nanstd are nan; nanmin and nanmax the invalid of the dtype; nanargmin and nanargmax raise ValueError",
               "an empty, strided or multi-dimensional array may be declined (None)", "long doubles are reduced as doubles; native byte order"]

F = dict(SUM=0, NANSUM=1, MEAN=102, NANMEAN=103, VAR=106, NANVAR=107, STD=108, NANSTD=109, MIN=200, NANMIN=201, MAX=202, NANMAX=203, ARGMIN=204, NANARGMIN=205, ARGMAX=206, NANARGMAX=207)
DT = G.NUMB + ["g", "q", "Q"]


def exact_sum(v):
    """Python int"""
    if v.dtype.kind == "b":
        return int(np.count_nonzero(v))
    if v.dtype.kind == "u":
        v = v.astype("u8")
        return (int((v >> np.uint64(32)).sum()) << 32) + int((v & np.uint64(0xffffffff)).sum())
    v = v.astype("i8")
    return (int((v >> 32).sum()) << 32) + int((v & 0xffffffff).sum())


def expected(f, a, ddof=1):
    """(kind, value, tolerance): kind one of int, float, raise, skip"""
    nanform = f.startswith("NAN")
    base = f[3:] if nanform else f
    v = a.ravel()
    k = a.dtype.kind
    bad = G.isinv(v) if k != "b" else np.zeros(v.shape, bool)
    if base in ("ARGMIN", "ARGMAX"):
        good = np.flatnonzero(~bad)
        if nanform:
            if not good.size:
                return "raise", None, 0
            w = v[good]
            return "int", int(good[int(w.argmin() if base == "ARGMIN" else w.argmax())]), 0
        if bad.any():
            return "int", int(np.argmax(bad)), 0
        return "int", int(v.argmin() if base == "ARGMIN" else v.argmax()), 0
    w = v[~bad]
    invalid = bad.any() if not nanform else w.size == 0
    if base in ("MIN", "MAX"):
        if invalid:
            return ("float", math.nan, 0) if k == "f" else ("int", int(G.invalid(a.dtype)), 0)
        x = w.min() if base == "MIN" else w.max()
        return ("float", float(x), 0) if k == "f" else ("int", int(x), 0)
    if base == "SUM" and k != "f":
        if bad.any() and not nanform:
            return "int", (2**64 - 1 if a.dtype.kind == "u" and a.dtype.itemsize == 8 else -2**63), 0
        s = exact_sum(w)
        lo, hi = (0, 2**64) if k == "u" and a.dtype.itemsize == 8 else (-2**63, 2**63)
        for e in (lo, hi):
            if e and abs(s - e) < 1e-9 * abs(e):
                return "skip", None, 0
        if lo <= s < hi:
            return "int", s, 0
        return "float", float(s), 1e-9 * abs(float(s))
    if invalid and not nanform:
        return "float", math.nan, 0
    n = w.size
    L = np.longdouble
    w = w.astype(L)
    with np.errstate(all="ignore"):
        if not np.isfinite(w).all():
            s = w.sum()
            if not float(np.abs(w[np.isfinite(w)]).sum()) < 1e300:
                return "skip", None, 0
            if base == "SUM":
                return "float", float(s), 0
            return "float", float(s) if base == "MEAN" else math.nan, 0
        mag = float(np.abs(w).sum())
        if not mag < 1e300:
            return "skip", None, 0
        s = w.sum()
        tol = max(n, 4) * 2.0**-52 * mag + 1e-320
        if base == "SUM":
            return "float", float(s), tol
        if base == "MEAN":
            return "float", float(s / n) if n else 0.0, tol / max(n, 1)
        if n <= ddof:
            return "float", math.nan, 0
        m = s / n
        q = ((w - m) ** 2).sum()
        if not float(q) < 1e300 or float(np.abs(w).max()) > 1e150:
            return "skip", None, 0
        var = float(q / (n - ddof))
        d = n * 2.0**-52 * float(np.abs(w).max())
        t = 1e-11 * var + (8 * math.sqrt(var * (n - ddof) / n) * d + d * d) * n / (n - ddof) + 1e-300
        if base == "VAR":
            return "float", var, t
        lo, hi = math.sqrt(max(0.0, var - t)), math.sqrt(var + t)
        sd = math.sqrt(var)
        return "float", sd, max(sd - lo, hi - sd) + 1e-300


def judge(f, a, got, want, what):
    kind, x, tol = want
    if kind == "skip":
        return
    if kind == "raise":
        raise Fail("%s gave %s, expected a ValueError" % (what, got))
    if kind == "int":
        check(type(got) is int, "%s gave %s of type %s, expected the integer %s" % (what, got, type(got).__name__, x))
        check(got == x, "%s gave %s, expected %s" % (what, got, x))
        return
    check(type(got) is float, "%s gave %r of type %s, expected the float %r" % (what, got, type(got).__name__, x))
    if math.isnan(x):
        check(math.isnan(got), "%s gave %r, expected nan" % (what, got))
    elif math.isinf(x) or tol == 0:
        check(got == x, "%s gave %r, expected %r" % (what, got, x))
    else:
        check(abs(got - x) <= tol, "%s gave %r, expected %r (within %g)" % (what, got, x, tol))


def fill(c, d, n):
    if d == "?":
        return rawarr(c, "?", n) if c.bool(.5) else G.values(c, d, n)
    if np.dtype(d).kind == "f" and c.bool(.4):
        h = hard("f8")
        if not c.bool(.3):
            h = h[np.isfinite(h) & (np.abs(h) < 1e11)]
        with np.errstate(over="ignore"):
            a = h[c.nprng().integers(0, len(h), n)].astype(d)
    else:
        a = G.values(c, {"g": "f8", "q": "i8", "Q": "u8"}.get(d, d), n, inv=0).astype(d)
    k = c.below(6)
    bad = G.isinv(a)
    if n and k < 3 and bad.any():          # mostly no invalid value, so that plain forms are judged on their value
        a[bad] = np.array(c.int(0, 9)).astype(d)
    if n and k == 3 and G.invalid(a.dtype) is not None:     # one invalid somewhere
        a[bad] = 0
        a[c.int(0, n - 1)] = G.invalid(a.dtype)
    if n and k == 4 and G.invalid(a.dtype) is not None:     # runs of invalids: the start, the end, everything
        z = c.below(3)
        m = c.int(0, n)
        a[(slice(0, m), slice(m, n), slice(0, n))[z]] = G.invalid(a.dtype)
    return a


def run(c, f, a, ddof, must):
    before = a.tobytes()
    args = (a, F[f]) if ddof is None else (a, F[f], ddof)
    want = expected(f, a, 1 if ddof is None else ddof) if a.size else None
    what = "%s of %s%s, shape %s, strides %s, ddof %s" % (f, a.dtype, " with invalids" if a.dtype.kind != "b" and G.isinv(a).any() else "", a.shape, a.strides, ddof)
    try:
        got = rc.Reduce(*args)
    except ValueError:
        check(a.size and want[0] == "raise", "%s raised ValueError, expected %s" % (what, want))
        got = 0
        want = ("skip", None, 0)
    check(a.tobytes() == before, "%s changed its argument" % what)
    if got is None:
        check(not must, "%s was declined" % what)
        c.event("declined")
        return
    check(a.size > 0, "%s gave %r for an empty array" % (what, got))
    c.event(f)
    c.event("want:" + want[0])
    c.nontrivial(a.size > 1)
    judge(f, a, got, want, what)


def ddofs(c, f, n):
    if f[-3:] not in ("VAR", "STD") or c.bool(.3):
        return None
    return c.weighted([(3, 0), (3, 1), (1, 2), (1, n), (1, n + 1), (1, max(n - 1, 0))])


@law(9000, 150000)
def vector(c):
    """one contiguous dimension, any length, alignment, with or without threads"""
    d = c.choice(DT)
    n = G.size(c, .15, med=400)
    f = c.choice(list(F))
    a = fill(c, d, n)
    if c.bool(.3):
        a = align(c, a)
    c.note(f=f, dtype=d, n=n, a=G.show(a))
    quiet = c.bool(.2)
    rc.ThreadingMode(1 if quiet else 0)
    try:
        run(c, f, a, ddofs(c, f, n), n > 0)
    finally:
        rc.ThreadingMode(0)


@law(4000, 60000)
def big(c):
    """long arrays: the pieces worked on by different threads are combined rightly"""
    d = c.choice(DT)
    n = c.choice([32768, 49152, 65536, 65537, 98304, 40000, 131072 + 5])
    f = c.choice(list(F))
    style = c.below(4)
    r = c.nprng()
    dt = np.dtype(d)
    if dt.kind == "b":
        a = r.integers(0, 2, n).astype(bool) if style else np.zeros(n, bool)
        a[c.int(0, n - 1)] = True
    elif style == 0:
        a = fill(c, d, n)
    else:
        # a monotone or flat background with one extreme, a few invalids: every element matters to the answer
        if style == 1:
            a = np.full(n, 5).astype(d)
        elif style == 2:
            a = (np.arange(n) * 100 // n).astype(d)
            if c.bool():
                a = a[::-1].copy()
        else:
            a = (r.integers(0, 2**31, n) if dt.kind == "f" or dt.itemsize > 4 else r.integers(0, 100, n)).astype(d)
            if dt.kind != "f" and dt.itemsize == 8 and c.bool():
                a *= np.array(2**(29 if dt.kind == "i" else 30), d)
                if dt.kind == "u" and c.bool(.3):
                    a *= np.array(4, d)
            elif dt.kind == "f" and c.bool():
                a *= np.array(c.choice([1e15, 1e-30, 3e20]), d)
        for _ in range(c.below(3)):
            a[c.int(0, n - 1)] = c.choice([0, 1, 110, 120]) if dt.kind == "u" or c.bool(.4) else -c.int(1, 120)
        if c.bool(.35):
            bad = G.invalid(dt)
            if c.bool(.5):
                a[c.int(0, n - 1)] = bad
            else:
                p = c.int(0, n - 1)
                a[p:] = bad
                if c.bool(.5):
                    a = a[::-1].copy()
    c.note(f=f, dtype=d, n=n, style=style, a=G.show(a))
    run(c, f, a, ddofs(c, f, n), True)


@law(3000, 50000)
def shaped(c):
    """any shape and memory layout, 0-dim included: the elements in C order, or declined"""
    d = c.choice(DT)
    shape = operand_shape(c)
    n = int(np.prod(shape, dtype=int)) if shape else 1
    f = c.choice(list(F))
    a = place(c, fill(c, d, n).reshape(shape))
    c.note(f=f, dtype=d, shape=shape, strides=a.strides)
    run(c, f, a, ddofs(c, f, n), False)


@law(600, 4000)
def others(c):
    """types it does not reduce, odd function numbers and arguments are declined or refused, never an error out of nowhere"""
    k = c.below(3)
    n = c.int(0, 6)
    if k == 0:
        d = c.choice(["S3", "U2", "c16", "f2", "M8[ns]", "m8[s]", "O"])
        a = np.zeros(n, d)
        f = c.choice(list(F))
        c.note(f=f, dtype=d, n=n)
        got = rc.Reduce(a, F[f])
        check(got is None, "%s of %s gave %r" % (f, d, got))
        c.nontrivial(n > 0)
    elif k == 1:
        d = c.choice(DT)
        a = np.ones(n, d)
        f = c.choice([2, 3, 99, 104, 105, 110, 111, 208, 209, 210, 211, 215, 300, 1000])
        c.note(func=f, dtype=d, n=n)
        try:
            got = rc.Reduce(a, f)
        except (ValueError, TypeError):
            return
        check(got is None, "function %d of %s gave %r" % (f, d, got))
        c.nontrivial(n > 0)
    else:
        c.note(n=n)
        check(rc.Reduce([1] * n, 0) is None, "a list was not declined")
        check(rc.Reduce(np.ones(n), "sum") is None, "a function name was not declined")
        for args in ((), (np.ones(3),), (np.ones(3), 0, 1, 2)):
            try:
                got = rc.Reduce(*args)
            except ValueError:
                continue
            raise Fail("Reduce with %d arguments gave %r" % (len(args), got))
        c.nontrivial()

"""C18: rolling windows and time windows over one array."""
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc, Fail
from C16 import windowed, near, quant, qparam, veq, M9

RULE = "a case draws a column (dtype, content with NaN, infinities and integer invalids, memory layout), a function and a window; non-trivial = window over 1 and under the length, or a time window that holds several rows"
ASSUMPTIONS = ["rows before the window is full use the rows there are", "integer invalids count as ordinary values except in the NaN-ignoring forms and quantiles; integer sums wrap at 64 bits",
               "variance is the population variance of the window", "floating results are compared within the rounding of a running sum over the rows so far", "times do not decrease"]
FN = {"sum": 0, "nansum": 1, "mean": 102, "nanmean": 103, "var": 106, "nanvar": 107, "std": 108, "nanstd": 109}


def window(c, n):
    return c.choice([1, 2, 3, 5, 2, c.int(1, n + 2), 2**31 + 5, 2**40])


def column(c, n, extra=()):
    d = c.choice(G.NUM + ["g"] + list(extra))
    v = G.values(c, "f8", n).astype(np.longdouble) if d == "g" else G.values(c, d, n)
    return v


def tame(v, lim):
    if v.dtype.kind == "f":
        with np.errstate(all="ignore"):
            return np.where(np.isfinite(v) & (np.abs(v) > lim), v.dtype.type(3), v).astype(v.dtype)
    return v


@law(4000, 60000)
def sums(c):
    """rolling sums and means"""
    n = G.size(c, lo=0, med=400)
    if c.bool(.01):
        n = c.int(2000, 40000)
    f = c.choice(["sum", "nansum", "mean", "nanmean"])
    v = tame(column(c, n, ["?"]), 1e30)
    w = window(c, n)
    if f in ("sum", "nansum") and c.bool(.03):
        w = 0
    a = G.layout(c, v, p=.2)
    c.note(n=n, f=f, w=w, v=G.show(a))
    c.nontrivial(1 < w < n)
    c.event(f)
    g = np.asarray(rc.Rolling(a, FN[f], w))
    mean, nan = "mean" in f, "nan" in f
    od = (v.dtype if v.dtype.kind == "f" else np.dtype("f8")) if mean else v.dtype if v.dtype.kind == "f" else np.dtype("i8")
    check(g.dtype == od and len(g) == n, "%s: dtype %s length %d, expected %s %d", f, g.dtype, len(g), od, n)
    if n == 0:
        return
    p = np.arange(n)
    start = np.maximum(0, p - min(w, n + 1) + 1)
    ign = G.isinv(v) if nan and v.dtype.kind != "b" else np.zeros(n, bool)
    x = v.astype(od) if mean else v
    s, mag, cn = windowed(x, start, ign)
    if mag is None:
        same(g, s, "rolling " + f)
        return
    tol = np.finfo(od).eps * mag * (p + 4) + 1e-18 * mag[-1]
    if mean:
        cn2 = cn if nan else p - start + 1
        with np.errstate(all="ignore"):
            s = s / cn2
            s[cn2 == 0] = np.nan
            tol = tol / np.maximum(cn2, 1) + 4 * np.finfo(od).eps * np.abs(s)
    near(g, s, tol, "rolling " + f, np.ones(n, bool))


@law(3000, 45000)
def variances(c):
    """rolling variance and standard deviation"""
    n = G.size(c, lo=0, med=300)
    f = c.choice(["var", "nanvar", "std", "nanstd"])
    v = tame(column(c, n, ["?"]), 1e6)
    if c.bool(.5) and v.dtype.kind == "f":
        v = np.where(np.isinf(v), v.dtype.type(1), v)
    w = window(c, n)
    a = G.layout(c, v, p=.2)
    c.note(n=n, f=f, w=w, v=G.show(a))
    c.nontrivial(1 < w < n)
    c.event(f)
    g = np.asarray(rc.Rolling(a, FN[f], w))
    nan = "nan" in f
    od = v.dtype if v.dtype.kind == "f" else np.dtype("f8")
    check(g.dtype == od and len(g) == n, "%s: dtype %s length %d", f, g.dtype, len(g))
    if n == 0:
        return
    ign = G.isinv(v) if nan and v.dtype.kind != "b" else np.zeros(n, bool)
    x = np.where(ign, 0, v.astype(od)).astype(np.longdouble)
    nonf = ~np.isfinite(x)
    eps = float(np.finfo(od).eps)
    # a value that passed leaves rounding of its own square's size behind
    seen = 0.0
    for i in range(n):
        lo = max(0, i - w + 1)
        y = x[lo:i + 1][~ign[lo:i + 1]]
        if not nonf[i]:
            seen = max(seen, float(abs(x[i])))
        if len(y) == 0 or not np.isfinite(y).all():
            check(bool(np.isnan(g[i])), "rolling %s: row %d is %r, expected NaN (window %s)", f, i, g[i], y[:5])
            continue
        var = ((y - y.mean())**2).mean()
        tol = eps * (i + 8) * 16 * seen * seen + 1e-37
        if "std" in f:
            if np.isnan(g[i]):
                check(var <= tol, "rolling %s: row %d is NaN, expected %g", f, i, var**.5)
                continue
            gv, lim = np.longdouble(g[i])**2, tol + 4 * eps * var
        else:
            gv, lim = np.longdouble(g[i]), tol
        check(abs(gv - var) <= lim, "rolling %s: row %d is %r, variance expected %g +- %g", f, i, g[i], var, lim)


@law(1500, 25000)
def quantiles(c):
    """rolling quantiles, ignoring invalids"""
    n = G.size(c, lo=0, med=120)
    v = column(c, n)
    p = qparam(c)
    w = c.choice([1, 2, 3, 4, 5, 7, c.int(1, n + 2), 2**32])
    a = G.layout(c, v, p=.2)
    c.note(n=n, p=p, w=w, v=G.show(a))
    c.nontrivial(1 < w < n)
    g = np.asarray(rc.Rolling(a, 104, p + w * (M9 + 1)))
    od = v.dtype if v.dtype.kind == "f" else np.dtype("f8")
    check(g.dtype == od and len(g) == n, "dtype %s length %d", g.dtype, len(g))
    bad = G.isinv(v)
    for i in range(n):
        lo = max(0, i - w + 1)
        x = v[lo:i + 1][~bad[lo:i + 1]]
        if len(x) == 0:
            check(bool(np.isnan(g[i])), "rolling quantile of row %d (nothing valid) is %r", i, g[i])
            continue
        ws = quant(x, p, v.dtype, od, True)
        check(any(veq(g[i], z) for z in ws), "rolling quantile %g (window %d) of row %d is %r, expected %r", p / 1e9, w, i, g[i], ws)


@law(2500, 40000)
def time_windows(c):
    """sums and products of the rows within a time span, whatever the thread count"""
    n = G.size(c, lo=0, med=300, big=.02)
    v = tame(column(c, n, ["?"]), 1e30)
    prod = c.bool(.3)
    if prod and v.dtype.kind == "f":
        v = np.where(np.isfinite(v), np.clip(v, -100, 100), v).astype(v.dtype)
    step = c.choice([0, 1, 1, 3, 100]) if n < 1000 else c.choice([1, 3, 100])
    t = (c.nprng().integers(0, step + 1, n) if n > 14 else np.array([c.below(step + 1) for _ in range(n)], np.int64))
    t = np.cumsum(t) + c.choice([0, -1000, 10**18, -10**18])
    delta = c.choice([0, 1, 2, 5, 50, -1, 10**9])
    if n > 1000 and delta * n > 10**8:
        delta = 20
    a, b = G.layout(c, v, p=.2), G.layout(c, t.astype(np.int64), p=.2)
    c.note(n=n, prod=prod, delta=delta, v=G.show(a), t=G.show(b))
    g = np.asarray(rc.TimeWindow(a, b, int(prod), delta))
    od = v.dtype if v.dtype.kind == "f" else np.dtype("u8" if v.dtype.kind == "u" else "i8")
    check(g.dtype == od and len(g) == n, "dtype %s length %d", g.dtype, len(g))
    if n == 0:
        return
    p = np.arange(n)
    # first row no further back than delta
    lo = np.minimum(np.searchsorted(t, t - delta, side="left"), p)
    c.nontrivial(bool((p - lo > 0).any()))
    c.event("prod" if prod else "sum")
    with np.errstate(all="ignore"):
        if not prod and n > 1000 and od.kind != "f":
            s, mag, cn = windowed(v, lo, np.zeros(n, bool))
            same(g, s.astype(od) if od.kind == "i" else s.view("u8"), "time window sum")
            return
        x = v.astype(od)
        idx = range(n) if n < 1000 else sorted(set(list(range(0, n, 97)) + [16383, 16384, 16385, n - 1]) & set(range(n)))
        for i in idx:
            # the order of the library's accumulation: from the row backwards
            y = x[lo[i]:i + 1][::-1]
            if od.kind == "f":
                z = (np.multiply if prod else np.add).accumulate(y)[-1]
                m = float(np.abs(y).sum()) if not prod else float(abs(z))
                ok = g[i] == z or (np.isnan(g[i]) and np.isnan(z)) or abs(float(g[i] - z)) <= float(np.finfo(od).eps) * len(y) * m
            else:
                z = (np.prod if prod else np.sum)(y, dtype=od)
                ok = g[i] == z
            check(bool(ok), "time window %s: row %d is %r, expected %r (rows from %d)", "product" if prod else "sum", i, g[i], z, lo[i])


@law(250, 2500)
def refused(c):
    """a negative window, or arrays of different length, raises and nothing else happens"""
    n = c.int(0, 20)
    v = column(c, n)
    k = c.choice(["neg", "len", "time"])
    c.note(n=n, k=k)
    c.nontrivial(n > 0)
    try:
        if k == "neg":
            r = rc.Rolling(v, c.choice(list(FN.values()) + [104]), -c.int(1, 2**40))
        elif k == "len":
            r = rc.TimeWindow(v, np.arange(n + 1), 0, 3)
        else:
            r = rc.TimeWindow(v, np.arange(n).astype("i4"), 0, 3)
    except Exception:
        return
    raise Fail("accepted: %r" % (r,))

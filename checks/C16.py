"""C16: order-dependent group functions (packed)."""
import math
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc, Fail
from C13 import labels, nbins, order, firsts

RULE = ("a case draws a value column, labels with empty bins and bin zero, int32 or int64 group arrays, a function and its parameter (n-th, quantile, window, shift); "
        "non-trivial = two or more non-empty bins, one with three rows")
ASSUMPTIONS = ["group arrays are the consistent packing of the labels", "integer invalids count as ordinary values except in the NaN-ignoring forms, quantiles and trimmed means",
               "integer sums wrap at 64 bits, integer differences wrap at the value width", "ties of the mode go to the smallest value; the median of integers truncates",
               "rows of bin zero are marked invalid by the per-row functions when bin zero is in the range"]
FIRST, NTH, LAST, MEDIAN, MODE, TRIM, QUANT = range(100, 107)
RSUM, RNANSUM, RDIFF, RSHIFT, RCOUNT, RMEAN, RNANMEAN, RQUANT = range(200, 208)
M9 = 10**9


def call(c, v, k, nu, fn, low, high, par):
    o, cnt = order(k, nu)
    d = c.choice(["i4", "i8"])
    r = rc.GroupByAllPack32([v], k, G.layout(c, o.astype(d), .1), G.layout(c, firsts(cnt).astype(d), .1), G.layout(c, cnt.astype(d), .1), nu, [fn], [low], [high], par)
    check(len(r) == 1, "%d results for one column", len(r))
    return np.asarray(r[0]), o, cnt


def setup(c, med=300, big=.03):
    n = G.size(c, big=big, lo=1, med=med)
    if n > 16000 and c.bool(.5):
        n = c.int(65537, 120000)
    nu = nbins(c, min(n, 3000))
    k = labels(c, n, nu)
    return n, nu, k


def rng_bins(c, nu):
    if c.bool(.8):
        return c.int(0, 1), nu + 1
    low = c.int(0, nu)
    return low, c.int(low + 1, nu + 1)


def groups(o, cnt, lo, hi):
    f = firsts(cnt)
    for b in range(lo, hi):
        yield b, o[f[b]:f[b] + cnt[b]]


def blank(d, n):
    return np.zeros(n, d) if d.kind in "SUV" else np.full(n, G.invalid(d) if d.kind != "b" else False, d)


@law(2500, 40000)
def picks(c):
    """first, last and n-th row of each group"""
    n, nu, k = setup(c)
    d = c.choice(G.NUMB + ["g", "S", "U"])
    v = G.values(c, "f8", n).astype(np.longdouble) if d == "g" else G.values(c, d, n)
    fn = c.choice([FIRST, NTH, LAST])
    par = c.choice([0, 1, 2, -1, -2, 5, c.int(-n - 2, n + 2)]) if fn == NTH else 0
    low, high = rng_bins(c, nu)
    c.note(n=n, nu=nu, fn=fn, par=par, low=low, high=high, k=G.show(k), v=G.show(v))
    g, o, cnt = call(c, v, k, nu, fn, low, high, par)
    c.nontrivial((cnt > 0).sum() > 1 and cnt.max() > 2)
    f = firsts(cnt)
    j = {FIRST: np.zeros(nu + 1, np.int64), LAST: cnt - 1, NTH: np.where(par >= 0, par, cnt + par)}[fn]
    ok = (cnt > 0) & (j >= 0) & (j < cnt)
    want = blank(v.dtype, nu + 1)
    want[ok] = v[o[(f + j)[ok]]]
    check(g.dtype == v.dtype and len(g) == nu + 1, "dtype %s length %d, expected %s %d", g.dtype, len(g), v.dtype, nu + 1)
    c.event({FIRST: "first", NTH: "nth", LAST: "last"}[fn])
    same(g[low:high], want[low:high], {FIRST: "first", NTH: "nth", LAST: "last"}[fn], sign=True)


def median(x):
    d = x.dtype
    x = np.sort(x[x == x])
    m = len(x)
    if m == 0:
        return None
    if m & 1:
        return x[m // 2]
    a, b = x[m // 2], x[m // 2 - 1]
    if d.kind == "b":
        return a | b
    if d.kind in "iu":
        s = int(a) + int(b)
        return d.type(abs(s) // 2 * (1 if s >= 0 else -1))
    return (a + b) / d.type(2)


def mode(x):
    x = x[x == x]
    if len(x) == 0:
        return None
    u, cn = np.unique(x, return_counts=True)
    return u[np.argmax(cn)]


def ntrim(n):
    nb = 0.0001 * n
    safe = math.ceil(nb)
    if nb > 50:
        safe = math.ceil(nb + 2.6521 * math.sqrt(nb))
    else:
        p = add = math.exp(-nb)
        i = 0
        while p < 0.996 and i < 100:
            i += 1
            add *= nb / i
            p += add
        safe = max(safe, i)
    return min(max(safe, 1), n)


def trim(x):
    x = np.sort(x[~G.isinv(x)]) if x.dtype.kind != "b" else np.sort(x)
    n = len(x)
    t = ntrim(n) if n else 0
    if n == 0 or n <= 2 * t:
        return None
    lb, ub = x[t - 1], x[n - t]
    y = x[(x >= lb) & (x <= ub)].astype(np.longdouble)
    return (y.sum() / len(y), float(np.abs(y).mean()))


@law(2500, 40000)
def order_stats(c):
    """median, mode and trimmed mean of each group"""
    n, nu, k = setup(c, med=600)
    fn = c.choice([MEDIAN, MODE, TRIM])
    d = c.choice(G.NUMB + ["g"])
    st = c.choice([None, "small"])
    if fn == TRIM and c.bool(.15):
        n = c.int(2000, 30000)
        nu = c.int(1, 6)
        k = labels(c, n, nu)
    v = G.values(c, "f8", n, style=st).astype(np.longdouble) if d == "g" else G.values(c, d, n, style=st)
    if fn == TRIM and v.dtype.kind == "f":
        with np.errstate(all="ignore"):
            v = np.where(np.isfinite(v) & (np.abs(v) > 1e30), v.dtype.type(3), v).astype(v.dtype)
    low, high = rng_bins(c, nu)
    c.note(n=n, nu=nu, fn=fn, low=low, high=high, k=G.show(k), v=G.show(v))
    g, o, cnt = call(c, v, k, nu, fn, low, high, 0)
    c.nontrivial((cnt > 0).sum() > 1 and cnt.max() > 2)
    od = v.dtype if fn != TRIM else np.dtype("f4" if v.dtype in (np.dtype("f4"), np.dtype("?")) else "f8")
    name = {MEDIAN: "median", MODE: "mode", TRIM: "trimmed mean"}[fn]
    c.event(name)
    check(g.dtype == od and len(g) == nu + 1, "dtype %s length %d, expected %s %d", g.dtype, len(g), od, nu + 1)
    for b, rows in groups(o, cnt, low, high):
        x = v[rows]
        with np.errstate(all="ignore"):
            w = {MEDIAN: median, MODE: mode, TRIM: trim}[fn](x)
        if w is None:
            if od.kind != "b":
                check(bool(G.isinv(g[b:b + 1])[0]), "%s of bin %d (no valid rows) is %r", name, b, g[b])
            continue
        if fn == TRIM:
            w, a = w
            tol = (2e-7 if od == np.dtype("f4") else 1e-15 * (10 + len(x))) * a
            if w != w:
                check(g[b] != g[b], "%s of bin %d is %r, expected nan", name, b, g[b])
            else:
                check(g[b] == w or abs(g[b] - w) <= tol, "%s of bin %d is %r, expected %r", name, b, g[b], float(w))
        else:
            check(g[b] == w or (w != w and g[b] != g[b]), "%s of bin %d is %r, expected %r", name, b, g[b], w)


def quant(x, p, d, od, eps):
    """admissible values of the p/1e9 quantile of the valid values of x (midpoint interpolation)"""
    m = len(x)
    x = np.sort(x)
    num = (m - 1) * p
    lo, rem = divmod(num, M9)
    if rem == 0:
        res = [x[lo].astype(od)]
        if eps:
            return res
        # the index is computed in double: one ulp off brings in a neighbour
        near = [(lo, lo + 1), (lo - 1, lo)] if (num * 1e-9 != lo) or ((m - 1) * (p / 1e9) != lo) else []
    else:
        near = [(lo, lo + 1)]
        res = []
        fr = rem / M9
        if eps and fr < 2e-3:
            res.append(x[lo].astype(od))
        if eps and fr > 1 - 2e-3:
            res.append(x[lo + 1].astype(od))
    with np.errstate(all="ignore"):
        for i, j in near:
            if 0 <= i and j < m:
                a, b = x[i], x[j]
                if d.kind == "b":
                    res.append(a | b)
                elif d.kind in "iu":
                    res.append(np.float64((float(a) + float(b)) / 2))
                else:
                    # the sum is formed in the value type or in the result type
                    res.append(((a + b) / d.type(2)).astype(od))
                    res.append(((a.astype(od) + b.astype(od)) / od.type(2)).astype(od))
    return res


def qparam(c):
    return c.weighted([(3, c.choice([0, 5 * 10**8, M9, 25 * 10**7, 75 * 10**7])), (3, c.int(0, 100) * 10**7), (2, c.int(0, M9))])


def veq(a, b):
    return bool(a == b) or bool(a != a and b != b)


@law(1800, 30000)
def quantiles(c):
    """quantiles of each group, propagating or ignoring invalids"""
    n, nu, k = setup(c, med=400)
    d = c.choice(G.NUMB + ["g"])
    v = G.values(c, "f8", n).astype(np.longdouble) if d == "g" else G.values(c, d, n)
    p = qparam(c)
    nan = c.bool(.6)
    low, high = rng_bins(c, nu)
    c.note(n=n, nu=nu, p=p, nan=nan, low=low, high=high, k=G.show(k), v=G.show(v))
    g, o, cnt = call(c, v, k, nu, QUANT, low, high, p + (M9 + 1 if nan else 0))
    c.nontrivial((cnt > 0).sum() > 1 and cnt.max() > 2)
    od = v.dtype if v.dtype.kind in "bf" else np.dtype("f8")
    check(g.dtype == od and len(g) == nu + 1, "dtype %s length %d, expected %s %d", g.dtype, len(g), od, nu + 1)
    bad = G.isinv(v) if v.dtype.kind != "b" else np.zeros(n, bool)
    for b, rows in groups(o, cnt, low, high):
        x = v[rows]
        xb = bad[rows]
        if len(x) == 0 or (xb.all() if nan else xb.any()):
            if od.kind != "b":
                check(bool(np.isnan(g[b])), "quantile of bin %d (nothing valid) is %r", b, g[b])
            continue
        ws = quant(x[~xb], p, v.dtype, od, False)
        check(any(veq(g[b], w) for w in ws), "quantile %g of bin %d is %r, expected %r", p / 1e9, b, g[b], ws)


class Sorted:
    """rows in group order with window arithmetic"""
    def __init__(self, v, k, nu):
        self.o, self.cnt = order(k, nu)
        self.kk = k[self.o].astype(np.int64)
        self.gs = firsts(self.cnt)[self.kk]
        self.ge = self.gs + self.cnt[self.kk]
        self.p = np.arange(len(v))
        self.x = v[self.o]

    def put(self, y):
        r = np.empty_like(y)
        r[self.o] = y
        return r


def windowed(x, start, ignore):
    """exact windowed sums of x[start[i]..i]: (sum, sum of magnitudes of all prefixes, valid count)"""
    n = len(x)
    bad = ignore

    def win(a, z):
        s = np.concatenate([[z], np.cumsum(a, dtype=a.dtype)])
        return s[1:] - s[start]

    cnt = win((~bad).astype(np.int64), 0)
    if x.dtype.kind in "biu":
        with np.errstate(all="ignore"):
            y = np.where(bad, 0, x.astype(np.int64))
            return win(y, np.int64(0)), None, cnt
    nonf = ~np.isfinite(x) & ~bad
    y = np.where(bad | nonf, 0, x).astype(np.longdouble)
    s = win(y, np.longdouble(0))
    nn = win((np.isnan(x) & ~bad).astype(np.int64), 0)
    pi = win(((x == np.inf) & ~bad).astype(np.int64), 0)
    ni = win(((x == -np.inf) & ~bad).astype(np.int64), 0)
    mag = np.cumsum(np.abs(y))
    s = np.where(nn + ((pi > 0) & (ni > 0)) > 0, np.nan, np.where(pi > 0, np.inf, np.where(ni > 0, -np.inf, s)))
    return s, mag, cnt


def near(g, w, tol, what, sel):
    g = g.astype(np.longdouble)
    with np.errstate(all="ignore"):
        bad = ~((g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= tol)) & sel
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        raise Fail("%s: row %d is %r, expected %r +- %g" % (what, i, float(g[i]), float(w[i]), float(np.broadcast_to(tol, w.shape)[i])))


def bounded(v):
    if v.dtype.kind == "f":
        with np.errstate(all="ignore"):
            return np.where(np.isfinite(v) & (np.abs(v) > 1e30), v.dtype.type(3), v).astype(v.dtype)
    return v


@law(3000, 45000)
def rolling(c):
    """rolling sums and means of each group's own last rows"""
    n, nu, k = setup(c, med=400)
    fn = c.choice([RSUM, RNANSUM, RMEAN, RNANMEAN])
    d = c.choice(G.NUM + ["g"] + (["?"] if fn in (RSUM, RNANSUM) else []))
    v = G.values(c, "f8", n).astype(np.longdouble) if d == "g" else G.values(c, d, n)
    v = bounded(v)
    w = c.choice([1, 2, 3, 5, c.int(0, n + 2), 2**31 + 5, 2**40])
    low, high = rng_bins(c, nu)
    c.note(n=n, nu=nu, fn=fn, w=w, low=low, high=high, k=G.show(k), v=G.show(v))
    g, o, cnt = call(c, v, k, nu, fn, low, high, w)
    S = Sorted(v, k, nu)
    c.nontrivial((cnt > 0).sum() > 1 and cnt.max() > 2 and w > 1)
    c.event({RSUM: "sum", RNANSUM: "nansum", RMEAN: "mean", RNANMEAN: "nanmean"}[fn])
    mean = fn in (RMEAN, RNANMEAN)
    nan = fn in (RNANSUM, RNANMEAN)
    od = np.dtype("f8") if mean else v.dtype if v.dtype.kind == "f" else np.dtype("i8")
    check(g.dtype == od and len(g) == n, "dtype %s length %d, expected %s %d", g.dtype, len(g), od, n)
    start = np.maximum(S.gs, S.p - min(w, n + 1) + 1)
    ign = G.isinv(S.x) if nan and v.dtype.kind != "b" else np.zeros(n, bool)
    sel = S.put((S.kk >= max(low, 1)) & (S.kk < high))
    xs = S.x
    if mean:
        xs = xs.astype("f8")
    s, mag, cn = windowed(xs, start, ign)
    inv0 = S.put((S.kk == 0)) & (low == 0)
    if inv0.any():
        check(bool(G.isinv(g[inv0]).all()), "rows of bin zero are not all invalid")
    if mag is None:
        same(g[sel], S.put(s)[sel], "rolling sum")
        return
    # every step rounds a partial sum no larger than what has passed through
    tol = np.finfo(od).eps * (mag - np.where(S.gs > 0, mag[np.maximum(S.gs, 1) - 1], 0)) * (S.p - S.gs + 4) + 1e-18 * mag[-1]
    if mean:
        cn2 = cn if nan else S.p - start + 1
        with np.errstate(all="ignore"):
            s = s / cn2
            if nan:
                s[cn2 == 0] = np.nan
            tol = tol / np.maximum(cn2, 1) + 1e-15 * np.abs(s)
        if w == 0 and not nan:
            return
    near(g, S.put(s), S.put(tol), "rolling " + ("mean" if mean else "sum"), sel)


@law(2500, 40000)
def positions(c):
    """shift, difference and running count within each group"""
    n, nu, k = setup(c, med=400)
    fn = c.choice([RSHIFT, RDIFF, RCOUNT])
    d = c.choice(G.NUMB + ["g", "S", "U"] if fn == RSHIFT else G.NUM + ["g"] if fn == RDIFF else G.INT)
    v = G.values(c, "f8", n).astype(np.longdouble) if d == "g" else G.values(c, d, n)
    w = c.choice([0, 1, -1, 2, -2, 3, c.int(-n - 2, n + 2), 2**31 + 1, -2**33])
    low, high = rng_bins(c, nu)
    c.note(n=n, nu=nu, fn=fn, w=w, low=low, high=high, k=G.show(k), v=G.show(v))
    g, o, cnt = call(c, v, k, nu, fn, low, high, w)
    S = Sorted(v, k, nu)
    c.nontrivial((cnt > 0).sum() > 1 and cnt.max() > 2)
    od = np.dtype("i4") if fn == RCOUNT else v.dtype
    check(g.dtype == od and len(g) == n, "dtype %s length %d, expected %s %d", g.dtype, len(g), od, n)
    if fn == RCOUNT:
        y = (S.ge - 1 - S.p if w < 0 else S.p - S.gs).astype(np.int32)
    else:
        src = S.p - w
        ok = (src >= S.gs) & (src < S.ge)
        y = blank(v.dtype, n)
        with np.errstate(all="ignore"):
            prev = S.x[np.where(ok, src, 0)] if n else S.x
            y[ok] = (prev if fn == RSHIFT else S.x - prev)[ok]
    sel = S.put((S.kk >= max(low, 1)) & (S.kk < high))
    inv0 = S.put((S.kk == 0)) & (low == 0)
    name = {RSHIFT: "shift", RDIFF: "diff", RCOUNT: "count"}[fn]
    c.event(name)
    if inv0.any():
        same(g[inv0], blank(od, int(inv0.sum())), "bin zero rows of " + name)
    same(g[sel], S.put(y)[sel], name, sign=fn == RSHIFT)


@law(900, 15000)
def rolling_quantiles(c):
    """quantile of each group's last rows, ignoring invalids"""
    n, nu, k = setup(c, med=150, big=0)
    d = c.choice(G.NUM + ["g"])
    v = G.values(c, "f8", n).astype(np.longdouble) if d == "g" else G.values(c, d, n)
    p = qparam(c)
    w = c.choice([1, 2, 3, 4, 5, 7, c.int(1, n + 2), 2**32])
    low, high = rng_bins(c, nu)
    c.note(n=n, nu=nu, p=p, w=w, low=low, high=high, k=G.show(k), v=G.show(v))
    g, o, cnt = call(c, v, k, nu, RQUANT, low, high, p + w * (M9 + 1))
    c.nontrivial((cnt > 0).sum() > 1 and cnt.max() > 2 and w > 1)
    od = np.dtype("f8")
    check(g.dtype == od and len(g) == n, "dtype %s length %d", g.dtype, len(g))
    bad = G.isinv(v)
    for b, rows in groups(o, cnt, low, high):
        for j, i in enumerate(rows):
            if b == 0:
                check(bool(np.isnan(g[i])), "row %d of bin zero is %r", i, g[i])
                continue
            win = rows[max(0, j - w + 1):j + 1]
            x = v[win][~bad[win]]
            if len(x) == 0:
                check(bool(np.isnan(g[i])), "rolling quantile of row %d (nothing valid) is %r", i, g[i])
                continue
            ws = quant(x, p, v.dtype, od, True)
            check(any(veq(g[i], z) for z in ws), "rolling quantile %g (window %d) of row %d is %r, expected %r", p / 1e9, w, i, g[i], ws)

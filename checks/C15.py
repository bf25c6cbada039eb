"""C15: group aggregates."""
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc, Fail
from C13 import labels, nbins

RULE = ("a case draws 1-3 value columns (dtype, content with invalids), labels (width, empty bins, bin 0, skew), an aggregate per column and lengths across the scatter/gather "
        "threshold; non-trivial = two or more non-empty bins, one with two rows")
ASSUMPTIONS = ["labels lie in 0..number of bins", "integer sums wrap at 64 bits", "floating sums are compared within n*eps*sum|x| (accumulation order is the library's)",
               "the bin below binLow is not part of the result; an empty bin of a bool min/max has no defined value"]
FN = {0: "sum", 1: "mean", 2: "min", 3: "max", 4: "var", 5: "std", 50: "nansum", 51: "nanmean", 52: "nanmin", 53: "nanmax", 54: "nanvar", 55: "nanstd"}


def value_col(c, n, fn):
    d = c.choice(["i4", "f8", "f4", "i8", "i1", "i2", "u1", "u2", "u4", "u8", "?", "g"])
    vs = fn % 50 >= 4
    if d == "g":
        a = G.values(c, "f8", n, style="small" if vs else None).astype(np.longdouble)
    elif vs and d in ("f4", "f8"):
        a = G.values(c, d, n, style=c.choice(["small", "full"]))
    else:
        a = G.values(c, d, n)
    return G.layout(c, a, .1)


def out_dtype(fn, d):
    f = FN[fn].replace("nan", "")
    if f in ("min", "max"):
        return d
    if f == "sum":
        return np.dtype("i8") if d.kind in "bi" else np.dtype("u8") if d.kind == "u" else d
    return np.dtype("f4") if d == np.dtype("f4") else np.dtype("f8")


def model(fn, v, k, nb):
    """(expected, tolerance) per bin 0..nb"""
    name = FN[fn]
    nan = name.startswith("nan")
    f = name[3:] if nan else name
    od = out_dtype(fn, v.dtype)
    bad = G.isinv(v) if v.dtype.kind != "b" else np.zeros(len(v), bool)
    k = k.astype(np.int64)
    nbad = np.bincount(k[bad], minlength=nb + 1) > 0
    ok = ~bad
    kv, vv = k[ok], v[ok]
    cnt = np.bincount(kv, minlength=nb + 1)
    tot = np.bincount(k, minlength=nb + 1)
    eps = np.finfo("f4").eps * 12 if od == np.dtype("f4") else 2.3e-16 * (8 + cnt)
    with np.errstate(all="ignore"):
        if f in ("min", "max"):
            init = G.invalid(v.dtype) if v.dtype.kind != "b" else True
            out = np.full(nb + 1, init, v.dtype)
            o = np.argsort(vv, kind="stable")
            if f == "min":
                o = o[::-1]
            out[kv[o]] = vv[o]
            if not nan and v.dtype.kind != "b":
                out[nbad] = G.invalid(v.dtype)
            return out, None
        if od.kind in "iu":
            out = np.zeros(nb + 1, od)
            np.add.at(out, kv, vv.astype(od))
            if not nan:
                out[nbad] = G.invalid(od)
            return out, None
        s = np.zeros(nb + 1, np.longdouble)
        a = np.zeros(nb + 1, np.longdouble)
        # a double accumulator sees an integer after rounding
        x = vv.astype("f8").astype(np.longdouble) if od != np.longdouble else vv.astype(np.longdouble)
        np.add.at(s, kv, x)
        np.add.at(a, kv, np.abs(x))
        if f == "sum":
            out, tol = s, eps * a
        else:
            m = s / cnt
            if f == "mean":
                out, tol = m, eps * a / np.maximum(cnt, 1)
            else:
                q = np.zeros(nb + 1, np.longdouble)
                np.add.at(q, kv, (x - m[kv]) ** 2)
                out = q / (cnt - 1)
                dm = 2.3e-16 * (8 + cnt) * a / np.maximum(cnt, 1)
                tol = (np.finfo("f4").eps * 4 if od == np.dtype("f4") else 1e-15 * (8 + cnt)) * np.abs(out) + 4 * dm * dm + 1e-300
                if f == "std":
                    lo = np.sqrt(np.maximum(out - tol, 0))
                    out = np.sqrt(out)
                    tol = np.abs(out - lo) + (1e-7 if od == np.dtype("f4") else 1e-15) * np.abs(out)
                out[cnt < 2] = np.nan
        if f == "mean":
            out[cnt == 0] = np.nan
        if not nan:
            out[nbad] = np.nan
    return out, tol


def compare(got, want, tol, od, sl, what):
    got = np.asarray(got)
    check(got.dtype == od, "%s: dtype %s, expected %s", what, got.dtype, od)
    g, w = got[sl], want[sl]
    if tol is None:
        same(g, w.astype(od), what)
        return
    g = g.astype(np.longdouble)
    with np.errstate(all="ignore"):
        lim = np.finfo(od).max
        w2 = np.where(np.abs(w) > lim, np.copysign(np.inf, w), w) if od != np.longdouble else w
        t = tol[sl]
        # near overflow, and where infinities meet, the order of accumulation decides
        risky = np.abs(w) > lim / 4 if od != np.longdouble else np.zeros(len(w), bool)
        bad = ~((g == w2) | (np.isnan(g) & np.isnan(w2)) | (np.abs(g - w2) <= t) | (risky & ~np.isnan(w2)))
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        raise Fail("%s: bin %d is %r, expected %r +- %g" % (what, sl.start + i, float(g[i]), float(w2[i]), float(t[i])))


def huge(v):
    """finite floats so large that partial sums overflow: the result depends on order"""
    if v.dtype.kind != "f":
        return False
    a = np.abs(v[np.isfinite(v)].astype(np.longdouble))
    lim = np.finfo(v.dtype if v.dtype != np.longdouble else np.dtype("f8")).max / 4
    return bool(len(a) and a.sum() > lim)


@law(6000, 80000)
def aggregates(c):
    """every aggregate of every bin equals the aggregate of that bin's valid rows"""
    n = G.size(c, big=.05, lo=1, med=500)
    if n > 60 and c.bool(.05):
        n = c.int(60, 300000)
    nu = nbins(c, n)
    if c.bool(.1):
        nu = max(1, n // c.int(10, 30))
    k = labels(c, n, nu)
    m = c.weighted([(6, 1), (1, 2), (1, 3)])
    fns = [c.choice(list(FN)) for _ in range(m)]
    cols = [value_col(c, n, f) for f in fns]
    low = c.int(0, 1)
    c.note(n=n, nu=nu, fns=[FN[f] for f in fns], low=low, k=G.show(k), cols="[" + ", ".join(G.show(a, 30) for a in cols) + "]")
    keep = [a.copy() for a in cols]
    r = rc.GroupByAll32(cols, k, nu, fns, [low] * m, [nu + 1] * m, 0)
    cnt = np.bincount(k.astype(np.int64), minlength=nu + 1)
    c.nontrivial((cnt > 0).sum() > 1 and cnt.max() > 1)
    check(len(r) == m, "%d results for %d columns", len(r), m)
    for a, f, x in zip(keep, fns, r):
        c.event(FN[f])
        if huge(a) and FN[f].replace("nan", "") in ("sum", "mean", "var", "std"):
            c.event("skipped-overflow")
            continue
        w, t = model(f, a, k, nu)
        sl = slice(low, nu + 1)
        if a.dtype.kind == "b" and t is None and FN[f].replace("nan", "") in ("min", "max"):
            ne = cnt > 0
            ne[:low] = False
            same(np.asarray(x)[ne], w[ne], FN[f])
            continue
        compare(x, w, t, out_dtype(f, a.dtype), sl, "%s of %s" % (FN[f], a.dtype))
    for a, b in zip(cols, keep):
        check(a.tobytes() == b.tobytes(), "an input column was changed")


@law(500, 6000)
def banded(c):
    """a bin range gets the same values as the whole"""
    n = G.size(c, lo=1, med=400)
    nu = c.int(2, 40)
    k = labels(c, n, nu)
    f = c.choice(list(FN))
    v = value_col(c, n, f)
    low = c.int(0, nu)
    high = c.int(low, nu + 1)
    c.note(n=n, nu=nu, fn=FN[f], low=low, high=high, k=G.show(k), v=G.show(v))
    r = rc.GroupByAll32([v], k, nu, [f], [low], [high], 0)
    cnt = np.bincount(k.astype(np.int64), minlength=nu + 1)
    c.nontrivial((cnt[low:high] > 0).sum() > 1 and cnt[low:high].max() > 1)
    if high <= low or huge(v):
        return
    w, t = model(f, v, k, nu)
    sl = slice(low, high)
    if v.dtype.kind == "b" and FN[f].replace("nan", "") in ("min", "max"):
        ne = cnt > 0
        ne[:low] = False
        ne[high:] = False
        same(np.asarray(r[0])[ne], w[ne], FN[f])
        return
    compare(r[0], w, t, out_dtype(f, v.dtype), sl, "%s of %s" % (FN[f], v.dtype))


@law(1500, 8000)
def split(c):
    """arrays long enough to be split over threads, whose parts must be combined: few bins, invalids in few places"""
    n = c.choice([32768, 49152, 65536, 98304]) + c.int(0, 60000)
    nu = c.int(1, 12)
    r = c.nprng()
    f = c.choice(list(FN))
    d = c.choice(["i4", "f8", "f4", "i8", "i1", "i2", "u1", "u2", "u4", "u8"])
    k = r.integers(0, nu + 1, n)
    shape = c.choice(["mixed", "blocks", "rare"])
    if shape == "blocks":
        k = np.sort(k)
        if c.bool():
            k = k[::-1]
    elif shape == "rare":
        k = np.where(r.random(n) < c.choice([1e-4, 1e-3, .5]), k, 1)
    k = np.ascontiguousarray(k.astype(c.choice(["i1", "i2", "i4", "i8"])))
    hi = 100 if np.dtype(d).itemsize == 1 else 1000
    v = r.integers(0 if d[0] == "u" else -hi, hi, n).astype(d)
    if c.bool(.4):
        v = np.abs(v).astype(d) if c.bool() else (-np.abs(v)).astype(d)
    # invalids: nowhere, at a few rows, or all over one stretch
    how = c.weighted([(1, "none"), (3, "few"), (2, "stretch"), (1, "group")])
    if how == "few":
        v[r.integers(0, n, c.int(1, 8))] = G.invalid(d)
    elif how == "stretch":
        a = c.int(0, n)
        v[a:a + c.choice([100, 16384, 30000])] = G.invalid(d)
    elif how == "group":
        v[k == c.int(0, nu)] = G.invalid(d)
    c.note(n=n, nu=nu, fn=FN[f], d=d, shape=shape, invalids=how)
    c.event(FN[f])
    c.nontrivial(True)
    w, t = model(f, v, k, nu)
    if t is not None:
        cnt = np.bincount(k.astype(np.int64), minlength=nu + 1)
        t = t * 8 + (np.finfo(out_dtype(f, v.dtype)).eps * cnt * hi if out_dtype(f, v.dtype) == np.dtype("f4") and FN[f].endswith("sum") else 0)
    for i in range(c.choice([1, 3])):      # which worker takes which part differs from call to call
        x = rc.GroupByAll32([v], k, nu, [f], [0], [nu + 1], 0)[0]
        compare(x, w, t, out_dtype(f, v.dtype), slice(0, nu + 1), "%s of %s" % (FN[f], v.dtype))

"""C17: cumulative and exponentially weighted functions per group (EmaAll32)."""
import math
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc, Fail
from C13 import labels, nbins

RULE = ("a case draws one to six value columns, labels with bin zero and empty bins (any layout), a function, optional include and reset masks and, for the exponential ones, times of "
        "seven dtypes and a rate; non-trivial = two groups of two rows or more are interleaved or a mask is given")
ASSUMPTIONS = ["labels lie in 0..number of bins", "integer sums and products wrap at 64 bits", "rows of bin zero are invalid (0 for the running count); bool has no invalid value there",
               "a reset counts only on included rows, and clears the group's state before the row is added", "excluded rows: cumulative functions and ema_normal with a reset mask repeat "
               "the running value, ema_decay and ema_weighted take 0 for the row's value, ema_normal takes the last included value (0 before the first)",
               "ema_normal and ema_weighted start from the group's first row, from 0 when it is excluded",
               "times do not decrease for integer time types; the rate is not negative"]
SUM, DECAY, PROD, NTH, NORMAL, WEIGHTED, NMAX, NMIN, MAX, MIN = range(300, 310)
NAMES = {SUM: "cumsum", DECAY: "ema_decay", PROD: "cumprod", NTH: "findnth", NORMAL: "ema_normal", WEIGHTED: "ema_weighted", NMAX: "cumnanmax", NMIN: "cumnanmin", MAX: "cummax", MIN: "cummin"}


def mask(c, n, p=.5):
    if not c.bool(p):
        return None
    w = c.choice([.5, .5, .9, .1, 0, 1])
    if n > 14:
        m = c.nprng().random(n) < w
    else:
        m = np.array([c.bool(w) for _ in range(n)], bool)
    return G.layout(c, m, p=.2)


def setup(c):
    n = G.size(c, lo=1, med=250)
    if c.bool(.01):
        n = c.int(3000, 40000)
    nu = nbins(c, min(n, 400))
    k = G.layout(c, labels(c, n, nu), p=.15)
    return n, nu, k, mask(c, n), mask(c, n, .4)


def column(c, n, d=None, style=None, specials=True):
    d = d or c.choice(G.NUMB + ["g"])
    v = G.values(c, "f8", n, style=style, specials=specials).astype(np.longdouble) if d == "g" else G.values(c, d, n, style=style, specials=specials)
    return G.layout(c, v, p=.15)


def nontriv(c, n, k, inc, res):
    _, cn = np.unique(k[k > 0], return_counts=True)
    c.nontrivial((cn > 1).sum() > 1 or (len(cn) and (inc is not None or res is not None)))


def run(vals, k, nu, fn, par, t, inc, res):
    r = rc.EmaAll32(list(vals), k, nu, fn, (par, t, inc, res))
    check(isinstance(r, tuple) and len(r) == len(vals), "%d results for %d columns", len(r), len(vals))
    return r


def wide(d):
    return d if d.kind == "f" else np.dtype("u8") if d.kind == "u" else np.dtype("i8")


def cum_model(fn, v, k, inc, res):
    """running values; the second array marks rows whose value is defined"""
    n = len(v)
    d = v.dtype
    ok = np.ones(n, bool)
    od = {NTH: np.dtype("i4")}.get(fn, wide(d) if fn in (SUM, PROD) else d)
    isint = od.kind in "iu"
    iv = G.invalid(od) if od.kind != "b" else False
    bad = G.isinv(v) if d.kind != "b" else np.zeros(n, bool)
    out = np.zeros(n, od)
    st = {}
    x = v.astype(od) if fn in (SUM, PROD) else v
    x = x.tolist() if isint or od.kind == "b" else list(x)
    m64 = (1 << 64) - 1
    for i in range(n):
        g = int(k[i])
        if g < 1:
            out[i] = 0 if fn == NTH else iv
            ok[i] = od.kind != "b" or fn == NTH
            continue
        use = inc is None or bool(inc[i])
        if fn == NTH:
            if use:
                st[g] = st.get(g, 0) + 1
            out[i] = st[g] if use else 0
            continue
        if fn in (SUM, PROD):
            s = st.get(g, x[0] * 0 if False else (0 if fn == SUM else 1) if isint else od.type(0 if fn == SUM else 1))
            if use:
                if res is not None and res[i]:
                    s = (0 if fn == SUM else 1) if isint else od.type(0 if fn == SUM else 1)
                s = s + x[i] if fn == SUM else s * x[i]
                if isint:
                    s &= m64
            st[g] = s
            out[i] = (s if od.kind == "u" or s < 1 << 63 else s - (1 << 64)) if isint else s
            continue
        s = st.get(g)           # (value, is it invalid)
        if use:
            y = (x[i], bool(bad[i]))
            if s is None or (res is not None and res[i]):
                s = y
            elif fn in (NMAX, NMIN):
                if not y[1] and (s[1] or (y[0] > s[0] if fn == NMAX else y[0] < s[0])):
                    s = y
            elif not s[1] and (y[1] or (y[0] > s[0] if fn == MAX else y[0] < s[0])):
                s = y
            st[g] = s
        if s is None:
            out[i] = iv
            ok[i] = od.kind != "b"
        else:
            out[i] = s[0]
    return out, ok


@law(4000, 60000)
def cumulative(c):
    """running sums, products, counts, minima and maxima"""
    n, nu, k, inc, res = setup(c)
    fn = c.choice([SUM, PROD, NTH, NMAX, NMIN, MAX, MIN])
    vals = [column(c, n) for _ in range(c.weighted([(5, 1), (2, 2), (1, 6)]))]
    c.note(n=n, nu=nu, fn=NAMES[fn], k=G.show(k), inc=None if inc is None else G.show(inc), res=None if res is None else G.show(res), v=[G.show(v) for v in vals])
    r = run(vals, k, nu, fn, 0.0, None, inc, res)
    nontriv(c, n, k, inc, res)
    c.event(NAMES[fn])
    with np.errstate(all="ignore"):
        for v, g in zip(vals, r):
            want, ok = cum_model(fn, v, k, inc, res)
            check(g.dtype == want.dtype and len(g) == n, "%s: %s length %d, expected %s %d", NAMES[fn], g.dtype, len(g), want.dtype, n)
            same(np.asarray(g)[ok], want[ok], NAMES[fn])


def times(c, n):
    d = c.choice(["f8", "i8", "i4", "f4", "u4", "u8", "g"])
    step = c.choice([1, 1, 3, 100])
    if n > 14:
        t = c.nprng().integers(0, step + 1, n)
    else:
        t = np.array([c.below(step + 1) for _ in range(n)], np.int64)
    t = np.cumsum(t)
    start = c.choice([0, 0, 1, 10**6] if d[0] == "u" else [0, 0, 1, -7, -1000, -10**6, 10**6])
    if d == "f4" and abs(start) > 1000:
        start //= 100
    t = t + start
    if d in ("f8", "f4", "g"):
        t = t.astype(d)
        if c.bool(.5):
            t = (t / t.dtype.type(c.choice([2, 8, 10]))).astype(d)
        if c.bool(.15) and n:
            t = t[::-1].copy() if abs(t[-1] - t[0]) < 20 else t
    return G.layout(c, t.astype(d), p=.15)


def ema_model(fn, v, k, t, inc, res, par):
    n = len(v)
    out = np.full(n, np.nan)
    tol = np.zeros(n)
    x = [float(y) for y in v]
    last, lt, lv, ab = {}, {}, {}, {}
    for i in range(n):
        g = int(k[i])
        if g < 1:
            continue
        use = inc is None or bool(inc[i])
        rs = res is not None and bool(res[i]) and use
        new = g not in last
        if fn == DECAY:
            a = x[i] if use else 0.0
            if rs or new:
                e, b = 0.0, 0.0
            else:
                w = math.exp(min(700, -par * float(t[i] - lt[g])))
                e, b = last[g] * w, ab[g] * w
            last[g] = a + e
            ab[g] = abs(a) + b
            lt[g] = t[i]
        elif fn == WEIGHTED:
            if new:
                last[g] = x[i] if use else 0.0
                ab[g] = abs(last[g])
            if rs:
                last[g] = ab[g] = 0.0
            a = x[i] if use else 0.0
            last[g] = a * (1 - par) + last[g] * par
            ab[g] = abs(a) * abs(1 - par) + ab[g] * abs(par)
        else:
            if inc is not None and res is not None and not use:
                out[i] = last.get(g, 0.0)
                tol[i] = ab.get(g, 0.0)
                continue
            a = x[i] if use else lv.get(g, 0.0)
            if rs:
                last[g], ab[g], lt[g] = 0.0, 0.0, t.dtype.type(0)
                new = False
            if new:
                last[g], ab[g] = a, abs(a)
            else:
                dt = float(t[i] - lt[g])
                w = 0.0 if dt < 0 else math.exp(-par * dt)
                last[g] = a * (1 - w) + last[g] * w
                ab[g] = abs(a) * (1 - w) + ab[g] * w
            lt[g] = t[i]
            lv[g] = a
        out[i] = last[g]
        tol[i] = ab[g]
    return out, tol


@law(3000, 45000)
def exponential(c):
    """exponentially weighted averages and decayed sums"""
    n, nu, k, inc, res = setup(c)
    fn = c.choice([DECAY, DECAY, NORMAL, NORMAL, WEIGHTED])
    t = times(c, n)
    par = c.choice([.5, .5, .01, 1.0, .9, .001, 2.5]) if fn != WEIGHTED else c.choice([0., 1., .5, .25, .9, .1])
    if fn == DECAY and c.bool(.1):
        par = 0.
    vals = []
    for _ in range(c.weighted([(5, 1), (2, 2), (1, 5)])):
        v = column(c, n, style=c.choice(["small", "small", "full", "edge"]))
        if v.dtype.kind == "f":
            with np.errstate(all="ignore"):
                v = np.where(np.abs(v) > 1e20, v.dtype.type(5), v).astype(v.dtype)
                if c.bool(.7):
                    v = np.where(np.isfinite(v), v, v.dtype.type(2))
        vals.append(v)
    c.note(n=n, nu=nu, fn=NAMES[fn], par=par, k=G.show(k), t=G.show(t), inc=None if inc is None else G.show(inc), res=None if res is None else G.show(res), v=[G.show(v) for v in vals])
    r = run(vals, k, nu, fn, par, t, inc, res)
    nontriv(c, n, k, inc, res)
    c.event(NAMES[fn])
    for v, g in zip(vals, r):
        with np.errstate(all="ignore"):
            want, tol = ema_model(fn, v, k, t, inc, res, par)
        check(g.dtype == np.float64 and len(g) == n, "%s: %s length %d", NAMES[fn], g.dtype, len(g))
        g = np.asarray(g)
        nan = np.isnan(want)
        with np.errstate(all="ignore"):
            m = (nan & np.isnan(g)) | (g == want) | (~nan & (np.abs(g - want) <= 1e-9 * tol + 1e-300))
        bad = np.flatnonzero(~m)
        check(len(bad) == 0, "%s: row %s is %s, expected %s", NAMES[fn], bad[:1], g[bad[:1]], want[bad[:1]])


@law(600, 9000)
def isolation(c):
    """what other groups hold, and what comes later, changes nothing; masks that say nothing change nothing"""
    n, nu, k, inc, res = setup(c)
    fn = c.choice(list(NAMES))
    ema = fn in (DECAY, NORMAL, WEIGHTED)
    t = times(c, n) if ema else None
    v = column(c, n, d=c.choice(["f8", "i4", "i8", "f4"]), style="small")
    c.note(n=n, nu=nu, fn=NAMES[fn], k=G.show(k), t=None if t is None else G.show(t), inc=None if inc is None else G.show(inc), res=None if res is None else G.show(res), v=G.show(v))
    nontriv(c, n, k, inc, res)
    par = .5
    a = np.asarray(run([v], k, nu, fn, par, t, inc, res)[0])
    how = c.choice(["suffix", "other", "allinc", "nores"])
    c.event(how)
    if how == "suffix":
        m = c.int(0, n)
        cut = lambda z: None if z is None else z[:m].copy()
        b = np.asarray(run([cut(v)], cut(k), nu, fn, par, cut(t), cut(inc), cut(res))[0])
        same(b, a[:m], NAMES[fn] + " of a prefix of the rows")
    elif how == "other":
        g = c.int(1, nu) if nu else 0
        sel = np.asarray(k) == g
        w = np.where(sel, v, (v + v.dtype.type(3)).astype(v.dtype)).astype(v.dtype)
        b = np.asarray(run([w], k, nu, fn, par, t, inc, res)[0])
        same(b[sel], a[sel], NAMES[fn] + " after changing other groups")
    elif how == "allinc":
        if inc is None:
            b = np.asarray(run([v], k, nu, fn, par, t, np.ones(n, bool), res)[0])
            same(b, a, NAMES[fn] + " with a filter that keeps every row")
    elif res is None and not (fn == NORMAL and inc is not None):
        b = np.asarray(run([v], k, nu, fn, par, t, inc, np.zeros(n, bool))[0])
        same(b, a, NAMES[fn] + " with a reset mask that never resets")

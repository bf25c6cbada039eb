"""C13: bin counts, group order, first/next chains all describe the partition the labels describe."""
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc

RULE = ("a case draws a label array (any signed width, empty bins, the zero bin, skew, lengths across the parallel thresholds) and the number of bins; "
        "non-trivial = two or more non-empty bins and one with two rows")
ASSUMPTIONS = ["labels lie in 0..number of bins (the packing calls do not check), except for BinCount, which ignores others"]


def labels(c, n, nu, wide=False):
    ds = [d for d in ("i4", "i1", "i2", "i8") if np.iinfo(d).max >= nu]
    d = c.choice(ds)
    kind = c.weighted([(3, "uniform"), (1, "skew"), (1, "sorted"), (1, "blocks"), (1, "one"), (1, "nozero")])
    if n > 14:
        r = c.nprng()
        a = r.integers(0, nu + 1, n)
        if kind == "skew":
            a = np.minimum(a, r.integers(0, nu + 1, n) // c.int(1, 9))
        elif kind == "sorted":
            a = np.sort(a)
        elif kind == "blocks":
            a = np.repeat(a, c.int(2, 50))[:n]
        elif kind == "one":
            a[:] = c.int(0, nu)
        elif kind == "nozero" and nu:
            a = np.maximum(a, 1)
        if kind == "uniform" and c.bool(.3):
            a = np.where(r.random(n) < .3, 0, a)
    else:
        a = np.array([c.int(0, nu) for _ in range(n)], np.int64)
    return G.layout(c, a.astype(d), .15)


def nbins(c, n):
    return c.weighted([(4, c.int(1, 6)), (3, c.int(1, 60)), (2, c.int(1, max(1, n))), (1, c.int(1, max(1, 2 * n + 3))), (1, 127)])


def order(a, nu):
    return np.argsort(a, kind="stable"), np.bincount(a.astype(np.int64), minlength=nu + 1)


def firsts(cnt):
    return np.concatenate([[0], np.cumsum(cnt)[:-1]])


@law(2500, 40000)
def bincount(c):
    """BinCount / GroupFromBinCount: counts, rows in bin order, bin starts"""
    n = G.size(c, big=.06, lo=1, med=600)
    nu = nbins(c, n)
    a = labels(c, n, nu)
    pack = c.bool(.6)
    oob = c.bool(.2) and not pack
    if oob:
        r = c.nprng()
        a = a.copy()
        m = r.random(n) < .2
        a[m] = r.choice([-1, G.invalid(a.dtype), min(nu + 1, np.iinfo(a.dtype).max), np.iinfo(a.dtype).max], int(m.sum()))
    k = nu + 1
    c.note(n=n, nu=nu, pack=pack, a=G.show(a))
    keep = a.copy()
    ok = (a >= 0) & (a < k)
    cnt = np.bincount(a[ok].astype(np.int64), minlength=k)
    c.nontrivial((cnt > 0).sum() > 1 and cnt.max() > 1)
    if pack:
        r = rc.BinCount(a, k, pack=True)
        o = np.argsort(a, kind="stable")
        same(np.asarray(r[0]), cnt.astype(np.int32), "counts")
        same(np.asarray(r[1]), o.astype(np.int32), "group order", dtype=False)
        same(np.asarray(r[2]), firsts(cnt).astype(np.int32), "group starts", dtype=False)
    else:
        r = rc.BinCount(a, k)
        same(np.asarray(r), cnt.astype(np.int32), "counts")
        if ok.all():
            g = rc.GroupFromBinCount(a, np.asarray(r))
            o = np.argsort(a, kind="stable")
            same(np.asarray(g[0]), o.astype(np.int32), "group order", dtype=False)
            same(np.asarray(g[1]), firsts(cnt).astype(np.int32), "group starts", dtype=False)
    check(a.tobytes() == keep.tobytes(), "labels were changed")


@law(1500, 20000)
def pack(c):
    """GroupByPack32 from labels alone, or from the labels and next-row chain the extended grouping returns"""
    n = G.size(c, big=.04, lo=1, med=600)
    nu = nbins(c, n)
    a = labels(c, n, nu)
    chain = c.bool(.4)
    if chain:
        f = G.values(c, "?", n) if c.bool(.5) else None
        k, nx, _, ct = rc.MultiKeyGroupBy32Super([a], 0, f)
        a = np.asarray(k)
        nu = len(ct)
    c.note(n=n, nu=nu, chain=chain, a=G.show(a))
    o, cnt = order(a, nu)
    c.nontrivial((cnt > 0).sum() > 1 and cnt.max() > 1)
    r = rc.GroupByPack32(a, np.asarray(nx) if chain else None, nu)
    st = firsts(cnt)
    g, f, k = [np.asarray(x) for x in r]
    same(k, cnt.astype(np.int32), "counts")
    if chain:
        # bin 0 may come first or last
        check(sorted(g.tolist()) == list(range(n)), "group order is not a permutation of the rows")
        for j in np.flatnonzero(cnt).tolist():
            same(g[f[j]:f[j] + k[j]], np.flatnonzero(a == j).astype(np.int32), "rows of bin %d" % j)
    else:
        same(g, o.astype(np.int32), "group order")
        ne = cnt > 0
        same(f[ne], st[ne].astype(np.int32), "group starts")


@law(1500, 20000)
def chain(c):
    """MakeiNext: next / previous row with the same label; MakeiFirst: first / last row of each label, under a filter"""
    n = G.size(c, big=.03, lo=1, med=500)
    nu = nbins(c, n)
    a = labels(c, n, nu)
    if c.bool():
        prev = c.int(0, 1)
        c.note(op="MakeiNext", n=n, nu=nu, prev=prev, a=G.show(a))
        # the chain is returned in the labels' own width
        if n - 1 > np.iinfo(a.dtype).max:
            a = a.astype("i4")
        r = np.asarray(rc.MakeiNext(a, nu + 1, prev))
        want = np.full(n, G.invalid(a.dtype))
        last = {}
        seq = range(n) if prev else range(n - 1, -1, -1)
        al = a.tolist()
        for i in seq:
            k = al[i]
            if k in last:
                want[i] = last[k]
            last[k] = i
        c.nontrivial(len(last) > 1 and n > len(last))
        pos = a > 0
        same(r[pos], want[pos], "next/previous row")
        check(r.dtype == a.dtype, "dtype %s", r.dtype)
    else:
        filt = G.layout(c, G.values(c, "?", n), .2) if c.bool(.5) else None
        lst = c.int(0, 1)
        c.note(op="MakeiFirst", n=n, nu=nu, last=lst, filt=None if filt is None else G.show(filt), a=G.show(a))
        r = np.asarray(rc.MakeiFirst(a, nu, filt, lst))
        want = np.full(nu + 1, G.invalid("i8"))
        idx = np.arange(n)
        sel = (a > 0) if filt is None else (a > 0) & filt
        ii = idx[sel]
        if lst:
            want[a[sel].astype(int)] = ii
        else:
            want[a[sel][::-1].astype(int)] = ii[::-1]
        c.nontrivial((want >= 0).sum() > 1 and sel.sum() > (want >= 0).sum())
        same(r.astype(np.int64), want, "first/last row", dtype=False)

"""C14: combining label arrays with filters and with each other."""
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc
from C13 import labels, nbins

RULE = ("a case draws one or two label arrays (all signed widths), their cardinalities and a filter; "
        "non-trivial = at least two labels survive and at least one row is filtered out or in bin zero")
ASSUMPTIONS = ["labels lie in 0..cardinality"]


@law(1200, 20000)
def combine_filter(c):
    """filtered-out rows go to bin 0, the rest keep their labels"""
    n = G.size(c, big=.05, lo=0, med=500)
    nu = nbins(c, n)
    a = labels(c, n, nu)
    f = G.layout(c, G.values(c, "?", n), .2)
    c.note(n=n, a=G.show(a), f=G.show(f))
    r = np.asarray(rc.CombineFilter(a, f))
    want = np.where(f, a, 0).astype(a.dtype)
    c.nontrivial(len(np.unique(want)) > 2 and not f.all())
    same(r, want, "CombineFilter")


@law(1600, 25000)
def accum1(c):
    """surviving labels are renumbered by first appearance; first rows and the unique count match"""
    n = G.size(c, big=.04, lo=0, med=500)
    nu = nbins(c, n)
    a = labels(c, n, nu)
    f = G.layout(c, G.values(c, "?", n), .2) if c.bool(.6) else None
    c.note(n=n, nu=nu, a=G.show(a), f=None if f is None else G.show(f))
    k, first, u = rc.CombineAccum1Filter(a, nu, f)
    sel = (a > 0) if f is None else (a > 0) & f
    ids = {}
    fr = []
    want = np.zeros(n, np.int64)
    al = a.tolist()
    for i in np.flatnonzero(sel).tolist():
        v = al[i]
        if v not in ids:
            ids[v] = len(ids) + 1
            fr.append(i)
        want[i] = ids[v]
    c.nontrivial(len(ids) > 1 and not sel.all())
    same(np.asarray(k), want.astype(a.dtype), "iKey")
    same(np.asarray(first), np.array(fr, np.int32), "iFirstKey")
    check(u == len(fr), "unique count %r, expected %d", u, len(fr))


@law(1600, 25000)
def accum2(c):
    """two label arrays combine to one label per pair"""
    n = G.size(c, big=.05, lo=0, med=500)
    n1, n2 = nbins(c, min(n, 400)), nbins(c, min(n, 400))
    a, b = labels(c, n, n1), labels(c, n, n2)
    f = G.layout(c, G.values(c, "?", n), .2) if c.bool(.5) else None
    c.note(n=n, n1=n1, n2=n2, a=G.show(a), b=G.show(b), f=None if f is None else G.show(f))
    k, cnt = rc.CombineAccum2Filter(a, b, n1, n2, f)
    k = np.asarray(k)
    want = b.astype(np.int64) * (n1 + 1) + a
    if f is not None:
        want[~f] = 0
    c.nontrivial(len(np.unique(want)) > 2 and (want == 0).any())
    same(k.astype(np.int64), want, "iKey")
    check(np.iinfo(k.dtype).max >= (n1 + 1) * (n2 + 1) - 1, "dtype %s cannot hold %d pairs", k.dtype, (n1 + 1) * (n2 + 1))
    check(cnt is None, "counts")


@law(600, 8000)
def accum1_then_count(c):
    """relabelling and then counting gives the counts of the surviving labels"""
    n = G.size(c, lo=1, med=300)
    nu = nbins(c, n)
    a = labels(c, n, nu)
    f = G.layout(c, G.values(c, "?", n), .2)
    c.note(n=n, nu=nu, a=G.show(a), f=G.show(f))
    k, first, u = rc.CombineAccum1Filter(a, nu, f)
    cnt = np.asarray(rc.BinCount(np.asarray(k), u + 1))
    first = np.asarray(first)
    sel = (a > 0) & f
    c.nontrivial(u > 1 and not sel.all())
    check(int(cnt[0]) == int((~sel).sum()), "bin 0 has %d rows, expected %d", int(cnt[0]), int((~sel).sum()))
    for j in range(u):
        want = int(((a == a[first[j]]) & sel).sum())
        check(int(cnt[j + 1]) == want, "bin %d has %d rows, expected %d", j + 1, int(cnt[j + 1]), want)

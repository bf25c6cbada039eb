"""C20: multi-key membership, categorical fixup, relabelling of stacked categories."""
import numpy as np
import gen as G
import keygen as K
from gen import same, check
from pbt import law, rc, Fail

RULE = ("a case draws key columns (mixed dtypes, layouts) or category labels of two sides with some common categories, filtered labels and both base offsets; "
        "non-trivial = some row is found and some is not")
ASSUMPTIONS = ["key columns of both sides have the same dtypes and string widths", "multi-key rows are compared by bytes, so -0.0 and 0.0 differ and equal NaNs match",
               "labels lie within the category table; negative or zero (base 1) labels are filtered rows", "arrays are in native byte order"]


@law(5000, 60000)
def multikey(c):
    """found exactly when the whole key row occurs, at its first place"""
    big = c.bool(.03)
    n = c.int(1, 40) if not big else c.choice([32768, 40000]) + c.int(-3, 3)
    m = c.int(1, 40) if not big else c.choice([5, 300, 33000])
    if c.bool(.1):
        n, m = c.int(1, 300), c.choice([126, 127, 128, 100, 255, 256]) if c.bool() else c.int(1, 600)
    kinds = [c.choice(K.KD) for _ in range(c.weighted([(2, 1), (4, 2), (2, 3), (1, 4)]))]
    cols = [K.column(c, d, n + m, lay=False, card=c.weighted([(4, "few"), (2, "any"), (1, "many")])) for d in kinds]
    a = tuple(G.layout(c, np.ascontiguousarray(x[:n]), .25) for x in cols)
    b = tuple(G.layout(c, np.ascontiguousarray(x[n:]), .25) for x in cols)
    h = c.choice([None, 0, m, 2 * m])
    c.note(a=K.showcols(a), b=K.showcols(b), hint=h)
    keep = [x.tobytes() for x in a + b]
    A, B = (list(a),), (list(b),)
    r = rc.MultiKeyIsMember32(A, B) if h is None else rc.MultiKeyIsMember32(A, B, h)
    ra, rb = K.rawrows(a), K.rawrows(b)
    first = {}
    for i in range(m):
        first.setdefault(rb[i].tobytes(), i)
    w = np.array([first.get(ra[i].tobytes(), -1) for i in range(n)], np.int64)
    c.event("keys%d" % len(cols))
    c.nontrivial(bool((w >= 0).any() and (w < 0).any()))
    f, ix = r
    same(f, w >= 0, "found")
    same(ix.astype(np.int64), np.where(w >= 0, w, np.iinfo(ix.dtype).min), "index (%s)" % ix.dtype)
    check(keep == [x.tobytes() for x in a + b], "an argument was changed")


def bins(c, n, nu, base, d, filt=.15):
    """labels base..base+nu-1 with some filtered rows"""
    r = c.nprng()
    k = r.integers(0, max(nu, 1), n) + base if nu else np.full(n, base - 1)
    bad = r.random(n) < (filt if c.bool(.6) else 0)
    inv = np.iinfo(d).min
    choices = [inv, base - 1, -1] if base == 0 else [0, inv, -1]
    if nu == 0:
        bad[:] = True
    k = np.where(bad, r.choice(choices, n), k).astype(d)
    return k, k.astype(np.int64) >= base


@law(4000, 50000)
def fixup(c):
    """two categoricals: a row is found exactly when its category's row exists on the other side; the index is that category's first row there"""
    n, m = G.size(c, big=.02), G.size(c, big=.02)
    d1, d2 = [c.choice(["i1", "i2", "i4", "i8"]) for _ in range(2)]
    u1, u2 = c.int(0, 20), c.int(0, 20)
    if c.bool(.1):
        u1, u2 = 126, 125
    b1, b2 = c.int(0, 1), c.int(0, 1)
    r = c.nprng()
    pool = r.permutation(max(u1 + u2, 1))[:]
    p2 = pool[:u2]                      # category ids of side B
    p1 = r.permutation(np.concatenate([pool[:u2], pool[u2:u2 + u1]]))[:u1]
    where = {int(v): i for i, v in enumerate(p2)}
    mp = np.array([where.get(int(v), np.iinfo("i4").min) for v in p1], np.int32)
    A, okA = bins(c, n, u1, b1, d1)
    B, okB = bins(c, m, u2, b2, d2)
    if c.bool(.3) and m and u2:
        B[okB] = b2 + (B[okB] - b2) % max(1, u2 // 2)   # some categories of B never occur
    la, lb, lm = G.layout(c, A, .25), G.layout(c, B, .25), G.layout(c, mp, .2)
    c.note(A=G.show(la), B=G.show(lb), map=G.show(lm), u2=u2, bases=(b1, b2))
    f, ix = rc.IsMemberCategoricalFixup(la, lb, lm, u2, b1, b2)
    firstB = {}
    for i, v in enumerate(B.tolist()):
        if v >= b2:
            firstB.setdefault(v - b2, i)
    inv = np.iinfo("i4").min
    w = np.array([firstB.get(int(mp[v - b1]), inv) if v >= b1 and mp[v - b1] != inv else inv for v in A.tolist()], np.int64)
    c.nontrivial(bool((w >= 0).any() and (w < 0).any()))
    same(f, w >= 0, "found")
    same(ix.astype(np.int64), w, "index")


@law(2500, 30000)
def reindex(c):
    """labels of stacked parts are rewritten through each part's slice of the new labels; out-of-range and filtered ones become 0"""
    parts = c.int(1, 6)
    d = c.choice(["i1", "i2", "i4", "i8"])
    r = c.nprng()
    ul = [c.int(0, 9) for _ in range(parts)]
    il = [c.weighted([(1, 0), (6, c.int(1, 30)), (1, c.int(1000, 5000))]) for _ in range(parts)]
    uk = r.integers(1, 100, sum(ul)).astype(np.int32)
    k = np.concatenate([r.integers(0, u + 1, i) for u, i in zip(ul, il)]).astype(d)
    if c.bool(.3) and len(k):
        k[r.random(len(k)) < .1] = c.choice([-1, np.iinfo(d).min, 127])
    uc, ic = np.cumsum(ul).astype(np.int64), np.cumsum(il).astype(np.int64)
    orig = k.copy()
    c.note(ikey=G.show(k), uikey=G.show(uk), ucut=uc.tolist(), icut=ic.tolist())
    c.nontrivial(sum(1 for x in il if x) > 1)
    out = rc.ReIndexGroups(k, G.layout(c, uk, .2), G.layout(c, uc, .2), G.layout(c, ic, .2))
    w = np.zeros(len(k), np.int64)
    s = su = 0
    for t in range(parts):
        u = uk[su:]
        for j in range(s, ic[t]):
            v = int(orig[j])
            w[j] = u[v - 1] if 0 < v <= len(u) else 0
        s, su = ic[t], uc[t]
    same(np.asarray(out), w.astype(d), "labels")
    check(out is k, "the labels are not rewritten in place")


@law(1500, 20000)
def reverse(c):
    """out[in[i]] = i for every permutation"""
    n = G.size(c, big=.06)
    d = c.choice([x for x in ("i1", "i2", "i4", "i8") if n <= np.iinfo(x).max])
    p = (c.nprng().permutation(n)).astype(d)
    l = G.layout(c, p, .3)
    c.note(p=G.show(l))
    c.nontrivial(n > 1)
    w = np.empty(n, d)
    w[p] = np.arange(n, dtype=d)
    same(rc.ReverseShuffle(l), w, "reversed")


@law(2500, 30000)
def hashinfo(c):
    """per row: number of its key, running count, size, previous, next, first and last row of the same key"""
    n = G.size(c, lo=1)
    cols = K.columns(c, n)
    c.note(cols=K.showcols(cols))
    r = rc.MultiKeyHash(list(cols))
    ids, first, cnt = K.rowids(cols)
    N = -1
    prev, nxt, run = np.full(n, N, np.int64), np.full(n, N, np.int64), np.zeros(n, np.int64)
    last = {}
    for i, g in enumerate(ids.tolist()):
        j = last.get(g)
        run[i] = 1 if j is None else run[j] + 1
        if j is not None:
            prev[i] = j
            nxt[j] = i
        last[g] = i
    f = first[ids - 1]
    l = np.array([last[g] for g in ids.tolist()], np.int64)
    c.nontrivial(len(first) > 1 and len(first) < n)
    for got, want, what in zip(r, [ids, run, cnt[ids - 1], prev, nxt, f, l], ["index", "running count", "size", "previous", "next", "first", "last"]):
        same(got.astype(np.int64), want, what)

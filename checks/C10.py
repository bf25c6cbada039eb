"""C10: hash grouping = grouping by a dictionary of key rows."""
import numpy as np
import gen as G
import keygen as K
from gen import same, check
from pbt import law, rc

RULE = ("a case draws 1-4 key columns (dtype, cardinality, collision pattern, layout), a length up to a few hundred (sometimes around 16k/32k/64k rows), hint and hash mode; "
        "non-trivial = at least one group with two rows and at least two groups")
ASSUMPTIONS = ["keys are compared by their stored bytes: +0.0/-0.0 and NaNs with different payloads are different keys (long double, whose padding bytes are unspecified, is left out)"]


@law(2600, 40000)
def group(c):
    """bins are equal exactly when key rows are, numbered by first appearance, with the first row of each"""
    n = G.size(c, big=.05, lo=0, med=600)
    cols = K.columns(c, n)
    hint, mode = K.hintmode(c, n)
    c.note(n=n, hint=hint, mode=mode, cols=K.showcols(cols))
    keep = [a.copy() for a in cols]
    if mode is None:
        r = rc.MultiKeyGroupBy32(cols, hint, None)
    else:
        r = rc.MultiKeyGroupBy32(cols, hint, None, mode)
    ids, first, cnt = K.rowids(keep)
    c.nontrivial(len(cnt) > 1 and cnt.max() > 1)
    c.event("k%d" % len(cols))
    same(np.asarray(r[0]), ids.astype(np.int32), "iKey")
    same(np.asarray(r[1]), first.astype(np.int32), "iFirst")
    check(r[2] == len(first), "unique count %r, expected %d", r[2], len(first))
    for a, b in zip(cols, keep):
        check(a.tobytes() == b.tobytes(), "a key column was changed")


@law(900, 15000)
def group_super(c):
    """the extended grouping also returns next-row chains and counts"""
    n = G.size(c, lo=1, med=400)
    cols = K.columns(c, n)
    hint = c.choice([0, n, 2 * n, 1])
    filt = None
    if c.bool(.3):
        filt = G.layout(c, G.values(c, "?", n), .15)
    c.note(n=n, hint=hint, filt=None if filt is None else G.show(filt), cols=K.showcols(cols))
    r = rc.MultiKeyGroupBy32Super(cols, hint, filt)
    ids, first, cnt = K.densify(K.rawrows(cols), filt)
    c.nontrivial(len(cnt) > 1 and cnt.max() > 1)
    same(np.asarray(r[0]), ids.astype(np.int32), "iKey")
    same(np.asarray(r[2]), first.astype(np.int32), "iFirst")
    same(np.asarray(r[3]), cnt.astype(np.int32), "nCount")
    nxt = np.full(n, -1, np.int32)
    last = {}
    for i in range(n):
        j = ids[i]
        if j:
            if j in last:
                nxt[last[j]] = i
            last[j] = i
    if filt is None:
        same(np.asarray(r[1]), nxt, "iNext")
    else:
        same(np.asarray(r[1])[filt], nxt[filt], "iNext of kept rows")


@law(500, 8000)
def perrow(c):
    """MultiKeyHash: bin, position in bin, bin size, previous, next, first and last row of every row"""
    n = G.size(c, lo=1, med=300)
    cols = K.columns(c, n)
    hint = c.choice([0, n, 2 * n])
    c.note(n=n, hint=hint, cols=K.showcols(cols))
    r = rc.MultiKeyHash(cols, hint)
    ids, first, cnt = K.rowids(cols)
    c.nontrivial(len(cnt) > 1 and cnt.max() > 1)
    rows = {}
    for i in range(n):
        rows.setdefault(int(ids[i]), []).append(i)
    nth = np.zeros(n, np.int32)
    siz = np.zeros(n, np.int32)
    prv = np.full(n, -1, np.int32)
    nxt = np.full(n, -1, np.int32)
    fst = np.zeros(n, np.int32)
    lst = np.zeros(n, np.int32)
    for v in rows.values():
        for k, i in enumerate(v):
            nth[i] = k + 1
            siz[i] = len(v)
            fst[i], lst[i] = v[0], v[-1]
            if k:
                prv[i] = v[k - 1]
                nxt[v[k - 1]] = i
    for got, want, nm in zip(r, (ids.astype(np.int32), nth, siz, prv, nxt, fst, lst), ("key", "nth", "bktsize", "prev", "next", "first", "last")):
        same(np.asarray(got), want, nm)

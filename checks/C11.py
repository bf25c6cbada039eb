"""C11: the partition does not depend on hash mode, hint, column order, cut-offs, filter or threads."""
import numpy as np
import gen as G
import keygen as K
from gen import same, check
from pbt import law, rc

RULE = ("a case draws key columns and two configurations (hint, hash mode, threads, column order) or a filter or row cut-offs; "
        "non-trivial = two or more groups, one with two rows, and (filter / cut-offs) rows on both sides")
ASSUMPTIONS = ["cut-offs are increasing row numbers ending at the row count, as every caller passes them"]


def cuts(c, n):
    k = c.int(1, 6)
    v = sorted(c.int(0, n) for _ in range(k - 1)) + [n]
    return G.layout(c, np.array(v, np.int64), .15)


@law(1200, 20000)
def filtered(c):
    """filtered-out rows get bin 0 and do not influence the others"""
    n = G.size(c, big=.04, lo=1, med=500)
    cols = K.columns(c, n)
    hint, mode = K.hintmode(c, n, (2, 1))
    filt = G.layout(c, G.values(c, "?", n), .15)
    if c.bool(.2):
        filt[:] = c.bool()
    c.note(n=n, hint=hint, mode=mode, filt=G.show(filt), cols=K.showcols(cols))
    r = rc.MultiKeyGroupBy32(cols, hint, filt, mode)
    ids, first, cnt = K.densify(K.rawrows(cols), filt)
    c.nontrivial(len(cnt) > 1 and cnt.max() > 1 and not filt.all())
    same(np.asarray(r[0]), ids.astype(np.int32), "iKey")
    same(np.asarray(r[1]), first.astype(np.int32), "iFirst")
    check(r[2] == len(first), "unique count %r, expected %d", r[2], len(first))


@law(1200, 20000)
def cutoffs(c):
    """with cut-offs each row range is grouped on its own"""
    n = G.size(c, big=.06, lo=1, med=500)
    cols = K.columns(c, n)
    cut = cuts(c, n)
    hint, mode = K.hintmode(c, n, (2, 1))
    filt = G.layout(c, G.values(c, "?", n), .15) if c.bool(.3) else None
    c.note(n=n, hint=hint, mode=mode, cut=G.show(cut), filt=None if filt is None else G.show(filt), cols=K.showcols(cols))
    r = rc.MultiKeyGroupBy32(cols, hint, filt, mode, cutoffs=cut)
    raw = K.rawrows(cols)
    ids = np.zeros(n, np.int32)
    firsts, cum = [], []
    tot, s = 0, 0
    for e in cut.tolist():
        i, f, k = K.densify(np.ascontiguousarray(raw[s:e]), None if filt is None else filt[s:e])
        ids[s:e] = i
        firsts.append(f)
        tot += len(f)
        cum.append(tot)
        s = e
    c.nontrivial(len(cut) > 1 and tot > len(cut))
    same(np.asarray(r[0]), ids, "iKey")
    same(np.asarray(r[1][0]), np.concatenate(firsts).astype(np.int32), "iFirst")
    same(np.asarray(r[1][1]), np.array(cum), "cumulative unique counts", dtype=False)
    check(r[2] == tot, "unique count %r, expected %d", r[2], tot)


@law(1200, 20000)
def configs(c):
    """two configurations of hint, hash mode, threads and column order give the same bins"""
    n = G.size(c, big=.10, lo=1, med=500)
    k = c.weighted([(2, 1), (3, 2), (2, 3)])
    cols = K.columns(c, n, k=k)
    cfg = []
    for _ in range(2):
        cfg.append(K.hintmode(c, n, (2, 1)) + (c.bool(.5), c.perm(k)))
    c.note(n=n, cfg=cfg, cols=K.showcols(cols))
    res = []
    for hint, mode, single, order in cfg:
        if single:
            rc.ThreadingMode(1)
        try:
            r = rc.MultiKeyGroupBy32([cols[i] for i in order], hint, None, mode)
        finally:
            if single:
                rc.ThreadingMode(0)
        res.append((np.asarray(r[0]), np.asarray(r[1]), r[2]))
    c.nontrivial(1 < res[0][2] < n and cfg[0] != cfg[1])
    same(res[1][0], res[0][0], "iKey of the second configuration")
    same(res[1][1], res[0][1], "iFirst of the second configuration")
    ids, first, _ = K.rowids(cols)
    same(res[0][0], ids.astype(np.int32), "iKey")

"""C21: as-of alignment."""
import numpy as np
import gen as G
import keygen as K
from gen import same, check
from pbt import law, rc, Fail

RULE = ("a case draws two tables with keys in common, sorted times (ties, gaps, invalid entries, every supported time dtype), direction and exact-match setting; "
        "non-trivial = some row is matched and some is not, or a later candidate displaced an earlier one")
ASSUMPTIONS = ["the valid times of each side are sorted", "rows with an invalid time (NaN, or the dtype's sentinel) match nothing and are no candidates",
               "keys are compared by bytes", "arrays are in native byte order", "binned keys lie within 0..number of uniques-1"]


def times(c, d, n, holes):
    r = c.nprng()
    if c.bool(.15) and n:
        t = np.sort(G.values(c, d, n, style="edge", inv=0, specials=False))
        t = t[~G.isinv(t)]
        t = np.resize(t, n) if len(t) == 0 else np.sort(np.resize(t, n))
    else:
        span = c.choice([3, max(2, n // 2), 4 * n + 1, 100000])
        lo = 0 if np.dtype(d).kind == "u" else -(span // 2)
        t = np.sort(r.integers(lo, lo + span, n)).astype(d)
        if np.dtype(d).kind == "f" and c.bool():
            t = t / d_type(d, c.choice([2, 8, 1024]))
    if holes and n:
        t = t.copy()
        t[r.random(n) < c.choice([.05, .3, 1])] = G.invalid(d)
    return t.astype(d)


def d_type(d, v):
    return np.dtype(d).type(v)


def model(ka, ta, kb, tb, forward, exact):
    """ka/kb: hashable keys; ta/tb sorted apart from invalids"""
    ia, ib = G.isinv(ta), G.isinv(tb)
    by = {}
    for j in range(len(kb)):
        if not ib[j]:
            by.setdefault(kb[j], []).append(j)
    w = np.full(len(ka), -2147483648, np.int64)
    arrs = {k: (np.array(v), tb[np.array(v)]) for k, v in by.items()}
    for i in range(len(ka)):
        if ia[i] or ka[i] not in arrs:
            continue
        rows, tt = arrs[ka[i]]
        if forward:
            p = np.searchsorted(tt, ta[i], "left" if exact else "right")
            if p < len(rows):
                w[i] = rows[p]
        else:
            p = np.searchsorted(tt, ta[i], "right" if exact else "left") - 1
            if p >= 0:
                w[i] = rows[p]
    return w


@law(7000, 90000)
def align(c):
    """the nearest permitted row with the same keys, in both directions"""
    big = c.bool(.02)
    n, m = (c.int(1, 50), c.int(1, 50)) if not big else (c.int(1, 3000), c.int(1, 3000))
    kinds = [c.choice(K.KD) for _ in range(c.weighted([(4, 1), (3, 2), (1, 3)]))]
    cols = [K.column(c, d, n + m, lay=False, card=c.weighted([(5, "few"), (1, "any"), (3, "one")])) for d in kinds]
    a = [G.layout(c, np.ascontiguousarray(x[:n]), .2) for x in cols]
    b = [G.layout(c, np.ascontiguousarray(x[n:]), .2) for x in cols]
    d = c.choice(["i8", "i4", "f8", "f4", "u8", "u4"])
    holes = c.bool(.25)
    ta, tb = times(c, d, n, holes and c.bool()), times(c, d, m, holes)
    la, lb = G.layout(c, ta, .25), G.layout(c, tb, .25)
    fwd, exact = c.bool(), c.bool()
    c.note(a=K.showcols(a), b=K.showcols(b), ta=G.show(la), tb=G.show(lb), forward=fwd, exact=exact)
    ra, rb = K.rawrows(a), K.rawrows(b)
    w = model([x.tobytes() for x in ra], ta, [x.tobytes() for x in rb], tb, fwd, exact)
    c.event(d)
    c.nontrivial(bool((w >= 0).any() and ((w < 0).any() or len(set(w.tolist())) > 1)))
    got = rc.MultiKeyAlign32((a,), (b,), la, lb, fwd, exact)
    same(got.astype(np.int64), w, "index")
    check(got.dtype == np.dtype("i4"), "index dtype %s", got.dtype)


@law(4000, 50000)
def prebinned(c):
    """the binned form: the last right row with the same bin and a time not after"""
    n, m = G.size(c, med=200), G.size(c, med=200)
    nu = c.int(1, 12)
    kd = c.choice(["i4", "i8"])
    r = c.nprng()
    ka, kb = r.integers(0, nu, n).astype(kd), r.integers(0, nu, m).astype(kd)
    d = c.choice(["i8", "i4", "f8", "f4"])
    ta, tb = times(c, d, n, False), times(c, d, m, False)
    args = [G.layout(c, x, .2) for x in (ka, kb, ta, tb)]
    c.note(ka=G.show(args[0]), kb=G.show(args[1]), ta=G.show(args[2]), tb=G.show(args[3]), nu=nu)
    w = model(ka.tolist(), ta, kb.tolist(), tb, False, True)
    c.nontrivial(bool((w >= 0).any() and ((w < 0).any() or len(set(w.tolist())) > 1)))
    got = rc.MergeBinnedAndSorted(*args, nu)
    same(got.astype(np.int64), np.where(w >= 0, w, np.iinfo(kd).min), "index")

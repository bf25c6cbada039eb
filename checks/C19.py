"""C19: membership of one key column."""
import numpy as np
import gen as G
import keygen as K
from gen import same, check
from pbt import law, rc, Fail

RULE = ("a case draws two arrays of one kind (dtype, content, layout, lengths across the thread threshold and the index-width limits), hash mode and hint; "
        "non-trivial = some element is found and some is not, or a duplicate on the second side is found")
ASSUMPTIONS = ["the two arrays have the same kind of dtype; strings may differ in width", "NaN is no member; zeros of both signs are equal",
               "a size hint is at least the second array's length", "arrays are in native byte order", "trailing NULs of strings do not count"]


def pair(c, n, m):
    """two arrays with elements in common"""
    d = c.choice(["i4", "f8", "i8", "f4", "i1", "i2", "u1", "u2", "u4", "u8", "?", "S", "U"])
    if d in "SU":
        pool = G.strings(c, d, max(1, min(n + m, 40)))
        if c.bool(.4):
            k = c.int(1, 400)
            pre = "y" * c.int(0, 9)
            pool = np.array([pre + "%x" % i for i in range(k)], dtype=d)
        r = c.nprng()
        w = pool.dtype.itemsize // (4 if d == "U" else 1)
        a = pool[r.integers(0, len(pool), n)]
        b = pool[r.integers(0, len(pool), m)] if c.bool(.7) else pool[r.integers(0, (len(pool) + 1) // 2, m)]
        if c.bool(.4):
            a = a.astype("%s%d" % (d, c.int(1, w + 3)))
        if c.bool(.4):
            b = b.astype("%s%d" % (d, c.int(1, w + 3)))
        return a, b
    x = K.column(c, d, n + m, lay=False)
    if c.bool(.5):
        x = x[c.nprng().permutation(n + m)] if n + m > 14 else x
    a, b = x[:n].copy(), x[n:].copy()
    if c.bool(.2) and m:
        b = np.unique(b)
        b = np.resize(b, m)
    return a, b


def keys(x):
    """the values as comparable python objects, None for no key"""
    if x.dtype.kind == "f":
        return [None if v != v else v for v in x.tolist()]
    return x.tolist()


def model(a, b):
    d = {}
    for i, v in enumerate(keys(b)):
        if v is not None and v not in d:
            d[v] = i
    return np.array([d.get(v, -1) if v is not None else -1 for v in keys(a)], np.int64)


def sizes(c):
    k = c.below(20)
    if k < 13:
        return c.int(0, 40), c.int(0, 40)
    if k < 17:
        return G.size(c, big=.05), G.size(c, lo=0)
    if k == 17:
        return c.int(0, 300), c.choice([126, 127, 128, 129, 99, 100, 101, 255, 256])
    if k == 18:
        return c.int(0, 300), c.choice([32766, 32767, 32768, 29999, 30000, 30001])
    return c.choice([32768, 40000, 66000]) + c.int(-5, 5), c.choice([1, 10, 1000, 30000, 70000])


def hint(c, m):
    h = c.choice([None, 0, m, 2 * m + 1, m + 1000])
    return h


@law(9000, 120000)
def ismember(c):
    """found exactly when it occurs, at its first place"""
    n, m = sizes(c)
    a, b = pair(c, n, m)
    mode = c.choice([2, 1] if m < 2000 else [2])
    h = hint(c, m)
    la, lb = G.layout(c, a, .3), G.layout(c, b, .3)
    ka, kb = la.copy(), lb.copy()
    c.note(a=G.show(la), b=G.show(lb), mode=mode, hint=h)
    f = rc.IsMember64 if c.bool(.2) else rc.IsMember32
    r, ix = f(la, lb, mode) if h is None else f(la, lb, mode, h)
    w = model(a, b)
    c.event(a.dtype.kind)
    c.nontrivial(bool((w >= 0).any() and ((w < 0).any() or len(set(keys(b))) < len(b))))
    check(r.dtype == np.dtype(bool), "first result is %s", r.dtype)
    check(ix.dtype.kind == "i", "index is %s", ix.dtype)
    same(r, w >= 0, "found")
    inv = np.iinfo(ix.dtype).min
    check(m <= np.iinfo(ix.dtype).max, "%s cannot hold index %d", ix.dtype, m)
    same(ix.astype(np.int64), np.where(w >= 0, w, inv), "index (%s)" % ix.dtype)
    check(r.view(np.uint8).max(initial=0) <= 1, "a bool that is neither 0 nor 1")
    check(ka.tobytes() == la.tobytes() and kb.tobytes() == lb.tobytes(), "an argument was changed")


@law(4000, 50000)
def categorical(c):
    """the 1-based form: 0 for absent, and whether any is absent"""
    n, m = sizes(c)
    a, b = pair(c, n, m)
    mode = c.choice([2, 1] if m < 2000 else [2])
    h = hint(c, m)
    la, lb = G.layout(c, a, .3), G.layout(c, b, .3)
    c.note(a=G.show(la), b=G.show(lb), mode=mode, hint=h)
    missed, ix = rc.IsMemberCategorical(la, lb, mode) if h is None else rc.IsMemberCategorical(la, lb, mode, h)
    w = model(a, b)
    c.nontrivial(bool((w >= 0).any() and ((w < 0).any() or len(set(keys(b))) < len(b))))
    same(ix.astype(np.int64), w + 1, "index+1")
    check(bool(missed) == bool((w < 0).any()), "missed is %s, absent rows %d", missed, (w < 0).sum())


@law(700, 6000)
def refused(c):
    """kinds without a common meaning raise"""
    ks = [["i1"], ["i2"], ["i4"], ["i8"], ["u1"], ["u2"], ["u4"], ["u8"], ["f4"], ["f8"], ["?"], ["S3", "S5"], ["U3", "U5"], ["O"], ["g"], ["c16"]]
    i = c.below(len(ks))
    j = c.below(len(ks))
    if i == j and ks[i][0] not in ("O", "g", "c16"):
        j = (j + 1) % len(ks)
    a = np.zeros(c.int(0, 5), c.choice(ks[i]))
    b = np.zeros(c.int(0, 5), c.choice(ks[j]))
    c.note(a=a.dtype.str, b=b.dtype.str, n=len(a), m=len(b))
    c.nontrivial(i != j)
    for f in (rc.IsMember32, rc.IsMemberCategorical):
        try:
            f(a, b, 2)
        except Exception:
            continue
        raise Fail("%s of %s and %s is answered" % (f.__name__, a.dtype, b.dtype))

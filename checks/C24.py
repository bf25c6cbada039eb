"""C24: fancy and boolean indexing, mask to index, mask sum, item and mask assignment, reindexing."""
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc, Fail

RULE = ("a case draws a value array (any dtype and layout), an index or mask array with in-range, negative and out-of-range entries, and for assignment a target "
        "surrounded by guard elements; non-trivial = some elements are addressed and some are not")
ASSUMPTIONS = ["SetItem and PutMask may decline (False), and then change nothing; the caller uses numpy", "ReIndex's indexes are in range (it is documented not to check) and as many as the values",
               "long, mixed-dtype PutMask follows the safe conversion (invalid to invalid)", "arrays are in native byte order"]

VD = G.NUMB + ["g", "S", "U", "S", "U"]
ANYD = VD + ["M8[ns]", "m8[s]", "c16", "c8", "f2", "V3", "V5", "V16"]
IX = ["i4", "i8", "i1", "i2", "u1", "u2", "u4", "u8"]


def anyvalues(c, d, n):
    d = np.dtype(d)
    if d.kind in "SU":
        return G.strings(c, d, n)
    if d.kind in "biu" or d.char in "fd":
        return G.values(c, d, n)
    r = c.nprng()
    if d.char == "g":
        a = (r.standard_normal(n) * 10.0 ** r.integers(-3, 30, n)).astype(d)
        a[r.random(n) < .1] = np.nan
        return a
    if d.kind == "c":
        return (r.standard_normal(n) + 1j * r.standard_normal(n)).astype(d)
    if d.char == "e":
        return r.standard_normal(n).astype(d)
    return r.integers(0, 256, n * d.itemsize, dtype=np.uint8).view(d)


def default_of(d):
    d = np.dtype(d)
    if d.kind in "iuf":
        return G.invalid(d)
    return np.zeros(1, d)[0]


def mask(c, n):
    k = c.weighted([(4, "half"), (1, "all"), (1, "none"), (2, "sparse"), (2, "runs"), (1, "dense")])
    r = c.nprng()
    if k == "all":
        return np.ones(n, bool)
    if k == "none":
        return np.zeros(n, bool)
    if k == "runs":
        return (np.arange(n) // max(1, c.int(1, 40)) % 2).astype(bool)
    return r.random(n) < dict(half=.5, sparse=.03, dense=.97)[k]


def size(c):
    return G.size(c, big=.05)


def bsame(got, want, what):
    """equal dtype, shape and bytes (NaN payloads too: elements are moved, not computed)"""
    check(isinstance(got, np.ndarray), "%s: %s" % (what, type(got)))
    check(got.dtype == want.dtype and got.shape == want.shape, "%s: %s %s, expected %s %s" % (what, got.dtype, got.shape, want.dtype, want.shape))
    if got.dtype.char == "g":
        return same(got, want, what)
    if np.ascontiguousarray(got).tobytes() != np.ascontiguousarray(want).tobytes():
        g, w = [np.ascontiguousarray(x).reshape(-1).view(np.uint8).reshape(x.size, -1) for x in (got, want)]
        i = int(np.nonzero((g != w).any(axis=1))[0][0])
        raise Fail("%s: element %d is %r, expected %r" % (what, i, got.reshape(-1)[i], want.reshape(-1)[i]))


@law(4000, 60000)
def gather(c):
    """MBGet: element idx, counted from the end when negative, the default when out of range"""
    m = G.size(c, big=.03)
    n = size(c)
    d = c.choice(VD)
    it = np.dtype(c.choice(IX))
    v = anyvalues(c, d, m)
    r = c.nprng()
    lo, hi = (-m if it.kind == "i" and c.bool(.6) else 0), m
    oor = 0 if m and c.bool(.4) else c.choice([.05, .5])
    ii = np.iinfo(it)
    idx = r.integers(lo, max(hi, lo + 1), n)
    bad = r.random(n) < (oor if m else 1)
    pool = [x for x in (m, m + 1, -m - 1, -m - 2, ii.max, ii.min, 2 * m + 5, -1 - 2 * m, 128, 255, 32768, 65535, 2**31, 2**31 - 1, -2**31, 2**32 - 1) if not (-m <= x < m)]
    if it.kind == "u":
        pool = [x for x in pool if x >= 0]
    badv = np.array([pool[k] for k in r.integers(0, len(pool), n)], object) if n else np.zeros(0, object)
    want_i = np.where(bad, badv, idx).astype(object) if n else badv
    ix = np.array([int(x) & (2 ** (8 * it.itemsize) - 1) for x in want_i], np.uint64).astype("u%d" % it.itemsize).view(it)
    lv, li = G.layout(c, v, .3), G.layout(c, ix, .3)
    dv = c.bool(.35)
    D = default_of(v.dtype)
    args = ()
    if dv:
        dk = v.dtype.kind
        if dk == "b":
            o = c.bool()
        elif dk in "iu":
            o = c.choice([0, 1, 7, 100]) if not c.bool(.3) else int(c.choice(G.edges(v.dtype)[:]))
            if c.bool(.3):
                o = v.dtype.type(o)
        elif dk == "f":
            o = c.choice([0.0, 1.5, -2.25, float("inf"), 3, -7]) if v.dtype.char != "g" else c.choice([0.0, 1.5, -3.25])
            if c.bool(.3):
                o = v.dtype.type(o)
        else:
            w = v.dtype.itemsize // (4 if dk == "U" else 1)
            o = "".join("xyz"[c.below(3)] for _ in range(c.int(0, w)))
            o = o if dk == "U" else o.encode()
        D = np.array([o]).astype(v.dtype)[0]
        args = (o,)
    c.note(v=G.show(lv), idx=G.show(li), default=args)
    keep = v.tobytes(), ix.tobytes()
    got = rc.MBGet(lv, li, *args)
    w = np.empty(n, v.dtype)
    w[...] = D
    I = ix.astype(object)
    inr = np.array([-m <= int(x) < m for x in I], bool) if n < 3000 else ((ix.astype(np.float64) >= -m) & (ix.astype(np.float64) < m))
    if inr.any():
        w[inr] = v[ix[inr].astype(np.int64)]
    c.event("idx " + it.str)
    c.event(np.dtype(d).kind + " values")
    c.nontrivial(bool(inr.any() and (~inr).any()))
    if v.dtype.kind == "f" and not inr.all():
        same(got[inr], w[inr], "gathered")
        same(got[~inr], w[~inr], "out of range")
        check(got.dtype == w.dtype, "dtype %s" % got.dtype)
    else:
        bsame(got, w, "gathered")
    check(keep == (v.tobytes(), ix.tobytes()), "an argument was changed")


@law(2500, 40000)
def boolindex(c):
    """values[mask]"""
    n = size(c)
    d = c.choice(ANYD)
    v = anyvalues(c, d, n)
    m = mask(c, n)
    lv, lm = G.layout(c, v, .3), G.layout(c, m, .3)
    f = c.choice(["BooleanIndex", "MBGet"])
    c.note(v=G.show(lv), m=G.show(lm), f=f)
    got = getattr(rc, f)(lv, lm)
    c.nontrivial(bool(m.any() and (~m).any()))
    bsame(got, v[m], "values[mask]")


@law(2500, 40000)
def fancy(c):
    """positions of True (then of False), count of True"""
    n = size(c)
    m = mask(c, n)
    lm = G.layout(c, m, .3)
    if c.bool(.1) and n:
        k = c.int(1, 4)
        m = np.repeat(m[:200], k)
        lm = m.reshape(-1, k)
        if c.bool(.4):
            base = np.zeros((lm.shape[0] * 2, k + 1), bool)
            base[::2, :k] = lm
            lm = base[::2, :k]
    c.note(m=G.show(lm))
    c.nontrivial(bool(m.any() and (~m).any()))
    try:
        s = rc.BooleanSum(lm)
    except ValueError:
        check(lm.ndim > 1, "BooleanSum refused a 1-D mask")
        s = None
    if s is not None:
        check(s == m.sum(), "BooleanSum %s, expected %s" % (s, m.sum()))
    try:
        f = rc.BooleanToFancy(lm)
        b = rc.BooleanToFancy(lm, both=True)
    except ValueError:
        check(lm.ndim > 1, "BooleanToFancy refused a 1-D mask")
        return
    t, o = np.nonzero(m)[0].astype("i4"), np.nonzero(~m)[0].astype("i4")
    same(f, t, "BooleanToFancy")
    check(b[1] == len(t), "true count %s, expected %s" % (b[1], len(t)))
    same(b[0], np.concatenate([t, o]), "BooleanToFancy both")


def target(c, a):
    """a writable view equal to a inside a guarded base buffer"""
    n, d = len(a), a.dtype
    k = c.weighted([(16, "contig"), (2, "strided"), (1, "neg")])
    s = 1 if k == "contig" else c.int(2, 3)
    if k == "neg":
        s = c.int(1, 2)
    base = np.zeros(n * s + 16, d)
    base.view(np.uint8)[:] = 0xA5 if d.kind not in "bU" else 0
    v = base[8:8 + n * s:s]
    if k == "neg":
        v = v[::-1]
    v[...] = a
    return base, v, k


@law(3000, 40000)
def setitem(c):
    """arr[mask] = value changes exactly the masked elements, or declines and changes nothing"""
    n = size(c)
    d = c.choice(VD + ["M8[ns]", "c16", "V3"])
    a = anyvalues(c, d, n)
    m = mask(c, n)
    k = int(m.sum())
    form = c.weighted([(12, "match"), (4, "one"), (2, "short"), (2, "long"), (2, "scalar"), (2, "dtype"), (3, "overlap"), (1, "2d")])
    base, v, lk = target(c, a)
    ln = dict(match=k, one=1, short=max(k - 1, 0), long=k + 1).get(form, k)
    val = anyvalues(c, a.dtype, ln)
    if form == "dtype":
        val = G.values(c, c.choice(G.NUMB), k)
    lval = G.layout(c, val, .12)
    if form == "scalar":
        lval = val[:1].tolist()[0] if k and np.dtype(d).kind in "biuf" and np.dtype(d).char != "g" else lval
    if form == "overlap":
        s = c.int(0, max(n - k, 0))
        lval = v[s:s + k] if c.bool() else v[::-1][:k]
    if form == "2d":
        lval = lval.reshape(-1, 1)
    lm = G.layout(c, m, .12)
    c.note(a=G.show(v), layout=lk, m=G.show(lm), value=G.show(np.asarray(lval)), form=form)
    before = base.copy()
    w = base.copy()
    wv = w[8:8 + n * (1 if lk == "contig" else (abs(v.strides[0]) // v.itemsize if n > 1 else 1))]
    off = (v.__array_interface__["data"][0] - base.__array_interface__["data"][0])
    wv = np.ndarray(v.shape, v.dtype, w, off, v.strides)
    src = np.array(lval, copy=True)
    got = rc.SetItem(v, lm, lval)
    check(got is True or got is False, "SetItem returned %r" % (got,))
    c.nontrivial(bool(got) and k < n)
    c.event("%s %s %s" % (form, lk, got))
    if got:
        wv[m] = src.reshape(-1) if src.ndim == 2 else src
        check(base.tobytes() == w.tobytes(), "after SetItem: %s expected %s" % (G.show(v), G.show(wv)))
    else:
        check(base.tobytes() == before.tobytes(), "SetItem declined but changed the array")
    if form == "match" and lk == "contig" and k and lval is val and lm is m and val.dtype == a.dtype:
        check(got, "SetItem declined a plain 1-D assignment")


def safe(v, d):
    """invalid to invalid, otherwise as a C cast"""
    d = np.dtype(d)
    with np.errstate(all="ignore"):
        r = v.astype(d)
    if v.dtype.kind == "b" or d.kind == "b" or v.dtype == d:
        return r
    i = G.isinv(v)
    if i.any():
        r = r.copy()
        r[i] = G.invalid(d)
    return r


def inrange(v, d):
    """replace floats outside dtype d by 1"""
    d = np.dtype(d)
    if v.dtype.kind == "f" and d.kind in "iu":
        ii = np.iinfo(d)
        with np.errstate(all="ignore"):
            ok = np.isnan(v) | ((v > float(max(ii.min, -2**62))) & (v < float(min(ii.max, 2**62))))
            if d.kind == "u":
                ok = np.isnan(v) | ((v > -1) & ok)
        v = np.where(ok, v, v.dtype.type(1))
    return v


@law(3000, 40000)
def putmask(c):
    """arr[mask] = values[mask] with safe conversion, or declines and changes nothing"""
    n = size(c)
    d = c.choice(G.NUMB)
    e = d if c.bool(.4) else c.choice(G.NUMB)
    a = G.values(c, d, n)
    val = inrange(G.values(c, e, n + (0 if c.bool(.95) else 1)), d)
    m = mask(c, n)
    base, v, lk = target(c, a)
    lval, lm = G.layout(c, val, .12), G.layout(c, m, .12)
    overlap = e == d and c.bool(.1)
    if overlap and n:
        off = 8
        lval = base[off - 1:off - 1 + n] if c.bool() else base[off + 1:off + 1 + n] if lk == "contig" else v[::-1]
        if lval.dtype.kind == "b":
            overlap = False
            lval = val
    c.note(a=G.show(v), layout=lk, m=G.show(lm), value=G.show(lval), overlap=overlap)
    before = base.copy()
    w = base.copy()
    off = (v.__array_interface__["data"][0] - base.__array_interface__["data"][0])
    wv = np.ndarray(v.shape, v.dtype, w, off, v.strides)
    src = np.array(lval, copy=True)
    got = rc.PutMask(v, lm, lval)
    check(got is True or got is False, "PutMask returned %r" % (got,))
    c.nontrivial(bool(got) and bool(m.any()) and not m.all())
    c.event("%s->%s %s" % (np.dtype(e).kind, np.dtype(d).kind, got))
    if got:
        check(len(src) == n, "PutMask took values of another length")
        cv = safe(src, d)
        wv[m] = cv[m]
        g = np.array(v)
        nan = np.isnan(g) & np.isnan(wv) if g.dtype.kind == "f" else np.zeros(n, bool)
        v[nan] = 0
        wv[nan] = 0
        check(base.tobytes() == w.tobytes(), "after PutMask: %s expected %s" % (G.show(v), G.show(wv)))
    else:
        check(base.tobytes() == before.tobytes(), "PutMask declined but changed the array")


@law(1500, 20000)
def reindex(c):
    """ReIndex(index, values) = values[index]"""
    m = n = G.size(c, big=.05, lo=1)
    d = c.choice(VD)
    v = anyvalues(c, d, m)
    it = c.choice(["i4", "i8", "u4", "u8"])
    ix = c.nprng().integers(0, m, n).astype(it)
    lv, li = G.layout(c, v, .3), G.layout(c, ix, .3)
    c.note(v=G.show(lv), idx=G.show(li))
    c.nontrivial(n > 1 and m > 1)
    got = rc.ReIndex(li, lv)
    bsame(got, v[ix], "values[index]")

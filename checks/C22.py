"""C22 sorting: ordered permutation, stable index sort, IsSorted decides order."""
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc, Fail

RULE = ("a case draws dtype, length, values (few-distinct, boundary, full-range, NaN/inf/sentinel), presorted shapes and, for index sorts, "
        "keys, partitions, direction and start index; non-trivial = at least 3 elements that are not already in order, or a tie between distinct rows")
ASSUMPTIONS = ["arrays are contiguous (Sort/LexSort precondition every riptable caller respects)",
               "order of +0.0/-0.0 is unspecified; NaN sorts after every number in ascending order"]
SORTD = ["i4", "f8", "i8", "f4", "i1", "i2", "u1", "u2", "u4", "u8", "?", "g"]


def vals(c, d, n):
    if d == "g":
        return G.values(c, "f8", n).astype(np.longdouble)
    return G.values(c, d, n)


def shaped(c, a):
    k = c.weighted([(5, "asis"), (1, "sorted"), (1, "reversed"), (1, "organ"), (1, "nearly"), (1, "saw")])
    if k == "asis" or len(a) < 2:
        return a
    s = np.sort(a)
    if k == "sorted":
        return s
    if k == "reversed":
        return np.ascontiguousarray(s[::-1])
    if k == "organ":
        return np.concatenate([s[::2], s[1::2][::-1]])
    if k == "nearly":
        i, j = c.below(len(s)), c.below(len(s))
        s[i], s[j] = s[j], s[i]
        return s
    p = c.int(2, 33)
    return np.concatenate([s[i::p] for i in range(p)])


@law(2400, 30000)
def sort_values(c):
    """Sort / SortInPlace return the multiset of the input in non-decreasing order, NaN last"""
    d = c.choice(SORTD)
    n = G.size(c, big=.06, med=2000)
    mode = c.int(1, 3)
    a = shaped(c, vals(c, d, n))
    inplace = c.bool(.3)
    c.note(dtype=d, mode=mode, inplace=inplace, a=G.show(a))
    c.event("mode%d" % mode)
    want = np.sort(a)
    c.nontrivial(n > 2 and not np.array_equal(want, a, equal_nan=(a.dtype.kind == "f")))
    b = G.layout(c, a.copy()) if c.bool(.2) else a.copy()
    if inplace and b.flags.writeable:
        r = rc.SortInPlace(b, mode)
        same(np.asarray(r), want, "SortInPlace result")
        same(b, want, "SortInPlace array")
    else:
        r = rc.Sort(b, mode)
        same(np.asarray(r), want, "Sort")
        same(b, a, "Sort changed its input")


def key(c, n):
    d = c.choice(["i4", "f8", "i1", "S", "U", "i8", "f4", "u1", "i2", "u2", "u4", "u8", "?", "g", "V"])
    if d == "V":
        w = c.int(1, 9)
        raw = G.values(c, "u1", n * w, style=c.choice(["small", "edge", "full"]), lo=0, hi=3)
        return np.ascontiguousarray(raw).view("V%d" % w)
    if d == "g":
        return G.values(c, "f8", n, style=c.choice(["small", "edge"])).astype(np.longdouble)
    return G.values(c, d, n, style=c.weighted([(4, "small"), (2, "edge"), (1, "full"), (1, "mixed")]))


NANRANK = 1 << 60


def rank(a):
    """dense ranks in the library's order: NaN last, -0.0 == 0.0, strings by code point, void by bytes"""
    if a.dtype.kind == "V":
        # the order of opaque bytes is the library's own; it must be one strict order, whatever the array it is asked on
        b, w = a.tobytes(), a.itemsize
        rows = [b[i * w:(i + 1) * w] for i in range(len(a))]
        u = sorted(set(rows))
        if not u:
            return np.zeros(0, np.int64)
        ua = np.frombuffer(b"".join(u), a.dtype)
        o = np.asarray(rc.LexSort32([ua]))
        check(sorted(o.tolist()) == list(range(len(u))), "LexSort of distinct void keys is not a permutation")
        m = {u[k]: i for i, k in enumerate(o)}
        return np.array([m[r] for r in rows], np.int64)
    if a.dtype.kind == "f":
        r = np.unique(a + 0.0, return_inverse=True, equal_nan=True)[1].ravel().astype(np.int64)
        r[np.isnan(a)] = NANRANK
        return r
    return np.unique(a, return_inverse=True)[1].ravel().astype(np.int64)


def ref_lexsort(ranks, asc, idx):
    order = np.asarray(idx, np.int64)
    for r, up in zip(ranks, asc):
        v = r[order]
        if not up:
            v = np.where(v == NANRANK, v, -v)
        order = order[np.argsort(v, kind="stable")]
    return order


@law(2400, 30000)
def lexsort(c):
    """LexSort32/64: the stable lexicographic order (last key primary), whole array, from a start index, or per partition"""
    n = G.size(c, big=.05, lo=1, med=1200)
    nk = c.weighted([(4, 1), (3, 2), (1, 3)])
    keys = [key(c, n) for _ in range(nk)]
    if n > 16000:
        keys = [k if k.dtype.kind != "V" else G.values(c, "i2", n, style="small") for k in keys]
    i64 = c.bool()
    how = c.weighted([(5, "plain"), (3, "cutoffs"), (2, "index")])
    kw = {}
    asc = [True] * nk
    a = c.weighted([(3, "default"), (2, "scalar"), (2, "array")])
    if a == "scalar":
        v = c.bool()
        kw["ascending"] = v
        asc = [v] * nk
    elif a == "array":
        asc = [c.bool() for _ in range(nk)]
        kw["ascending"] = G.layout(c, np.array(asc, bool), .3)
    ranks = [rank(k) for k in keys]
    if how == "cutoffs":
        k = c.int(1, min(n, 9)) if not c.bool(.1) else 1
        cuts = sorted([c.int(0, n) for _ in range(k - 1)]) + [n]
        kw["cutoffs"] = G.layout(c, np.array(cuts, np.int64), .3)
        want = []
        p = 0
        for e in cuts:
            want.append(ref_lexsort([r[p:e] for r in ranks], asc, np.arange(e - p)))
            p = e
        want = np.concatenate(want)
    elif how == "index":
        m = c.int(1, n)
        if n <= 14:
            idx = np.array(c.sample(range(n), m))
        else:
            idx = c.nprng().permutation(n)[:m]
        idx = idx.astype("i8" if i64 else "i4")
        kw["index"] = idx.copy()
        want = ref_lexsort(ranks, asc, idx)
    else:
        want = ref_lexsort(ranks, asc, np.arange(n))
    c.note(i64=i64, how=how, asc=asc, kw={k: np.asarray(v).tolist() for k, v in kw.items()} if n < 60 else list(kw), keys=[G.show(k) for k in keys])
    c.event(how)
    c.nontrivial(n > 2 and (np.any(np.diff(want) < 0) or how == "cutoffs"))
    r = (rc.LexSort64 if i64 else rc.LexSort32)([k.copy() for k in keys], **kw)
    same(np.asarray(r), want.astype("i8" if i64 else "i4"), "LexSort " + how)


@law(1600, 20000)
def is_sorted(c):
    """IsSorted is True exactly for non-decreasing arrays (trailing NaNs allowed)"""
    n = G.size(c, big=.2, med=600)
    k = key(c, n)
    if n > 16000 and k.dtype.kind == "V":
        k = G.values(c, "i4", n, style="full")
    r = rank(k)
    a = k[np.argsort(r, kind="stable")]
    mode = c.weighted([(3, "sorted"), (4, "swap"), (2, "asis"), (2, "boundary")])
    if mode == "asis":
        a = k
    elif mode == "swap" and n:
        i, j = c.below(n), c.below(n)
        a = a.copy()
        t = a[i:i + 1].copy()
        a[i:i + 1] = a[j:j + 1]
        a[j:j + 1] = t
    elif mode == "boundary" and n > 16384:
        b = 16384 * c.int(1, (n - 1) // 16384)
        a = a.copy()
        i, j = b - c.int(0, 2), min(n - 1, b + c.int(0, 2))
        t = a[i:i + 1].copy()
        a[i:i + 1] = a[j:j + 1]
        a[j:j + 1] = t
    a = np.ascontiguousarray(a)
    ra = rank(a)
    want = bool(np.all(np.diff(ra) >= 0))
    c.note(mode=mode, a=G.show(a), want=want)
    c.event("sorted" if want else "unsorted")
    c.nontrivial(n > 2 and len(np.unique(ra)) > 1)
    got = rc.IsSorted(a)
    check(got is want, "IsSorted returned %r for %s data" % (got, "ordered" if want else "unordered"))


@law(400, 4000)
def sort_strings(c):
    """strings are refused unless they are single bytes, which sort by value"""
    d = c.choice(["S1", "S1", "S3", "S8", "U1", "U5", "c8", "M8[ns]", "f2", "V3"])
    n = G.size(c, med=600)
    r = c.nprng()
    a = r.integers(0, 256, n).astype("u1").view("S1") if d == "S1" else r.integers(0, 99, n).astype("i8").astype(d) if d not in ("V3",) else np.zeros(n, d)
    mode = c.int(1, 3)
    f = c.choice([rc.Sort, rc.SortInPlace])
    b = a.copy()
    c.note(dtype=d, mode=mode, f=f.__name__, a=G.show(a))
    c.event(d)
    c.nontrivial(n > 1)
    try:
        x = f(b, mode)
    except (ValueError, TypeError):
        check(d != "S1", "single bytes were refused")
        check(b.tobytes() == a.tobytes(), "the refused array changed")
        return
    if d[0] in "Vc":
        check(False, "%s was sorted" % d)
    same(np.asarray(x), np.sort(a), "sorted strings")


@law(600, 8000)
def indirect(c):
    """SortInPlaceIndirect(iKey, perm) replaces every key by its position in perm"""
    m = c.int(1, 40)
    n = G.size(c)
    p = np.array(c.perm(m)) if m < 12 else c.nprng().permutation(m)
    k = np.array([c.below(m) for _ in range(n)], np.int64) if n < 14 else c.nprng().integers(0, m, n)
    kd, pd = c.choice([("i4", "i4"), ("i4", "i8"), ("i8", "i8")])
    inv = np.argsort(p)
    a = k.astype(kd)
    p = p.astype(pd)
    bad = c.bool(.2)
    if bad:
        if n and c.bool():
            a[c.below(n)] = c.choice([-1, m, m + 7, np.iinfo(kd).min, np.iinfo(kd).max])
        elif c.bool():
            p[c.below(m)] = c.choice([-1, m, np.iinfo(pd).max])
        elif c.bool():
            p = p.astype(c.choice(["f8", "u4", "i2"]))
        else:
            a = a.astype(c.choice(["f8", "u4", "i2"]))
    if c.bool(.2):
        a = G.layout(c, a)
    if c.bool(.2):
        p = G.layout(c, p)
    c.note(k=a.tolist()[:50], p=p.tolist(), bad=bad)
    if bad or not a.flags.writeable:
        before = a.copy()
        try:
            rc.SortInPlaceIndirect(a, p)
        except (ValueError, IndexError):
            same(a, before, "refused keys")
            c.event("refused")
            return
        check(False, "keys or indexes that are not ones were taken")
    r = rc.SortInPlaceIndirect(a, p)
    c.nontrivial(n > 1 and m > 1)
    same(a, inv[k].astype(kd) if n else a[:0], "SortInPlaceIndirect")
    check(r is a or np.shares_memory(np.asarray(r), a), "SortInPlaceIndirect did not return its array")


@law(500, 6000)
def reverse_shuffle(c):
    """ReverseShuffle inverts a permutation"""
    n = G.size(c, big=.1, lo=1)
    p = (np.array(c.perm(n)) if n < 12 else c.nprng().permutation(n)).astype(c.choice(["i4", "i8"]))
    c.note(p=p.tolist()[:40])
    c.nontrivial(n > 2)
    r = np.asarray(rc.ReverseShuffle(p))
    w = np.argsort(p)
    same(r, w.astype(r.dtype), "ReverseShuffle")
    check(r.dtype.itemsize == p.dtype.itemsize, "ReverseShuffle dtype %s", r.dtype)


@law(600, 8000)
def naninf_count(c):
    """NanInfCountFromSort counts NaN, inf and -inf from the ends of the sorted order"""
    n = G.size(c, med=200)
    d = c.choice(["f8", "f4", "i4", "i8", "u2", "g"])
    a = vals(c, d, n)
    if a.dtype.kind == "f" and n:
        rep = [np.nan, np.inf, -np.inf]
        for _ in range(c.int(0, 6)):
            a[c.below(n)] = rep[c.below(3)]
    idx = np.argsort(a, kind="stable").astype(c.choice(["i4", "i8"]))
    c.note(a=G.show(a))
    if a.dtype.kind == "f":
        w = (int(np.isnan(a).sum()), int((a == np.inf).sum()), int((a == -np.inf).sum()))
        c.nontrivial(sum(w) > 0)
    else:
        w = (int((a == G.invalid(d)).sum()), 0, 0)
        return c.event("int-skipped")
    got = tuple(rc.NanInfCountFromSort(a, idx))
    check(got == w, "NanInfCountFromSort %s, expected %s", got, w)


@law(900, 12000)
def group_from_lexsort(c):
    """GroupFromLexSort(LexSort(k), k): labels equal exactly for equal keys, numbered in sorted order from base_index"""
    n = G.size(c, lo=1, med=600)
    k = key(c, n)
    if k.dtype.itemsize == 16 and k.dtype.kind == "f":
        k = k.astype("f8")      # labels come from the bytes of the key, and long double has padding
    if c.bool(.3):
        k2 = G.values(c, c.choice(["i4", "i1", "i8"]), n, style="small")
        rec = np.empty(n, [("a", k.dtype), ("b", k2.dtype)])
        rec["a"] = k
        rec["b"] = k2
        if k.dtype.kind == "f":
            k = k2
            rec = None
        ranks = [rank(k)] if rec is None else [rank(k2), rank(k)]
        keys = [k] if rec is None else [k2, k]
        value = k if rec is None else rec.view("V%d" % rec.dtype.itemsize)
        c.event("multikey")
    else:
        ranks, keys, value = [rank(k)], [k], k
    i64 = c.bool()
    up = not c.bool(.3)
    order = ref_lexsort(ranks, [up] * len(keys), np.arange(n)).astype("i8" if i64 else "i4")
    base = c.choice([None, 0, 1])
    kw = {} if base is None else {"base_index": base}
    c.note(keys=[G.show(x) for x in keys], base=base, i64=i64)
    tup = np.stack([r for r in ranks], 1)[order]
    new = np.ones(n, bool)
    new[1:] = np.any(tup[1:] != tup[:-1], 1)
    if value.dtype.kind == "V" and any(x.dtype.kind == "f" for x in keys):
        return c.event("skipped-float-void")
    if value.dtype.kind == "f":
        vv = value[order]
        if np.any((vv == 0) & np.signbit(vv)) and np.any((vv == 0) & ~np.signbit(vv)):
            return c.event("skipped-signed-zero")
    g = np.cumsum(new)
    lab = np.empty(n, np.int64)
    b = 1 if base is None else base
    lab[order] = g - 1 + b
    first = order[new]
    count = np.diff(np.append(np.flatnonzero(new), n))
    c.nontrivial(len(first) > 1 and len(first) < n)
    if c.bool(.15):
        bad = order.copy()
        bad[c.below(n)] = c.choice([-1, n, np.iinfo(order.dtype).max])
        try:
            rc.GroupFromLexSort(bad, value, **kw)
            check(False, "an index out of range was taken")
        except ValueError:
            pass
    order = G.layout(c, order, .3)
    value = G.layout(c, value, .3)
    r = rc.GroupFromLexSort(order, value, **kw)
    ik, ifirst, cnt = [np.asarray(x) for x in r[:3]]
    same(ik, lab.astype(ik.dtype), "iKey")
    same(ifirst, first.astype(ifirst.dtype), "iFirstKey")
    same(cnt, np.concatenate([[0], count]).astype(cnt.dtype), "nCount")


@law(700, 9000)
def group_partitions(c):
    """with cutoffs every partition is grouped on its own, numbered one partition after the other"""
    n = G.size(c, lo=1, med=600)
    k = key(c, n)
    if k.dtype.kind in "fV":
        k = G.values(c, c.choice(["i4", "S3", "u1", "i8", "i2"]), n, style="small")
    rk = rank(k)
    i64 = c.bool()
    cuts = sorted([c.int(0, n) for _ in range(c.int(0, 6))]) + [n]
    order, g0, p = [], 0, 0
    key_, first, count, ends = np.zeros(n, np.int64), [], [], []
    glob = []
    for e in cuts:
        o = np.argsort(rk[p:e], kind="stable")
        order.append(o)
        glob.append(o + p)
        t = rk[p:e][o]
        if e > p:
            new = np.append(True, t[1:] != t[:-1])
            key_[o + p] = np.cumsum(new) + g0
            first += list(o[new] + p)
            count += list(np.diff(np.append(np.flatnonzero(new), e - p)))
            g0 += int(new.sum())
        ends.append(g0)
        p = e
    order = np.concatenate(order).astype("i8" if i64 else "i4")
    c.note(key=G.show(k), cuts=cuts, i64=i64)
    c.nontrivial(len(cuts) > 1 and len(first) > 1)
    cc = G.layout(c, np.array(cuts, np.int64), .3)
    if c.bool(.15) and n:
        i = c.below(n)
        bad = order.copy()
        bad[i] = c.choice([-1, n, np.iinfo(order.dtype).max])
        try:
            rc.GroupFromLexSort(bad, k, cutoffs=cc)
            check(False, "an index out of range was taken")
        except ValueError:
            pass
    ik, ifirst, cnt, u = [np.asarray(x) for x in rc.GroupFromLexSort(order, G.layout(c, k, .3), cutoffs=cc)[:4]]
    same(ik, key_.astype(ik.dtype), "iKey")
    same(ifirst, np.array(first).astype(ifirst.dtype), "iFirstKey")
    same(cnt, np.array([0] + count).astype(cnt.dtype), "nCount")
    same(u, np.array(ends).astype(u.dtype), "uniques before each end")
    same(order, np.concatenate(glob).astype(order.dtype), "the index, made global in place")

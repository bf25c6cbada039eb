"""A catalogue of the library's operations over generated columns, for the relations that hold for all of them (C33, C34)."""
import numpy as np
import gen as G
from pbt import rc

INTS = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"]
NUM = INTS + ["f4", "f8"]


def column(c, n, d=None, lo=-60, hi=60):
    """n small whole numbers (so that sums are exact in any order) with invalids"""
    d = np.dtype(d or c.choice(NUM + ["?"]))
    r = c.nprng()
    if d.kind == "b":
        return r.random(n) < .5
    v = r.integers(0 if d.kind == "u" else lo, hi, n).astype(d)
    if c.bool(.4):
        v[r.random(n) < .02] = G.invalid(d)
    return v


def fcolumn(c, n, d=None):
    """n numbers with fractions"""
    d = np.dtype(d or c.choice(["f4", "f8"]))
    r = c.nprng()
    v = (r.standard_normal(n) * 10.0 ** r.integers(-2, 3, n)).astype(d)
    if c.bool(.4):
        v[r.random(n) < .02] = np.nan
    return v


def labels(c, n, nu):
    return c.nprng().integers(0, nu + 1, n).astype(c.choice(["i1", "i2", "i4", "i8"] if nu < 127 else ["i2", "i4", "i8"] if nu < 30000 else ["i4", "i8"]))


def bins(c, n):
    return c.weighted([(3, c.int(1, 20)), (2, c.int(20, 400)), (2, max(1, n // c.int(2, 40)))])


def keys(c, n):
    r = c.nprng()
    k = c.below(5)
    m = max(1, n // c.int(1, 30)) if c.bool(.7) else c.int(1, 50)
    v = r.integers(0, m, n)
    if k == 0:
        return v.astype("S8")
    if k == 1:
        return v.astype("U6")
    if k == 2:
        return v.astype(c.choice(["f4", "f8"])) / 4
    return v.astype(c.choice(["i4", "i8", "u4", "u8"]))


def strings(c, n):
    return keys(c, n).astype(c.choice(["S9", "U7"]))


def order(k, nu):
    o = np.argsort(k, kind="stable")
    cnt = np.bincount(k, minlength=nu + 1)
    first = np.concatenate([[0], np.cumsum(cnt)[:-1]])
    return o.astype("i4"), first.astype("i4"), cnt.astype("i4")


TABLE = {}


def op(f):
    TABLE[f.__name__] = f
    return f


# each entry returns (note, thunk, relative tolerance for floats); the thunk may run any number of times

@op
def binary(c, n):
    o = c.choice([("ADD", 1), ("SUB", 2), ("MUL", 3), ("DIV", 101), ("MOD", 5), ("MIN", 6), ("MAX", 7), ("FLOORDIV", 10), ("EQ", 401), ("NE", 402), ("LT", 403), ("GT", 404), ("LE", 405), ("GE", 406)])
    d = c.choice(NUM)
    a, b = column(c, n, d), column(c, n, d if c.bool(.7) else None)
    s = c.below(3)
    if s == 1:
        b = a.dtype.type(c.int(1, 9))
    elif s == 2:
        a, b = b, (a.dtype.type(3) if a.dtype == b.dtype else a)
    return "%s %s %s" % (o[0], getattr(a, "dtype", a), getattr(b, "dtype", b)), lambda: rc.BasicMathTwoInputs((a, b), o[1], 0), 0


@op
def bitwise(c, n):
    d = c.choice(INTS + ["?"])
    a, b = column(c, n, d), column(c, n, d)
    o = c.choice([504, 505, 506, 507])
    return "%d %s" % (o, d), lambda: rc.BasicMathTwoInputs((a, b), o, 0), 0


@op
def unary(c, n):
    o = c.choice([201, 202, 205, 206, 207, 208, 214, 216, 301, 302, 304, 601, 603, 604, 605, 611, 612])
    a = fcolumn(c, n) if c.bool() else column(c, n)
    return "%d %s" % (o, a.dtype), lambda: rc.BasicMathUnaryOp(a, o), 0


@op
def inplace(c, n):
    d = c.choice(NUM)
    a, b = column(c, n, d), column(c, n, d)
    o = c.choice([1, 2, 3])

    def f():
        x = a.copy()
        r = rc.BasicMathTwoInputs((x, b, x), o, 0)
        return x, r
    return "%d %s" % (o, d), f, 0


@op
def where(c, n):
    m = column(c, n, "?")
    d = np.dtype(c.choice(NUM))
    a, b = column(c, n, d), column(c, n, d)
    return d, lambda: rc.Where(m, (a, b), d.num, d.itemsize), 0


@op
def convert(c, n):
    a = column(c, n, c.choice(NUM + ["?"]), 0)
    d = np.dtype(c.choice(NUM + ["?"]))
    f = c.choice([rc.ConvertSafe, rc.ConvertUnsafe])
    return "%s to %s" % (a.dtype, d), lambda: f(a, d.num), 0


@op
def fancy(c, n):
    a = strings(c, n) if c.bool(.2) else column(c, n)
    i = c.nprng().integers(-n, n, n).astype(c.choice(["i4", "i8"])) if n else np.zeros(0, "i4")
    if n:
        i[c.below(n)] = G.invalid(i.dtype)
    return "%s[%s]" % (a.dtype, i.dtype), lambda: rc.MBGet(a, i), 0


@op
def boolindex(c, n):
    a = strings(c, n) if c.bool(.2) else column(c, n)
    m = c.nprng().random(n) < c.choice([.01, .5, .99])
    return a.dtype, lambda: (rc.BooleanIndex(a, m), rc.BooleanToFancy(m), rc.BooleanSum(m)), 0


@op
def setitem(c, n):
    d = c.choice(NUM)
    a, b = column(c, n, d), column(c, n, d)
    m = c.nprng().random(n) < c.choice([.01, .5, .99])
    put = c.bool()

    def f():
        x = a.copy()
        r = rc.PutMask(x, m, b) if put else rc.SetItem(x, m, b[m])
        return x, r
    return d, f, 0


@op
def reduction(c, n):
    o = c.choice([0, 1, 102, 103, 106, 107, 108, 109, 200, 201, 202, 203, 204, 205, 206, 207])
    a = column(c, max(n, 1))
    return "%d %s" % (o, a.dtype), lambda: rc.Reduce(a, o), 0 if o not in (102, 103, 106, 107, 108, 109) else 1e-12


@op
def cut(c, n):
    a = fcolumn(c, n)
    e = np.sort(c.nprng().standard_normal(c.int(2, 300)) * 10)
    return a.dtype, lambda: [rc.BinsToCutsBSearch(a, e, m) for m in (0, 1, 2)], 0


@op
def group(c, n):
    k = [keys(c, n) for _ in range(c.int(1, 3))]
    mode = c.choice([2, 2, 3]) if len(k) == 1 and k[0].dtype.kind in "iuf" else 2
    f = c.choice([None, column(c, n, "?")])
    return [a.dtype.str for a in k], lambda: rc.MultiKeyGroupBy32(k, 0, f, 2), 0


@op
def groupsuper(c, n):
    k = [keys(c, n) for _ in range(c.int(1, 2))]
    f = c.choice([None, column(c, n, "?")])
    return [a.dtype.str for a in k], lambda: rc.MultiKeyGroupBy32Super(k, 0, f), 0


@op
def unique(c, n):
    k = [keys(c, n) for _ in range(c.int(1, 2))]
    f = c.choice([None, column(c, n, "?")])
    return [a.dtype.str for a in k], lambda: rc.MultiKeyUnique32(k, 0, f), 0


@op
def rowhash(c, n):
    k = [keys(c, n) for _ in range(c.int(1, 2))]
    return [a.dtype.str for a in k], lambda: rc.MultiKeyHash(list(k)), 0


@op
def aggregate(c, n):
    nu = bins(c, n)
    k = labels(c, n, nu)
    m = c.weighted([(4, 1), (2, 3), (1, 12)])
    fn = [c.choice([0, 1, 2, 3, 4, 5, 50, 51, 52, 53, 54, 55]) for _ in range(m)]
    cols = [column(c, n, c.choice(NUM)) for _ in fn]
    return "%s of %s by %s, %d bins" % (fn, [a.dtype.str for a in cols], k.dtype, nu), lambda: rc.GroupByAll32(cols, k, nu, fn, [0] * m, [nu + 1] * m, 0), 1e-5 if any(a.dtype == np.dtype("f4") for a in cols) else 1e-11


@op
def packed(c, n):
    nu = bins(c, n)
    k = labels(c, n, nu)
    o, first, cnt = order(k, nu)
    fn, par = c.choice([(100, 0), (101, 0), (102, 0), (103, 0), (104, 0), (105, 0), (203, 2), (202, 1), (200, 3), (201, 3), (205, 3), (206, 3)])
    v = column(c, n, c.choice(NUM))
    return "%d of %s, %d bins" % (fn, v.dtype, nu), lambda: rc.GroupByAllPack32([v], k, o, first, cnt, nu, [fn], [0], [nu + 1], par), 1e-11


@op
def cumulative(c, n):
    nu = bins(c, n)
    k = labels(c, n, nu)
    fn = c.choice([300, 302, 306, 307, 308, 309, 303])
    cols = [column(c, n, c.choice(NUM)) for _ in range(c.weighted([(2, 1), (1, 5)]))]
    return "%d, %d bins" % (fn, nu), lambda: rc.EmaAll32(list(cols), k, nu, fn, (0.0, None, None, None)), 0


@op
def ema(c, n):
    nu = bins(c, n)
    k = labels(c, n, nu)
    t = np.cumsum(c.nprng().integers(0, 5, n)).astype("i8")
    cols = [fcolumn(c, n) for _ in range(c.weighted([(2, 1), (1, 5)]))]
    return "%d bins" % nu, lambda: rc.EmaAll32(list(cols), k, nu, c_fn, (.1, t, None, None)), 0


c_fn = 301


@op
def counts(c, n):
    nu = bins(c, n)
    k = labels(c, n, nu)

    def f():
        b = rc.BinCount(k, nu + 1)
        return b, rc.BinCount(k, nu + 1, pack=True), rc.GroupFromBinCount(k, np.asarray(b)), rc.GroupByPack32(k, None, nu), rc.MakeiNext(k.astype("i4"), nu + 1, 0)
    return "%d bins" % nu, f, 0


@op
def combine(c, n):
    nu, mu = bins(c, n), c.int(1, 50)
    a, b = labels(c, n, nu), labels(c, n, mu)
    f = c.nprng().random(n) < .5
    g = c.choice([None, f])
    return "%d bins, %d bins" % (nu, mu), lambda: (rc.CombineFilter(a, f), rc.CombineAccum1Filter(a, nu, g), rc.CombineAccum2Filter(a, b, nu, mu, g)), 0


@op
def rolling(c, n):
    v = column(c, n, c.choice(NUM))
    fn = c.choice([0, 1, 102, 103])
    w = c.int(1, max(1, min(n, 3000)))
    return "%d %s window %d" % (fn, v.dtype, w), lambda: rc.Rolling(v, fn, w), 0


@op
def timewindow(c, n):
    v = column(c, n, c.choice(["i4", "i8", "f8"]))
    t = np.cumsum(c.nprng().integers(0, 3, n)).astype("i8")
    return v.dtype, lambda: rc.TimeWindow(v, t, 0, 20), 0


@op
def lexsort(c, n):
    k = [keys(c, n) for _ in range(c.int(1, 3))]
    f = c.choice([rc.LexSort32, rc.LexSort64])
    return [a.dtype.str for a in k], lambda: f(list(k)), 0


@op
def sort(c, n):
    k = fcolumn(c, n) if c.bool() else column(c, n, c.choice(NUM))
    m = c.choice([1, 2, 3])
    return "%s mode %d" % (k.dtype, m), lambda: rc.Sort(k.copy(), m), 0


@op
def sorted_groups(c, n):
    k = keys(c, n)

    def f():
        o = rc.LexSort32([k])
        return o, rc.GroupFromLexSort(np.asarray(o), k), rc.ReverseShuffle(np.asarray(o))
    return k.dtype, f, 0


@op
def member(c, n):
    a, b = keys(c, n), keys(c, max(1, n // c.int(1, 5)))
    if a.dtype.kind in "SU" or b.dtype.kind in "SU":
        b = b.astype(a.dtype) if a.dtype.kind in "SU" else b.astype("f8").astype(a.dtype)
    elif a.dtype != b.dtype:
        b = b.astype(a.dtype)
    return "%s %s" % (a.dtype, b.dtype), lambda: (rc.IsMember32(a, b, 2), rc.IsMember64(a, b, 2), rc.IsMemberCategorical(a, b, 2)), 0


@op
def multimember(c, n):
    k = [keys(c, n + n // 2 + 1) for _ in range(2)]
    a, b = [x[:n].copy() for x in k], [x[n:].copy() for x in k]
    return [x.dtype.str for x in k], lambda: rc.MultiKeyIsMember32((list(a),), (list(b),)), 0


@op
def align(c, n):
    k = c.nprng().integers(0, 50, 2 * n).astype("i4")
    t = [np.sort(c.nprng().integers(0, 3 * n + 1, n)).astype("i8") for _ in range(2)]
    fw, ex = c.bool(), c.bool()

    def f():
        return (rc.MultiKeyAlign32(([k[:n].copy()],), ([k[n:].copy()],), t[0], t[1], fw, ex), rc.MergeBinnedAndSorted(k[:n].copy(), k[n:].copy(), t[0], t[1], 50))
    return "forward %s exact %s" % (fw, ex), f, 0


@op
def stack(c, n):
    parts = [column(c, c.choice([n, n // 3, 0, 5]), c.choice(NUM)) for _ in range(c.int(2, 6))]
    d = np.result_type(*parts)
    return d, lambda: (rc.HStack(list(parts), d.num), rc.HomogenizeArrays([p for p in parts if len(p) == len(parts[0])], -1)), 0


@op
def shift(c, n):
    v = [column(c, n) for _ in range(3)]
    s = c.int(-n, n)

    def f():
        x = [a.copy() for a in v]
        rc.ShiftArrays(x, s)
        return x
    return s, f, 0


@op
def nulls(c, n):
    v = fcolumn(c, n)
    o = np.argsort(v, kind="stable").astype("i4")
    return v.dtype, lambda: rc.NanInfCountFromSort(v, o), 0


@op
def crc(c, n):
    v = column(c, n)
    return v.dtype, lambda: rc.CalculateCRC(v), 0


@op
def compress(c, n):
    v = [column(c, n) for _ in range(c.int(1, 5))]

    def f():
        z = rc.CompressDecompressArrays(list(v), 0)
        return [np.asarray(x) for x in rc.CompressDecompressArrays(list(z), 1)]
    return [a.dtype.str for a in v], f, 0


def flat(x):
    if isinstance(x, np.ndarray):
        return [np.array(x)]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def differ(a, b, tol):
    """None, or what differs between two flat results"""
    if len(a) != len(b):
        return "%d results and not %d" % (len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, np.ndarray) != isinstance(y, np.ndarray):
            return "result %d is %s and not %s" % (i, type(y), type(x))
        if not isinstance(x, np.ndarray):
            if x == y or (x != x and y != y):
                continue
            if tol and isinstance(x, float) and isinstance(y, float) and abs(x - y) <= tol * abs(x) * 10:
                continue
            return "result %d is %r and not %r" % (i, y, x)
        if x.dtype != y.dtype or x.shape != y.shape:
            return "result %d is %s of %s and not %s of %s" % (i, y.shape, y.dtype, x.shape, x.dtype)
        if x.dtype == np.longdouble:
            x, y = x.astype("f8"), y.astype("f8")
        if x.tobytes() == y.tobytes():
            continue
        with np.errstate(all="ignore"):
            bad = ~((x == y) | ((x != x) & (y != y)))
            if tol and x.dtype.kind == "f":
                bad &= ~(np.abs(x - y) <= tol * (np.abs(x) + 1))
        if bad.any():
            j = int(np.flatnonzero(bad.ravel())[0])
            return "result %d at position %d (of %d, %d differ) is %r and not %r" % (i, j, x.size, int(bad.sum()), y.ravel()[j], x.ravel()[j])
    return None

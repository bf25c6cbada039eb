"""C40: coercion of objects to arrays (AsAnyArray, AsFastArray) and operators on arrays of a hooked class, against numpy."""
import numpy as np, operator, enum, datetime, decimal, fractions
import gen as G
from gen import same, check
from pbt import law, rc, Fail
from C25 import conv, rawarr
import C27, C28, C29
from C27 import D, promote, operand_shape, related_shape, place, values, scalar, describe

RULE = ("coercion: a case draws an object (scalars of Python and numpy, lists and tuples of one or several types, nested, ragged, empty, arrays of any dtype, layout and class) and maybe a dtype, copy and order; "
        "operators: an operator and its operands as in C27, C28 and C29, one of them at least of the hooked class; non-trivial = at least two elements, or a scalar that needs a dtype")
ASSUMPTIONS = ["coercion gives numpy's result except that a scalar gives one dimension; an array is never cast to a dtype that cannot hold it (refused)",
               "operators on dtypes the library answers for have the values C27, C28 and C29 state, all others those of numpy; in-place operators that numpy refuses are not judged",
               "x ** 1 may be x itself; small integer powers of floats may differ from numpy in the last bits", "x op= y may rebind x to a new array where the result has another dtype"]


class FA(np.ndarray):
    pass


_one = np.zeros(1).view(FA)
rc.SetFastArrayType(_one, len)
rc.BasicMathHook(_one, np.zeros(1))


class Sub(np.ndarray):
    pass


class E(enum.IntEnum):
    A = 1
    B = 7


class MyInt(int):
    pass


class Arr:
    def __init__(self, a):
        self.a = a

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)


# ------------------------------------------------------------------ coercion
def text(c, lo=0):
    n = c.weighted([(2, 0), (5, c.int(0, 6)), (1, c.int(5, 40))])
    alpha = c.choice(["ab", "abcdefghij \x00", "aé€\U0001f600z", "\x00a"])
    return "".join(alpha[c.below(len(alpha))] for _ in range(max(n, lo)))


def item(c, kind):
    if kind == "int":
        return c.weighted([(6, c.int(-9, 9)), (1, 2**31), (1, -2**31 - 1), (1, 2**63 - 1), (1, -2**63)])
    if kind == "bigint":
        return c.choice([1, -1, 0, 2**63, 2**64 - 1, 2**64, -2**63 - 1, 10**30, 5])
    if kind == "bool":
        return c.bool()
    if kind == "float":
        return c.choice([0.0, -0.0, 1.5, float("nan"), float("inf"), -1e300, 0.1, 3.0])
    if kind == "str":
        return text(c)
    if kind == "bytes":
        return text(c).encode("utf8")
    if kind == "complex":
        return complex(c.int(-3, 3), c.int(-3, 3))
    if kind == "none":
        return None
    if kind == "npfloat":
        return np.float64(c.int(-3, 3) / 4)
    if kind == "npf4":
        return np.float32(c.int(-3, 3) / 4)
    if kind == "npint":
        return np.int32(c.int(-3, 3))
    if kind == "npu8":
        return np.uint64(c.choice([1, 2**63, 2**64 - 1]))
    if kind == "npbool":
        return np.bool_(c.bool())
    if kind == "npstr":
        return np.str_(text(c))
    if kind == "npbytes":
        return np.bytes_(text(c).encode())
    if kind == "dt":
        return np.datetime64(c.int(-10**6, 10**6), c.choice(["s", "ns", "D", "M"]))
    if kind == "td":
        return np.timedelta64(c.int(-100, 100), c.choice(["s", "ns", "h"]))
    if kind == "date":
        return datetime.date(2000 + c.below(30), 1 + c.below(12), 1 + c.below(28))
    if kind == "enum":
        return c.choice(list(E))
    if kind == "myint":
        return MyInt(c.int(-4, 4))
    if kind == "decimal":
        return c.choice([decimal.Decimal("1.5"), fractions.Fraction(1, 3)])
    if kind == "0d":
        return np.array(c.int(-4, 4) / 2)
    if kind == "list":
        return [c.int(0, 3) for _ in range(c.int(0, 2))]
    if kind == "list2":
        return [c.int(0, 3), c.int(0, 3)]
    if kind == "arr2":
        return np.arange(2.0) + c.below(3)
    raise AssertionError(kind)


KINDS = ["int", "bool", "float", "str", "bytes", "bigint", "complex", "none", "npfloat", "npf4", "npint", "npu8", "npbool", "npstr", "npbytes", "dt", "td", "date", "enum", "myint", "decimal", "0d", "list", "list2", "arr2"]


def pick_kind(c):
    return c.weighted([(5, "int"), (4, "bool"), (4, "float"), (6, "str"), (5, "bytes"), (3, "bigint"), (6, c.choice(KINDS))])


def sequence(c):
    k = c.weighted([(8, "one"), (3, "two"), (2, "any"), (1, "empty"), (1, "range")])
    n = c.weighted([(2, 1), (2, 2), (6, c.int(1, 12)), (1, c.int(13, 600))])
    if k == "empty":
        s = []
    elif k == "range":
        s = range(c.int(-5, 5), c.int(-5, 40), c.choice([1, 2, 3]))
        return s
    elif k == "one":
        kind = pick_kind(c)
        s = [item(c, kind) for _ in range(n)]
    elif k == "two":
        a, b = pick_kind(c), pick_kind(c)
        s = [item(c, a) for _ in range(n)]
        for _ in range(c.int(1, 2)):
            s[c.below(n)] = item(c, b)
        if n > 1 and c.bool(.4):
            s[-1 if c.bool() else 0] = item(c, b)
    else:
        s = [item(c, pick_kind(c)) for _ in range(min(n, 12))]
    return s if c.bool(.8) else tuple(s)


def thing(c):
    """(object to coerce, a description)"""
    k = c.weighted([(10, "seq"), (3, "scalar"), (6, "array"), (1, "other")])
    if k == "seq":
        s = sequence(c)
        return s, "%s of %d: %r" % (type(s).__name__, len(s), s[:12])
    if k == "scalar":
        s = item(c, c.choice(KINDS[:-4]))
        return s, "%s %r" % (type(s).__name__, s)
    if k == "other":
        a = np.arange(c.int(0, 5))
        w = c.choice(["protocol", "bytearray", "memoryview", "dict", "object", "set"])
        s = dict(protocol=Arr(a), bytearray=bytearray(b"abc"), memoryview=memoryview(a.astype("i4").tobytes()), dict={1: 2}, object=object(), set={1, 2})[w]
        return s, w
    n = c.weighted([(1, 0), (1, 1), (8, c.int(2, 40))])
    d = c.choice(D + ["f2", "F", "S", "U", "M8[ns]", "m8[s]", "M8[D]", "O", "V5", ">i4", ">f8", "rec"])
    if d == "S" or d == "U":
        a = G.strings(c, d, n)
    elif d[0] in "Mm":
        a = c.nprng().integers(-9, 9, n).astype("i8").view(d)
    elif d == "O":
        a = np.array([item(c, c.choice(["int", "str", "none", "float"])) for _ in range(n)] + [None], object)[:n]
    elif d == "V5":
        a = c.nprng().integers(0, 256, n * 5).astype("u1").view("V5")
    elif d == "rec":
        a = np.zeros(n, [("a", "i4"), ("b", "S3")])
        a["a"] = np.arange(n)
        a["b"] = b"xy"
    elif d in (">i4", ">f8", "F", "f2"):
        a = c.nprng().integers(-9, 9, n).astype(d)
    else:
        a = rawarr(c, d, n)
    w = c.weighted([(8, "1d"), (2, "2d"), (1, "0d"), (1, "3d")])
    if w == "2d" and n:
        r = c.choice([k for k in (1, 2, 3, 5) if n % k == 0])
        a = a.reshape(r, n // r)
    elif w == "3d" and n and n % 4 == 0:
        a = a.reshape(2, 2, n // 4)
    elif w == "0d" and n:
        a = a[:1].reshape(())
    if d not in ("O", "rec"):
        a = place(c, a)
    elif a.ndim and c.bool(.2):
        a = a[::-1]
    cls = c.weighted([(7, np.ndarray), (4, FA), (1, Sub)])
    a = a.view(cls)
    if c.bool(.1):
        a.flags.writeable = False
    return a, "%s %s%s strides %s %r" % (cls.__name__, a.dtype, a.shape, a.strides, np.asarray(a).ravel()[:10].tolist())


def equal_arrays(got, want, what):
    check(got.dtype == want.dtype, "%s: dtype %s, numpy gives %s", what, got.dtype, want.dtype)
    check(got.shape == want.shape, "%s: shape %s, numpy gives %s", what, got.shape, want.shape)
    if want.dtype == object:
        if want.ndim == 0:
            return
        for i, (x, y) in enumerate(zip(got.ravel(), want.ravel())):
            check(x is y or (type(x) is type(y) and (np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y or x != x)), "%s: item %d is %r, numpy gives %r", what, i, x, y)
    elif want.dtype.char in "gG":
        check(bool(np.all((got == want) | (got != got) & (want != want))), "%s: values differ", what)
    else:
        g, w = np.ascontiguousarray(got).view(np.ndarray).tobytes(), np.ascontiguousarray(want).view(np.ndarray).tobytes()
        if g != w:
            g, w = np.asarray(got).ravel(), np.asarray(want).ravel()
            bad = [i for i in range(g.size) if g[i:i + 1].tobytes() != w[i:i + 1].tobytes()]
            if want.dtype.kind in "fc":         # one nan is as good as another
                bad = [i for i in bad if g[i] == g[i] or w[i] == w[i]]
            if bad:
                raise Fail("%s: item %d is %r, numpy gives %r" % (what, bad[0], g[bad[0]], w[bad[0]]))


def np_safe(x, d):
    """may numpy convert array x to dtype d without a forced cast?"""
    try:
        return np.can_cast(x.dtype, np.dtype(d))
    except Exception:
        return False


DTYPES = ["?", "i1", "u1", "i4", "i8", "u8", "f4", "f8", "g", "F", "S", "S3", "U", "U2", "O", "M8[ns]", "m8[s]", ">i4", bool, int, float, str, bytes, object, np.int16, "M8[s]", "V5"]


@law(6000, 120000)
def coerce(c):
    """AsAnyArray and AsFastArray against numpy"""
    x, note = thing(c)
    fast = c.bool(.4)
    dt = c.choice(DTYPES) if c.bool(.3) else None
    isarr = isinstance(x, np.ndarray)
    if isarr and dt is not None and c.bool(.3):
        dt = x.dtype
    if dt is not None and np.dtype(dt).kind in "mM" and (any(isinstance(y, (str, bytes)) for y in x) if isinstance(x, (list, tuple)) else np.asarray(x).dtype.kind in "SUO"):        # numpy itself dies of such a conversion
        dt = None
    if dt is not None and np.dtype(dt).kind in "SU" and (any(isinstance(y, (np.datetime64, np.timedelta64, datetime.date)) for y in x) if isinstance(x, (list, tuple)) else np.asarray(x).dtype.kind in "mM"):
        dt = None
    kw, args = {}, [x]
    if dt is not None:
        if c.bool():
            args.append(dt)
        else:
            kw["dtype"] = dt
    elif c.bool(.1):
        kw["dtype"] = None
    elif c.bool(.1):
        args.append(None)
    copy = None
    if c.bool(.25):
        copy = kw["copy"] = c.bool()
    order = None
    if c.bool(.2):
        order = kw["order"] = c.choice(["C", "F", None])
    f = rc.AsFastArray if fast else rc.AsAnyArray
    c.note(object=note, fast=fast, dtype=repr(dt), kw=repr({k: v for k, v in kw.items() if k != "dtype"}))
    before = np.array(x).tobytes() if isarr and x.dtype.char not in "OgG" else repr(x)
    err = got = None
    try:
        got = f(*args, **kw)
    except Exception as e:
        err = e
    want = werr = None
    try:
        want = np.array(x, dtype=dt, copy=bool(copy), order=order or "K", subok=False)
    except Exception as e:
        werr = e
    check((np.array(x).tobytes() if isarr and x.dtype.char not in "OgG" else repr(x)) == before, "the argument was changed")
    scal = isinstance(x, (np.generic,)) or (isarr and x.ndim == 0)
    if err is not None:
        c.event("refused")
        if werr is not None:
            return
        if (isarr or scal or hasattr(x, "__array__") or isinstance(x, (memoryview, bytearray, np.generic))) and dt is not None and isinstance(err, TypeError):
            a = np.asarray(x)
            if not np_safe(a, want.dtype) or not np_safe(a, dt):
                return
        if isinstance(x, (list, tuple)) and any(isinstance(y, (np.ndarray, np.generic)) for y in x) and dt is not None and isinstance(err, TypeError):
            return
        raise Fail("%s refused what numpy coerces to %s%s: %r" % (f.__name__, want.dtype, want.shape, err))
    check(isinstance(got, np.ndarray), "%s gave a %s", f.__name__, type(got).__name__)
    if fast:
        check(type(got) is FA, "AsFastArray gave a %s", type(got).__name__)
    if werr is not None:
        raise Fail("%s gave %s%s for what numpy refuses: %r" % (f.__name__, got.dtype, got.shape, werr))
    c.event("array" if isarr else type(x).__name__)
    c.nontrivial(got.size > 1 or dt is not None)
    plain = isarr and dt is None and not copy and order is None
    if plain and (isinstance(x, FA) or type(x) is np.ndarray) and not fast:
        check(got is x, "an array was not returned as it is")
        return
    if plain and isinstance(x, FA):
        check(got is x, "AsFastArray of a FastArray gave another object")
        return
    if want.ndim == 0 and not (plain and got.ndim == 0):
        want = want.reshape(1)
    if dt is not None and np.dtype(dt).itemsize == 0 and isinstance(x, (list, tuple)) and not len(x):
        want = want.astype(got.dtype)
    equal_arrays(got, want, f.__name__)
    check(got.dtype.isnative == want.dtype.isnative, "byte order")
    if order in ("C", "F") and isarr and x.ndim > 1:
        check(got.flags.c_contiguous if order == "C" else got.flags.f_contiguous, "order %s was not kept", order)
    if isarr and copy:
        check(not np.shares_memory(got, x), "a copy shares memory with the array it was made of")
    if isarr and plain and type(x) is np.ndarray and x.ndim and x.size:
        check(np.shares_memory(got, x), "AsFastArray copied an array")
    if isarr and dt is not None and np.dtype(dt) == x.dtype and not copy and order is None and x.ndim and x.size and np.dtype(dt).isnative:
        check(np.shares_memory(got, x), "an array of the wanted dtype was copied")
    if not isarr or copy:
        if got.size and got.flags.writeable and got.dtype != object and not hasattr(x, "__array__") and not isinstance(x, (memoryview, bytearray)):
            got.view(np.ndarray)[...] = np.zeros((), got.dtype)


# ------------------------------------------------------------------ operators
ARITH = dict(ADD=operator.add, SUB=operator.sub, MUL=operator.mul, DIV=operator.truediv, FLOORDIV=operator.floordiv, MOD=operator.mod)
BITS = dict(AND=operator.and_, OR=operator.or_, XOR=operator.xor)
CMPS = dict(LT=operator.lt, LTE=operator.le, EQ=operator.eq, NE=operator.ne, GT=operator.gt, GTE=operator.ge)
SHIFT = dict(LSHIFT=operator.lshift, RSHIFT=operator.rshift)
IOPS = dict(ADD=operator.iadd, SUB=operator.isub, MUL=operator.imul, DIV=operator.itruediv, FLOORDIV=operator.ifloordiv, MOD=operator.imod, AND=operator.iand, OR=operator.ior, XOR=operator.ixor,
            LSHIFT=operator.ilshift, RSHIFT=operator.irshift, POWER=operator.ipow)
CODES = dict(C27.OPS, **C28.CMP, **C28.BIT)
EVERY = dict(ARITH, **BITS, **CMPS, **SHIFT)


def plain(x):
    return x.view(np.ndarray) if isinstance(x, np.ndarray) else x


def attempt(f, *a):
    try:
        with np.errstate(all="ignore"):
            return f(*a), None
    except Exception as e:
        return None, e


def against_numpy(f, a, b, got, err, what):
    want, werr = attempt(f, plain(a), plain(b))
    if werr is not None:
        check(err is not None, "%s gave %r for what numpy refuses (%r)", what, got, werr)
        return
    if err is not None:
        raise Fail("%s raised %r, numpy gives a result" % (what, err))
    if want is NotImplemented or not isinstance(want, (np.ndarray, np.generic)):
        if isinstance(got, np.ndarray) and got.ndim == 0:
            got = got.item()
            got = got.item() if isinstance(got, np.ndarray) else got
        check(type(got) is type(want) and got == want, "%s: %r, numpy gives %r", what, got, want)
        return
    equal_arrays(np.asarray(got), np.asarray(want), what)


def result_of(op, a, b, got):
    """the values C27 and C28 state for an operation the library answers, in got's dtype"""
    fa, fb = isinstance(a, np.ndarray), isinstance(b, np.ndarray)
    if fa and fb:
        one = [x.size == 1 and y.size != 1 for x, y in ((a, b), (b, a))]
        if op in CMPS:
            return C28.cmp_arrays(op, plain(a), plain(b), not one[0], not one[1])
        T = promote(a.dtype, b.dtype)
        x, y = conv(np.array(a), T, not one[0]), conv(np.array(b), T, not one[1])
        if op in BITS:
            return BITS[op](x, y)
        return C27.opresult(op, x, y)
    return None


def scalar_first(f, a, b, got):
    """numpy's scalars come before the hook"""
    if not isinstance(a, np.generic):
        return False
    w, _ = attempt(f, a, plain(b))
    return w is not None and w.dtype == got.dtype and w.shape == got.shape and bool(np.all(G.eq_mask(w, got)))


def operands(c, op):
    s, t = c.choice(D), c.choice(D)
    if c.bool(.5):
        t = s
    if op in BITS or op in SHIFT:
        s, t = [x if np.dtype(x).kind in "iub" else "i4" for x in (s, t)]
    sh = operand_shape(c)
    a = place(c, values(c, s, int(np.prod(sh))).reshape(sh)).view(FA)
    k = c.weighted([(6, "array"), (3, "scalar"), (1, "list"), (1, "other")])
    if k == "array":
        sh2 = related_shape(c, sh)
        b = place(c, values(c, t, int(np.prod(sh2))).reshape(sh2)).view(c.choice([FA, FA, np.ndarray]))
    elif k == "scalar":
        b = scalar(c, s)
    elif k == "list":
        b = np.asarray(values(c, t, a.size)).reshape(sh).tolist()
    else:
        b = c.choice([None, "x", np.zeros(a.shape, "M8[s]"), np.ones(a.shape, "F"), np.array(["a"] * (a.size or 1)), b"q", 1j, np.full(a.shape or (1,), 3, object) if op not in SHIFT else "y"])
    if isinstance(b, np.ndarray) and a.size * b.size > 10**6 and a.ndim != b.ndim:       # (numpy would broadcast these to a huge result)
        b = a
    if c.bool(.4):
        return b, a
    return a, b


@law(6000, 100000)
def binary(c):
    """operators of two operands, one of the hooked class at least, on either side"""
    op = c.choice(list(EVERY))
    f = EVERY[op]
    a, b = operands(c, op)
    describe(c, op=op, a=a, b=b)
    keep = C27.snap(a, b)
    got, err = attempt(f, a, b)
    check(C27.snap(a, b) == keep, "an operand was changed")
    ref = None
    hooked = isinstance(a, FA) or isinstance(b, FA)
    if op in CODES and op not in SHIFT:
        ref, _ = attempt(rc.BasicMathTwoInputs, (plain(a), plain(b)), CODES[op], 0)
    if ref is None:
        c.event("numpy's")
        against_numpy(f, a, b, got, err, op)
        c.nontrivial(isinstance(got, np.ndarray) and got.size > 1)
        return
    c.event(op)
    if err is not None:
        raise Fail("%s raised %r" % (op, err))
    check(isinstance(got, np.ndarray), "%s gave a %s", op, type(got).__name__)
    c.nontrivial(got.size > 1)
    # what the library answers when asked directly (C27 and C28 hold that to numpy)
    ref = np.asarray(ref)
    if scalar_first(f, a, b, got):
        c.event("scalar's")
        return
    equal_arrays(np.asarray(got), ref, op)
    want = result_of(op, a, b, got)
    if want is not None:
        same(np.asarray(got), np.asarray(want), op, sign=False)


@law(3000, 60000)
def power(c):
    """x ** y, in place too, with small integer exponents most often"""
    d = c.choice(D)
    sh = operand_shape(c) or (1,)           # (numpy picks the dtype of powers without dimensions by value)
    a = place(c, values(c, d, int(np.prod(sh))).reshape(sh)).view(FA)
    k = c.weighted([(8, "small"), (2, "scalar"), (2, "array"), (1, "base"), (1, "big")])
    if k == "small":
        b = c.choice([1, 2, 3, 4, 0, 5, True, 2.0, 0.5, np.int64(2), np.int8(3), np.float64(2)])
    elif k == "scalar":
        b = scalar(c, d)
    elif k == "big":
        b = c.choice([2**63, 2**64 + 2, -2**65, 10**20])
    else:
        b = place(c, values(c, d if c.bool() else c.choice(D), int(np.prod(sh))).reshape(sh)).view(FA)
    if type(b) is int and abs(b) >= 2**62 and np.dtype(d).kind != "f":      # numpy would compute such a power of Python integers
        b = 7
    inplace = k != "base" and c.bool(.3)
    describe(c, a=a, b=b)
    c.note(inplace=inplace)
    x, y = (a, b) if k != "base" else (c.choice([2, 3, -1, 0, 1.5, np.int32(2)]), a)
    if k == "base":
        c.note(base=x)
    X = x.copy(order="K") if inplace and isinstance(x, np.ndarray) else x
    keep = C27.snap(x, y)
    X0 = X.copy(order="K") if inplace else X
    if inplace:
        got, err = attempt(operator.ipow, X, y)
        nw, werr = attempt(operator.ipow, plain(x).copy(), plain(y))
        if werr is not None:
            return
    else:
        got, err = attempt(operator.pow, X, y)
        check(C27.snap(X, y) == keep, "an operand was changed")
    want, werr = attempt(operator.pow, plain(x), plain(y))
    ref, _ = attempt(rc.BasicMathTwoInputs, (plain(X0), plain(y)), CODES["POWER"], 0)
    if err is not None:
        if werr is None and not inplace:
            raise Fail("power raised %r, numpy gives a result" % err)
        return
    got = np.asarray(got)
    c.event(type(y).__name__ if not isinstance(y, np.ndarray) else "array")
    c.nontrivial(got.size > 1)
    if isinstance(y, int) and isinstance(x, np.ndarray) and 1 <= y <= 4 and not inplace:
        # repeated multiplication in x's dtype
        w = plain(x).copy()
        with np.errstate(all="ignore"):
            e = w
            for _ in range(int(y) - 1):
                e = e * w if w.dtype.kind != "b" else e & w
        if y == 4:
            with np.errstate(all="ignore"):
                e = (w * w) * (w * w) if w.dtype.kind != "b" else w
        check(got.dtype in (e.dtype, want.dtype if want is not None else e.dtype) or (e.dtype == bool and got.dtype.kind == "i"), "dtype %s", got.dtype)
        same(got, e.astype(got.dtype), "power %d" % y, rtol={4: 2e-6, 8: 1e-13}.get(got.dtype.itemsize, 1e-13) if got.dtype.kind == "f" else 0, sign=False)
        return
    if ref is None:
        if inplace:
            want, werr = nw, None
        if werr is None and got.dtype != object:
            same(got, np.asarray(want).astype(got.dtype), "power", rtol=1e-13 if got.dtype.kind == "f" else 0, sign=False)
        return
    ref = np.asarray(ref)
    check(got.shape == ref.shape, "shape %s, expected %s", got.shape, ref.shape)
    if inplace:
        if not isinstance(y, (np.ndarray, np.generic)) or np.can_cast(y.dtype, x.dtype, "same_kind"):
            with np.errstate(all="ignore"):
                same(got.astype(ref.dtype), np.where(G.eq_mask(got, nw), nw, ref.astype(got.dtype)).astype(ref.dtype), "x **= y", rtol=3e-6 if "f4" in (got.dtype.str[1:], ref.dtype.str[1:]) else 1e-12, sign=False)
        return
    if not scalar_first(operator.pow, x, y, got):
        equal_arrays(got, ref, "power")


@law(4000, 80000)
def inplace(c):
    """x op= y: x has the values numpy gives it, in x's dtype, and a view taken before sees them if x is still the same object"""
    op = c.choice([o for o in IOPS if o != "POWER"])
    f = IOPS[op]
    s = c.choice(D)
    t = s if c.bool(.6) else c.choice(D)
    if op in BITS or op in SHIFT:
        s, t = [x if np.dtype(x).kind in "iub" else "i4" for x in (s, t)]
    sh = operand_shape(c)
    a = values(c, s, int(np.prod(sh))).reshape(sh)
    k = c.weighted([(6, "array"), (3, "scalar"), (2, "self"), (1, "reverse")])
    if k == "array":
        sh2 = related_shape(c, sh) if c.bool(.4) and a.size < 1000 else sh
        b = place(c, values(c, t, int(np.prod(sh2))).reshape(sh2)).view(c.choice([FA, np.ndarray]))
    elif k == "scalar":
        b = scalar(c, s)
    a = np.array(place(c, a), copy=False).view(FA) if False else place(c, a).view(FA)
    if k == "self":
        b = a
    elif k == "reverse":
        b = a[::-1] if a.ndim else a
    if not a.flags.writeable:
        return
    describe(c, op=op, a=a, b=b)
    c.note(k=k)
    a0 = np.array(plain(a), order="K")
    b0 = plain(b).copy() if isinstance(b, np.ndarray) else b
    ref, _ = attempt(rc.BasicMathTwoInputs, (plain(a), plain(b)), CODES[op], 0) if op in CODES else (None, None)
    want, werr = attempt(f, a0.copy(order="K"), b0)
    if werr is not None:
        return
    got, err = attempt(f, a, b)
    if err is not None:
        raise Fail("%s= raised %r, numpy gives a result" % (op, err))
    c.event(op + ("" if got is a else " rebound"))
    c.nontrivial(got.size > 1)
    if got is not a:
        check(np.array_equal(plain(a).view(np.ndarray).ravel().tobytes(), a0.ravel().tobytes()) or s == "g", "%s= gave a new array and changed the old one too", op)
    if isinstance(b, np.ndarray) and k == "array":
        check(plain(b).tobytes() == b0.tobytes() or b.dtype.char == "g", "%s= changed its right operand", op)
    if ref is None:
        equal_arrays(np.asarray(got), want, op + "=")
        return
    ref = np.asarray(ref)
    check(got.shape == a0.shape, "%s=: shape %s, expected %s", op, got.shape, a0.shape)
    g = np.asarray(got)
    if ref.dtype == g.dtype:
        equal_arrays(g, np.where(G.eq_mask(g, want), want, ref).astype(ref.dtype), op + "=")
    else:
        check(g.dtype == a0.dtype or g.dtype == ref.dtype, "%s=: dtype %s", op, g.dtype)
        with np.errstate(all="ignore"):
            e = conv(ref, g.dtype)
            if np.array_equal(plain(conv(np.array(a0), ref.dtype)), a0.astype(ref.dtype), equal_nan=True):
                same(g, np.where(G.eq_mask(g, want), want, e).astype(e.dtype), op + "=", rtol=1e-6 if g.dtype == np.float32 else 0, sign=False)


@law(2500, 50000)
def unary(c):
    """abs, minus, not"""
    op, f = c.choice([("ABS", operator.abs), ("NEG", operator.neg), ("INVERT", operator.invert)])
    d = c.choice(D + ["M8[s]", "m8[s]", "F", "O", "S3", "f2"])
    sh = operand_shape(c)
    if d == "O":
        sh = sh or (1,)
    n = int(np.prod(sh))
    if d in D:
        a = rawarr(c, d, n).reshape(sh)
    elif d == "O":
        a = np.array([c.int(-5, 5) for _ in range(n)] + [None], object)[:n].reshape(sh)
    elif d == "S3":
        a = np.full(sh, b"ab", "S3")
    else:
        a = c.nprng().integers(-9, 9, n).astype("i8").reshape(sh)
        a = a.view(d) if d[0] in "Mm" else a.astype(d)
    a = (place(c, a) if d != "O" else a).view(FA)
    describe(c, op=op, a=a)
    keep = C27.snap(a) if d != "O" else None
    got, err = attempt(f, a)
    check(d == "O" or C27.snap(a) == keep, "the operand was changed")
    want, werr = attempt(f, plain(a))
    if werr is not None:
        check(err is not None, "%s gave %r for what numpy refuses", op, got)
        return
    if err is not None:
        raise Fail("%s raised %r, numpy gives a result" % (op, err))
    got = np.asarray(got)
    c.event(op)
    c.nontrivial(got.size > 1)
    equal_arrays(got, np.asarray(want), op)

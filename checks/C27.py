"""C27: two-operand arithmetic (BasicMathTwoInputs), string concatenation and Where against numpy."""
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc, Fail
from C25 import conv, rawarr

RULE = ("a case draws an operation, two operands (arrays of any two numeric dtypes, shapes, memory orders and layouts; length-1 and 0-dim arrays; Python and numpy scalars), and sometimes an "
        "output array (fresh, one of the operands, overlapping, read-only, too long, strided, misaligned, of another dtype); non-trivial = the library answered and the result has more than one element")
ASSUMPTIONS = ["result dtypes are numpy's except that 32 and 64 bit integers with float32 give float32; arrays are converted to the result dtype with invalids to invalids before the operation; "
               "scalars and length-1 arrays broadcast as plain values", "with an output array of the array's dtype, sums, differences and products with a scalar of another dtype keep the array's dtype (integers wrap)",
               "an integer zero to a negative power is undefined", "difference of two bools is x and not y"]

D = ["i4", "f8", "i8", "f4", "i1", "i2", "u1", "u2", "u4", "u8", "?", "g", "q", "Q"]
OPS = dict(ADD=1, SUB=2, MUL=3, MOD=5, MIN=6, MAX=7, FLOORDIV=10, POWER=11, REMAINDER=12, DIV=101)
NP = dict(ADD=np.add, SUB=np.subtract, MUL=np.multiply, MOD=np.remainder, MIN=np.minimum, MAX=np.maximum, FLOORDIV=np.floor_divide, POWER=np.power,
          REMAINDER=np.remainder, DIV=np.true_divide)


def promote(a, b):
    a, b = np.dtype(a), np.dtype(b)
    for x, y in ((a, b), (b, a)):
        if x == np.float32 and y.kind in "iu" and y.itemsize >= 4:
            return np.dtype("f4")
    return np.result_type(np.empty(2, a), np.empty(2, b))


def operand_shape(c):
    nd = c.weighted([(12, 1), (4, 2), (2, 3), (1, 0)])
    if nd == 1:
        return (G.size(c, big=.06),)
    return tuple(c.int(0 if c.bool(.08) else 1, 5) for _ in range(nd))


def place(c, a):
    """an array equal to a in some memory layout"""
    if a.ndim == 0:
        return a
    if a.ndim == 1:
        return G.layout(c, a, .3)
    k = c.weighted([(4, "C"), (5, "F"), (1, "mid"), (1, "slice"), (1, "T")])
    if k == "F":
        return np.asfortranarray(a)
    if k == "T":
        return np.ascontiguousarray(a.swapaxes(0, 1)).swapaxes(0, 1)
    if k in ("slice", "mid"):
        big = np.zeros([s + 1 + c.int(0, 2) for s in a.shape], a.dtype, order="F" if k == "mid" else "C")
        v = big[tuple(slice(1, 1 + s) for s in a.shape)]
        v[...] = a
        return v
    return a


def related_shape(c, sh):
    """a shape to pair with sh"""
    k = c.weighted([(14, "same"), (2, "one"), (1, "ones"), (2, "other"), (1, "col"), (1, "flat"), (1, "0d"), (1, "rev")])
    if k == "same":
        return sh
    if k == "one":
        return (1,)
    if k == "ones":
        return (1,) * c.int(1, 3)
    if k == "0d":
        return ()
    if k == "rev":
        return sh[::-1]
    if k == "flat":
        return (int(np.prod(sh)),)
    if k == "col":
        return sh + (1,) if len(sh) < 3 else sh
    return operand_shape(c)


def values(c, d, n):
    a = rawarr(c, d, n)
    return a


def scalar(c, d):
    """a Python or numpy scalar to combine with an array of dtype d, and its note"""
    k = c.weighted([(4, "int"), (3, "float"), (1, "bool"), (4, "np"), (1, "bigint")])
    if k == "int":
        if c.bool(.5):
            return c.int(-5, 9)
        b = c.choice([7, 8, 15, 16, 31, 32, 53, 63])
        return c.choice([1, -1]) * (1 << b) + c.int(-1, 1)
    if k == "bigint":
        return c.choice([2**64, 2**64 - 1, 2**63, 2**63 + 5, -2**63, -2**63 - 1, 2**70, -2**70, 10**30])
    if k == "float":
        return c.choice([0.0, 1.5, -2.25, 0.1, 3.0, float("nan"), float("inf"), -float("inf"), 1e300, 1e-5, -7.0, 300.0])
    if k == "bool":
        return c.bool()
    t = c.choice(D + ["f2"])
    if t == "f2":
        return np.float16(c.choice([0.5, 1.5, -3.25, 100.0]))
    if t == "g":
        return np.longdouble(c.int(-5, 5)) / c.choice([1, 3])
    v = G.values(c, t, 1)
    return v[0]


def isnpscalar(x):
    return isinstance(x, np.generic)


def scalar_target(s, d, T):
    """does T hold the array dtype d and the scalar s?  (returns an error text or None)"""
    d, T = np.dtype(d), np.dtype(T)
    if isnpscalar(s) and not isinstance(s, float):
        want = promote(d, s.dtype)
        return None if T == want else "dtype %s, expected %s" % (T, want)
    if isinstance(s, bool):
        return None if T == d else "dtype %s, expected %s" % (T, d)
    if isinstance(s, int):
        if d.kind == "f":
            return None if T == d else "dtype %s, expected %s" % (T, d)
        if T.kind == "f":
            if T != np.float64:
                return "dtype %s for an integer scalar" % T
            if d.itemsize < 8 and -2**63 <= s < 2**63:
                return "dtype %s although an integer dtype holds both" % T
            return None
        ii = np.iinfo(T) if T.kind in "iu" else None
        if ii is None:
            return "dtype %s does not hold the scalar" % T
        if not ii.min <= s <= ii.max:
            return "dtype %s does not hold the scalar %d" % (T, s)
        if not np.can_cast(d, T):
            return "dtype %s does not hold %s" % (T, d)
        return None
    want = d if d.kind == "f" else np.dtype("f8")
    return None if T == want else "dtype %s, expected %s" % (T, want)


def cast_scalar(s, T):
    T = np.dtype(T)
    with np.errstate(all="ignore"):
        if isnpscalar(s):
            return np.asarray(s).astype(T)
        if isinstance(s, int) and T.kind in "iu":
            return np.array(s & ((1 << (8 * T.itemsize)) - 1), "u%d" % T.itemsize).view(T)
        if T == np.longdouble and isinstance(s, int) and -2**63 <= s < 2**64:
            return np.array(np.longdouble(s))
        try:
            return np.array(s).astype(T) if not (isinstance(s, int) and abs(s) >= 2**63) else np.array(float(s)).astype(T)
        except OverflowError:
            return np.array(float("inf") if s > 0 else -float("inf")).astype(T)


def opresult(op, x, y):
    """the operation of two arrays of one dtype (or the division of them)"""
    T = x.dtype
    with np.errstate(all="ignore"):
        if op == "SUB" and T.kind == "b":
            return x & ~y
        if op == "POWER" and T.kind == "i":
            neg = y < 0
            r = np.power(x, np.where(neg, T.type(0), y))
            odd = (y & T.type(1)) != 0
            r = np.where(neg, np.where(x == 1, 1, np.where(x == -1, np.where(odd, -1, 1), 0)).astype(T), r)
            return r.astype(T)
        if op == "DIV" and T.kind in "iub":
            return x.astype("f8") / y.astype("f8")
        r = NP[op](x, y)
        return r


def compare(op, got, x, y, what):
    want = opresult(op, x, y)
    want = np.array(want, order="C")
    if op == "POWER":
        if x.dtype.kind == "i":
            skip = np.broadcast_to((x == 0) & (y < 0), want.shape)
            want = np.where(skip, got, want).astype(want.dtype)
            same(got, want, what)
        elif x.dtype.kind == "f":
            same(got, want, what, rtol=2e-6 if x.dtype.itemsize == 4 else 1e-13)
        else:
            same(got, want, what)
    else:
        same(got, want, what, sign=op in ("ADD", "SUB", "MUL", "DIV"))


def describe(c, **kw):
    for k, v in kw.items():
        if isinstance(v, np.ndarray):
            v = (G.show(v) if v.ndim == 1 else "%s%s strides%s %s" % (v.dtype.str, v.shape, v.strides, v.ravel()[:12].tolist()))
        else:
            v = "%s %r" % (type(v).__name__, v)
        c.note(**{k: v})


def snap(*xs):
    return [np.array(x).tobytes() if isinstance(x, np.ndarray) and x.dtype.char != "g" else None for x in xs]


def pad_tame(op, d, a):
    """keep float32 values moderate so that rounding of the promoted value is the same"""
    return a


@law(9000, 160000)
def arrays(c):
    """two arrays of any dtypes, shapes and layouts"""
    op = c.choice(list(OPS))
    s, t = c.choice(D), c.choice(D)
    if c.bool(.4):
        t = s
    sh = operand_shape(c)
    sh2 = related_shape(c, sh)
    a = place(c, values(c, s, int(np.prod(sh))).reshape(sh))
    b = place(c, values(c, t, int(np.prod(sh2))).reshape(sh2))
    describe(c, op=op, a=a, b=b)
    keep = snap(a, b)
    got = rc.BasicMathTwoInputs((a, b), OPS[op], 0)
    check(snap(a, b) == keep, "an operand was changed")
    if got is None:
        c.event("declined")
        return
    c.event(op)
    try:
        bs = np.broadcast_shapes(sh, sh2)
    except ValueError:
        raise Fail("shapes %s and %s do not broadcast but a result of shape %s was returned" % (sh, sh2, got.shape))
    check(got.shape == bs, "shape %s, expected %s" % (got.shape, bs))
    T = promote(s, t)
    one = [x.size == 1 and y.size != 1 for x, y in ((a, b), (b, a))]
    x = conv(np.array(a), T, not one[0])
    y = conv(np.array(b), T, not one[1])
    c.nontrivial(got.size > 1)
    if op != "DIV":
        check(got.dtype == T, "dtype %s, expected %s" % (got.dtype, T))
    compare(op, got, x, y, op)
    if a.ndim > 1 and a.flags.f_contiguous and b.flags.f_contiguous and not a.flags.c_contiguous and sh == sh2:
        check(got.flags.f_contiguous, "Fortran order was lost")


@law(7000, 120000)
def scalars(c):
    """an array with a Python or numpy scalar, on either side"""
    op = c.choice(list(OPS))
    d = c.choice(D)
    sh = operand_shape(c)
    a = place(c, values(c, d, int(np.prod(sh))).reshape(sh))
    s = scalar(c, d)
    first = c.bool()
    describe(c, op=op, a=a, s=s)
    c.note(first=first)
    keep = snap(a)
    got = rc.BasicMathTwoInputs((s, a) if first else (a, s), OPS[op], 0)
    check(snap(a) == keep, "the operand was changed")
    if got is None:
        c.event("declined")
        return
    c.event(op)
    c.nontrivial(got.size > 1)
    check(got.shape == sh, "shape %s, expected %s" % (got.shape, sh))
    T = got.dtype
    if op == "DIV":
        # float32 stays float32, all else divides in double
        if T == np.float32:
            pass
        else:
            check(T == np.float64, "dtype %s" % T)
            if np.dtype(d).kind in "iub" and isinstance(s, (int, np.integer, np.bool_)) and not isinstance(s, bool):
                # the operands are first brought to one integer dtype: find it by the sum
                r = rc.BasicMathTwoInputs((s, a) if first else (a, s), OPS["ADD"], 0)
                T = r.dtype if r is not None else T
            elif np.dtype(d).kind in "iub" and isinstance(s, bool):
                T = np.dtype(d)
    err = scalar_target(s, d, T)
    if err:
        raise Fail(err)
    x = conv(np.array(a), T)
    y = cast_scalar(s, T)
    if first:
        compare(op, got, np.broadcast_to(y, x.shape), x, op)
    else:
        compare(op, got, x, np.broadcast_to(y, x.shape), op)


def canary(c, d, n):
    """a buffer with guard elements around n elements of dtype d"""
    d = np.dtype(d)
    buf = np.zeros(n + 16, d)
    buf.view(np.uint8)[...] = 0x55
    if d == bool:
        buf[...] = True
    return buf


@law(7000, 120000)
def outputs(c):
    """an output array receives the result, or the call declines or returns a new array and leaves it alone"""
    op = c.choice(list(OPS))
    s = c.choice(D)
    t = s if c.bool(.7) else c.choice(D)
    nd = c.weighted([(8, 1), (2, 2)])
    n = G.size(c, big=.06)
    sh = (n,) if nd == 1 else (c.int(1, 5), c.int(1, 6))
    n = int(np.prod(sh))
    mode = c.weighted([(5, "fresh"), (6, "first"), (4, "second"), (3, "overlap"), (1, "readonly"), (2, "longer"), (2, "strided"), (2, "misaligned"), (1, "type"), (2, "shape"), (1, "cast")])
    order = "F" if nd == 2 and c.bool(.7) else "C"
    T = promote(s, t)
    R = T if op != "DIV" else (T if T == np.float32 else np.dtype("f8"))
    a = np.asarray(values(c, s, n).reshape(sh), order=order)
    sc = c.bool(.35)
    if sc:
        d = np.dtype(s)
        v = values(c, s, 1)[0]
        if d.kind in "iu":
            b = int(v) if c.bool() else v
        elif d.kind == "f" and s != "g":
            b = float(v) if c.bool() else v
        else:
            b = v
        T = np.dtype(s)
        R = T if op != "DIV" else (T if T == np.float32 else np.dtype("f8"))
        if mode == "second":
            mode = "first"
    else:
        b = np.asarray(values(c, t, n).reshape(sh), order=order)
    buf = canary(c, R, 3 * n + 16)
    k = 8
    out = None
    if mode == "first":
        out = a
        if nd == 1 and c.bool(.4):
            buf = canary(c, s, n)
            off = c.int(1, 8)
            buf[off:off + n] = a
            out = a = buf[off:off + n]
    elif mode == "second":
        out = b
    elif mode == "overlap":
        off = c.int(0, 5)
        buf = canary(c, s, n + 8)
        a = buf[off:off + n]
        a[...] = values(c, s, n)
        sh = (n,)
        if not sc:
            b = np.ravel(b)
        off2 = c.int(0, 5)
        m = max(0, n - (c.int(0, 3) if c.bool(.3) else 0))
        out = buf[off2:off2 + m]
        if out.dtype != R or (c.bool(.3) and R.itemsize == a.dtype.itemsize):
            out = buf.view(np.uint8)[off2:]
            out = out[:len(out) // R.itemsize * R.itemsize][:n * R.itemsize].view(R) if c.bool() or not out.flags.aligned else buf[off2:off2 + n]
    elif mode == "longer":
        out = buf[k:k + n + c.int(1, 5)]
    elif mode == "strided":
        out = buf[k:k + 2 * n:2]
        sh = (n,)
        a = np.ravel(a)
        b = b if sc else np.ravel(b)
    elif mode == "misaligned":
        raw = buf.view(np.uint8)
        out = raw[1:1 + n * R.itemsize].view(R)
        sh = (n,)
        a = np.ravel(a)
        b = b if sc else np.ravel(b)
        if c.bool() and R == a.dtype:
            out[...] = a
            a = out
    elif mode == "type":
        out = np.zeros(sh, c.choice(D))
    elif mode == "cast":
        out = a if np.dtype(s) != R else np.zeros(sh, R)
    elif mode == "shape":
        out = np.zeros(c.choice([(n, 1), (1, n), sh[::-1], (), (1,)]), R)
    else:
        out = np.zeros(sh, R, order=order if c.bool(.8) else "C")
    if mode == "readonly":
        out.flags.writeable = False
    describe(c, op=op, a=a, b=b, out=out)
    c.note(mode=mode, first=order)
    alias = [out is a, out is b]
    a0, b0 = np.array(a), (np.array(b) if not sc else b)
    before, bufb = out.copy(), buf.copy()
    got = rc.BasicMathTwoInputs((a, b, out), OPS[op], 0)
    changed = [not (alias[0] or np.may_share_memory(a, out)) and not bool(np.all(G.eq_mask(a, a0))),
               not sc and not (alias[1] or np.may_share_memory(b, out)) and not bool(np.all(G.eq_mask(b, b0)))]
    check(not any(changed), "an operand was changed")
    if got is not out:
        check(bool(np.all(G.eq_mask(np.asarray(out), before))), "the output array was not used but changed")
    if got is None:
        c.event("declined %s" % mode)
        return
    check(mode != "readonly" or got is not out, "a read-only output was written")
    c.event("%s %s" % ("used" if got is out else "new", mode))
    c.nontrivial(got.size > 1)
    check(got.shape == sh, "shape %s, expected %s" % (got.shape, sh))
    check(got.dtype == R, "dtype %s, expected %s" % (got.dtype, R))
    if got is not out:
        # a new result: the operands may have been taken in the output's stead
        pass
    x = conv(a0, T)
    y = np.broadcast_to(cast_scalar(b, T), x.shape) if sc else conv(b0, T)
    compare(op, got, x, y, op)
    if np.may_share_memory(out, buf) and got is out:
        # nothing outside the output was written
        now = buf.copy()
        if mode in ("overlap", "first"):
            lo = (out.__array_interface__["data"][0] - buf.__array_interface__["data"][0])
            m = np.ones(buf.nbytes, bool)
            m[lo:lo + out.nbytes] = False
            check(np.array_equal(now.view(np.uint8)[m], bufb.view(np.uint8)[m]), "memory outside the output was written")
        elif mode in ("strided",):
            m = np.ones(len(buf), bool)
            m[k:k + 2 * n:2] = False
            check(np.array_equal(now.view(np.uint8).reshape(len(buf), -1)[m], bufb.view(np.uint8).reshape(len(buf), -1)[m]), "memory outside the output was written")


CMPOPS = dict(EQ=401, NE=402, LT=403, GT=404, LTE=405, GTE=406)


@law(4000, 60000)
def scalar_outputs(c):
    """an array, any scalar (it need not fit the array's dtype) and an output: the values are those found without the output"""
    op = c.choice(list(OPS) + ["DIV", "FLOORDIV", "POWER"] + list(CMPOPS))
    code = OPS.get(op) or CMPOPS[op]
    d = c.choice(D)
    n = G.size(c, big=.03)
    a = values(c, d, n)
    s = scalar(c, d)
    first = c.bool(.3)
    mode = c.weighted([(4, "right"), (4, "array"), (1, "other")])
    describe(c, op=op, a=a, s=s)
    c.note(first=first, mode=mode)
    pair = (s, a) if first else (a, s)
    ref = rc.BasicMathTwoInputs(pair, code, 0)
    R = a.dtype if ref is None else ref.dtype
    out = a.copy() if mode == "array" else np.zeros(n, R if mode == "right" else c.choice(D))
    before = out.copy()
    inplace = mode == "array" and c.bool(.6)
    if inplace:
        out = a
        pair = (s, a) if first else (a, s)
    got = rc.BasicMathTwoInputs(pair + (out,), code, 0)
    if got is not out:
        check(bool(np.all(G.eq_mask(out, before))), "the output array was not used but changed")
    if got is None or ref is None:
        c.event("declined")
        return
    c.event("%s %s" % ("used" if got is out else "new", mode))
    c.nontrivial(n > 1)
    check(got.shape == (n,), "shape %s" % (got.shape,))
    if got.dtype == ref.dtype:
        k = ~G.isinv(before if inplace else a)      # an invalid integer may be taken as a number, or converted to nan first
        got, ref = got[k], ref[k]
        same(got, ref, op, rtol=(2e-6 if R.itemsize == 4 else 1e-13) if op == "POWER" and R.kind == "f" else None)
        return
    # the output keeps the array's dtype where the result has another
    if op == "DIV" and {got.dtype.char, ref.dtype.char} == {"f", "d"}:
        k = ~G.isinv(before if inplace else a)
        same(got[k].astype("f4"), ref[k].astype("f4"), op, rtol=1e-6)
        return
    check(got.dtype in (a.dtype, out.dtype) and op not in CMPOPS, "dtype %s, expected %s", got.dtype, ref.dtype)
    if got.dtype.kind in "iu" and ref.dtype.kind in "iu" and op in ("ADD", "SUB", "MUL"):
        with np.errstate(all="ignore"):
            k = G.isinv(before if inplace else a)
            k = ~k
            same(got[k], ref.astype(got.dtype)[k], op)
    else:
        try:
            kept = bool(np.asarray(cast_scalar(s, a.dtype)) == s)
        except Exception:
            kept = True
        if not kept:
            check(op in ("ADD", "SUB", "MUL"), "%s of %s and a scalar it does not hold gave %s", op, a.dtype, G.show(got))


@law(1500, 25000)
def dates(c):
    """difference of dates and date-times: 0 and invalid are not dates"""
    op, f = c.choice([("SUBDATETIMES", 102), ("SUBDATES", 103)])
    d = c.choice(["i4", "i8"])
    n = G.size(c, big=.05)
    a = values(c, d, n)
    z = c.nprng()
    if n:
        a = np.where(z.random(n) < .2, 0, a).astype(d)
    sc = c.bool(.3)
    b = int(values(c, d, 1)[0]) if sc else np.where(z.random(n) < .2, 0, values(c, d, n)).astype(d)
    first = sc and c.bool()
    describe(c, op=op, a=a, b=b)
    got = rc.BasicMathTwoInputs((b, a) if first else (a, b), f, 0)
    check(got is not None, "declined")
    x, y = a, np.broadcast_to(np.array(b, d), n)
    if first:
        x, y = y, x
    ok = (x != 0) & (y != 0) & ~G.isinv(x) & ~G.isinv(y)
    diff = x - y
    c.nontrivial(n > 1 and 0 < ok.sum() < n)
    if op == "SUBDATES":
        same(got, np.where(ok, diff, 0).astype(d), op)
    else:
        same(got, np.where(ok, diff.astype("f8"), np.nan), op)


@law(2500, 40000)
def concat(c):
    """adding strings concatenates them"""
    k = c.choice(["S", "U"])
    n = G.size(c, big=.03)
    a = G.layout(c, G.strings(c, k, n), .3)
    m = c.weighted([(5, "array"), (3, "scalar"), (3, "first"), (1, "other"), (1, "one"), (1, "len")])
    if m == "array":
        b = G.layout(c, G.strings(c, k, n), .3)
    elif m == "other":
        b = G.strings(c, "U" if k == "S" else "S", n)
    elif m == "one":
        b = G.strings(c, k, 1)
    elif m == "len":
        b = G.strings(c, k, n + 2)
    else:
        b = G.strings(c, k, 1)[0]
        b = bytes(b) if k == "S" else str(b)
        if c.bool(.2):
            b = b[:0]
    describe(c, a=a, b=b)
    args = (b, a) if m == "first" else (a, b)
    got = rc.BasicMathTwoInputs(args, 1, 0)
    if got is None:
        c.event("declined " + m)
        return
    c.event(m)
    c.nontrivial(n > 1)
    check(m in ("array", "scalar", "first", "one"), "%s was answered" % m)
    bb = np.broadcast_to(np.asarray(b), n)
    x, y = (bb, a) if m == "first" else (a, bb)
    want = np.char.add(np.ascontiguousarray(x), np.ascontiguousarray(y))
    check(got.dtype.kind == k, "kind %s" % got.dtype)
    same(got, want.astype(got.dtype), "concatenation", dtype=False)
    w = np.asarray(a).dtype.itemsize + np.asarray(b).dtype.itemsize
    check(got.dtype.itemsize <= w, "itemsize %d for %d" % (got.dtype.itemsize, w))
    # everything after a terminator is zero
    raw = np.ascontiguousarray(got).view(np.uint8).reshape(n, -1) if n and got.dtype.itemsize else None
    if raw is not None:
        check(np.array_equal(raw, np.ascontiguousarray(want.astype(got.dtype)).view(np.uint8).reshape(n, -1)), "padding is not zero")


@law(4000, 60000)
def where(c):
    """Where picks from the first or the second by the mask"""
    kind = c.weighted([(6, "num"), (2, "str"), (1, "g")])
    n = G.size(c, big=.08)
    z = c.nprng()
    m = G.layout(c, z.random(n) < c.choice([.5, .1, .9, 0, 1]), .4)
    if kind == "str":
        k = c.choice(["S", "U"])
        pool = [G.strings(c, k, n), G.strings(c, k, n)]
        w = max(p.dtype.itemsize for p in pool)
        d = np.dtype("%s%d" % (k, w // (4 if k == "U" else 1)))
        mk = lambda: G.strings(c, d, n)
    elif kind == "g":
        d = np.dtype("g")
        mk = lambda: rawarr(c, "g", n)
    else:
        d = np.dtype(c.choice(D[:11]))
        mk = lambda: values(c, d, n)
    args, full = [], []
    for i in range(2):
        k2 = c.weighted([(4, "array"), (2, "scalar"), (1, "short"), (1, "dtype"), (1, "2d"), (1, "len")])
        if k2 == "array" or n == 0:
            v = G.layout(c, mk().astype(d), .4)
            f = v
        elif k2 == "scalar":
            x = mk().astype(d)[0]
            v = bytes(x) if d.kind == "S" else str(x) if d.kind == "U" else x.item() if d.kind in "iub" or (d.kind == "f" and d.itemsize == 8) else x
            f = np.broadcast_to(np.asarray(x, d), n)
        elif k2 == "dtype":
            v = G.strings(c, d.kind, n) if d.kind in "SU" else values(c, c.choice(D), n)
            f = v
        elif k2 == "2d":
            v = mk().astype(d).reshape((1, n) if c.bool() else (n, 1))
            f = None
        elif k2 == "len":
            v = mk().astype(d)[:max(0, n - c.int(1, 3))]
            f = None
        else:
            v = (G.strings(c, d, 1) if d.kind in "SU" else values(c, d, 1)).astype(d)
            f = v if n == 1 else None
        args.append(v)
        full.append(f)
    describe(c, m=m, x=args[0], y=args[1])
    c.note(d=d)
    try:
        got = rc.Where(m, tuple(args), d.num, d.itemsize)
    except ValueError:
        c.event("refused")
        check(any(f is None or f.dtype != d for f in full), "refused")
        return
    if got is None:
        c.event("declined")
        return
    c.event("answered")
    c.nontrivial(n > 1)
    for f in full:
        check(f is not None, "an argument of another length was accepted")
    for f in full:
        check(f.dtype.kind != d.kind or d.kind not in "SU" or f.dtype.itemsize <= d.itemsize, "longer strings were accepted")
    want = np.where(m, full[0].astype(d) if full[0].dtype.kind in "SU" else conv(np.array(full[0]), d), full[1].astype(d) if full[1].dtype.kind in "SU" else conv(np.array(full[1]), d))
    same(got, want.astype(d), "Where")


@law(600, 9000)
def both(c):
    """two scalars, of which the result is asked for in doubles"""
    op = c.choice(list(OPS))
    a, b = scalar(c, "f8"), scalar(c, "f8")
    d = c.weighted([(6, 12), (1, 0), (1, 7), (1, 9)])
    c.note(op=op, a=a, b=b, d=d)
    got = rc.BasicMathTwoInputs((a, b), OPS[op], d)
    if got is None:
        c.event("declined")
        return
    c.event(op)
    c.nontrivial()
    check(isinstance(got, np.ndarray) and got.shape == () and got.dtype == np.float64, "result %r" % (got,))
    x, y = cast_scalar(a, "f8"), cast_scalar(b, "f8")
    compare(op, got, x, y, op)

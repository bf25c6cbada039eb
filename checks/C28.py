"""C28: comparisons, bitwise and logical operations of two operands, against exact Python / numpy."""
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc, Fail
from C25 import conv, rawarr
from C27 import D, promote, operand_shape, place, related_shape, scalar, isnpscalar, cast_scalar, describe, values

RULE = ("a case draws a comparison, bitwise or logical operation and two operands (arrays of any dtypes, shapes and layouts, equal in part; scalars on either side), sometimes an output array; "
        "non-trivial = the library answered and the result has both outcomes")
ASSUMPTIONS = ["operands of different dtypes are compared in the common dtype (32 and 64 bit integers with float32 in float32, with float64 in float64), except that signed and unsigned 64 bit "
               "integers compare exactly", "Python integers compare exactly with integer arrays unless no integer dtype holds both, then in doubles", "invalids convert to invalids: an invalid integer compared in floats is nan"]

CMP = dict(EQ=401, NE=402, LT=403, GT=404, LTE=405, GTE=406)
NPC = dict(EQ=np.equal, NE=np.not_equal, LT=np.less, GT=np.greater, LTE=np.less_equal, GTE=np.greater_equal)
BIT = dict(AND=503, XOR=504, OR=505, ANDNOT=506, NOTAND=507)
LOGIC = dict(LAND=407, LXOR=408, LOR=409)
ALL = dict(CMP, **BIT, **LOGIC)


def compared(op, x, y):
    with np.errstate(all="ignore"):
        return np.asarray(NPC[op](x, y))


def cmp_arrays(op, a, b, conva=True, convb=True):
    """the comparison of two arrays; conv* tell whether the invalids of each are invalid in the common dtype"""
    s, t = a.dtype, b.dtype
    if s.kind in "iu" and t.kind in "iu" and s.kind != t.kind:
        if max(s.itemsize if s.kind == "u" else 0, t.itemsize if t.kind == "u" else 0) == 8:
            if (s.itemsize, t.itemsize) == (8, 8):
                # signed and unsigned 64 bit: exact, value for value
                f = NPC[op]
                neg = (a < 0) if s.kind == "i" else (b < 0)
                if s.kind == "i":
                    return np.where(neg, op in ("NE", "LT", "LTE"), f(a.astype("u8"), b))
                return np.where(neg, op in ("NE", "GT", "GTE"), f(a, b.astype("u8")))
    T = promote(s, t)
    return compared(op, conv(np.array(a), T, conva), conv(np.array(b), T, convb))


def equalise(c, a, b, z):
    """make a part of b equal to a (where b's dtype holds it)"""
    if a.size == b.size and a.size and c.bool(.75):
        m = z.random(a.shape) < c.choice([.5, .1, .9])
        with np.errstate(all="ignore"):
            aa = a.ravel().reshape(b.shape)
            fin = np.isfinite(aa.astype("g"))
            ok = fin & (np.where(fin, aa, 0).astype("g") >= -2.0**62) & (np.where(fin, aa, 0).astype("g") < 2.0**62) if b.dtype.kind in "iu" else np.ones(b.shape, bool)
            v = np.where(ok, aa, 0).astype(b.dtype)
        m = m.reshape(b.shape) & ok
        b[m] = v[m]
    return b


@law(9000, 160000)
def compare(c):
    """two arrays of any dtypes, shapes and layouts"""
    op = c.choice(list(CMP))
    s, t = c.choice(D), c.choice(D)
    k = c.weighted([(4, "any"), (4, "same"), (3, "64")])
    if k == "same":
        t = s
    elif k == "64":
        s, t = c.choice([("i8", "u8"), ("u8", "i8"), ("q", "u8"), ("i8", "Q"), ("Q", "q"), ("Q", "i8"), ("u8", "q")])
    sh = operand_shape(c)
    sh2 = related_shape(c, sh)
    z = c.nprng()
    a = values(c, s, int(np.prod(sh))).reshape(sh)
    b = values(c, t, int(np.prod(sh2))).reshape(sh2)
    b = equalise(c, a, b, z)
    a, b = place(c, a), place(c, b)
    describe(c, op=op, a=a, b=b)
    a0, b0 = a.copy(), b.copy()
    got = rc.BasicMathTwoInputs((a, b), CMP[op], 0)
    check(bool(np.all(G.eq_mask(a, a0)) and np.all(G.eq_mask(b, b0))), "an operand was changed")
    if got is None:
        c.event("declined")
        return
    c.event(op)
    try:
        bs = np.broadcast_shapes(sh, sh2)
    except ValueError:
        raise Fail("shapes %s and %s do not broadcast" % (sh, sh2))
    check(got.shape == bs and got.dtype == bool, "%s%s, expected bool%s" % (got.dtype, got.shape, bs))
    raw = np.asarray(got).view(np.uint8)
    check(bool((raw <= 1).all()), "a bool is neither 0 nor 1")
    one = [x.size == 1 and y.size != 1 for x, y in ((a, b), (b, a))]
    want = cmp_arrays(op, a0, b0, not one[0], not one[1])
    c.nontrivial(0 < want.sum() < want.size)
    same(got, want, op)


@law(7000, 120000)
def compare_scalar(c):
    """an array with a scalar, on either side"""
    op = c.choice(list(CMP))
    d = c.choice(D)
    sh = operand_shape(c)
    a = values(c, d, int(np.prod(sh))).reshape(sh)
    s = scalar(c, d)
    if a.size and c.bool(.5):
        v = a.ravel()[c.below(a.size)]
        s = v if c.bool() or d == "g" else v.item()
        if isinstance(s, int) and not isinstance(s, bool) and c.bool(.3):
            s += c.int(-1, 1)
    a = place(c, a)
    first = c.bool()
    describe(c, op=op, a=a, s=s)
    c.note(first=first)
    got = rc.BasicMathTwoInputs((s, a) if first else (a, s), CMP[op], 0)
    if got is None:
        c.event("declined")
        return
    c.event(op)
    check(got.shape == sh and got.dtype == bool, "%s%s" % (got.dtype, got.shape))
    check(bool((np.asarray(got).view(np.uint8) <= 1).all()), "a bool is neither 0 nor 1")
    dt = np.dtype(d)
    if isnpscalar(s) and not isinstance(s, float):
        x, y = a, np.broadcast_to(s, sh)
        st = s.dtype
        if dt.kind + st.kind in ("iu", "ui") and dt.itemsize == st.itemsize == 8:
            if np.iinfo(dt).min <= int(s) <= np.iinfo(dt).max:
                y = y.astype(dt)
            else:
                x, y = conv(np.array(a), "f8"), y.astype("f8")
        want = cmp_arrays(op, y, x, False, True) if first else cmp_arrays(op, x, y, True, False)
    elif isinstance(s, (bool, int)) and dt.kind in "iub":
        s = int(s)
        # the common dtype, as for arithmetic
        r = rc.BasicMathTwoInputs((s, a[:0].copy()) if first else (a[:0].copy(), s), 1, 0) if dt.kind != "b" else None
        T = r.dtype if r is not None else dt
        fits = dt.kind == "b" or np.iinfo(dt).min <= s <= np.iinfo(dt).max
        if fits or (T.kind in "iu" and np.iinfo(T).min <= s <= np.iinfo(T).max):
            # exact
            x = (a if fits else conv(np.array(a), T)).astype(object)
            want = np.asarray(NPC[op](s, x) if first else NPC[op](x, s)).astype(bool)
        else:
            x = conv(np.array(a), "f8")
            want = compared(op, float(s), x) if first else compared(op, x, float(s))
    else:
        T = dt if dt.kind == "f" else np.dtype("f8")
        x, y = conv(np.array(a), T), cast_scalar(s, T)
        want = compared(op, y, x) if first else compared(op, x, y)
    c.nontrivial(0 < want.sum() < want.size)
    same(got, want, op)


def bitop(op, x, y):
    if op in ("AND", "OR", "XOR"):
        return dict(AND=np.bitwise_and, OR=np.bitwise_or, XOR=np.bitwise_xor)[op](x, y)
    if op == "ANDNOT":
        return np.bitwise_and(x, np.invert(y))
    if op == "NOTAND":
        return np.bitwise_and(np.invert(x), y)
    return dict(LAND=np.logical_and, LOR=np.logical_or, LXOR=np.logical_xor)[op](x, y)


@law(6000, 100000)
def bitwise(c):
    """bitwise and logical operations of arrays"""
    op = c.choice(list(BIT) + list(LOGIC))
    logic = op in LOGIC
    I = ["i4", "i8", "i1", "i2", "u1", "u2", "u4", "u8", "?", "q", "Q"]
    s, t = (c.choice(["?", "?", "?", "i4", "u1"]), "?") if logic else (c.choice(I), c.choice(I))
    if not logic and c.bool(.6):
        t = s
    sh = operand_shape(c)
    sh2 = related_shape(c, sh)
    a = place(c, values(c, s, int(np.prod(sh))).reshape(sh))
    b = place(c, values(c, t, int(np.prod(sh2))).reshape(sh2))
    describe(c, op=op, a=a, b=b)
    a0, b0 = a.copy(), b.copy()
    got = rc.BasicMathTwoInputs((a, b), ALL[op], 0)
    check(np.array_equal(a, a0) and np.array_equal(b, b0), "an operand was changed")
    if got is None:
        c.event("declined")
        return
    c.event(op)
    try:
        bs = np.broadcast_shapes(sh, sh2)
    except ValueError:
        raise Fail("shapes %s and %s do not broadcast" % (sh, sh2))
    check(got.shape == bs, "shape %s, expected %s" % (got.shape, bs))
    T = promote(s, t)
    check(got.dtype == (bool if logic else T), "dtype %s, expected %s" % (got.dtype, T))
    if T == bool:
        check(bool((np.asarray(got).view(np.uint8) <= 1).all()), "a bool is neither 0 nor 1")
    one = [x.size == 1 and y.size != 1 for x, y in ((a, b), (b, a))]
    want = np.asarray(bitop(op, conv(a0, T, not one[0]), conv(b0, T, not one[1])))
    c.nontrivial(got.size > 1)
    same(got, want, op)


@law(4000, 60000)
def bitwise_scalar(c):
    """bitwise and logical operations with a scalar"""
    op = c.choice(list(BIT) + list(LOGIC))
    logic = op in LOGIC
    I = ["i4", "i8", "i1", "i2", "u1", "u2", "u4", "u8", "?", "q", "Q"]
    d = "?" if logic or c.bool(.15) else c.choice(I)
    sh = operand_shape(c)
    a = place(c, values(c, d, int(np.prod(sh))).reshape(sh))
    if d == "?" and c.bool(.8):
        s = c.choice([True, False, np.bool_(True), np.bool_(False)])
    elif c.bool(.3):
        s = values(c, c.choice([x for x in I if x != "?"]), 1)[0]
    else:
        k = c.int(0, 64)
        s = c.choice([1, -1]) * ((1 << k) + c.int(-1, 1)) if c.bool() else c.int(-9, 20)
    first = c.bool()
    describe(c, op=op, a=a, s=s)
    c.note(first=first)
    got = rc.BasicMathTwoInputs((s, a) if first else (a, s), ALL[op], 0)
    if got is None:
        c.event("declined")
        return
    c.event(op)
    check(got.shape == sh, "shape %s" % (got.shape,))
    T = got.dtype
    if logic:
        check(T == bool, "dtype %s" % T)
    else:
        check(T.kind in "iub", "dtype %s" % T)
        if isnpscalar(s) and not isinstance(s, np.bool_):
            check(T == promote(d, s.dtype), "dtype %s, expected %s" % (T, promote(d, s.dtype)))
        elif not isinstance(s, (bool, np.bool_)):
            check(np.can_cast(d, T) and T.kind != "b" and np.iinfo(T).min <= s <= np.iinfo(T).max, "dtype %s does not hold the operands" % T)
        else:
            check(T == np.dtype(d), "dtype %s" % T)
    if T == bool:
        check(bool((np.asarray(got).view(np.uint8) <= 1).all()), "a bool is neither 0 nor 1")
    x = conv(np.array(a), T)
    y = np.broadcast_to(np.array(s).astype(T) if isinstance(s, (bool, np.bool_)) else cast_scalar(s, T), sh)
    want = np.asarray(bitop(op, y, x) if first else bitop(op, x, y))
    c.nontrivial(got.size > 1)
    same(got, want, op)


@law(3000, 50000)
def outputs(c):
    """an output array receives the result or is left alone"""
    op = c.choice(list(ALL))
    kind = "cmp" if op in CMP else "bit" if op in BIT else "logic"
    s = c.choice(D) if kind == "cmp" else "?" if kind == "logic" else c.choice(["i4", "i8", "u1", "?", "i2", "u8"])
    n = G.size(c, big=.06)
    a = values(c, s, n)
    sc = c.bool(.3)
    z = c.nprng()
    b = equalise(c, a, values(c, s, n), z) if not sc else values(c, s, 1)[0]
    R = np.dtype(s) if kind == "bit" else np.dtype(bool)
    mode = c.weighted([(5, "fresh"), (4, "first"), (3, "bytes"), (2, "short"), (2, "longer"), (1, "readonly"), (2, "strided"), (1, "type"), (1, "2d")])
    buf = np.zeros(3 * n + 32, R)
    out = buf[8:8 + n]
    if mode == "first":
        if R == a.dtype:
            out = a
        elif n:
            # a bool output in the memory of the first operand
            out = a.view(bool)[c.int(0, a.nbytes - n):][:n]
    elif mode == "bytes" and n:
        off = c.int(0, 4)
        raw = np.zeros(n * a.itemsize + n * R.itemsize + 64, np.uint8)
        a2 = raw[32:32 + a.nbytes].view(a.dtype)
        a2[...] = a
        a = a2
        out = raw[32 + off * R.itemsize:][:n * R.itemsize].view(R) if c.bool() else raw[32 + max(0, a.nbytes - off * R.itemsize):][:n * R.itemsize].view(R)
    elif mode == "short":
        out = out[:max(0, n - 1)]
    elif mode == "longer":
        out = buf[8:9 + n]
    elif mode == "strided":
        out = buf[8:8 + 2 * n:2]
    elif mode == "type":
        out = np.zeros(n, "f8")
    elif mode == "2d":
        out = out.reshape(1, n)
    elif mode == "readonly":
        out.flags.writeable = False
    describe(c, op=op, a=a, b=b, out=out)
    c.note(mode=mode)
    a0, o0 = a.copy(), out.copy()
    got = rc.BasicMathTwoInputs((a, b, out), ALL[op], 0)
    if got is not out:
        check(bool(np.all(G.eq_mask(out, o0))), "the output array was not used but changed")
        check(bool(np.all(G.eq_mask(a, a0))), "an operand was changed")
    elif not np.may_share_memory(a, out):
        check(bool(np.all(G.eq_mask(a, a0))), "an operand was changed")
    if got is None:
        c.event("declined " + mode)
        return
    c.event(("used " if got is out else "new ") + mode)
    check(got.shape == (n,), "shape %s" % (got.shape,))
    check(mode != "readonly" or got is not out, "a read-only output was written")
    bb = np.broadcast_to(b, n)
    want = cmp_arrays(op, a0, np.array(bb)) if kind == "cmp" else np.asarray(bitop(op, a0, bb))
    c.nontrivial(n > 1)
    same(got, want, op)
    if np.may_share_memory(out, buf) and got is out:
        m = np.ones(len(buf), bool)
        m[8:8 + 2 * n:2 if mode == "strided" else 1] = False
        check(not buf.view(np.uint8).reshape(len(buf), -1)[m][:].any() if mode == "strided" else not (buf[:8].any() or buf[8 + out.size:].any()), "memory outside the output was written")

"""C29: unary element-wise functions (BasicMathOneInput, BasicMathUnaryOp) against numpy's definition at every position."""
import numpy as np
import gen as G
from gen import same, check
from pbt import law, rc, Fail
from C25 import rawarr
from C27 import D, operand_shape, place, canary

RULE = ("a case draws a function, an array (any dtype, shape, memory layout and alignment, values including signed zeros, infinities, nan with either sign, subnormals, halves, invalids), and sometimes an "
        "output array; non-trivial = the library answered for more than one element")
ASSUMPTIONS = ["rounding is to nearest, halves to even, as numpy's rint", "roots, logarithms and exponentials take integers as plain numbers", "is-nan of integers and strings means the invalid value "
               "or the empty string; integers and strings are finite when valid, never infinite, always normal", "native byte order", "a call may decline (None)"]

OPS = dict(ABS=201, NEG=202, FABS=203, INVERT=204, FLOOR=205, CEIL=206, TRUNC=207, ROUND=208, NEGATIVE=212, SIGN=214, RINT=215, EXP=216, EXP2=217, SQRT=301, LOG=302, LOG2=303, LOG10=304,
           CBRT=308, LOGICAL_NOT=601, ISINF=603, ISNAN=604, ISFINITE=605, ISNORMAL=606, ISNOTINF=607, ISNOTNAN=608, ISNOTFINITE=609, ISNOTNORMAL=610, ISNANORZERO=611, SIGNBIT=612,
           BITWISE_NOT=701)
MOST = [k for k in OPS if k not in ("FABS", "RINT")]
APPROX = ("EXP", "EXP2", "LOG", "LOG2", "LOG10", "CBRT")
NP = dict(ABS=np.abs, NEG=np.negative, NEGATIVE=np.negative, FABS=np.fabs, INVERT=np.invert, BITWISE_NOT=np.invert, FLOOR=np.floor, CEIL=np.ceil, TRUNC=np.trunc, ROUND=np.rint, RINT=np.rint,
          SIGN=np.sign, EXP=np.exp, EXP2=np.exp2, SQRT=np.sqrt, LOG=np.log, LOG2=np.log2, LOG10=np.log10, CBRT=np.cbrt, LOGICAL_NOT=np.logical_not, SIGNBIT=np.signbit)
ROOTS = ("EXP", "EXP2", "LOG", "LOG2", "LOG10", "CBRT", "SQRT")


def valid_mask(a):
    return ~G.isinv(a)


def normal(a):
    if a.dtype.kind != "f":
        return np.ones(a.shape, bool)
    with np.errstate(all="ignore"):
        return np.isfinite(a) & (np.abs(a) >= np.finfo(a.dtype).tiny)


def expected(op, a):
    """None where the definition does not say"""
    k = a.dtype.kind
    with np.errstate(all="ignore"):
        if op in ("ISNAN", "ISNOTNAN", "ISNANORZERO", "ISFINITE", "ISNOTFINITE"):
            inv = G.isinv(a)
            if op == "ISNAN":
                return inv
            if op == "ISNOTNAN":
                return ~inv
            if op == "ISNANORZERO":
                return inv | (a == 0) if k not in "SU" else inv
            fin = np.isfinite(a) if k == "f" else ~inv
            return fin if op == "ISFINITE" else ~fin
        if op in ("ISINF", "ISNOTINF"):
            r = np.isinf(a) if k == "f" else np.zeros(a.shape, bool)
            return r if op == "ISINF" else ~r
        if op in ("ISNORMAL", "ISNOTNORMAL"):
            r = normal(a)
            return r if op == "ISNORMAL" else ~r
        if k in "SU":
            return None
        if op in ROOTS and k in "iub":
            return NP[op](a.astype("f8"))
        try:
            r = NP[op](a)
        except TypeError:
            return None
        return r


def compare(op, got, want, a):
    check(got.dtype == want.dtype, "%s of %s: dtype %s, expected %s" % (op, a.dtype, got.dtype, want.dtype))
    check(got.shape == a.shape, "%s: shape %s, expected %s" % (op, got.shape, a.shape))
    want = np.asarray(want)
    if want.dtype.kind != "f":
        ok = got == want
        if want.dtype.kind == "b":
            ok = ok & (got.view("u1") <= 1) if got.flags.c_contiguous and got.ndim else ok
    else:
        nan = np.isnan(want)
        if op in APPROX:
            eps = np.finfo(want.dtype).eps
            with np.errstate(all="ignore"):
                ok = (got == want) | (np.abs(got - want) <= 8 * eps * np.abs(want) + np.finfo(want.dtype).tiny * (4 if op in ("EXP", "EXP2") else 0))
        else:
            ok = got == want
            if op in ("FLOOR", "CEIL", "TRUNC", "ROUND", "SQRT", "ABS", "NEG", "NEGATIVE"):
                ok = ok & (np.signbit(got) == np.signbit(want))
        ok = np.where(nan, np.isnan(got), ok)
    ok = np.asarray(ok)
    if not ok.all():
        i = np.unravel_index(int(np.argmin(ok)), ok.shape) if ok.ndim else ()
        raise Fail("%s(%s) gave %s, expected %s at %s of shape %s, dtype %s, address %d mod 64" % (op, G.show(a[i]), G.show(got[i]), G.show(want[i]), i, a.shape, a.dtype,
                                                                                              a.__array_interface__["data"][0] % 64))


HARD = {}


def hard(d):
    d = np.dtype(d)
    if d not in HARD:
        fi = np.finfo(d)
        v = [0.0, -0.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 3.5, -3.5, 0.49999997, 4503599627370495.5, 8388607.5, -8388607.5, np.inf, -np.inf, np.nan, fi.tiny, -fi.tiny, fi.max, fi.min,
             1.0, -1.0, 2147483648.0, -9.3e18, 1e10, 100.25, -0.1]
        a = np.array([x for x in v], d)
        sub = np.array([fi.smallest_subnormal, -fi.smallest_subnormal, fi.smallest_subnormal * 1000], d)
        negnan = -np.array([np.nan], d)
        HARD[d] = np.concatenate([a, sub, negnan, np.nextafter(np.array([.5, -.5], d), np.array(0, d))])
    return HARD[d]


def elements(c, d, n):
    if d in ("S", "U"):
        a = G.strings(c, d, n)
        if d == "U" and n and c.bool(.2):
            a = a.copy()
            if a.dtype.itemsize:
                a[c.below(n)] = chr(c.choice([0x100, 0x4e00, 0x10000, 0x200])) + "b" * c.int(0, 1)
        return a
    d = np.dtype(d)
    if d.kind == "f" and c.bool(.6):
        h = hard(d)
        a = rawarr(c, d.char, n)
        m = c.nprng()
        sel = m.random(n) < c.choice([.3, 1.0])
        return np.where(sel, h[m.integers(0, len(h), n)], a).astype(d)
    return rawarr(c, d.char, n)


def align(c, a):
    """the same 1-D array at a chosen distance from a 64-byte boundary"""
    if a.ndim != 1 or not a.nbytes:
        return a
    off = c.choice([0, 32, 16, min(a.dtype.itemsize, 64), 0, 1])
    raw = np.zeros(a.nbytes + 160, np.uint8)
    b = -raw.__array_interface__["data"][0] % 64 + off
    v = raw[b:b + a.nbytes].view(a.dtype)
    v[...] = a
    return v


def operand(c, d, big=True):
    sh = operand_shape(c)
    a = elements(c, d, int(np.prod(sh))).reshape(sh)
    k = c.weighted([(5, "align"), (5, "place"), (2, "as is"), (1, "cut"), (1, "broadcast")])
    if k == "broadcast" and a.ndim:
        return np.broadcast_to(a[:1] if c.bool() else a[..., :1], a.shape) if a.size else a
    if k == "align" and a.ndim == 1:
        return align(c, a)
    if k == "cut" and a.ndim >= 2:
        # a part of a larger array, with every other element along one axis
        ax = c.below(a.ndim)
        big = np.zeros([s * (2 if i == ax else 1) + (1 if c.bool(.3) else 0) for i, s in enumerate(a.shape)], a.dtype, order=c.choice("CF"))
        v = big[tuple(slice(0, 2 * s, 2) if i == ax else slice(0, s) for i, s in enumerate(a.shape))]
        v[...] = a
        if c.bool(.3):
            v = v[::-1] if c.bool() else v[:, ::-1]
        return v
    if k in ("place", "cut"):
        return place(c, a)
    return a


DS = D + ["S", "U"]


@law(14000, 250000)
def one(c):
    """a new result from any array"""
    op = c.choice(MOST) if c.bool(.97) else c.choice(list(OPS))
    fl = op in ("FLOOR", "CEIL", "TRUNC", "ROUND", "SIGNBIT", "SIGN", "ISNORMAL", "ISNOTNORMAL", "ISFINITE", "ISNOTFINITE", "ISNAN", "ISNOTNAN")
    d = c.choice(["f4", "f8"]) if fl and c.bool(.5) else c.choice(DS)
    a = operand(c, d)
    how = c.choice(["array", "tuple", "unary"])
    c.note(op=op, a=a, flags=str(a.strides), how=how)
    a0 = a.copy()
    want = expected(op, a0)
    if how == "unary":
        got = rc.BasicMathUnaryOp(a, OPS[op])
    else:
        got = rc.BasicMathOneInput(a if how == "array" else (a,), OPS[op], c.choice([0, -1, 12]))
    check(bool(np.all(G.eq_mask(a, a0))), "the operand was changed")
    if got is None:
        c.event("declined")
        return
    c.event(op)
    c.nontrivial(a.size > 1)
    check(want is not None, "%s of %s was answered" % (op, a.dtype))
    compare(op, got, want, a0)


@law(6000, 100000)
def outputs(c):
    """an output array receives the result, or the call declines and leaves it alone"""
    op = c.choice(MOST)
    d = c.choice(DS if c.bool(.2) else ["f4", "f8", "i4", "i8", "i2", "i1"])
    a = operand(c, d)
    sh, n = a.shape, a.size
    want = expected(op, a.copy())
    R = want.dtype if want is not None else a.dtype
    mode = c.weighted([(5, "fresh"), (4, "same"), (3, "overlap"), (1, "readonly"), (1, "longer"), (3, "strided"), (2, "misaligned"), (1, "type"), (3, "shape"), (3, "order"), (2, "place")])
    buf = canary(c, R, 3 * n + 16)
    k = 8
    if mode == "same":
        out = a
    elif mode == "overlap":
        buf = canary(c, a.dtype, n + 8)
        o1, o2 = c.int(0, 5), c.int(0, 5)
        v = buf[o1:o1 + n]
        v[...] = np.ravel(a)
        a = v
        sh = (n,)
        out = buf.view(np.uint8)[o2 * a.itemsize:]
        out = buf[o2:o2 + n] if R == a.dtype else out[:n * R.itemsize].view(R) if n * R.itemsize <= len(out) else buf[o2:o2 + n]
        if c.bool(.3):
            a = a[::-1]
            c.note(reverse=True)
    elif mode == "longer":
        out = buf[k:k + n + c.int(1, 5)]
    elif mode == "strided":
        out = buf[k:k + 2 * n:2]
        if c.bool(.4):
            out = out[::-1]
        a = np.ravel(a)
        sh = (n,)
    elif mode == "misaligned":
        out = buf.view(np.uint8)[1:1 + n * R.itemsize].view(R)
        a = np.ravel(a)
        sh = (n,)
    elif mode == "type":
        out = np.zeros(sh, c.choice(D))
    elif mode == "shape":
        out = np.zeros(c.choice([(n, 1), (1, n), sh[::-1], (), (1,), (n,)]), R)
    elif mode == "place":
        out = place(c, np.zeros(sh, R))
    else:
        out = np.zeros(sh, R, order="F" if mode == "order" else "C")
    if mode == "readonly":
        out.flags.writeable = False
    c.note(op=op, a=a, strides=str(a.strides), mode=mode, out="%s %s %s" % (out.shape, out.strides, out.dtype))
    a0 = a.copy()
    want = expected(op, a0)
    before, bufb = out.copy(), buf.copy()
    got = rc.BasicMathOneInput((a, out), OPS[op], 0)
    if not np.may_share_memory(a, out):
        check(bool(np.all(G.eq_mask(a, a0))), "the operand was changed")
    if got is not out:
        check(bool(np.all(G.eq_mask(np.asarray(out), before))), "the output array was not used but changed")
    if got is None:
        c.event("declined %s" % mode)
        if np.may_share_memory(buf, out):
            check(bool(np.all(G.eq_mask(buf, bufb))), "declined, but memory was written")
        return
    check(mode != "readonly" or got is not out, "a read-only output was written")
    check(want is not None, "%s of %s was answered" % (op, a.dtype))
    c.event("%s %s" % ("used" if got is out else "new", mode))
    c.nontrivial(got.size > 1)
    compare(op, got, want, a0)
    if np.may_share_memory(out, buf) and got is out:
        now = buf.view(np.uint8)
        m = np.ones(buf.nbytes, bool)
        base = buf.__array_interface__["data"][0]
        for v in (np.atleast_1d(out),):
            lo = v.__array_interface__["data"][0] - base
            ix = lo + np.arange(len(v)) * v.strides[0]
            m[(ix[:, None] + np.arange(v.itemsize)[None, :]).ravel()] = False
        check(np.array_equal(now[m], bufb.view(np.uint8)[m]), "memory outside the output was written")


@law(1500, 25000)
def position(c):
    """each element's result does not depend on where the element lies"""
    op = c.choice([o for o in MOST if o not in APPROX])
    d = c.choice(["f4", "f8", "i4", "i2", "i1", "i8"])
    n = c.int(1, 70) if c.bool(.9) else c.choice([32768, 40001, 65537])
    a = align(c, elements(c, d, n))
    c.note(op=op, a=a)
    got = rc.BasicMathOneInput(a, OPS[op], 0)
    if got is None:
        c.event("declined")
        return
    c.nontrivial(n > 1)
    for _ in range(3):
        i = c.below(n)
        one = rc.BasicMathOneInput(a[i:i + 1], OPS[op], 0)
        g, w = np.ascontiguousarray(got[i:i + 1]), np.ascontiguousarray(one)
        nan = bool((g != g).all()) and bool((w != w).all())
        check(nan or g.tobytes() == w.tobytes(), "%s(%s) is %s at position %d of %d, %s alone" % (op, G.show(a[i]), G.show(g), i, n, G.show(w)))

"""Generators of numpy arrays and the comparisons used by the oracles."""
import numpy as np
from pbt import Fail, short

INT = ["i1", "i2", "i4", "i8"]
UINT = ["u1", "u2", "u4", "u8"]
INTS = ["i4", "i8", "i1", "i2", "u1", "u2", "u4", "u8"]
FLOATS = ["f8", "f4"]
NUM = ["i4", "f8", "i8", "f4", "i1", "i2", "u1", "u2", "u4", "u8"]
NUMB = NUM + ["?"]
STR = ["S", "U"]


def dt(x):
    return np.dtype(x)


def invalid(d):
    """the library's invalid value of a numeric dtype (None: it has none)"""
    d = np.dtype(d)
    if d.kind == "i":
        return np.array(np.iinfo(d).min, d)[()]
    if d.kind == "u":
        return np.array(np.iinfo(d).max, d)[()]
    if d.kind == "f":
        return np.array(np.nan, d)[()]
    return None


def isinv(a):
    """mask of invalid elements"""
    if a.dtype.kind == "f":
        return np.isnan(a)
    if a.dtype.kind in "iu":
        return a == invalid(a.dtype)
    if a.dtype.kind == "S":
        return a == b""
    if a.dtype.kind == "U":
        return a == ""
    return np.zeros(a.shape, bool)


_edge = {}


def edges(d):
    d = np.dtype(d)
    r = _edge.get(d)
    if r is None:
        if d.kind in "iu":
            ii = np.iinfo(d)
            v = {0, 1, 2, 3, 7, 100, ii.max, ii.max - 1, ii.min, ii.min + 1, ii.max // 2, ii.max // 2 + 1}
            if d.kind == "i":
                v |= {-1, -2, -100, ii.min // 2}
            for k in (8, 16, 31, 32, 53, 63):
                for s in (-1, 0, 1):
                    x = (1 << k) + s
                    if ii.min <= x <= ii.max:
                        v.add(x)
                    if ii.min <= -x <= ii.max:
                        v.add(-x)
            r = np.array(sorted(v, key=lambda x: (abs(x), x < 0)), d)
        elif d.kind == "f":
            fi = np.finfo(d)
            r = np.array([0, 1, -1, 2, 0.5, -0.5, 1.5, 2.5, -2.5, 3, 100, 1e10, -1e10, fi.max, fi.min, fi.tiny, -fi.tiny, np.inf, -np.inf, np.nan,
                          -0.0, 2**24, 2**24 + 1, 1e-5, 127.5, 255, 65535, 2147483647, -2147483648], d)
        elif d.kind == "b":
            r = np.array([False, True])
        else:
            raise ValueError(d)
        _edge[d] = r
    return r


def size(c, big=0.0, lo=0, med=300):
    """array length; `big` is the fraction of lengths around the library's chunk boundaries"""
    if big and c.bool(big):
        base = c.choice([16384, 32768, 49152, 65536, 98304])
        return base + (c.choice([0, 1, -1]) if c.bool(.6) else c.int(-700, 9000))
    k = c.below(10)
    if k < 4:
        return c.int(lo, max(lo, 8))
    if k < 7:
        return c.int(lo, max(lo, 40))
    return c.int(lo, max(lo, med))


STYLES = ["small", "edge", "full", "mixed", "const"]


def values(c, d, n, style=None, lo=None, hi=None, inv=0.1, specials=True):
    """n values of dtype d.  style small: few distinct values; edge: boundary values; full: all bit patterns (finite unless specials)."""
    d = np.dtype(d)
    if style is None:
        style = c.weighted([(5, "small"), (2, "edge"), (3, "full"), (2, "mixed"), (1, "const")])
    if d.kind in "SU":
        return strings(c, d, n)
    rng = None
    if n > 14:
        rng = c.nprng()

    def ints(a, b, n):
        """n integers in [a, b)"""
        if rng is not None:
            if b - a > 2**62:
                return None
            return rng.integers(a, b, n)
        return np.array([a + c.below(b - a) for _ in range(n)], dtype=object if (b > 2**62) else np.int64)

    if d.kind == "b":
        return ints(0, 2, n).astype(bool)
    if style == "const":
        v = ints(0, 100, 1) if rng is not None else ints(0, 3, 1)
        out = np.repeat(np.asarray(v).astype(d), n)
    elif style == "small":
        if lo is None:
            l, h = (-4, 5) if d.kind in "if" else (0, 9)
        else:
            l, h = lo, hi
        out = np.asarray(ints(l, h, n)).astype(np.int64).astype(d)
    elif style == "edge":
        e = edges(d)
        if not specials and d.kind == "f":
            e = e[np.isfinite(e)]
        out = e[np.asarray(ints(0, len(e), n)).astype(np.int64)]
    elif style in ("full", "mixed"):
        if rng is not None:
            raw = rng.integers(0, 256, n * d.itemsize, dtype=np.uint8)
            out = raw.view(d)[:n].copy() if n else np.zeros(0, d)
            if d.kind == "f":
                out = (rng.standard_normal(n) * 10.0 ** rng.integers(-3, 8, n)).astype(d)
        else:
            if d.kind in "iu":
                out = np.array([c.below(1 << (8 * d.itemsize)) for _ in range(n)], dtype=np.uint64).astype("u%d" % d.itemsize).view(d)
            else:
                out = np.array([(c.below(2000001) - 1000000) / c.choice([1.0, 8.0, 1000.0, 1e-6]) for _ in range(n)], d)
        if style == "mixed" and n:
            e = edges(d)
            if not specials and d.kind == "f":
                e = e[np.isfinite(e)]
            idx = np.asarray(ints(0, len(e), n)).astype(np.int64)
            sel = np.asarray(ints(0, 3, n)).astype(np.int64) == 0
            out = np.where(sel, e[idx], out).astype(d)
    else:
        raise ValueError(style)
    if inv and n and d.kind in "iuf" and specials and c.bool(0.4):
        if rng is not None:
            out = out.copy()
            out[rng.random(n) < inv] = invalid(d)
        else:
            out = out.copy()
            for i in range(n):
                if c.bool(inv * 2):
                    out[i] = invalid(d)
    return np.ascontiguousarray(out)


def strings(c, d, n, nul=False):
    """strings of dtype d ('S', 'U' or with a width): few distinct, with shared prefixes, empties and full-width ones"""
    d = np.dtype(d)
    w = d.itemsize // (4 if d.kind == "U" else 1)
    if w == 0:
        w = c.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31])
    alpha = "ab" if c.bool(.6) else "abAZ09_ ~"
    if d.kind == "U" and c.bool(.4):
        alpha += "\u00e9\u4e2d\U0001f600"
    pool = []
    for _ in range(c.int(1, 6)):
        L = c.weighted([(3, None), (1, 0), (2, w)])
        if L is None:
            L = c.int(0, w)
        s = "".join(alpha[c.below(len(alpha))] for _ in range(min(L, 9))) + alpha[0] * max(0, L - 9)
        pool.append(s)
        if c.bool(.3):
            pool.append(s[:-1])
        if c.bool(.3) and len(s) < w:
            pool.append(s + alpha[-1])
    if d.kind == "S":
        arr = np.array([p.encode("latin1") for p in pool], dtype="S%d" % w)
    else:
        arr = np.array(pool, dtype="U%d" % w)
    if n > 14:
        return arr[c.nprng().integers(0, len(arr), n)]
    return arr[[c.below(len(arr)) for _ in range(n)]] if n else arr[:0].copy()


def layout(c, a, p=0.5, kinds=("strided", "negative", "misaligned", "offset")):
    """a 1-D array equal to a with another memory layout (sometimes a itself)"""
    if not c.bool(p) or a.ndim != 1:
        return a
    k = c.choice(kinds)
    n = len(a)
    if k == "strided":
        s = c.int(2, 4)
        base = np.zeros(n * s + 1, a.dtype)
        base[:] = a[0] if n and c.bool() else np.zeros(1, a.dtype)[0]
        v = base[:n * s:s]
        v[...] = a
        return v
    if k == "negative":
        base = np.ascontiguousarray(a[::-1])
        return base[::-1]
    if k == "misaligned":
        if a.dtype.itemsize == 1:
            return a
        raw = np.zeros(n * a.dtype.itemsize + 17, np.uint8)
        v = raw[1:1 + n * a.dtype.itemsize].view(a.dtype)
        v[...] = a
        return v
    off = c.int(1, 3)
    base = np.zeros(n + off + 2, a.dtype)
    v = base[off:off + n]
    v[...] = a
    return v


def lay(a):
    if a.ndim == 1 and a.size > 1:
        st = a.strides[0]
        if st == a.itemsize:
            return "contig" if a.flags.aligned else "misaligned"
        return "neg" if st < 0 else "strided"
    return "contig"


def show(a, n=60):
    a = np.asarray(a)
    if a.size <= n:
        return "%s(%s)%s" % (a.dtype.str, ",".join(map(repr, a.ravel().tolist())) if a.ndim == 1 else a.tolist(), "" if lay(a) == "contig" else "/" + lay(a))
    return "%s[n=%s]%s...%s" % (a.dtype.str, a.shape, ",".join(map(repr, a.ravel()[:8].tolist())), "" if lay(a) == "contig" else "/" + lay(a))


def eq_mask(a, b, sign=False):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.dtype.kind in "fc" and b.dtype.kind in "fc":
        m = (a == b) | (np.isnan(a) & np.isnan(b))
        if sign:
            m &= (np.signbit(a) == np.signbit(b)) | np.isnan(a)
        return m
    return a == b


def same(got, want, what="", dtype=True, sign=False, rtol=None, atol=0.0):
    """Fail unless got == want element for element (NaN equals NaN)"""
    if not isinstance(got, np.ndarray):
        raise Fail("%s: not an array: %s" % (what, short(got)))
    if got.shape != want.shape:
        raise Fail("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if dtype and got.dtype != want.dtype:
        raise Fail("%s: dtype %s, expected %s" % (what, got.dtype, want.dtype))
    if got.size == 0:
        return
    m = eq_mask(got, want, sign)
    if rtol is not None:
        g = np.asarray(got, np.longdouble)
        w = np.asarray(want, np.longdouble)
        fin = np.isfinite(w)
        if got.dtype.kind in "fc":
            atol = atol + 8 * float(np.finfo(got.dtype).smallest_subnormal)     # subnormal results have fewer digits
        m = m | (fin & np.isfinite(g) & (np.abs(g - w) <= atol + rtol * np.abs(w)))
    if not np.all(m):
        i = np.argwhere(~np.atleast_1d(m))[0]
        i = tuple(i) if got.ndim else ()
        raise Fail("%s: %d of %d elements differ, first at %s: %r, expected %r" % (what, int((~np.atleast_1d(m)).sum()), got.size,
                                                                                 i[0] if len(i) == 1 else i, got[i], want[i]))


def check(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)

"""Generated SDS files, how to write and read them, and what reading must give."""
import os, shutil, itertools
import numpy as np
import gen as G
from gen import same, check
from pbt import rc, Fail

ORIG, STACK, SCALAR, NESTED, META = 1, 2, 4, 8, 16
STRUCT, DATASET, TABLE, ARRAY, ONEFILE = 1, 2, 3, 4, 5
DTYPES = ["i4", "f8", "i8", "f4", "i1", "i2", "u1", "u2", "u4", "u8", "?", "S", "U", "g", "c16"]
_n = itertools.count()


def tmp():
    d = os.path.join(os.environ["VERIF_TMP"], "s%d_%d" % (os.getpid(), next(_n)))
    os.makedirs(d, exist_ok=True)
    return d


def drop(d):
    shutil.rmtree(d, ignore_errors=True)


def flat(c, d, n, comp=None):
    """n values of dtype d, of varied compressibility"""
    if d in ("S", "U"):
        return G.strings(c, d, n)
    if d == "g":
        return G.values(c, "f8", n).astype(np.longdouble)
    if d == "c16":
        return G.values(c, "f8", n) + 1j * G.values(c, "f8", n)
    return G.values(c, d, n)


def shape(c, n):
    """a shape of about n elements and 1 to 4 dimensions"""
    nd = c.weighted([(7, 1), (2, 2), (1, 3), (1, 4)])
    if nd == 1:
        return (n,)
    rest = [c.int(1, 4) for _ in range(nd - 1)]
    if c.bool(.06):
        rest[c.below(len(rest))] = 0
    k = 1
    for r in rest:
        k *= max(1, r)
    return (max(0, n // k),) + tuple(rest)


def array(c, n=None, dtypes=DTYPES, big=.03, med=400, oned=False):
    d = c.choice(dtypes)
    if n is None:
        n = G.size(c, big=big, med=med)
    sh = (n,) if oned else shape(c, n)
    tot = int(np.prod(sh))
    a = np.ascontiguousarray(flat(c, d, tot)).reshape(sh)
    if len(sh) > 1 and c.bool(.4):
        a = np.asfortranarray(a)
    elif len(sh) > 1 and c.bool(.2):
        base = np.zeros(tuple(x + 2 for x in sh), a.dtype)
        v = base[tuple(slice(1, 1 + x) for x in sh)] if c.bool() else np.zeros(tuple(2 * x for x in sh), a.dtype)[tuple(slice(0, None, 2) for x in sh)]
        v[...] = a
        a = v
    elif len(sh) == 1:
        a = G.layout(c, a, .15, kinds=("strided", "offset"))
    return a


NAMECH = "abcXYZ019_ .-\u00e9"


def names(c, k, slash=False):
    out = []
    for i in range(k):
        s = "".join(NAMECH[c.below(len(NAMECH))] for _ in range(c.weighted([(5, 3), (2, 1), (1, 12), (1, 90)])))
        if c.weighted([(60, 0), (1, 1)]):
            s = s + "n" * c.choice([299, 300, 301, 700, 3000])
        s = s + "_%d" % i
        out.append(s.encode())
    return out


def meta(c):
    k = c.weighted([(3, 0), (4, 20), (1, 300), (1, 5000)])
    if not k:
        return b""
    return bytes(c.nprng().integers(1, 256 if c.bool() else 128, k, dtype=np.uint8))


class File:
    """what is written to one file"""
    def __init__(self, arrays, names, flags, meta, ftype=DATASET, comp=1, level=3, band=None, section=None, chk=True):
        self.chk = chk
        self.arrays, self.names, self.flags, self.meta = arrays, names, flags, meta
        self.ftype, self.comp, self.level, self.band, self.section = ftype, comp, level, band, section

    def describe(self):
        return "type=%d chk=%d comp=%d lvl=%d band=%s sec=%s meta=%dB %s" % (
            self.ftype, self.chk, self.comp, self.level, self.band, self.section, len(self.meta),
            "; ".join("%s:%d%s %s" % (n.decode("utf8", "replace")[:14], f, a.shape, G.show(a, 12)) for n, f, a in zip(self.names, self.flags, self.arrays)))

    def write(self, path, share=None, folders=None):
        kw = {}
        rc.SetZstdChecksumming(self.chk)
        if self.band is not None:
            kw["bandsize"] = self.band
        if self.section is not None:
            kw["section"] = self.section
        if folders is not None:
            kw["folders"] = folders
        a = [path.encode(), self.meta, list(self.arrays), list(zip(self.names, self.flags)), self.comp, self.level, self.ftype]
        if share is not None:
            a.append(share.encode())
        rc.CompressFile(*a, **kw)


def settings(c):
    comp = c.weighted([(5, 1), (2, 0)])
    return dict(comp=comp, chk=c.bool(.7), level=c.weighted([(4, 1), (2, 3), (1, 9), (1, 15)]),
                band=c.weighted([(5, None), (1, 1), (1, 7), (2, 64), (1, 1000), (1, 10000)]))


def afile(c, k=None, rows=None, dtypes=DTYPES, ftype=None, big=.03, med=400, oned=False):
    k = c.weighted([(1, 0), (3, 1), (4, 3), (1, 9)]) if k is None else k
    arrs = []
    for _ in range(k):
        arrs.append(array(c, n=rows, dtypes=dtypes, big=big, med=med, oned=oned))
    flags = [c.choice([ORIG | STACK, ORIG, STACK, ORIG | STACK | NESTED, SCALAR, META, 0, 255]) for _ in arrs]
    return File(arrs, names(c, k), flags, meta(c), ftype=ftype or c.choice([DATASET, STRUCT, TABLE, ARRAY]), **settings(c))


def eqarr(got, want, what, order=True):
    """same dtype, shape, bytes, and memory order"""
    check(isinstance(got, np.ndarray), "%s: not an array but %r", what, type(got))
    check(got.dtype == want.dtype, "%s: dtype %s, expected %s", what, got.dtype, want.dtype)
    check(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    if order and want.ndim > 1 and want.size:
        check((not want.flags.c_contiguous or got.flags.c_contiguous) and (not want.flags.f_contiguous or got.flags.f_contiguous), "%s: memory order changed", what)
    if want.dtype == np.longdouble or got.tobytes() != want.tobytes():
        same(got, want, what, sign=want.dtype.kind == "f")
        if want.dtype != np.longdouble and want.dtype.kind not in "fc":
            check(got.tobytes() == want.tobytes(), "%s: bytes differ", what)
        elif want.dtype != np.longdouble:
            check(got.tobytes() == want.tobytes(), "%s: bit patterns differ", what)


_num = {}


def dtype_of(num):
    """the dtype of a numpy type number (both C names of a 64-bit integer are the same type)"""
    if not _num:
        for ch in "?bBhHiIlLqQefdgFDGSUVO":
            _num[np.dtype(ch).num] = np.dtype(ch)
    return _num[num]


def expect(r, f, what=""):
    """an SDSFileInfo holds exactly what File f was written with"""
    md, cols, items, hdr = r[0], r[1], r[2], r[3]
    check(md == f.meta, "%s: metadata %r, expected %r", what, md[:60], f.meta[:60])
    got = [(bytes(n), int(fl)) for n, fl in items]
    want = [(n, fl) for n, fl in zip(f.names, f.flags)]
    check(got == want, "%s: names/flags %r, expected %r", what, got, want)
    check(len(cols) == len(f.arrays), "%s: %d arrays, expected %d", what, len(cols), len(f.arrays))
    for g, a, n in zip(cols, f.arrays, f.names):
        eqarr(g, a, "%s column %s" % (what, n.decode("utf8", "replace")))


# ------------------------------------------------------------------ the stacking model
_ORDER = {"?": 0, "b": 1, "B": 2, "h": 3, "H": 4, "i": 5, "I": 6, "q": 9, "Q": 10, "f": 11, "d": 12, "g": 13}
_CH = {v: k for k, v in _ORDER.items()}


def canon(d):
    """rank of a numeric dtype in the library's dtype numbering"""
    d = np.dtype(d)
    return {("b", 1): 0, ("i", 1): 1, ("u", 1): 2, ("i", 2): 3, ("u", 2): 4, ("i", 4): 5, ("u", 4): 6, ("i", 8): 9, ("u", 8): 10,
            ("f", 4): 11, ("f", 8): 12, ("f", 16): 13}[(d.kind, d.itemsize)]


def common(a, b):
    """common dtype of two stacked columns"""
    a, b = np.dtype(a), np.dtype(b)
    if a.kind in "SU" and b.kind in "SU":
        wa, wb = (x.itemsize // (4 if x.kind == "U" else 1) for x in (a, b))
        return np.dtype("%s%d" % ("U" if "U" in (a.kind, b.kind) else "S", max(wa, wb)))
    if a == b:
        return a
    x, y = canon(a), canon(b)
    fx, fy = x >= 11, y >= 11
    if fx == fy and (fx or (a.kind == "u") == (b.kind == "u")):
        return np.dtype(_CH[max(x, y)])
    if fx != fy:
        f, i = (x, y) if fx else (y, x)
        return np.dtype("d") if (i >= 5 and f < 12) else np.dtype(_CH[f])
    n = max(x, y) | 1
    return np.dtype(_CH[9 if n >= 7 else n])


def widen(a, d):
    """values of a in the common dtype d, invalid to invalid"""
    if a.dtype == d:
        return a.copy()
    if d.kind in "SU":
        if a.dtype.kind == "S" and d.kind == "U":
            return np.array([x.decode("latin1") for x in a.ravel()], dtype=d).reshape(a.shape) if a.size else np.zeros(a.shape, d)
        return a.astype(d)
    r = a.astype(d)
    if a.dtype.kind in "iuf":    # a boolean has no invalid
        inv = G.isinv(a)
        if inv.any():
            r = r.copy()
            r[inv] = G.invalid(d)
    return r


def gap(d, shape):
    """rows of a file that lacks the column"""
    d = np.dtype(d)
    if d.kind in "SUb":
        return np.zeros(shape, d)
    return np.full(shape, G.invalid(d) if d.kind != "c" else 0, d)


FAMS = [["i4", "f8", "i8", "f4", "i1", "i2", "u1", "u2", "u4", "?"], ["S", "U"], ["f8", "f4", "g"], ["u8", "u4", "u2", "u1", "f8"]]


class Stack:
    """files with overlapping columns and the columns their stack must hold"""
    def __init__(self, c, k, mixed=True, ndims=True, ftype=DATASET, med=60, big=.03, rows=None):
        ncol = c.int(1, 6)
        pool = names(c, ncol)
        fams, trail, order = [], [], []
        for i in range(ncol):
            fam = c.choice(FAMS)
            if not mixed or c.bool(.3):
                fam = [c.choice(fam)]
            t = ()
            if ndims and c.bool(.25):
                if not c.bool(.4):
                    fam = [c.choice(["i4", "f8", "i1", "u8", "f4", "?", "i2", "S", "U"])]
                t = (c.int(1, 4),) if c.bool(.7) else (c.int(1, 3), c.int(1, 3))
            fams.append(fam)
            trail.append(t)
            order.append("F" if t and c.bool(.5) else "C")
        self.files, self.rows = [], []
        widths = [c.choice([1, 2, 3, 5, 8, 17]) for _ in range(4)]
        full = c.bool(.5)
        for f in range(k):
            n = G.size(c, big=big, med=med) if rows is None else rows[f]
            which = list(range(ncol)) if full else c.subset(range(ncol), .7)
            if c.bool(.2):
                which = c.sample(which, len(which))
            arrs = []
            for i in which:
                d = c.choice(fams[i])
                if d in "SU":
                    d = "%s%d" % (d, c.choice(widths))
                sh = (n,) + trail[i]
                a = flat(c, d, int(np.prod(sh))).reshape(sh) if d[0] in "SUg" else G.values(c, d, int(np.prod(sh))).reshape(sh)
                arrs.append(np.asfortranarray(a) if order[i] == "F" else a)
            self.rows.append(n if which else 0)
            self.files.append(File(arrs, [pool[i] for i in which], [ORIG | STACK] * len(which), meta(c) if c.bool(.3) else b"m%d" % f,
                                   ftype=ftype, **settings(c)))

    def describe(self):
        return " | ".join(f.describe() for f in self.files)

    def write(self, d):
        self.paths = []
        for i, f in enumerate(self.files):
            p = os.path.join(d, "f%d.sds" % i)
            f.write(p)
            self.paths.append(p)
        return self.paths

    def rows_of(self, include=None):
        """rows each file contributes: a file from which no column is loaded contributes none"""
        return [r if include is None or any(n in include for n in f.names) else 0 for f, r in zip(self.files, self.rows)]

    def columns(self, include=None):
        """ordered [(name, array)]; by first appearance over the files"""
        out, seen = [], []
        for f in self.files:
            for n in f.names:
                if n not in seen:
                    seen.append(n)
        for n in seen:
            if include is not None and n not in include:
                continue
            parts = [f.arrays[f.names.index(n)] if n in f.names else None for f in self.files]
            real = [p for p in parts if p is not None]
            d = real[0].dtype
            for p in real[1:]:
                d = common(d, p.dtype)
            tr = real[0].shape[1:]
            cols = [widen(p, d) if p is not None else gap(d, (r,) + tr) for p, r in zip(parts, self.rows_of(include))]
            out.append((n, np.concatenate(cols)))
        return out


def expect_stack(r, st, what, include=None, cols=None, cutoffs=True, reserve=False):
    cols = st.columns(include) if cols is None else cols
    if not cols:
        check(r is None or len(r[0]) == 0, "%s: columns from files without any", what)
        return
    got = [bytes(x[0]) for x in r[1]]
    check(got == [n for n, _ in cols], "%s: columns %r, expected %r", what, got, [n for n, _ in cols])
    check(len(r[0]) == len(cols), "%s: %d arrays", what, len(r[0]))
    for g, (n, w) in zip(r[0], cols):
        if reserve:
            check(len(g) >= len(w), "%s: %d rows", what, len(g))
            g = g[:len(w)]
        eqstack(g, w, "%s: column %s" % (what, n.decode("utf8", "replace")))
    if cutoffs:
        cut = np.cumsum(st.rows_of(include))
        for x in r[2]:
            check(x.tolist() == cut.tolist(), "%s: offsets %r, expected %r", what, x.tolist(), cut.tolist())


def eqstack(g, w, what):
    check(isinstance(g, np.ndarray), "%s: %r", what, type(g))
    check(g.dtype == w.dtype, "%s: dtype %s, expected %s", what, g.dtype, w.dtype)
    same(g, w, what)

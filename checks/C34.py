"""C34: the same call with threading off, with any number of workers woken, repeated, and on the pieces of its arrays."""
import numpy as np
import gen as G
import catalog as K
from gen import check
from pbt import law, rc

RULE = ("a case draws an operation of the catalogue (checks/catalog.py: arithmetic, comparisons, selection, conversion, reductions, grouping, aggregation, windows, sorting, membership, as-of, stacking, compression), its columns, and "
        "a length at, next to, or well past the sizes at which work is divided (16384 rows a chunk, 32768 rows for threads to be used), then runs it with threading off and again with several numbers of workers woken; "
        "non-trivial = the length is long enough for work to be divided")
ASSUMPTIONS = ["sums of floats are of small whole numbers, so that they are exact in any order, but where the function itself rounds",
               "float accumulations may differ by rounding: 1e-11 relative (1e-5 for float32)", "native byte order"]

CHUNK = 16384


def length(c):
    k = c.weighted([(2, "edge"), (3, "edge2"), (3, "any"), (2, "long"), (1, "short")])
    if k == "edge":
        return CHUNK * c.int(1, 8) + c.int(-3, 3)
    if k == "edge2":
        return CHUNK * c.int(2, 4) + c.choice([-1, 0, 1])
    if k == "any":
        return c.int(2 * CHUNK, 8 * CHUNK)
    if k == "long":
        return c.int(8 * CHUNK, 24 * CHUNK)
    return c.int(0, CHUNK)


def threading_on():
    rc.ThreadingMode(0)


def run(c, n, f, what, tol):
    """the thunk under threading off and on; the first answer"""
    try:
        rc.ThreadingMode(1)
        want = K.flat(f())
        again = K.differ(want, K.flat(f()), 0)
        check(not again, "%s with threading off is not the same when repeated: %s" % (what, again))
    finally:
        threading_on()
    wake = rc.SetThreadWakeUp(c.int(1, 8))
    try:
        for w in [c.int(1, 9) for _ in range(c.int(1, 4))]:
            rc.SetThreadWakeUp(w)
            d = K.differ(want, K.flat(f()), tol)
            check(not d, "%s with %d workers woken differs from threading off: %s" % (what, w, d))
    finally:
        rc.SetThreadWakeUp(wake)
    return want


@law(1300, 20000)
def workers(c):
    """threading off, any number of workers woken, and repeating give the same results"""
    n = length(c)
    name = c.choice(list(K.TABLE))
    c.note(operation=name, n=n)
    note, f, tol = K.TABLE[name](c, n)
    c.note(what=note)
    c.event(name)
    c.nontrivial(n >= 2 * CHUNK)
    run(c, n, f, "%s of %s" % (name, note), tol)


def cutter(f):
    """column-wise operations: the answer for rows i to j is the answer's rows i to j"""
    CUT.append(f)
    return f


CUT = []


@cutter
def arithmetic(c, n):
    o = c.choice([1, 2, 3, 101, 5, 6, 7, 10, 401, 402, 403, 404, 405, 406])
    d = c.choice(K.NUM)
    a, b = K.column(c, n, d), K.column(c, n, d if c.bool(.6) else None)
    num = c.choice([0, None])
    if c.bool(.3):
        s = b.dtype.type(c.int(1, 9))
        return "%d %s scalar" % (o, d), lambda i, j: rc.BasicMathTwoInputs((a[i:j], s), o, 0), 0
    return "%d %s %s" % (o, d, b.dtype), lambda i, j: rc.BasicMathTwoInputs((a[i:j], b[i:j]), o, 0), 0


@cutter
def functions(c, n):
    o = c.choice([201, 202, 205, 206, 207, 208, 210, 211, 214, 216, 301, 302, 304, 601, 603, 604, 605, 611, 612])
    a = K.fcolumn(c, n) if c.bool() else K.column(c, n)
    return "%d %s" % (o, a.dtype), lambda i, j: rc.BasicMathUnaryOp(a[i:j], o), 1e-15 if o in (304, 302) else 0


@cutter
def selection(c, n):
    m = K.column(c, n, "?")
    d = np.dtype(c.choice(K.NUM))
    a, b = K.column(c, n, d), K.column(c, n, d)
    return d, lambda i, j: rc.Where(m[i:j], (a[i:j], b[i:j]), d.num, d.itemsize), 0


@cutter
def conversion(c, n):
    a = K.column(c, n, c.choice(K.NUM + ["?"]), 0)
    d = np.dtype(c.choice(K.NUM + ["?"]))
    f = c.choice([rc.ConvertSafe, rc.ConvertUnsafe])
    return "%s to %s" % (a.dtype, d), lambda i, j: f(a[i:j], d.num), 0


@cutter
def lookup(c, n):
    a = K.strings(c, n) if c.bool(.3) else K.column(c, n)
    k = c.nprng().integers(-n, n, n).astype(c.choice(["i4", "i8"]))
    return "%s[%s]" % (a.dtype, k.dtype), lambda i, j: rc.MBGet(a, k[i:j]), 0


@cutter
def cuts(c, n):
    a = K.fcolumn(c, n)
    e = np.sort(c.nprng().standard_normal(c.int(2, 300)) * 10)
    m = c.choice([0, 1, 2])
    return a.dtype, lambda i, j: rc.BinsToCutsBSearch(a[i:j], e, m), 0


@cutter
def membership(c, n):
    a, b = K.keys(c, n), K.keys(c, max(1, n // c.int(1, 5)))
    b = b.astype(a.dtype) if a.dtype.kind in "SU" else b.astype("f8").astype(a.dtype) if b.dtype.kind in "SU" else b.astype(a.dtype)
    return a.dtype, lambda i, j: rc.IsMember32(a[i:j], b, 2), 0


@cutter
def filtered(c, n):
    a = K.labels(c, n, 500)
    f = c.nprng().random(n) < .5
    return a.dtype, lambda i, j: rc.CombineFilter(a[i:j], f[i:j]), 0


@law(1200, 20000)
def pieces(c):
    """row-wise operations answer a stretch of rows as they answer it within the whole"""
    n = max(2, length(c))
    f = c.choice(CUT)
    c.note(operation=f.__name__, n=n)
    note, g, tol = f(c, n)
    c.note(what=note)
    c.event(f.__name__)
    c.nontrivial(n >= 2 * CHUNK)
    whole = K.flat(g(0, n))
    for _ in range(4):
        i = c.choice([0, CHUNK * c.int(0, n // CHUNK), c.int(0, n - 1)])
        i = min(i, n - 1)
        j = min(n, i + c.choice([1, 2, 100, CHUNK, 3000]))
        part = K.flat(g(i, j))
        want = [x[i:j] if isinstance(x, np.ndarray) and x.shape == (n,) else x for x in whole]
        if f is membership:        # how wide the integers are depends on the lengths
            want, part = [[x[0], np.where(x[0], x[1], 0).astype("i8")] for x in (want, part)]
        d = K.differ(want, part, tol)
        check(not d, "%s of %s: rows %d to %d alone differ from those rows of the whole %d: %s" % (f.__name__, note, i, j, n, d))

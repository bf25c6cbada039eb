"""C35: calls leave their arguments alone, leak nothing, and refuse wrong arguments instead of crashing (built with the address sanitizer)."""
import ctypes, gc, os, re, sys
import numpy as np
import catalog as K
import gen as G
from gen import check
from pbt import law, rc as real, Fail

RULE = ("a case draws an operation (the catalogue of checks/catalog.py and the extra table here: every exported function but the logger's and the operator hook), runs it on generated valid arguments while a proxy records each call into the module, "
        "then repeats one recorded call as it was, or with arguments replaced (another type, dtype, length, shape, layout, a missing or extra argument); "
        "non-trivial = the recorded call had an array of at least one element, and for mutated calls the arguments differ from the recorded ones")
ASSUMPTIONS = ["the values inside replaced arrays stay those of the original (labels and indexes in range): functions documented to trust the content of labels are only given other types, dtypes, lengths and layouts",
               "out-of-bounds accesses are seen by the address sanitizer the module is built with",
               "memory is counted by the sanitizer's allocator with Python's own allocator off; a leak is growth on every one of two successive rounds of repeated calls; DecompressFile with a share name is not measured, the share stays mapped by design",
               "functions documented to write an argument (SetItem, PutMask, ShiftArrays, in-place sorts, RemoveTrailingSpaces, ReIndexGroups, an output array) may write that argument only",
               "native byte order; the logger functions, the operator hook (BasicMathHook, SetFastArrayType) and the thread settings are not called with wrong arguments"]
OPTS = {"hang": 120}


# ------------------------------------------------------------------ recording
class Spy:
    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        f = getattr(real, name)
        if not callable(f):
            return f

        def w(*a, **k):
            self.calls.append((name, a, k))
            return f(*a, **k)
        return w


SPY = Spy()
K.rc = SPY
rc = SPY
TABLE = dict(K.TABLE)


def op(f):
    TABLE[f.__name__] = f
    return f


def scratch():
    return os.environ.get("VERIF_TMP", "/tmp")


@op
def spaces(c, n):
    a = np.array(["a  ", "b", "  "] * (n // 3 + 1), c.choice(["S5", "U5"]))[:n]
    return "", lambda: rc.RemoveTrailingSpaces(a.copy()), 0


@op
def interp(c, n):
    x = np.cumsum(c.nprng().integers(1, 5, c.int(2, 20))).astype("f8")
    d = c.choice(["f4", "f8"])
    v = K.fcolumn(c, n, "f8").astype(d)
    return "", lambda: rc.InterpExtrap2d(v, x.astype(d), (x * 2).astype(d), c_one), 0


c_one = 1


@op
def dates(c, n):
    a = np.array(["12:34:56.789"] * n, "S12")
    b = np.array(["2020-02-03"] * n, "S10")
    e = np.array(["2020-02-03 12:34:56"] * n, "S19")
    return "", lambda: (rc.TimeStringToNanos(a), rc.DateStringToNanos(b), rc.DateTimeStringToNanos(e), rc.StrptimeToNanos(b, b"%Y-%m-%d")), 0


@op
def udates(c, n):
    a = np.array(["12:34:56.789"] * n, "U12")
    b = np.array(["2020-02-03"] * n, "U10")
    e = np.array(["2020-02-03 12:34:56"] * n, "U19")
    return "", lambda: (rc.TimeStringToNanos(a), rc.DateStringToNanos(b), rc.DateTimeStringToNanos(e), rc.StrptimeToNanos(b, b"%Y-%m-%d")), 0


@op
def records(c, n):
    t = np.dtype([("a", "i4"), ("b", "f8"), ("s", "S3")])
    r = np.zeros(n, t)
    off = np.array([t.fields[k][1] for k in t.names], "i8")

    def f():
        arrs = np.empty(len(t.names), "O")
        for i, k in enumerate(t.names):
            arrs[i] = np.empty(n, t[k])
        return rc.RecordArrayToColMajor(r, off, arrs)
    return "", f, 0


@op
def ifirst(c, n):
    nu = K.bins(c, n)
    k = K.labels(c, n, nu)
    f = c.choice([None, K.column(c, n, "?")])
    return "", lambda: rc.MakeiFirst(k, nu, f, c_one), 0


@op
def bitcounts(c, n):
    k = K.keys(c, n)
    return "", lambda: rc.BitCount(k), 0


@op
def reindex(c, n):
    v = K.column(c, n)
    ix = c.nprng().integers(0, max(n, 1), n).astype(c.choice(["i4", "i8"]))
    return "", lambda: rc.ReIndex(ix, v), 0


@op
def reindexgroups(c, n):
    k = c.nprng().integers(0, 4, n).astype(c.choice(["i1", "i4"]))
    uk = np.array([1, 2, 3, 4, 5, 6], "i4")
    return "", lambda: rc.ReIndexGroups(k.copy(), uk, np.array([3, 6], "i8"), np.array([n // 2, n], "i8")), 0


@op
def issorted(c, n):
    v = K.column(c, n)
    s = K.strings(c, n)
    return "", lambda: (rc.IsSorted(v), rc.IsSorted(s)), 0


@op
def sortinplace(c, n):
    v = K.column(c, n, c.choice(K.NUM))
    m = c.choice([1, 2, 3])
    p = np.arange(8)[::-1].astype("i8")
    k = c.nprng().integers(0, 8, n).astype("i4")
    return "", lambda: (rc.SortInPlace(v.copy(), m), rc.SortInPlaceIndirect(k.copy(), p.copy())), 0


@op
def cutsorted(c, n):
    v = np.sort(K.fcolumn(c, n))
    e = np.sort(c.nprng().standard_normal(c.int(2, 20)))

    def f():
        ls = np.argsort(v, kind="stable").astype("i4")
        return rc.BinsToCutsSorted(v, e, ls, rc.NanInfCountFromSort(v, ls), 0)
    return "", f, 0


@op
def fixup(c, n):
    a, b = K.labels(c, n, 9), K.labels(c, n // 2 + 1, 9)
    return "", lambda: rc.IsMemberCategoricalFixup(a, b, np.arange(9, dtype="i4"), 9, 1, 1), 0


@op
def zstring(c, n):
    b = c.nprng().integers(0, 4, n, "u1").tobytes()
    return "", lambda: rc.DecompressString(rc.CompressString(b, c_one)), 0


@op
def alloc(c, n):
    num = np.dtype(c.choice(K.NUM + ["?"])).num
    proto = K.column(c, n)
    f = c.bool()

    def g():
        a = rc.AllocateNumpy(proto, num)
        b = rc.Empty([n, 2], num, -1, f)
        z = rc.Empty([n], c_sdt, 7, False)
        del a, b, z
        return rc.TryRecycleNumpy(num, [proto]), rc.GetUpcastNum([proto, K.np.zeros(1, "i2")])
    return "", g, 0


c_sdt = np.dtype("S1").num


@op
def oneinput(c, n):
    v = K.column(c, n, c.choice(K.NUM))
    o = c.choice([201, 202, 205, 206, 301, 302, 304, 601, 611])
    out = np.empty(n, "?")
    return "", lambda: (rc.BasicMathOneInput(v, o, 0), rc.BasicMathOneInput((v,), o, -1), rc.BasicMathUnaryOp(v, 603, out=out), rc.BasicMathUnaryOp(v, 201, dtype=np.dtype('f8'))), 0


@op
def coerce(c, n):
    v = K.column(c, n)
    o = c.choice([v, v.tolist()[:9], v[::2], 3, 2.5, "x", None, [[1, 2], [3, 4]]])
    d = c.choice([None, np.dtype("f8"), np.dtype("i4")])
    if o in ("x", None) if not isinstance(o, (np.ndarray, list)) else False:
        d = None
    return "", lambda: (rc.AsAnyArray(o, d), rc.AsFastArray(o, dtype=d), rc.AsAnyArray(o, dtype=d, copy=True, order="C")), 0


@op
def strings_get(c, n):
    s = K.strings(c, n)
    i = c.nprng().integers(-n, n, n).astype("i4") if n else np.zeros(0, "i4")
    m = K.column(c, n, "?")
    t = K.strings(c, n).astype(s.dtype)
    o = c.choice([401, 402, 403, 404, 405, 406])
    return "", lambda: (rc.MBGet(s, i, s.dtype.type()), rc.Where(m, (s, t), s.dtype.num, s.dtype.itemsize), rc.BasicMathTwoInputs((s, t), o, 0), rc.HStack([s, t]), rc.ConvertSafe(s, s.dtype.num)), 0


@op
def mbdefault(c, n):
    v = K.column(c, n, c.choice(K.NUM))
    i = c.nprng().integers(-n - 2, n + 2, n).astype(c.choice(["i4", "i8", "f8", "f4"]))
    return "", lambda: (rc.MBGet(v, i, 3), rc.MBGet(v, i, None)), 0


@op
def twoscalars(c, n):
    v = K.column(c, n, c.choice(K.NUM))
    out = np.empty(n, v.dtype)
    m = K.column(c, n, "?")
    return "", lambda: (rc.BasicMathTwoInputs((v, 3), 1, 0), rc.BasicMathTwoInputs((2.5, v), 3, 0), rc.BasicMathTwoInputs((v, v, out), 2, v.dtype.num),
                        rc.Where(m, (3, v), v.dtype.num, v.dtype.itemsize), rc.Where(m, (3, 4.5), 12, 8), rc.SetItem(v.copy(), m, 3), rc.PutMask(v.copy(), m, v[:1]), rc.Reduce(v, 102), rc.Reduce(v, 107)), 0


@op
def setfancy(c, n):
    v = K.column(c, n, c.choice(K.NUM))
    i = c.nprng().integers(0, max(n, 1), n).astype(c.choice(["i4", "i8"]))
    s = K.strings(c, n)
    return "", lambda: (rc.SetItem(v.copy(), i, v) if n else None, rc.SetItem(v.copy(), i, 1) if n else None, rc.SetItem(s.copy(), i, s) if n else None), 0


@op
def prepared(c, n):
    k = [K.keys(c, n)]
    t = np.arange(n)
    return "", lambda: (rc.MultiKeyHash(list(k)), rc.LexSort32(list(k), ascending=[False]), rc.LexSort64(list(k), filter=None), rc.GroupFromLexSort(np.asarray(rc.LexSort64(list(k))), k[0], base_index=0)), 0


@op
def ledger(c, n):
    v = K.column(c, n)
    return "", lambda: rc.CompareNumpyMemAddress(v, v), 0


@op
def sdsfile(c, n):
    cols = [K.column(c, n), K.strings(c, n)]
    if not n:
        cols = [np.arange(3)]
    comp = c.below(2)
    base = os.path.join(scratch(), "f%d" % os.getpid())
    names = [(b"c%d" % i, 0) for i in range(len(cols))]

    def f():
        fn = (base + ".sds").encode()
        rc.CompressFile(fn, b"{}", list(cols), list(names), comp, 3, 2)
        r = rc.DecompressFile(fn, 3)
        i = rc.DecompressFile(fn, 5)
        m = rc.MultiDecompressFiles([fn.decode()])
        s = rc.MultiStackFiles([fn, fn])
        p = rc.MultiPossiblyStackFiles([fn])
        rc.MultiConcatFiles([fn.decode(), fn.decode()], output=base + ".2.sds")
        return len(r), len(m), len(s)
    return "", f, 0


NAMES = sorted(TABLE)
# written argument positions (an array, or a list of them)
INPLACE = {"SetItem": (0,), "PutMask": (0,), "ShiftArrays": (0,), "SortInPlace": (0,), "SortInPlaceIndirect": (0,), "RemoveTrailingSpaces": (0,),
           "ReIndexGroups": (0,), "RecordArrayToColMajor": (2,), "Sort": ()}


def writes(name, a, k):
    """ids of the arrays the call may write"""
    out = [a[i] for i in INPLACE.get(name, ()) if i < len(a)]
    if name in ("BasicMathTwoInputs", "BasicMathOneInput", "BasicMathUnaryOp") and a and isinstance(a[0], (tuple, list)):
        out += a[0][2 if name == "BasicMathTwoInputs" else 1:]
    if "out" in k:
        out.append(k["out"])
    if name == "MultiDecompressFiles":
        out += list(a)
    return {id(z) for x in out for z in tree(x)}


def tree(x, depth=0):
    """x and all it holds"""
    yield x
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from tree(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from tree(y)
    elif isinstance(x, np.ndarray) and x.dtype == object and x.size < 40 and depth < 2:
        for y in x.ravel().tolist():
            yield from tree(y, depth + 1)


COUNTED = (np.ndarray, list, tuple, bytes, dict, np.generic, str)


def snap(args, skip):
    out = []
    for x in tree(args):
        if isinstance(x, np.ndarray):
            # an array may write through views of it: skip memory shared with a written one
            sh = id(x) in skip
            b = x if x.base is None or not isinstance(x.base, np.ndarray) else x.base
            out.append((x.shape, x.strides, x.dtype, x.flags.writeable, None if sh or x.dtype == object else b.tobytes(), [id(z) for z in x.ravel().tolist()] if x.dtype == object and x.size < 40 and not sh else None))
        elif isinstance(x, (list, tuple)):
            out.append([id(y) for y in x])
        elif isinstance(x, dict):
            out.append([(q, id(y)) for q, y in x.items()])
        elif isinstance(x, (bytes, str, int, float)):
            out.append(repr(x)[:300])
        else:
            out.append(None)
    return out


def counts(args):
    return [sys.getrefcount(x) for x in tree(args) if isinstance(x, COUNTED)]


def describe(x, depth=0):
    if isinstance(x, np.ndarray):
        r = "%s%s" % (x.dtype.str if x.dtype.names is None else "record", list(x.shape))
        if x.ndim and x.size and not x.flags.c_contiguous:
            r += "strides%s" % (x.strides,)
        if x.size <= 8 and x.dtype.kind in "biuf":
            r += "=%s" % x.ravel().tolist()
        return r
    if isinstance(x, (list, tuple)):
        if depth > 3:
            return "..."
        s = ", ".join(describe(y, depth + 1) for y in x[:8])
        return ("[%s]" if isinstance(x, list) else "(%s)") % s
    return repr(x)[:60]


def show(call):
    name, a, k = call
    return "%s(%s)" % (name, ", ".join([describe(x) for x in a] + ["%s=%s" % (q, describe(v)) for q, v in k.items()]))


def record(c, big=.0, small=False):
    """a valid call"""
    n = c.weighted([(2, 1), (6, c.int(2, 20)), (4, c.int(20, 400)), (1, 0), (0 if small else 1, 40000)])
    name = c.choice(NAMES)
    note, f, _ = TABLE[name](c, n)
    SPY.calls.clear()
    try:
        f()
    except Exception as e:
        c.event("not accepted")
    calls = list(SPY.calls)
    SPY.calls.clear()
    if not calls:
        return record(c, big, small)
    call = c.choice(calls)
    c.event(call[0])
    c.note(op=name, n=n, call=show(call))
    return call


def again(call):
    name, a, k = call
    return getattr(real, name)(*a, **k)


def has_rows(call):
    return any(isinstance(x, np.ndarray) and x.size for x in tree([call[1], call[2]]))


def observe(call, refused):
    """one call: its arguments' values and reference counts before and after"""
    name, a, k = call
    args = [a, k]
    skip = writes(name, a, k)
    before = snap(args, skip)
    gc.collect()
    rb = counts(args)
    try:
        r = again(call)
        ok = True
    except Exception as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        r = e = None
        ok = False
    del r
    gc.collect()
    ra = counts(args)
    after = snap(args, skip)
    del_ = [i for i, (x, y) in enumerate(zip(before, after)) if x != y]
    what = [describe(x) for x in tree(args)]
    check(not del_ and len(before) == len(after), "%s changed its argument %s", name, [what[i] for i in del_])
    if ra != rb:
        cs = [x for x in tree(args) if isinstance(x, COUNTED)]
        bad = ["%s: %d to %d" % (describe(x), p, q) for x, p, q in zip(cs, rb, ra) if p != q]
        raise Fail("%s left reference counts of its arguments changed%s: %s" % (name, "" if ok else " after an error", bad))
    return ok


def flush():
    real.RecycleGarbageCollectNow(0)
    gc.collect()


_used = None


def used():
    """bytes allocated now"""
    global _used
    if _used is None:
        lib = ctypes.CDLL(None)
        if not hasattr(lib, "__sanitizer_get_current_allocated_bytes"):
            raise RuntimeError("not running with the address sanitizer")
        _used = lib.__sanitizer_get_current_allocated_bytes
        _used.restype = ctypes.c_size_t
    return _used()


NUMPYS = re.compile("^Cannot (cast array data|interpret)")


def no_dtype(x):
    if isinstance(x, dict):
        return True
    try:
        np.dtype(x)
    except Exception:
        return True


def grows(call, reps):
    """bytes by which memory grows over reps calls, in each of three rounds"""
    name, a, k = call
    if name == "DecompressFile" and len(a) > 2:      # the share stays mapped, arrays live in it
        return [0]
    f = getattr(real, name)
    error = []

    def one():
        try:
            f(*a, **k)
        except Exception as e:
            error[:] = [str(e)]
    for _ in range(4):
        one()
    dt = ([k["dtype"]] if "dtype" in k else []) + list(a[1:2] if name.startswith("As") else [])
    if (error and NUMPYS.search(error[0])) or any(map(no_dtype, dt)):       # numpy itself leaks as it refuses such a dtype
        return [0]
    out = []
    for _ in range(3):
        gc.collect()
        u = used()
        for _ in range(reps):
            one()
        gc.collect()
        out.append(used() - u)
    return out


def flat(call, reps=10):
    g = grows(call, reps)
    if all(x >= reps * 8 for x in g):
        g2 = grows(call, reps * 3)
        if all(x >= reps * 24 for x in g2):
            raise Fail("%s leaks: %s bytes in rounds of %d calls, %s bytes in rounds of %d" % (call[0], g, reps, g2, reps * 3))


@law(600, 20000)
def intact(c):
    """a valid call changes nothing it is not documented to write, and no reference count"""
    call = record(c)
    c.nontrivial(has_rows(call))
    observe(call, False)


@law(250, 10000)
def noleak(c):
    """memory stays flat as a valid call is repeated"""
    call = record(c, small=True)
    c.nontrivial(has_rows(call))
    flat(call)


# ------------------------------------------------------------------ wrong arguments
DT = ["?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "g", "F", "D", "S5", "U3", "O", "M8[ns]", "m8[s]", "V8", "V3", [("a", "i4"), ("b", "S2")]]


def recast(x, d):
    d = np.dtype(d)
    if d.kind in "mM" and x.dtype.kind in "SUO":        # numpy itself dies of such a conversion
        return np.zeros(x.shape, d)
    try:
        with np.errstate(all="ignore"):
            y = x.astype(d)
            if d.kind in "biuf" and x.dtype.kind in "biuf" and np.array_equal(y.astype(x.dtype), x):
                return y
            if d.kind in "SUO":
                return y
    except Exception:
        pass
    if d == object:
        y = np.empty(x.shape, object)
        y[...] = 1
        return y
    return np.zeros(x.shape, d)


def other_array(c, x):
    """another array in place of x; the values it holds are values of x (or 0)"""
    k = c.weighted([(6, "dtype"), (3, "shorter"), (2, "longer"), (2, "empty"), (1, "scalar"), (3, "layout"), (2, "2d"), (1, "readonly"), (1, "list"), (1, "strided2d"), (1, "one")])
    if k == "dtype":
        return recast(x, c.choice(DT))
    if k == "shorter":
        return x.ravel()[:c.below(max(1, x.size))].copy()
    if k == "longer":
        return np.concatenate([x.ravel(), x.ravel()[:c.int(1, 3)] if c.bool() else x.ravel()]) if x.size else np.zeros(3, x.dtype)
    if k == "empty":
        return np.zeros(0, x.dtype)
    if k == "scalar":
        return np.array(x.ravel()[0]) if x.size else np.zeros((), x.dtype)
    if k == "one":
        return x.ravel()[:1].copy()
    if k == "layout":
        if x.ndim != 1 or x.dtype == object:
            return np.asfortranarray(x)
        return G.layout(c, x, 1)
    if k == "2d":
        q = [z for z in (1, 2, 3, 5) if x.size % z == 0]
        y = x.reshape((c.choice(q), -1)) if x.size else np.zeros((0, 2), x.dtype)
        return np.asfortranarray(y) if c.bool() else y
    if k == "strided2d":
        y = np.stack([x.ravel()] * 3, axis=1) if x.size else np.zeros((0, 3), x.dtype)
        return y[:, :2]
    if k == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    return x.tolist() if x.size < 50 else [1, 2]


class Thing:
    pass


def other_value(c, x):
    """a value of another type; never an integer (which could be a bound of the labels)"""
    k = c.below(14)
    return [None, "abc", b"abc", 2.5, [], (), {}, Thing(), np.zeros(3, int), len, [None], [np.arange(3.)], "", np.ones(2, "?")][k]


def wild(c):
    return c.choice([-1, -2, 10 ** 4, 2 ** 31 - 1, 2 ** 31, 2 ** 40, 2 ** 62, -2 ** 63, 2 ** 63, 2 ** 70])


# integers that are counts, widths, modes or codes (and not what bounds the labels of another argument)
CODES = {"BasicMathTwoInputs": (1, 2), "BasicMathUnaryOp": (1,), "BasicMathOneInput": (1, 2), "Reduce": (1,), "Rolling": (1, 2), "TimeWindow": (2, 3), "Sort": (1,), "SortInPlace": (1,),
         "BinsToCutsBSearch": (2,), "BinsToCutsSorted": (4,), "ConvertSafe": (1,), "ConvertUnsafe": (1,), "Where": (2, 3), "ShiftArrays": (1,), "IsMember32": (2,), "IsMember64": (2,), "IsMemberCategorical": (2,),
         "MultiKeyGroupBy32": (1, 3), "MultiKeyGroupBy32Super": (1,), "MultiKeyUnique32": (1,), "InterpExtrap2d": (3,), "AllocateNumpy": (1,), "TryRecycleNumpy": (0,), "HStack": (1,),
         "HomogenizeArrays": (1,), "CompressString": (1,), "CompressDecompressArrays": (1, 2), "EmaAll32": (3,), "MakeiFirst": (3,), "MakeiNext": (2,), "DecompressFile": (1,)}


def mutate_value(c, x, name, pos):
    """something else in place of x"""
    if isinstance(x, np.ndarray):
        if c.bool(.8):
            return other_array(c, x)
        return other_value(c, x)
    if isinstance(x, (list, tuple)) and len(x) and c.bool(.75):
        y = list(x)
        k = c.below(6)
        if k < 3:
            i = c.below(len(y))
            y[i] = mutate_value(c, y[i], name, None)
        elif k == 3:
            y.pop(c.below(len(y)))
        elif k == 4:
            y.insert(c.int(0, len(y)), y[c.below(len(y))])
        else:
            y = y[::-1] if len(y) > 1 and c.bool() else [] if c.bool() else [None] * len(y)
        t = type(x)
        if c.bool(.1):
            t = list if t is tuple else tuple
        return t(y)
    if type(x) is int and pos in CODES.get(name, ()) and c.bool(.5):
        return wild(c)
    return other_value(c, x)


def mutate(c, call):
    name, a, k = call
    a, k = list(a), dict(k)
    for _ in range(c.weighted([(4, 1), (2, 2), (1, 3)])):
        m = c.weighted([(12, "replace"), (1, "drop"), (1, "extra"), (1, "keyword")])
        if m == "replace" and (a or k):
            i = c.below(len(a) + len(k))
            if i < len(a):
                a[i] = mutate_value(c, a[i], name, i)
            else:
                q = sorted(k)[i - len(a)]
                k[q] = mutate_value(c, k[q], name, None)
        elif m == "drop" and a:
            a.pop() if c.bool() else a.pop(c.below(len(a)))
        elif m == "extra":
            a.insert(c.int(0, len(a)), other_value(c, None))
        elif m == "keyword":
            k[c.choice(["filter", "pack", "dtype", "out", "mode", "ascending", "xyz", "axis", "copy"])] = other_value(c, None)
    if name == "ReIndex" and len(a) > 1 and all(isinstance(x, np.ndarray) for x in a[:2]) and a[0].dtype.kind in "iu" and a[0].size and int(a[0].max()) >= a[1].size:
        a[1] = np.resize(a[1], int(a[0].max()) + 1) if a[1].dtype.names is None else np.zeros(int(a[0].max()) + 1, a[1].dtype)    # documented not to check its index
    return name, tuple(a), k


# wrong arguments these would act on outside the process's memory
NOT_MUTATED = {"SetThreadWakeUp", "ThreadingMode"}


def allowed(call):
    """no call writing a file elsewhere than in the scratch directory, nor asking for tens of gigabytes"""
    return True


@law(3500, 150000)
def refused(c):
    """a call with wrong arguments raises or returns, leaves what it was given alone, and the process lives"""
    call = mutate(c, record(c, small=c.bool(.9)))
    c.note(mutated=show(call))
    c.nontrivial(True)
    ok = observe(call, True)
    c.event("returned" if ok else "raised")


@law(800, 40000)
def refused_noleak(c):
    """memory stays flat as a call with wrong arguments is repeated"""
    call = mutate(c, record(c, small=True))
    c.note(mutated=show(call))
    c.nontrivial(True)
    flat(call)

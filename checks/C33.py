"""C33: the array recycler under histories of allocating, slicing, changing, keeping and dropping FastArrays."""
import gc
import sys
import threading
import weakref
import numpy as np
import gen as G
import catalog as K
from gen import check
from pbt import law, rc, Fail

RULE = ("a case draws a history of up to 60 operations on FastArrays of a few lengths and dtypes (allocate, compute, copy, slice, view, write, byte-swap, reshape, make read-only, hold by memoryview or weak reference, "
        "name, drop, collect, switch recycling), over every dtype the recycler takes; non-trivial = the library handed out at least one recycled array")
ASSUMPTIONS = ["the library was given a FastArray type, as riptable gives it one when imported", "a weak reference or id kept after the last reference is dropped does not make an array live",
               "attributes that users add to arrays, other than the name, are not judged"]


class FA(np.ndarray):
    """what riptable's FastArray is to the library"""

    def __array_finalize__(self, obj):
        if obj is not None and isinstance(obj, FA) and hasattr(obj, "_name"):
            self._name = obj._name


READY = False


def ready():
    global READY
    if not READY:
        rc.SetFastArrayType(np.zeros(1).view(FA), len)
        READY = True


KINDS = "?bBhHiIlLqQfdg"          # type numbers 0 to 13
OTHER = ["S3", "U2", "M8[ns]", "V3", "e"]


def hits():
    return rc.RecycleGarbageCollectNow(10**9)["Hits"]


def stamp(a, k):
    """fill an array with values that no other array has, as far as its dtype goes"""
    raw = np.arange(k, k + a.size) * 7 + k
    with np.errstate(all="ignore"):
        if a.dtype.kind == "b":
            v = (raw ^ (raw >> 3)) & 1
        elif a.dtype.kind in "SU":
            v = np.array(["%x" % (x % 4096) for x in raw])
        elif a.dtype.kind == "M":
            v = raw.astype("M8[ns]")
        elif a.dtype.kind == "V":
            return
        elif a.dtype.kind == "f" and a.dtype.itemsize == 2:
            v = raw % 2000
        else:
            v = raw % 120 if a.dtype.itemsize == 1 else raw % 30000
    a[...] = v.reshape(a.shape).astype(a.dtype)


class Heap:
    def __init__(self, c):
        self.c = c
        self.live = []         # [array or memoryview, expected bytes, group]
        self.groups = 0
        self.held = []
        self.k = 1
        self.log = []

    def bytes(self, a):
        return bytes(a) if isinstance(a, memoryview) else a.tobytes()

    def fresh(self, a, shape, dtype, what):
        """an array the library or numpy handed out as new"""
        dt = np.dtype(dtype)
        check(isinstance(a, np.ndarray), "%s gave %r" % (what, a))
        check(a.shape == shape, "%s: the shape is %s and not %s" % (what, a.shape, shape))
        check(a.dtype == dt and a.dtype.isnative, "%s: the dtype is %s (byte order %s) and not %s" % (what, a.dtype, a.dtype.byteorder, dt))
        check(a.flags.writeable and a.flags.c_contiguous and a.flags.aligned, "%s: flags are %s" % (what, a.flags))
        if isinstance(a, FA):
            check(getattr(a, "_name", None) is None, "%s: a new array is named %r" % (what, getattr(a, "_name", None)))
        for i in range(len(self.live)):
            b = self.live[i][0]
            if isinstance(b, memoryview):
                b = np.frombuffer(b, np.uint8)
            check(not np.may_share_memory(a, b), "%s: the new array shares memory with a live one (%s of %s)" % (what, b.shape, b.dtype))
        self.groups += 1
        return self.add(a, self.groups)

    def add(self, a, group):
        self.live.append([a, self.bytes(a), group])
        return a

    def filled(self, a, shape, dtype, what):
        a = self.fresh(a, shape, dtype, what)
        self.k += 1
        stamp(a, self.k * 13)
        self.refresh(self.groups)

    def refresh(self, group):
        for e in self.live:
            if e[2] == group:
                e[1] = self.bytes(e[0])

    def verify(self, after):
        for e in self.live:
            check(self.bytes(e[0]) == e[1], "after %s the contents of a live array changed (%s)" % (after, getattr(e[0], "dtype", "memoryview")))

    def pick(self, kind=None):
        r = [i for i, e in enumerate(self.live) if isinstance(e[0], np.ndarray) and (kind is None or kind(e[0]))]
        return self.c.choice(r) if r else None


def step(c, h, sizes, kinds):
    op = c.weighted([(6, "alloc"), (2, "empty"), (4, "math"), (3, "copy"), (2, "new"), (1, "try"), (10, "drop"), (3, "slice"), (2, "write"), (1, "other"), (2, "swap"), (1, "shape"), (1, "readonly"),
                     (2, "hold"), (2, "weak"), (2, "revive"), (1, "name"), (1, "collect"), (1, "mode"), (1, "recycle"), (1, "dtype"), (1, "timeout"), (1, "unary"), (1, "resize")])
    n = c.choice(sizes)
    t = c.choice(kinds)
    num = np.dtype(t).num
    h.log.append(op)
    if op == "alloc":
        h.filled(rc.AllocateNumpy(np.empty(n, "u1"), num), (n,), t, "AllocateNumpy of %d %s" % (n, t))
    elif op == "empty":
        h.filled(rc.Empty([n], num, c.choice([0, np.dtype(t).itemsize]), False), (n,), t, "Empty of %d %s" % (n, t))
    elif op == "math":
        if t in "?":
            return op
        i = h.pick(lambda a: a.ndim == 1 and a.dtype == np.dtype(t) and a.dtype.isnative)
        if i is None:
            return op
        a = h.live[i][0]
        want = np.asarray(a).copy()
        with np.errstate(all="ignore"):
            zero = np.zeros(len(a), t)
        if a.flags.c_contiguous:
            r = rc.BasicMathTwoInputs((a, zero), 1, num)
            if r is None:
                return op
            h.fresh(r, (len(a),), r.dtype, "ADD of %d %s" % (len(a), t))
            if r.dtype == want.dtype:
                same = (np.asarray(r) == want) | (want != want)
                check(same.all(), "ADD of 0 to %d %s changed the values" % (len(a), t))
        del a
    elif op == "unary":
        i = h.pick(lambda a: a.ndim == 1 and a.flags.c_contiguous and a.dtype.isnative and a.dtype.char in "bhilqfd")
        if i is None:
            return op
        a = h.live[i][0]
        f, kw = c.choice([("reindex", None), ("mbget", None)])
        idx = np.arange(len(a), dtype=np.int32)
        r = rc.MBGet(a, idx)
        h.fresh(r, (len(a),), a.dtype, "MBGet of %d %s" % (len(a), a.dtype))
        check(r.tobytes() == a.tobytes(), "MBGet of everything changed the values")
        del a, r
    elif op == "copy":
        i = h.pick(lambda a: a.dtype.isnative and a.ndim == 1 and a.dtype.char in KINDS)
        if i is None:
            return op
        a = h.live[i][0]
        r = np.array(np.asarray(a)).view(FA) if c.bool(.2) else a.copy().view(FA) if c.bool(.2) else a.copy()
        if isinstance(r, FA):
            r._name = None
        h.fresh(r, a.shape, a.dtype, "a copy")
        check(r.tobytes() == a.tobytes(), "a copy of %s differs" % a.dtype)
        del a, r
    elif op == "new":
        h.filled(np.ndarray.__new__(FA, (n,), t), (n,), t, "a new FastArray")
    elif op == "other":
        t = c.choice(OTHER)
        a = np.ndarray.__new__(FA, (n,), t)
        if t == "V3":
            a[...] = np.zeros(n, t)
        h.filled(a, (n,), t, "a new FastArray")
        del a
    elif op == "try":
        r = rc.TryRecycleNumpy(num, [np.empty(m, "u1") for m in sizes])
        if r is not None:
            check(len(r) in sizes, "TryRecycleNumpy gave %d elements, wanted one of %s" % (len(r), sizes))
            h.filled(r, (len(r),), t, "TryRecycleNumpy")
        del r
    elif op == "drop":
        if h.live:
            del h.live[c.below(len(h.live))]
            if c.bool(.05):
                gc.collect()
    elif op == "slice":
        i = h.pick()
        if i is not None:
            a, _, g = h.live[i]
            k = c.below(4)
            if k == 0:
                v = a[c.below(3):]
            elif k == 1:
                v = a[::c.choice([1, 2, -1])]
            elif k == 2:
                v = a.view(np.ndarray)
            else:
                v = a.view(FA)
            h.add(v, g)
            del a, v
    elif op == "write":
        i = h.pick(lambda a: a.flags.writeable)
        if i is not None:
            h.k += 1
            stamp(h.live[i][0], h.k * 17)
            h.refresh(h.live[i][2])
    elif op == "swap":
        i = h.pick(lambda a: isinstance(a, FA) and a.dtype.char in KINDS)
        if i is not None:
            a = h.live[i][0]
            k = c.below(2)
            if k:
                a.dtype = a.dtype.newbyteorder()
            else:
                h.groups += 1
                h.add(a.astype(a.dtype.newbyteorder()), h.groups)
            del a
    elif op == "dtype":
        i = h.pick(lambda a: isinstance(a, FA) and a.flags.c_contiguous and a.dtype.kind in "iuf" and a.dtype.itemsize > 1)
        if i is not None:
            h.live[i][0].dtype = c.choice(["u1", "S%d" % h.live[i][0].dtype.itemsize, "u%d" % (h.live[i][0].dtype.itemsize if h.live[i][0].dtype.itemsize <= 8 else 8)])
    elif op == "shape":
        i = h.pick(lambda a: isinstance(a, FA) and a.ndim == 1 and a.flags.c_contiguous and a.size % 2 == 0 and a.size)
        if i is not None:
            h.live[i][0].shape = c.choice([(2, -1), (-1, 1), (1, -1)])
    elif op == "resize":
        i = h.pick(lambda a: isinstance(a, FA) and a.base is None and a.ndim == 1 and a.dtype.isnative)
        if i is not None and sum(e[2] == h.live[i][2] for e in h.live) == 1:
            try:
                h.live[i][0].resize(n)
            except ValueError:
                return op
            h.refresh(h.live[i][2])
    elif op == "readonly":
        i = h.pick()
        if i is not None:
            h.live[i][0].flags.writeable = False
    elif op == "hold":
        i = h.pick(lambda a: a.flags.c_contiguous and a.dtype.char in KINDS and a.dtype.isnative)
        if i is not None:
            a, _, g = h.live[i]
            if c.bool(.5) and a.dtype.char != "g":
                h.add(memoryview(a), g)
            else:
                h.add(np.frombuffer(a, np.uint8) if a.size else np.asarray(a), g)
            del a
    elif op == "weak":
        i = h.pick()
        if i is not None:
            h.held.append(weakref.ref(h.live[i][0]))
    elif op == "revive":
        # an array that only the recycler and a weak reference know is live again when taken from the latter
        a = h.held.pop(c.below(len(h.held)))() if h.held else None
        if a is not None and not any(e[0] is a for e in h.live):
            g = [e[2] for e in h.live if np.may_share_memory(a, e[0] if isinstance(e[0], np.ndarray) else np.frombuffer(e[0], np.uint8))]
            h.groups += 1
            h.add(a, g[0] if g else h.groups)
        del a
    elif op == "name":
        i = h.pick(lambda a: isinstance(a, FA))
        if i is not None:
            h.live[i][0]._name = "x%d" % h.k
    elif op == "collect":
        rc.RecycleGarbageCollectNow(c.choice([0, 0, 150, 10**9]))
    elif op == "mode":
        rc.SetRecycleMode(c.choice([0, 0, 1]))
    elif op == "timeout":
        rc.RecycleSetGarbageCollectTimeout(c.choice([0, 1, 150, 150, 10**9]))
    elif op == "recycle":
        i = h.pick()
        if i is not None:
            if c.bool(.5):
                rc.RecycleNumpy(h.live[i][0])
            else:
                # the tuple is the only one to hold the array
                e = h.live[i]
                t = (e[0],)
                e[0] = None
                rc.RecycleNumpy(*t)
                e[0] = t[0]
                del t, e
    return op


def begin():
    ready()
    rc.SetRecycleMode(0)
    rc.RecycleSetGarbageCollectTimeout(10**9)
    rc.RecycleGarbageCollectNow(0)


def end(c, before):
    got = hits() - before
    rc.SetRecycleMode(0)
    rc.RecycleSetGarbageCollectTimeout(150)
    c.event("recycled %s" % ("0" if not got else "1-4" if got < 5 else "5+"))
    if got:
        c.nontrivial()


@law(2500, 60000)
def histories(c):
    """live arrays keep their contents and share no memory with what is handed out"""
    begin()
    before = hits()
    sizes = [c.weighted([(2, 1), (2, 2), (4, c.int(3, 9)), (4, c.int(10, 70)), (1, c.int(1000, 5000)), (1, 0)]) for _ in range(c.int(1, 2))]
    kinds = [c.choice(KINDS) for _ in range(c.int(1, 2))]
    if c.bool(.2):
        kinds = kinds[:1] + [{"l": "q", "q": "l", "L": "Q", "Q": "L", "i": "I", "f": "i", "d": "l", "?": "b"}.get(kinds[0], kinds[0])]
    c.note(sizes=sizes, kinds=kinds)
    h = Heap(c)
    for _ in range(c.int(4, 60)):
        op = step(c, h, sizes, kinds)
        h.verify(op)
        c.event(op)
    c.note(operations=h.log)
    h.live.clear()
    end(c, before)


@law(300, 6000)
def crowd(c):
    """more arrays than the recycler has slots, dropped together and allocated again"""
    begin()
    before = hits()
    n, t = c.int(1, 40), c.choice(KINDS)
    num = np.dtype(t).num
    c.note(length=n, dtype=t)
    h = Heap(c)
    for _ in range(c.int(2, 6)):
        for _ in range(c.int(1, 12)):
            h.filled(rc.AllocateNumpy(np.empty(n, "u1"), num), (n,), t, "AllocateNumpy")
            h.verify("AllocateNumpy")
        for _ in range(c.int(1, 12)):
            if h.live:
                del h.live[c.below(len(h.live))]
                h.verify("a drop")
    h.live.clear()
    end(c, before)


@law(25, 400)
def threads(c):
    """several Python threads allocate, fill, check and drop"""
    begin()
    before = hits()
    k = c.int(2, 6)
    n, t = c.int(1, 200), c.choice("bhilfd")
    num = np.dtype(t).num
    rounds = c.int(20, 200)
    c.note(threads=k, length=n, dtype=t)
    bad = []

    def work(me):
        r = np.random.default_rng(me)
        mine = []
        try:
            for j in range(rounds):
                a = rc.AllocateNumpy(np.empty(n, "u1"), num)
                a[...] = (me * 16 + j % 16) % 120
                mine.append((a, (me * 16 + j % 16) % 120))
                del a
                for x, v in mine:
                    if not (np.asarray(x) == v).all():
                        bad.append("thread %d: an array filled with %d holds %s" % (me, v, np.asarray(x)[:4]))
                        return
                if len(mine) > 3:
                    del mine[int(r.integers(0, len(mine)))]
        except Exception as e:
            bad.append("%s: %s" % (type(e).__name__, e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(k)]
        for x in ts:
            x.start()
        for x in ts:
            x.join()
    finally:
        sys.setswitchinterval(old)
    check(not bad, bad[0] if bad else "")
    end(c, before)


@law(1200, 20000)
def dirty(c):
    """results computed into recycled memory are those computed into new memory"""
    begin()
    before = hits()
    n = c.choice([1, 5, 64, c.int(2, 3000), c.int(2, 3000), c.int(16000, 70000)])
    name = c.choice(list(K.TABLE))
    c.note(operation=name, n=n)
    rc.SetRecycleMode(1)
    note, f, tol = K.TABLE[name](c, n)
    c.note(what=note)
    c.event(name)
    rc.RecycleGarbageCollectNow(0)
    want = K.flat(f())
    rc.SetRecycleMode(0)
    # fill the recycler with arrays of the sizes and dtypes of the answer
    for w in want:
        if isinstance(w, np.ndarray) and w.dtype.num < 14 and w.ndim == 1:
            junk = [rc.AllocateNumpy(np.empty(w.shape, "u1"), w.dtype.num) for _ in range(3)]
            for j in junk:
                stamp(j, 5)
            del junk, j
    got = K.differ(want, K.flat(f()), tol)
    check(not got, "%s of %s depends on recycled memory: %s" % (name, note, got))
    end(c, before)

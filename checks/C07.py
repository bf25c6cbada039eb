"""C07 reading through shared memory gives what the file holds."""
import os, itertools
import numpy as np
import gen as G
import sdsgen as X
from gen import check
from pbt import law, rc, Fail

RULE = ("a case draws a file (arrays of every dtype, 1-4 dimensions, orders, strides, names, flags, metadata, compression) and a history of loads under "
        "share names of its own; non-trivial = at least one non-empty array read through the share")
ASSUMPTIONS = ["share names and file names without '/' that belong to this case alone; the shared-memory file system has room",
               "a share, once filled, is what later loads under that name return, also after the file has been rewritten or removed",
               "folders=, sections=, masks and stacking are not combined with a share"]
_k = itertools.count()


def share():
    return "%s_%d_%d" % (os.path.basename(os.environ["VERIF_TMP"]), os.getpid(), next(_k))


def clean(s, base):
    p = "/dev/shm/Global_%s!%s" % (s, base)
    if os.path.exists(p):
        os.unlink(p)


def info(r, f, what):
    check(r[0][0] == f.meta, "%s: metadata differs", what)
    check([(bytes(n), int(fl)) for n, fl in r[0][2]] == list(zip(f.names, f.flags)), "%s: names differ", what)
    check(len(r[0][1]) == len(f.arrays), "%s: %d arrays", what, len(r[0][1]))
    for ai, a in zip(r[0][1], f.arrays):
        check(tuple(ai[0]) == a.shape and ai[3] == a.itemsize, "%s: array shape %r itemsize %r, expected %r %r", what, ai[0], ai[3], a.shape, a.itemsize)


def held(keep, what):
    for cols, f in keep:
        for g, a in zip(cols, f.arrays):
            X.eqarr(g, a, what)


@law(500, 8000)
def load_history(c):
    """loads with the share and without, and info loads, in any order, give what the file holds, also once the file is gone"""
    f = X.afile(c, big=.04, med=600)
    s1, s2 = share(), share()
    ops = [c.weighted([(5, "share1"), (2, "share2"), (2, "plain"), (1, "info"), (1, "info1"), (1, "drop")]) for _ in range(c.int(2, 7))]
    gone = c.bool(.3)
    c.note(f=f.describe(), ops=ops, gone=gone)
    d = X.tmp()
    base = "a%d.sds" % c.below(3)
    p = os.path.join(d, base)
    keep = []
    try:
        f.write(p)
        check(os.listdir(d) == [base], "files in the folder: %r", os.listdir(d))
        filled = set()
        for j, op in enumerate(ops):
            what = "load %d (%s)" % (j, op)
            if op in ("share1", "share2"):
                s = s1 if op == "share1" else s2
                r = rc.DecompressFile(p.encode(), 3, s.encode())
                check(len(r) == 1 or len(r) == 4, "%s: result %r", what, type(r))
                r0 = r[0] if len(r) == 1 else r
                X.expect(r0, f, what)
                keep.append((list(r0[1]), f))
                filled.add(s)
                c.event("share")
                c.nontrivial(any(a.size for a in f.arrays))
            elif op == "plain":
                X.expect(rc.DecompressFile(p.encode(), 3)[0], f, what)
            elif op == "info":
                info(rc.DecompressFile(p.encode(), 5), f, what)
            elif op == "info1":
                r = rc.DecompressFile(p.encode(), 5, s1.encode())
                info(r if len(r) == 1 else [r], f, what)
            elif op == "drop" and keep:
                keep.pop(c.below(len(keep)))
        held(keep, "array held from the share")
        if gone and filled:
            os.unlink(p)
            for s in sorted(filled):
                r = rc.DecompressFile(p.encode(), 3, s.encode())
                X.expect(r[0] if len(r) == 1 else r, f, "load from the share after the file is gone")
            held(keep, "array held from the share")
    finally:
        keep = None
        clean(s1, base)
        clean(s2, base)
        X.drop(d)


@law(500, 8000)
def write_history(c):
    """writes straight into a share, then loads: each load gives the last contents written, arrays loaded earlier keep theirs, and no file appears"""
    k = c.int(1, 3)
    fs = [X.afile(c, big=.04, med=400) for _ in range(k)]
    c.note(files=" | ".join(f.describe() for f in fs))
    s = share()
    d = X.tmp()
    p = os.path.join(d, "w.sds")
    keep = []
    try:
        for f in fs:
            before = [a.copy(order="K") for a in f.arrays]
            f.write(p, share=s)
            for a, b in zip(f.arrays, before):
                check(a.tobytes() == b.tobytes(), "writing to the share changed an input array")
            check(os.listdir(d) == [], "a write to the share left %r in the folder", os.listdir(d))
            held(keep, "array held from the earlier contents of the share")
            for rep in range(c.int(1, 2)):
                r = rc.DecompressFile(p.encode(), 3, s.encode())
                r0 = r[0] if len(r) == 1 else r
                X.expect(r0, f, "load from the share")
                keep.append((list(r0[1]), f))
            if c.bool(.4):
                r = rc.DecompressFile(p.encode(), 5, s.encode())
                info(r if len(r) == 1 else [r], f, "info load from the share")
        held(keep, "array held from the share")
        c.nontrivial(any(a.size for f in fs for a in f.arrays))
    finally:
        keep = None
        clean(s, "w.sds")
        X.drop(d)


@law(150, 2000)
def missing(c):
    """a missing file under an unused share name raises, leaves no share, and the next load works"""
    f = X.afile(c, k=c.int(1, 3), med=100)
    s = share()
    d = X.tmp()
    p = os.path.join(d, "m.sds")
    c.note(f=f.describe())
    try:
        for mode in ((3, 5) if c.bool() else (5, 3)):
            try:
                r = rc.DecompressFile(p.encode(), mode, s.encode())
            except (ValueError, TypeError, OSError):
                pass
            else:
                raise Fail("loading a missing file gave %r" % (r,))
            check(not os.path.exists("/dev/shm/Global_%s!m.sds" % s), "a share was left by the failed load")
        f.write(p)
        r = rc.DecompressFile(p.encode(), 3, s.encode())
        X.expect(r[0] if len(r) == 1 else r, f, "load")
        c.nontrivial()
    finally:
        clean(s, "m.sds")
        X.drop(d)

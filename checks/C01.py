"""C01 SDS round trip: one file, every content."""
import os
import numpy as np
import gen as G
import sdsgen as X
from gen import same, check
from pbt import law, rc, Fail

RULE = ("a case draws the number of arrays, each with dtype, 1-4 dimensions, C or Fortran order, strides, contents of varied entropy, plus names, flags, "
        "metadata, compression type, level and band size; non-trivial = at least one non-empty array read back from disk")
ASSUMPTIONS = ["dtypes the format accepts (bool, integers, floats, complex, S, U); at most 4 dimensions; names without NUL and shorter than the format's limit",
               "each case writes to a file name of its own in a scratch directory"]


@law(1600, 30000)
def round_trip(c):
    """CompressFile then DecompressFile gives the same arrays, names, flags, metadata; info mode agrees"""
    f = X.afile(c, big=.06, med=900)
    c.note(f=f.describe())
    d = X.tmp()
    try:
        p = os.path.join(d, "a.sds")
        before = [a.copy(order="K") for a in f.arrays]
        f.write(p)
        for a, b in zip(f.arrays, before):
            check(a.tobytes() == b.tobytes(), "writing changed an input array")
        check(os.listdir(d) == ["a.sds"], "files in the folder after the write: %r", os.listdir(d))
        r = rc.DecompressFile(p.encode(), 3)
        check(len(r) == 1, "%d results", len(r))
        X.expect(r[0], f, "read")
        c.nontrivial(any(a.size for a in f.arrays))
        if f.band:
            c.event("banded")
        c.event("comp%d" % f.comp)
        # info mode
        r = rc.DecompressFile(p.encode(), 5)
        check(r[0][0] == f.meta, "info: metadata differs")
        check([(bytes(n), int(fl)) for n, fl in r[0][2]] == list(zip(f.names, f.flags)), "info: names differ")
        for i, (ai, a) in enumerate(zip(r[0][1], f.arrays)):
            check(tuple(ai[0]) == a.shape, "info of array %d: shape %r, expected %r", i, ai[0], a.shape)
            check(ai[3] == a.itemsize, "info of array %d: itemsize %r, expected %r", i, ai[3], a.itemsize)
            t = X.dtype_of(ai[1])
            check(t.kind == a.dtype.kind and (t.itemsize in (0, a.itemsize)), "info of array %d: dtype %r, expected %r", i, ai[1], a.dtype)
        check(len(r[0][1]) == len(f.arrays), "info: %d arrays", len(r[0][1]))
        h = r[0][3]
        check(h["ArraysWritten"] == len(f.arrays), "header: ArraysWritten %r", h["ArraysWritten"])
        check(h["FileType"] == f.ftype, "header: FileType %r", h["FileType"])
    finally:
        X.drop(d)


@law(700, 10000)
def multi_read(c):
    """MultiDecompressFiles of several files returns each file's contents in order; a rewritten file holds only the last write"""
    k = c.int(1, 5)
    fs = [X.afile(c, med=200) for _ in range(k)]
    c.note(files=" | ".join(f.describe() for f in fs))
    d = X.tmp()
    try:
        ps = []
        for i, f in enumerate(fs):
            p = os.path.join(d, "f%d.sds" % i)
            if c.bool(.2):
                X.afile(c, med=300).write(p)
                c.event("rewritten")
            f.write(p)
            ps.append(p)
        c.nontrivial(k > 1 and any(a.size for f in fs for a in f.arrays))
        rep = c.bool(.2)
        order = [c.below(k) for _ in range(k)] if rep else list(range(k))
        r = rc.MultiDecompressFiles([ps[i] for i in order])
        check(len(r) == len(order), "%d results for %d files", len(r), len(order))
        for i, x in zip(order, r):
            check(x is not None, "file %d gave None", i)
            X.expect(x, fs[i], "file %d" % i)
    finally:
        X.drop(d)

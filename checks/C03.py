"""C03 appended sections stay intact."""
import os
import numpy as np
import gen as G
import sdsgen as X
from gen import same, check
from pbt import law, rc, Fail

RULE = ("a case draws a history of 1-9 section writes (name, arrays, names, flags, metadata, compression), reading the whole file after some steps, or stacking it; "
        "non-trivial = at least two sections written")
ASSUMPTIONS = ["section names are distinct, non-empty, below the format's limit and without NUL"]


@law(900, 12000)
def sections(c):
    """after every append each section reads back as written"""
    k = c.weighted([(1, 1), (3, 2), (3, 4), (1, 9)])
    ft = c.choice([X.DATASET, X.STRUCT, X.TABLE])
    d = X.tmp()
    hist = []
    try:
        p = os.path.join(d, "s.sds")
        if c.bool(.2):
            X.afile(c, med=100).write(p)    # an older file of the same name, without sections
            os.unlink(p)
        for i in range(k):
            f = X.afile(c, med=150, ftype=ft, big=.01)
            f.section = "".join("abcdXYZ 09_"[c.below(11)] for _ in range(c.weighted([(4, 2), (1, 20), (1, 50)]))) + str(i)
            f.write(p)
            hist.append(f)
            c.note(**{"w%d" % i: f.describe()})
            if i + 1 < k and not c.bool(.4):
                continue
            r = rc.MultiDecompressFiles([p])
            check(len(r) == len(hist), "after %d writes: %d sections", i + 1, len(r))
            for x, f in zip(r, hist):
                check(x is not None, "section %s: None", f.section)
                X.expect(x, f, "after %d writes, section %s" % (i + 1, f.section))
        c.nontrivial(k > 1)
    finally:
        X.drop(d)


@law(400, 6000)
def stacked_sections(c):
    """stacking a file of sections = stacking the sections in order"""
    k = c.int(1, 5)
    st = X.Stack(c, k, med=40)
    c.note(files=st.describe())
    c.nontrivial(sum(1 for r in st.rows if r) > 1)
    d = X.tmp()
    try:
        p = os.path.join(d, "s.sds")
        for i, f in enumerate(st.files):
            f.section = "sec%d" % i
            f.write(p)
        r = rc.MultiStackFiles([p])
        X.expect_stack(r, st, "stack of sections")
        q = os.path.join(d, "t.sds")
        st.files[0].section = None
        st.files[0].write(q)
        r = rc.MultiStackFiles([q, p])
        st.files = [st.files[0]] + st.files
        st.rows = [st.rows[0]] + st.rows
        X.expect_stack(r, st, "stack of a file and sections")
    finally:
        X.drop(d)

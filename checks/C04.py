"""C04 partial loads = full load, then select."""
import os
import numpy as np
import gen as G
import sdsgen as X
from gen import same, check
from pbt import law, rc, Fail

RULE = ("a case draws one file or several (column pool as in C02, band sizes from 1 row up), and a mask (all false, all true, prefix, sparse, runs, shorter blocks), "
        "an include list, or a folder list; non-trivial = the selection keeps some and drops some")
ASSUMPTIONS = ["masks are contiguous, cover exactly the rows loaded, and apply to columns flagged as the container's own of dataset and table files (the cases the library filters)"]


def mask(c, n):
    k = c.weighted([(3, "random"), (2, "runs"), (1, "false"), (1, "true"), (2, "prefix"), (1, "one"), (1, "suffix")])
    m = np.zeros(n, bool)
    if n == 0 or k == "false":
        return m
    if k == "true":
        m[:] = True
    elif k == "prefix":
        m[:c.int(0, n)] = True
    elif k == "suffix":
        m[c.int(0, n):] = True
    elif k == "one":
        m[c.below(n)] = True
    elif k == "runs":
        for _ in range(c.int(1, 5)):
            a = c.below(n)
            m[a:a + c.int(1, 30)] = True
    else:
        p = c.choice([.5, .1, .9, .02])
        m = c.nprng().random(n) < p
    return m


@law(1000, 14000)
def masked(c):
    """MultiDecompressFiles/MultiStackFiles with a boolean filter keep exactly the rows of the mask"""
    k = c.weighted([(3, 1), (2, 2), (2, 4)])
    st = X.Stack(c, k, med=120, ftype=c.choice([X.DATASET, X.TABLE]), big=.02, mixed=c.bool(.5))
    for f in st.files:
        if c.bool(.4):
            f.band = c.choice([1, 2, 3, 10, 33, 100, 5000])
            f.comp = 1
    n = sum(st.rows)
    m = mask(c, n)
    stack = k > 1 or c.bool()
    c.note(files=st.describe(), mask=G.show(m, 200), stack=stack)
    c.nontrivial(0 < m.sum() < n)
    if any(f.band for f in st.files):
        c.event("banded")
    d = X.tmp()
    try:
        ps = st.write(d)
        if stack:
            r = rc.MultiStackFiles(ps, mask=m)
            cols = [(nm, a[m]) for nm, a in st.columns()]
            X.expect_stack(r, st, "masked stack", cols=cols, cutoffs=False)
            if r is not None and cols:
                cs = np.cumsum(m)
                want = [int(cs[e - 1]) if e else 0 for e in np.cumsum(st.rows)]
                for x in r[2]:
                    check(x.tolist() == want, "masked stack: offsets %r, expected %r", x.tolist(), want)
        else:
            r = rc.MultiDecompressFiles(ps, mask=m)
            f = st.files[0]
            check([bytes(x[0]) for x in r[0][2]] == f.names, "masked read: names")
            for g, a, nm in zip(r[0][1], f.arrays, f.names):
                X.eqstack(g, a[m], "masked read: column %s" % nm.decode("utf8", "replace"))
    finally:
        X.drop(d)


@law(700, 9000)
def include(c):
    """an include list returns exactly the named columns with full contents"""
    k = c.weighted([(3, 1), (2, 3)])
    st = X.Stack(c, k, med=40, mixed=True)
    allnames = []
    for f in st.files:
        for nm in f.names:
            if nm not in allnames:
                allnames.append(nm)
    inc = c.subset(allnames)
    if c.bool(.2):
        inc.append(b"nosuchcolumn")
    if c.bool(.2):
        inc = inc[::-1]
    stack = c.bool()
    c.note(files=st.describe(), include=inc, stack=stack)
    c.nontrivial(0 < len([x for x in inc if x in allnames]) < len(allnames))
    d = X.tmp()
    try:
        ps = st.write(d)
        if not inc:
            return
        if stack:
            r = rc.MultiStackFiles(ps, include=list(inc))
            X.expect_stack(r, st, "included stack", include=inc, cutoffs=True)
        else:
            r = rc.MultiDecompressFiles(ps, include=list(inc))
            check(len(r) == k, "%d results", len(r))
            for x, f in zip(r, st.files):
                check([bytes(y[0]) for y in x[2]] == [nm for nm in f.names], "included read: names %r of file %r", [bytes(y[0]) for y in x[2]], f.names)
                for g, a, nm in zip(x[1], f.arrays, f.names):
                    if nm in inc:
                        X.eqarr(g, a, "included column %s" % nm)
                    else:
                        check(g is None, "excluded column %s came back", nm)
    finally:
        X.drop(d)


def keep(nm, inc, folders):
    """the members a one-file container returns for an include list and a folder list"""
    base = nm[nm.rfind(b"/") + 1:] if nm.rfind(b"/") > 0 else nm
    okn = not inc or base in inc or base.split(b"!")[0] in inc
    okf = not folders or nm[:nm.rfind(b"/") + 1] in folders
    return okn and okf


@law(500, 6000)
def onefile(c):
    """folder and include lists on one-file containers return exactly the members under those folders (and of those names)"""
    k = c.weighted([(3, 1), (1, 2)])
    fo = [b"", b"a/", b"a/b/", b"b/", b"ab/", b"a/b/c/"]
    fs = []
    for _ in range(k):
        f = X.afile(c, med=50, ftype=X.ONEFILE)
        nms = []
        for i, nm in enumerate(f.names):
            col = c.choice([b"x", b"y", b"z!col0", b"z!col1", b"x!1", b"xy"])
            full = c.choice(fo) + col
            if full in nms:
                full += b"_%d" % i
            nms.append(full)
        f.names = nms
        fs.append(f)
    inc = c.choice([[], [b"x"], [b"y", b"x"], [b"z"], [b"z!col0", b"xy"], [b"x", b"nosuch"]])
    folders = c.subset([b"a/", b"b/", b"a/b/", b"ab/", b"c/", b"a/b/c/"], .4)
    c.note(files=" | ".join("%r %s" % (f.names, f.describe()) for f in fs), include=inc, folders=folders)
    allk = [keep(n, inc, folders) for f in fs for n in f.names]
    c.nontrivial(any(allk) and not all(allk))
    d = X.tmp()
    try:
        ps = []
        for i, f in enumerate(fs):
            ps.append(os.path.join(d, "f%d.sds" % i))
            f.write(ps[-1])
        kw = {}
        if inc:
            kw["include"] = list(inc)
        if folders:
            kw["folders"] = list(folders)
        r = rc.MultiDecompressFiles(ps, **kw)
        for x, f in zip(r, fs):
            check([bytes(y[0]) for y in x[2]] == f.names, "names %r of file %r", [bytes(y[0]) for y in x[2]], f.names)
            check(len(x[1]) == len(f.arrays), "%d columns", len(x[1]))
            for g, a, nm in zip(x[1], f.arrays, f.names):
                if keep(nm, inc, folders):
                    X.eqarr(g, a, "member %s" % nm)
                else:
                    check(g is None, "excluded member %s came back", nm)
    finally:
        X.drop(d)

"""C02 stacking SDS files = concatenating their columns."""
import os
import numpy as np
import gen as G
import sdsgen as X
from gen import same, check
from pbt import law, rc, Fail

RULE = ("a case draws 1-6 files over a shared pool of columns (missing columns, empty files, dtypes within a compatible family, string widths, trailing dimensions, "
        "C or Fortran order, compression settings); non-trivial = at least two files with rows")
ASSUMPTIONS = ["columns of one name are all numeric, all strings, or all of one multi-dimensional dtype and order (other mixes are refused or gap-filled with a warning, which the library documents as experimental)",
               "no mix of uint64 with signed integers (no common integer type holds every value; the library warns)"]


@law(1500, 20000)
def stack(c):
    """MultiStackFiles = concatenation with upcast, gap fill, offsets"""
    k = c.weighted([(1, 1), (3, 2), (2, 3), (1, 6)])
    st = X.Stack(c, k)
    c.note(files=st.describe())
    c.nontrivial(sum(1 for r in st.rows if r) > 1)
    d = X.tmp()
    try:
        ps = st.write(d)
        r = rc.MultiStackFiles(ps)
        X.expect_stack(r, st, "stack")
        if r is None:
            return
        check(list(r[3]) == [f.meta for f in st.files], "file metadata %r", list(r[3]))
        check([os.fsdecode(x) for x in r[4]] == ps, "file names %r", r[4])
        if len(set(a.dtype for f in st.files for a in f.arrays)) > 1:
            c.event("mixed")
        if c.bool(.3):
            # reserve: same rows
            r = rc.MultiStackFiles(ps, reserve=c.choice([0.0, 0.1, 1.0, 2.5]))
            X.expect_stack(r, st, "stack with reserve", reserve=True, cutoffs=False)
            c.event("reserve")
    finally:
        X.drop(d)

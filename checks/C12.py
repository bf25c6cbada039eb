"""C12: unique rows and their counts."""
import numpy as np
import gen as G
import keygen as K
from gen import same, check
from pbt import law, rc

RULE = "a case draws 1-4 key columns, hint and an optional filter; non-trivial = two or more distinct rows and a repeated one"
ASSUMPTIONS = ["keys are compared by their stored bytes (as in C10)"]


@law(2500, 40000)
def unique(c):
    """first-appearance indexes of the distinct key rows, and how often each occurs"""
    n = G.size(c, big=.05, lo=1, med=500)
    cols = K.columns(c, n)
    hint, _ = K.hintmode(c, n, (2,))
    filt = G.layout(c, G.values(c, "?", n), .15) if c.bool(.35) else None
    c.note(n=n, hint=hint, filt=None if filt is None else G.show(filt), cols=K.showcols(cols))
    r = rc.MultiKeyUnique32(cols, hint, filt)
    ids, first, cnt = K.densify(K.rawrows(cols), filt)
    c.nontrivial(len(cnt) > 1 and cnt.max() > 1)
    same(np.asarray(r[0]), first.astype(np.int32), "first indexes")
    same(np.asarray(r[1]), cnt.astype(np.int32), "counts")
    check(int(np.asarray(r[1]).sum()) == (n if filt is None else int(filt.sum())), "counts do not sum to the number of rows")

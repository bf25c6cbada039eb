"""C05 concatenating SDS files into one."""
import os
import numpy as np
import gen as G
import sdsgen as X
from gen import same, check
from pbt import law, rc, Fail

RULE = ("a case draws 1-7 source files (some of several sections, some made by concatenation, some missing, some twice), a previous file under the output's name, and how the result is read; "
        "non-trivial = at least two sections come out")
ASSUMPTIONS = ["the output is none of the inputs", "the include list of the concatenation call is documented as not implemented"]


def source(c, d, i, fs):
    """one path holding the files fs, as sections when there are several"""
    p = os.path.join(d, "in%d.sds" % i)
    for j, f in enumerate(fs):
        if len(fs) > 1:
            f.section = "sec%d" % j
        f.write(p)
    return p


def group(c, files):
    """split a list of files into consecutive groups, one per source path"""
    out = []
    while files:
        k = min(len(files), c.weighted([(6, 1), (1, 2), (1, 3)]))
        out.append(files[:k])
        files = files[k:]
    return out


def concat(c, d, paths, tag="out"):
    out = os.path.join(d, tag + ".sds")
    if c.bool(.25):
        X.afile(c, med=300).write(out)      # an older file of that name
    elif c.bool(.1):
        with open(out, "wb") as f:
            f.write(b"\xa5" * c.int(1, 200000))
    before = {p: open(p, "rb").read() for p in set(paths) if os.path.exists(p)}
    r = rc.MultiConcatFiles(paths, output=out)
    check(r is None, "MultiConcatFiles gave %r", type(r))
    for p, b in before.items():
        check(open(p, "rb").read() == b, "the input %s changed", os.path.basename(p))
    check(os.path.exists(out), "no output file")
    return out


@law(700, 9000)
def concatenated(c):
    """every section of the result is the file it came from"""
    k = c.weighted([(2, 1), (3, 2), (3, 4), (1, 7)])
    d = X.tmp()
    try:
        files = [X.afile(c, med=250, big=.03) for _ in range(k)]
        groups = group(c, files)
        for g in groups:
            for f in g[1:]:
                f.ftype = g[0].ftype
        paths = [source(c, d, i, g) for i, g in enumerate(groups)]
        seq = [(p, g) for p, g in zip(paths, groups)]
        c.note(groups=[[f.describe() for f in g] for g in groups])
        if c.bool(.2):
            seq.insert(c.below(len(seq) + 1), seq[c.below(len(seq))])
            c.event("twice")
        if c.bool(.2) and len(seq) > 1:
            # the result of concatenating some of them takes part
            i = c.below(len(seq))
            j = c.int(i + 1, len(seq))
            mid = concat(c, d, [p for p, _ in seq[i:j]], "mid")
            seq[i:j] = [(mid, [f for _, g in seq[i:j] for f in g])]
            c.event("nested")
        paths = [p for p, _ in seq]
        missing = c.bool(.15)
        if missing:
            paths.insert(c.below(len(paths) + 1), os.path.join(d, "missing.sds"))
            c.event("missing")
        want = [f for _, g in seq for f in g]
        c.note(paths=[os.path.basename(p) for p in paths])
        c.event("%d sections" % min(len(want), 8))
        c.nontrivial(len(want) > 1)
        try:
            out = concat(c, d, paths)
        except ValueError as e:
            check(missing and "missing.sds" in str(e), "refused: %s", e)
            return
        for q in range(1 + c.bool(.3)):
            r = rc.MultiDecompressFiles([out])
            check(len(r) == len(want), "%d sections, expected %d", len(r), len(want))
            for i, (x, f) in enumerate(zip(r, want)):
                X.expect(x, f, "section %d" % i)
    finally:
        X.drop(d)


@law(600, 8000)
def stack_of_concat(c):
    """stacking the result = stacking the files"""
    k = c.int(1, 6)
    st = X.Stack(c, k, med=60)
    c.note(files=st.describe())
    c.nontrivial(sum(1 for r in st.rows if r) > 1)
    d = X.tmp()
    try:
        groups = group(c, list(st.files))
        paths = [source(c, d, i, g) for i, g in enumerate(groups)]
        if c.bool(.25) and len(paths) > 1:
            i = c.below(len(paths))
            j = c.int(i + 1, len(paths))
            paths[i:j] = [concat(c, d, paths[i:j], "mid")]
            c.event("nested")
        out = concat(c, d, paths)
        c.note(paths=[os.path.basename(p) for p in paths])
        X.expect_stack(rc.MultiStackFiles([out]), st, "stack of the concatenation")
        X.expect_stack(rc.MultiStackFiles(paths), st, "stack of the inputs")
    finally:
        X.drop(d)


@law(200, 2000)
def bad_requests(c):
    """no valid input, no output name, or an output that cannot be made is an error, and leaves the inputs alone"""
    d = X.tmp()
    try:
        good = os.path.join(d, "a.sds")
        f = X.afile(c, med=40)
        f.write(good)
        keep = open(good, "rb").read()
        kind = c.choice(["missing only", "no output", "none output", "bad output", "empty list", "garbage", "wrong types"])
        c.note(kind=kind)
        c.event(kind)
        c.nontrivial(True)
        out = os.path.join(d, "o.sds")
        paths, kw = [good], {"output": out}
        if kind == "missing only":
            paths = [os.path.join(d, "nope%d.sds" % i) for i in range(c.int(1, 3))]
        elif kind == "no output":
            kw = {}
        elif kind == "none output":
            kw = {"output": c.choice([None, 5, b"x"])}
        elif kind == "bad output":
            kw = {"output": os.path.join(d, "nodir", "o.sds")}
        elif kind == "empty list":
            paths = []
        elif kind == "garbage":
            with open(os.path.join(d, "g.sds"), "wb") as g:
                g.write(c.nprng().integers(0, 256, c.int(0, 4000)).astype("u1").tobytes())
            paths = [os.path.join(d, "g.sds")]
        else:
            paths = c.choice([[5], [None], 7, None, [b"\xff\xfe"], [good, 3]])
        cwd = os.getcwd()
        os.chdir(d)
        try:
            r = rc.MultiConcatFiles(paths, **kw)
            check(kind == "empty list" or kind == "none output" and kw["output"] == b"x" or kind == "wrong types", "no error for %s: %r" % (kind, r))
        except (ValueError, TypeError, SystemError, OSError, MemoryError):
            pass
        finally:
            os.chdir(cwd)
        check(open(good, "rb").read() == keep, "the input changed")
        X.expect(rc.MultiDecompressFiles([good])[0], f, "the input afterwards")
    finally:
        X.drop(d)

"""Key columns and the dictionary model of grouping."""
import numpy as np
import gen as G

KD = ["i4", "f8", "S", "i8", "U", "i1", "f4", "u1", "i2", "u2", "u4", "u8", "?", "V", "F", "c16", "st"]


def column(c, d, n, card=None, lay=True, coll=True):
    """one key column: dtype d, n rows; card: roughly how many distinct values"""
    if card is None:
        card = c.weighted([(3, "few"), (3, "any"), (1, "many"), (1, "one")])
    if d == "V":
        w = c.int(1, 19)
        a = np.ascontiguousarray(G.values(c, "u1", n * w, style="small", lo=0, hi=2)).view("V%d" % w)
        return a
    if d == "st":
        t = np.dtype([("x", c.choice(["i4", "i2", "f8", "u1"])), ("y", c.choice(["S3", "i8", "u1", "i4"]))])
        a = np.zeros(n, t)
        for f in ("x", "y"):
            a[f] = G.values(c, t[f], n, style="small", lo=0, hi=3)
        return a
    if d in ("S", "U"):
        if card in ("many", "any") and n > 14:
            r = c.nprng()
            w = c.choice([2, 3, 4, 6, 8, 11, 16, 20])
            k = c.choice([3, 10, 300, 100000])
            ids = r.integers(0, k, n)
            pre = "x" * c.int(0, 3)
            a = np.array([(pre + "%x" % i)[:w] for i in ids.tolist()], dtype="%s%d" % (d, w))
        else:
            a = G.strings(c, d, n)
    elif d in ("F", "c16"):
        b = "f4" if d == "F" else "f8"
        a = (G.values(c, b, n, style="small", specials=False, inv=0) + 1j * G.values(c, b, n, style="small", specials=False, inv=0)).astype("c8" if d == "F" else "c16")
    elif card == "few":
        a = G.values(c, d, n, style=c.weighted([(3, "small"), (2, "edge")]))
    elif card == "one":
        a = G.values(c, d, n, style="const", inv=0)
    elif card == "many" and n > 14 and np.dtype(d).kind in "iuf":
        r = c.nprng()
        dd = np.dtype(d)
        # keys that collide in the table: multiples of a power of two, dense runs, or everything distinct
        kind = c.choice(["dense", "pow2", "rand"])
        span = c.choice([n, max(1, n // 2), 4 * n, 17])
        base = r.integers(0, max(1, span), n)
        if kind == "pow2":
            base = base * c.choice([64, 1024, 4096, 65536])
        elif kind == "rand":
            base = base * 2654435761 % (1 << 31)
        with np.errstate(all="ignore"):
            a = base.astype(np.int64).astype(dd)
            if c.bool(.3):
                a = (a + dd.type(c.choice([1, 100, 3]))).astype(dd)
    else:
        a = G.values(c, d, n)
    if np.dtype(a.dtype).kind == "f" and n and c.bool(.4):
        a = np.where(np.isnan(a), a.dtype.type(np.nan), a)      # the one canonical NaN
    return G.layout(c, a, p=.25) if lay else a


def columns(c, n, k=None, kinds=KD, **kw):
    if k is None:
        k = c.weighted([(5, 1), (3, 2), (2, 3), (1, 4)])
    ks = kinds
    return [column(c, c.choice(ks), n, **kw) for _ in range(k)]


def rowids(cols):
    """dense ids of the key rows by first appearance, equality being equality of the values' bytes -> (ids, first, counts)"""
    n = len(cols[0])
    raw = np.concatenate([np.ascontiguousarray(a).view(np.uint8).reshape(n, a.dtype.itemsize) for a in cols], axis=1) if n else np.zeros((0, 1), np.uint8)
    return densify(np.ascontiguousarray(raw))


def densify(raw, sel=None):
    """ids 1.. by first appearance among selected rows, 0 elsewhere"""
    n = len(raw)
    d = {}
    ids = np.zeros(n, np.int64)
    first, cnt = [], []
    w = raw.shape[1]
    bts = raw.tobytes()
    for i in range(n):
        if sel is not None and not sel[i]:
            continue
        k = bts[i * w:(i + 1) * w]
        j = d.get(k)
        if j is None:
            j = len(first) + 1
            d[k] = j
            first.append(i)
            cnt.append(0)
        cnt[j - 1] += 1
        ids[i] = j
    return ids, np.array(first, np.int64), np.array(cnt, np.int64)


def rawrows(cols):
    n = len(cols[0])
    if not n:
        return np.zeros((0, 1), np.uint8)
    return np.ascontiguousarray(np.concatenate([np.ascontiguousarray(a).view(np.uint8).reshape(n, a.dtype.itemsize) for a in cols], axis=1))


def showcols(cols):
    return "[" + ", ".join(G.show(np.asarray(a), 24) for a in cols) + "]"


def hintmode(c, n, modes=(None, 2, 1)):
    """table-size hint and hash mode: a hint that is too small for the distinct keys is refused by the library, so it is at least n
    where the table could be smaller than that"""
    mode = c.choice(list(modes)) if n < 3000 else c.choice([m for m in modes if m != 1])
    if mode == 1:
        return c.choice([0, n, 2 * n, 100000]), mode
    if n > 60000:
        return c.choice([0, n, 2 * n]), mode
    return c.choice([0, 1, 2, n, 2 * n, n // 3, 50000]), mode

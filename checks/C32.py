"""C32: TimeStringToNanos, DateStringToNanos, DateTimeStringToNanos and StrptimeToNanos against Python's calendar."""
import datetime as dt
import warnings
import numpy as np
import gen as G
from gen import check
from pbt import law, rc, Fail

RULE = ("a case draws rows of a documented format (every valid instant from 1970 to 2099, one- and two-digit fields, 0 to 12 fraction digits, space and NUL padding), rows with a field out of range "
        "(month 13, 30 February, hour 24, minute 60...), blank rows and rows with other delimiters or text around them, as bytes and as Unicode, contiguous or sliced; "
        "non-trivial = at least one well-formed row")
ASSUMPTIONS = ["invalid is 0; an hour alone is an invalid time", "a date-time whose time is out of range is the date at midnight (the shipped tests require it)",
               "another delimiter than - : T or space, text before the first digit and text after the last field are skipped, with a RuntimeWarning (the shipped tests require it); only the first warning of an array is raised",
               "fraction digits past the ninth are dropped", "strptime formats: text after what the format consumes is skipped unless it starts with a digit; year 1900, formats without a year and leap seconds are not covered"]
NS = 10**9
EPOCH = dt.date(1970, 1, 1)
JUNK = ["x", "ab", "at", "huh", "y", "/", "_", "\xe9", "Z"]
UJUNK = JUNK + ["\u0132", "\u4e2d", "\U0001f600", "\uff11", "\u0660"]


def date(c):
    """(y, m, d): any date in range, month ends and year ends more often"""
    y = c.weighted([(6, c.int(1970, 2099)), (1, 1970), (1, 2099), (1, 2000), (1, 4 * c.int(493, 524))])
    m = c.int(1, 12)
    last = (dt.date(y + m // 12, m % 12 + 1, 1) - dt.timedelta(1)).day
    d = c.weighted([(4, c.int(1, last)), (2, last), (1, 1)])
    return y, m, d


def days(y, m, d):
    """exact days since 1970, None if there is no such date or it is out of range"""
    if not 1970 <= y <= 2099:
        return None
    try:
        return (dt.date(y, m, d) - EPOCH).days
    except ValueError:
        return None


def fraction(c):
    """(text, ns)"""
    k = c.below(4)
    if k == 0:
        return "", 0
    n = c.weighted([(1, 0), (6, c.int(1, 9)), (1, c.int(10, 12))])
    s = "".join(str(c.below(10)) for _ in range(n))
    return "." + s, int((s + "0" * 9)[:9]) if s else 0


def field(c, v, width=2):
    """a number with or without its leading zeros"""
    return str(v) if c.bool(.25) else str(v).zfill(width)


def timepart(c, sep=":", sep2=":"):
    """(text, ns or None when out of range, number of fields)"""
    k = c.weighted([(7, 0), (1, 1), (1, 2), (1, 3)])
    h, m, s = c.weighted([(4, c.int(0, 23)), (1, 23), (1, 0)]), c.weighted([(4, c.int(0, 59)), (1, 59)]), c.weighted([(4, c.int(0, 59)), (1, 59)])
    if k == 1:
        h = c.choice([24, 25, 29, 60, 99])
    elif k == 2:
        m = c.choice([60, 61, 75, 99])
    secs = c.bool(.75) or k == 3
    if k == 3:
        s = c.choice([60, 61, 75, 99])
    text = field(c, h) + sep + field(c, m)
    ns = h * 3600 + m * 60
    if secs:
        text += sep2 + field(c, s)
        ns += s
    f, fn = fraction(c) if secs else ("", 0)
    bad = k != 0
    return text + f, None if bad else ns * NS + fn, len(f) <= 10


def datepart(c, junk):
    """(text, days or None, clean)"""
    y, m, d = date(c)
    k = c.weighted([(7, 0), (1, 1), (1, 2), (1, 3)])
    if k == 1:
        m = c.choice([0, 13, 20, 99])
    elif k == 2:
        d = c.choice([0, 29, 30, 31, 32, 40, 99])
    elif k == 3:
        y = c.choice([0, 1, 1582, 1900, 1968, 1969, 2100, 2101, 2104, 9999])
    form = c.weighted([(4, 0), (4, 1), (1, 2)])
    if form == 0:
        text, clean = "%04d%02d%02d" % (y, m, d), True
    elif form == 1:
        text, clean = "%04d-%s-%s" % (y, field(c, m), field(c, d)), True
    else:
        a, b = c.choice(junk + ["-"])[0], c.choice(junk)[0]
        text, clean = "%04d%s%02d%s%02d" % (y, a, m, b, d), False
    return text, days(y, m, d), clean


def wrap(c, text, clean, junk, spaces_ok=True):
    """padding and text around a row"""
    if c.bool(.2):
        text = " " * c.int(1, 3) + text
    k = c.below(12)
    if k == 0:
        text, clean = c.choice(junk) + " " + text, False
    elif k == 1:
        text, clean = text + " " + c.choice(junk), False
    elif k in (2, 3):
        text, clean = text + " " * c.int(1, 3), clean if spaces_ok else None
    return text, clean


def arrays(c, rows, kind):
    """the rows as an array of bytes or Unicode, contiguous or not, 1-D or 2-D"""
    n = len(rows)
    if kind == "S":
        a = np.array([r.encode("latin-1") for r in rows], "S")
    else:
        a = np.array(rows, "U")
    if not n:
        a = a.astype(kind + "8")
    if c.bool(.3):
        a = a.astype("%s%d" % (kind, max(1, a.dtype.itemsize // (4 if kind == "U" else 1)) + c.int(1, 12)))
    k = c.below(4)
    if k == 0 and n:
        w = np.full(2 * n + 1, "2001-02-03T04:05:06", a.dtype)
        w[1::2] = a
        a = w[1::2]
        c.event("sliced")
    elif k == 1 and n % 2 == 0 and n:
        a = a.reshape(2, n // 2)
        if c.bool(.5):
            a = np.asfortranarray(a)
        c.event("2-D")
    return a


def run(c, name, rows, *extra):
    """rows: list of (text, expected, clean: True / False (warns) / None)"""
    kind = c.choice("SU") if all(ord(max(r[0] or " ")) < 256 for r in rows) else "U"
    a = arrays(c, [r[0] for r in rows], kind)
    c.note(function=name)
    c.note(rows=[r[0] for r in rows][:12])
    c.event(kind)
    before = a.copy()
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        got = getattr(rc, name)(a, *extra)
    check(isinstance(got, np.ndarray) and got.dtype == np.int64 and got.shape == (len(rows),), "%s of %d rows gave %r" % (name, len(rows), got))
    for i, (text, want, clean) in enumerate(rows):
        if want is not None:
            check(int(got[i]) == want, "%s of row %d %r (%s) is %d and not %d" % (name, i, text, kind, got[i], want))
    check((a == before).all(), "%s changed its input" % name)
    if name != "StrptimeToNanos":
        warned = [w for w in log if issubclass(w.category, RuntimeWarning)]
        if all(r[2] is True for r in rows):
            check(not warned, "%s warned about well-formed rows: %s" % (name, warned and warned[0].message))
        elif any(r[2] is False for r in rows):
            check(len(warned) == 1, "%s raised %d warnings about malformed rows and not 1" % (name, len(warned)))
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                try:
                    getattr(rc, name)(a, *extra)
                    raise Fail("%s returned although its warning is an error" % name)
                except RuntimeWarning:
                    pass
    return got


def nrows(c):
    return c.weighted([(8, c.int(1, 12)), (1, 0), (2, c.int(13, 200))])


def blank(c):
    return c.choice(["", " ", "     "]), 0, True


def junks(c):
    return UJUNK if c.bool(.4) else JUNK


@law(700, 15000)
def times(c):
    """HH:MM[:SS][.fraction]"""
    j = junks(c)
    rows = []
    for _ in range(nrows(c)):
        k = c.below(12)
        if k == 0:
            rows.append(blank(c))
        elif k == 1:
            rows.append((field(c, c.int(0, 23)), 0, True))
        else:
            odd = c.bool(.1)
            text, ns, short = timepart(c, *((c.choice(j)[0], c.choice(j + [":"])[0]) if odd else (":", ":")))
            text, clean = wrap(c, text, not odd and short, j, spaces_ok=text.count(":") == 2 or "." in text)
            rows.append((text, 0 if ns is None else ns, clean))
    run(c, "TimeStringToNanos", rows)
    if any(r[2] for r in rows):
        c.nontrivial()


@law(700, 15000)
def dates(c):
    """YYYYMMDD and YYYY-MM-DD"""
    j = junks(c)
    rows = []
    for _ in range(nrows(c)):
        if c.below(12) == 0:
            rows.append(blank(c))
        else:
            text, d, clean = datepart(c, j)
            text, clean = wrap(c, text, clean, j)
            rows.append((text, 0 if d is None else d * 86400 * NS, clean))
    run(c, "DateStringToNanos", rows)
    if any(r[2] for r in rows):
        c.nontrivial()


@law(900, 20000)
def datetimes(c):
    """a date, T or a space, and a time"""
    j = junks(c)
    rows = []
    for _ in range(nrows(c)):
        k = c.below(12)
        if k == 0:
            rows.append(blank(c))
            continue
        text, d, clean = datepart(c, j)
        ns = 0
        sp = True
        if k == 1:
            sp = False     # one blank after a date alone starts the time
        else:
            t, ns, short = timepart(c)
            text += c.choice("T ") + t
            clean = clean and short
            sp = t.count(":") == 2 or "." in t
        text, clean = wrap(c, text, clean, j, spaces_ok=sp)
        rows.append((text, 0 if d is None else d * 86400 * NS + (ns or 0), clean))
    run(c, "DateTimeStringToNanos", rows)
    if any(r[2] for r in rows):
        c.nontrivial()


@law(150, 3000)
def alldays(c):
    """every day of a stretch of years, in the three forms"""
    y = c.int(1970, 2099)
    first = dt.date(y, 1, 1)
    n = (dt.date(min(y + c.int(1, 6), 2100) - 1, 12, 31) - first).days + 1
    base = (first - EPOCH).days
    fmt = c.choice(["%Y%m%d", "%Y-%m-%d"])
    rows = [((first + dt.timedelta(i)).strftime(fmt), (base + i) * 86400 * NS, True) for i in range(n)]
    k = c.below(3)
    if k == 0:
        run(c, "DateStringToNanos", rows)
    elif k == 1:
        sec = c.int(0, 86399)
        t = "%02d:%02d:%02d" % (sec // 3600, sec // 60 % 60, sec % 60)
        run(c, "DateTimeStringToNanos", [(r[0] + "T" + t, r[1] + sec * NS, True) for r in rows])
    else:
        run(c, "StrptimeToNanos", rows, fmt.encode())
    c.nontrivial()


@law(60, 1500)
def allseconds(c):
    """every second of an hour with a fraction"""
    h = c.int(0, 23)
    f, fn = fraction(c)
    rows = [("%02d:%02d:%02d%s" % (h, i // 60, i % 60, f), (h * 3600 + i) * NS + fn, len(f) <= 10) for i in range(3600)]
    run(c, "TimeStringToNanos", rows)
    c.nontrivial()


MON = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
DAY = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]


def case(c, s):
    k = c.below(4)
    return s.upper() if k == 0 else s.lower() if k == 1 else s


@law(900, 20000)
def formats(c):
    """formats of StrptimeToNanos"""
    # date layout
    lay = c.choice([["%Y", "M", "%d"], ["M", "%d", "%Y"], ["%d", "M", "%Y"], ["%F"], ["%D"], ["%y", "M", "%d"], ["W", "%d", "M", "%Y"], ["%x"], ["%C", "%y", "M", "%d"]])
    mon = c.choice(["%m", "%m", "%b", "%B", "%h", "%m"])
    wk = c.choice(["%a", "%A"])
    day = c.choice(["%d", "%e"])
    toks = [{"M": mon, "W": wk, "%d": day}.get(t, t) for t in lay]
    tlay = c.choice([[], ["%H", "%M"], ["%H", "%M", "%S"], ["%T"], ["%R"], ["I", "%M", "p"], ["I", "%M", "%S", "p"], ["%r"], ["%X"], ["%k", "%M", "%S"], ["%l", "%M", "p"]])
    hi = c.choice(["%I", "%l"])
    ttoks = [{"I": hi, "p": "%p"}.get(t, t) for t in tlay]
    pool = ["-", "/", ".", ":", "at", "%%"] + ([" ", "%n", "  "] if c.bool(.6) else [])
    seps = [c.choice(pool) for _ in range(len(toks) + len(ttoks))]
    fmt = ""
    for i, t in enumerate(toks + ttoks):
        fmt += (seps[i - 1] if i else "") + t
    blanks = any(sp in (" ", "  ", "%n") for sp in seps)
    rows = []
    good = 0
    for _ in range(nrows(c)):
        y, m, d = date(c)
        if any(t in ("%y", "%D", "%x") for t in toks) and "%C" not in toks:
            y = c.int(1970, 2068)
            m, d = c.int(1, 12), c.int(1, 28)
        h, mi, s = c.int(0, 23), c.int(0, 59), c.int(0, 59)
        k = c.weighted([(14, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7)])
        if blanks and 2 <= k <= 6:
            k = 0       # blanks of a format match nothing too: 99 is hour 9, minute 9
        if k == 1:
            m = c.choice([0, 13, 20])
            if mon != "%m" and lay not in (["%F"], ["%D"], ["%x"]):
                m = 13
        elif k == 2:
            d = c.choice([0, 29, 30, 31, 32, 45, 99])
        elif k == 3 and ("%Y" in toks or "%F" in toks):
            y = c.choice([1, 1582, 1901, 1968, 1969, 2100, 2101, 9999])
        elif k == 4:
            h = c.choice([24, 25, 30, 99])
        elif k == 5:
            mi = c.choice([60, 75, 99])
        elif k == 6:
            s = c.choice([62, 75, 99])
        names = MON + ["Smarch"]

        def num(v, w=2):
            return str(v) if c.bool(.3) else str(v).zfill(w)

        used = {"h": False, "m": False, "s": False, "p": None}

        def tok(t):
            if t in ("%Y",):
                return "%04d" % y
            if t == "%C":
                return "%02d" % (y // 100)
            if t == "%y":
                return "%02d" % (y % 100)
            if t == "%m":
                return num(m)
            if t in ("%d", "%e"):
                return num(d)
            if t in ("%b", "%h"):
                return case(c, names[max(m, 1) - 1][:3] if c.bool(.7) else names[max(m, 1) - 1])
            if t == "%B":
                return case(c, names[max(m, 1) - 1])
            if t in ("%a", "%A"):
                w = DAY[c.below(7)]
                return case(c, w if c.bool(.5) else w[:3])
            if t == "%F":
                return "%04d-%s-%s" % (y, num(m), num(d))
            if t in ("%D", "%x"):
                return "%s/%s/%02d" % (num(m), num(d), y % 100)
            if t in ("%H", "%k"):
                used["h"] = True
                return num(h)
            if t in ("%I", "%l"):
                used["h"] = True
                return num(h % 12 or 12) if h < 24 else num(h)
            if t == "%p":
                return case(c, "AM" if h < 12 else "PM")
            if t == "%M":
                used["m"] = True
                return num(mi)
            if t == "%S":
                used["s"] = True
                return num(s)
            if t in ("%T", "%X"):
                used["h"] = used["m"] = used["s"] = True
                return "%s:%s:%s" % (num(h), num(mi), num(s))
            if t == "%R":
                used["h"] = used["m"] = True
                return "%s:%s" % (num(h), num(mi))
            if t == "%r":
                used["h"] = used["m"] = used["s"] = True
                return "%s:%s:%s %s" % (num(h % 12 or 12) if h < 24 else num(h), num(mi), num(s), case(c, "AM" if h < 12 else "PM"))
            raise Fail("token " + t)

        text = ""
        for i, t in enumerate(toks + ttoks):
            if i:
                sp = seps[i - 1]
                text += {"%n": " ", "%%": "%", "  ": "   "[:c.int(1, 3)]}.get(sp, sp)
            last = len(text)
            text += tok(t)
        dd = days(y, m, d)
        want = 0
        bad = dd is None or (used["h"] and h >= 24) or (used["m"] and mi >= 60) or (used["s"] and s >= 60)
        f, fn = fraction(c)
        # a fraction after the last number or AM / PM
        text += f
        if not bad:
            want = (dd * 86400 + (h * 3600 if used["h"] else 0) + (mi * 60 if used["m"] else 0) + (s if used["s"] else 0)) * NS + fn
            good += 1
        if k == 7:
            cut = c.below(last + 1)
            rep = c.choice(["#", "?", "\u0132", "\u4e31"])
            text, want = text[:cut] + rep + text[cut:], 0
        elif c.bool(.1):
            text += c.choice([" trailing", "Z", " "])
        rows.append((text, want, None))
    c.note(format=fmt)
    run(c, "StrptimeToNanos", rows, fmt.encode())
    if good:
        c.nontrivial()


@law(200, 4000)
def refused(c):
    """arrays of other types are refused"""
    a = G.values(c, c.choice(["i8", "f8", "i4", "?", "u1"]), c.below(5))
    for name, extra in (("TimeStringToNanos", ()), ("DateStringToNanos", ()), ("DateTimeStringToNanos", ()), ("StrptimeToNanos", (b"%Y",))):
        try:
            getattr(rc, name)(a, *extra)
        except ValueError:
            continue
        raise Fail("%s took an array of %s" % (name, a.dtype))
    c.nontrivial()


@law(300, 8000)
def noise(c):
    """any text: a row's answer does not depend on the rows around it, on the width of the array or on bytes against Unicode"""
    alpha = "0123456789" * 2 + "-: .T/AaPpMm%xyz"
    rows = []
    for _ in range(c.int(1, 8)):
        rows.append("".join(c.choice(alpha) for _ in range(c.int(0, 24))).rstrip())
    fmt = "".join(c.choice(["%Y", "%m", "%d", "%H", "%M", "%S", "%b", "%p", "%j", "%y", "%G", "%U", "%Z", "%z", "%C", "%e", "%q", "%", "-", " ", ":", "%T"]) for _ in range(c.int(1, 7)))
    c.note(rows=rows)
    c.note(format=fmt)
    for name, extra in (("TimeStringToNanos", ()), ("DateStringToNanos", ()), ("DateTimeStringToNanos", ()), ("StrptimeToNanos", (fmt.encode(),))):
        f = getattr(rc, name)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = f(np.array([r.encode() for r in rows], "S"), *extra)
            u = f(np.array(rows, "U40"), *extra)
            one = np.array([int(f(np.array([r], "S" if r else "S1"), *extra)[0]) for r in rows])
        check((s == u).all(), "%s: bytes %s and Unicode %s differ for %r" % (name, s, u, rows))
        check((s == one).all(), "%s: together %s, alone %s for %r" % (name, s, one, rows))
        lim = 86400 * NS if name == "TimeStringToNanos" else (days(2099, 12, 31) + 1) * 86400 * NS + (10**10 if extra else 0)
        check(((s >= 0) & (s < lim)).all(), "%s: %s is out of range" % (name, s))
    c.nontrivial()

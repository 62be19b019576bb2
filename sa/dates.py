"""Calendar constants: epochs of the hifitime crate whose calendar fields are known.

  E("epoch", (year, month, day, hour, minute, second, nanosecond, timescale))

Only what the crate's interface states is used: building an epoch from calendar fields
and taking the same fields back in the same time scale; everything else stays opaque."""
import datetime, re
from val import *

OPT, RES, TSC = "std::option::Option", "std::result::Result", "hifitime::TimeScale"
DATE = re.compile(r"^(-?\d{1,5})-(\d\d?)-(\d\d?)T(\d\d?):(\d\d?):(\d\d?)(?:\.(\d+))? ?(UTC|TAI|GPST|BDT|GST|QZSST|TT|TDB|ET|)$")
MD = (31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def valid(f):
    y, mo, d, h, mi, s, ns = f[:7]
    if not (1 <= mo <= 12 and 1 <= d <= MD[mo - 1] and 0 <= h < 24 and 0 <= mi < 60 and 0 <= s <= 60 and 0 <= ns < 10**9):
        return False
    return not (mo == 2 and d == 29 and not (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)))


def epoch(y, mo, d, h, mi, s, ns, ts):
    return E("epoch", (y, mo, d, h, mi, s, ns, ts))


def is_epoch(v):
    return v.k == "e" and v.op == "epoch"


def from_text(t):
    """epoch, False (refused), None (unknown)"""
    m = DATE.match(t.strip())
    if not m:
        return False
    y, mo, d, h, mi, s = [int(x) for x in m.groups()[:6]]
    fr = m[7] or ""
    if len(fr) > 9:
        return None
    f = (y, mo, d, h, mi, s, int(fr.ljust(9, "0")) if fr else 0, m[8] or "UTC")
    return epoch(*f) if valid(f) else False


def tsv(I_, n):
    for i, x in enumerate(I_.p.adts.get(TSC, {"variants": []})["variants"]):
        if x[0] == n:
            return agg(TSC, n, i, (), ())
    return None


def tsname(v):
    return v.a[1] if v.k == "agg" and v.a[0] == TSC else None


def iso(f):
    return "%04d-%02d-%02dT%02d:%02d:%02d%s %s" % (f[:6] + ((".%09d" % f[6]) if f[6] else "", f[7]))


def field(I_, v, name):
    if name == "time_scale":
        return tsv(I_, v.meta[7])
    return None


UNITS = {"Nanosecond": 1e-9, "Microsecond": 1e-6, "Millisecond": 1e-3, "Second": 1, "Minute": 60, "Hour": 3600, "Day": 86400, "Week": 604800, "Century": 3155760000}
# dates (UTC) from which UTC is that many seconds behind TAI
LEAPS = [((1972, 1, 1), 10), ((1972, 7, 1), 11), ((1973, 1, 1), 12), ((1974, 1, 1), 13), ((1975, 1, 1), 14), ((1976, 1, 1), 15), ((1977, 1, 1), 16), ((1978, 1, 1), 17), ((1979, 1, 1), 18), ((1980, 1, 1), 19), ((1981, 7, 1), 20), ((1982, 7, 1), 21), ((1983, 7, 1), 22), ((1985, 7, 1), 23), ((1988, 1, 1), 24), ((1990, 1, 1), 25), ((1991, 1, 1), 26), ((1992, 7, 1), 27), ((1993, 7, 1), 28), ((1994, 7, 1), 29), ((1996, 1, 1), 30), ((1997, 7, 1), 31), ((1999, 1, 1), 32), ((2006, 1, 1), 33), ((2009, 1, 1), 34), ((2012, 7, 1), 35), ((2015, 7, 1), 36), ((2017, 1, 1), 37)]
TAI = {"TAI": 0, "GPST": 19, "GST": 19, "QZSST": 19, "BDT": 33}


def seconds(f):
    """seconds since 2000-01-01 in its own time scale"""
    d = datetime.datetime(*f[:5]) - datetime.datetime(2000, 1, 1)
    return d.days * 86400 + d.seconds + f[5]


def calendar(s, ns, ts):
    d = datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=s)
    return (d.year, d.month, d.day, d.hour, d.minute, d.second, ns, ts)


def convert(f, ts):
    """the same date in another time scale; None when a leap second makes it ambiguous"""
    if f[7] == ts:
        return f
    if not 1972 < f[0] < 9000 or f[5] == 60:
        return None
    s = seconds(f)
    if f[7] == "UTC":
        s += [n for d, n in LEAPS if d <= f[:3]][-1]
    elif f[7] in TAI:
        s += TAI[f[7]]
    else:
        return None
    if ts in TAI:
        return calendar(s - TAI[ts], f[6], ts)
    if ts == "UTC":
        for d, n in reversed(LEAPS):
            t = seconds(d + (0, 0, 0)) + n
            if s >= t:
                return calendar(s - n, f[6], ts)
            if s >= t - 1:
                return None
    return None


def num(x):
    """a duration, in seconds"""
    return I(int(x)) if x == int(x) else C("f64", float(x))


def duration(I_, path, n, args):
    """durations of the hifitime crate as numbers of seconds"""
    un = [i for i, a in enumerate(args) if a.k == "agg" and a.a[0] == "hifitime::Unit"]
    if n == "mul" and len(args) == 2 and len(un) == 1 and is_c(args[1 - un[0]]) and isinstance(cval(args[1 - un[0]]), (int, float)):
        return num(UNITS[args[un[0]].a[1]] * cval(args[1 - un[0]]))
    if n == "to_seconds" and len(args) == 1 and is_c(args[0]):
        return C("f64", float(cval(args[0])))
    if n == "to_unit" and len(args) == 2 and un == [1] and is_c(args[0]):
        return C("f64", cval(args[0]) / UNITS[args[1].a[1]])
    if n in ("lt", "le", "gt", "ge", "eq", "ne") and len(args) == 2 and all(is_c(a, "int") or is_c(a, "f64") for a in args):
        a, b = cval(args[0]), cval(args[1])
        return B({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[n])
    if n in ("abs", "is_negative", "neg") and len(args) == 1 and is_c(args[0]) and isinstance(cval(args[0]), (int, float)):
        x = cval(args[0])
        return B(x < 0) if n == "is_negative" else num(abs(x) if n == "abs" else -x)
    if n in ("min", "max", "cmp", "partial_cmp") and len(args) == 2 and all(is_c(a, "int") or is_c(a, "f64") for a in args):
        a, b = cval(args[0]), cval(args[1])
        if n in ("min", "max"):
            return num(min(a, b) if n == "min" else max(a, b))
        return E("cmp", None, I((a > b) - (a < b)), I(0))
    return None


def call(I_, path, n, args):
    """args already dereferenced; None: not modelled"""
    if n == "from_gregorian_str" and len(args) == 1 and is_c(args[0], "str"):
        e = from_text(cval(args[0]))
        if e is None:
            return None
        return agg(RES, "Ok", 0, ("0",), (e,)) if e is not False else agg(RES, "Err", 1, ("0",), (E("hifitime_err", None),))
    m = re.match(r"(maybe_)?from_gregorian(_utc|_tai|_gpst)?(_at_midnight|_hms)?$", n)
    if m:
        xs = list(args)
        ts = {"_utc": "UTC", "_tai": "TAI"}.get(m[2])
        if m[2] == "_gpst":
            return None
        if m[2] is None:
            ts = tsname(xs.pop()) if xs else None
        if ts is None or not all(is_c(x, "int") for x in xs):
            return None
        k = [cval(x) for x in xs] + [0] * 7
        if len(xs) != {None: 7, "_at_midnight": 3, "_hms": 6}[m[3]]:
            return None
        f = tuple(k[:7]) + (ts,)
        if m[1]:
            return agg(RES, "Ok", 0, ("0",), (epoch(*f),)) if valid(f) else agg(RES, "Err", 1, ("0",), (E("hifitime_err", None),))
        return epoch(*f) if valid(f) else None
    if not args or not is_epoch(args[0]):
        return None
    f = args[0].meta
    if n in ("to_gregorian_utc", "to_gregorian_tai"):
        f = convert(f, n[-3:].upper())
        return tup(*[I(x) for x in f[:7]]) if f else None
    if n == "year" and len(args) == 1:
        return I(f[0])
    if n in ("duration_in_year", "day_of_year") and len(args) == 1:
        s = seconds(f) - seconds((f[0], 1, 1, 0, 0, 0)) + f[6] * 1e-9
        return num(s) if n == "duration_in_year" else C("f64", s / 86400 + 1)
    if n == "sub" and len(args) == 2 and is_epoch(args[1]):
        g = convert(args[1].meta, f[7])
        if g is None:
            return None
        return num(seconds(f) - seconds(g) + (f[6] - g[6]) * 1e-9)
    if n == "to_gregorian_str" and len(args) == 2 and tsname(args[1]) == f[7]:
        return S(iso(f))
    if n == "to_gregorian" and len(args) == 2 and tsname(args[1]) == f[7]:
        return tup(*[I(x) for x in f[:7]])
    if n in ("to_time_scale", "in_time_scale") and len(args) == 2 and tsname(args[1]):
        f = convert(f, tsname(args[1]))
        return epoch(*f) if f else None
    if n in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp") and len(args) == 2 and is_epoch(args[1]) and args[1].meta[7] == f[7]:
        a, b = f[:7], args[1].meta[:7]
        r = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}.get(n)
        return B(r) if r is not None else None
    return None

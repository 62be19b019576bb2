"""C26: file names follow the naming conventions, both ways."""
from lib import *
import dates, lists
from checks.c04 import NONE, some, method, rinex
from checks.c24 import fields

RULE = (
    "the name parser is abstractly executed on conventional names with other values in every field, on truncated and on foreign names; the name generator on files of each type with known dates and "
    "attributes (everything else unknown); names and attributes must be those of the RINEX (short and long) and IONEX naming conventions"
)
PA, DP = "production::ProductionAttributes", "production::DetailedProductionAttributes"
SRC = {"R": "Receiver", "S": "Stream", "U": "Unknown"}
PER = {"15M": "QuarterHour", "01H": "Hourly", "01D": "Daily", "01Y": "Yearly", "00U": "Unspecified"}
FRQ = {"30S": (30, "Second"), "01S": (1, "Second"), "59S": (59, "Second"), "15M": (15, "Minute"), "01H": (1, "Hour"), "08H": (8, "Hour"), "01D": (1, "Day"), "07D": (7, "Day"), "90S": (90, "Second"), "05M": (5, "Minute")}
SYS = {"GPS": "G", "Glonass": "R", "Galileo": "E", "BeiDou": "C", "QZSS": "J", "IRNSS": "I", "SBAS": "S", "EGNOS": "S", "Mixed": "N", None: "N"}


def ty(P, name):
    return next((k for k in P.adts if k.endswith("::" + name) and k.startswith("production::")), None)


def opt(v):
    if is_ok(v):
        return inner(v)
    return None if is_err(v) else TOP


def flat(P, v):
    """attributes as a dictionary of plain values; None: not known"""
    f = fields(v, ("name", "year", "doy", "region", "v3_details"))
    if f is None:
        return None
    out = {}
    todo = list(zip(("name", "year", "doy", "region"), f))
    d = opt(f[4])
    if d is TOP:
        return None
    out["details"] = d is not None
    if d is not None:
        n = ("country", "batch", "data_src", "ppu", "ffu", "hh", "mm")
        g = fields(d, n)
        if g is None:
            return None
        todo += zip(n, g)
    for k, x in todo:
        if k in ("region", "ffu"):
            x = opt(x)
            if x is None:
                out[k] = None
                continue
            if k == "ffu":
                y = fields(x, ("val", "unit"))
                out[k] = (cval(y[0]), y[1].a[1]) if y and is_c(y[0]) and y[1].k == "agg" else TOP
                continue
        out[k] = cval(x) if is_c(x) else x.a[1] if x.k == "agg" and not x.a[4] else TOP
    return out


def compare(R, key, P, v, want, what, where):
    ms = members(v)
    got = [flat(P, inner(m)) if is_ok(m) else False for m in ms]
    if not ms or v is BOT:
        return R.fail(key, "%s aborts" % what, where)
    for g in got:
        if g is False:
            return R.fail(key, "%s is refused" % what, where)
        if g is None:
            return R.unknown(key, show(v)[:300])
        bad = [k for k in want if k in g and g[k] is not TOP and g[k] != want[k]]
        for k in bad:
            return R.fail(key, "%s: %s is %r instead of %r" % (what, k, g[k], want[k]), where)
        if any(g.get(k, TOP) is TOP for k in want):
            return R.unknown(key, show(v)[:300])
    R.ok(key, show(v)[:200])


def parsing(ctx):
    P, q, R = ctx.P, ctx.q, ctx.r
    fn = P.trait_fn("std::str::FromStr", ty(P, "ProductionAttributes") or PA, "from_str")
    if fn is None:
        return R.unknown("parse", "gone")
    n = 0
    read = lambda s: q.call(fn, S(s), partition=True)
    short = [("ESBC", 177, 20, "o"), ("AJAC", 1, 0, "d"), ("KMS3", 365, 21, "n"), ("00NA", 366, 16, "g"), ("VLNS", 22, 9, "m"), ("MOJN", 345, 79, "O"), ("ABMF", 210, 80, "o"), ("ABMF", 123, 98, "n"), ("aaaa", 98, 99, "D")]
    for name, doy, yy, t in short:
        for suf in ("", ".gz"):
            for ses in "0ax":
                s = "%s%03d%s.%02d%s%s" % (name, doy, ses, yy, t, suf)
                compare(R, "short:" + s, P, read(s), {"name": name.upper(), "doy": doy, "year": 2000 + yy if yy < 80 else 1900 + yy, "region": None, "details": False}, "the short name %s" % s, fn.span)
                n += 1
    for name, reg, doy, yy in (("CKM", "G", 2, 22), ("jpl", "g", 301, 7), ("ESA", "R", 366, 0), ("COD", "G", 210, 98), ("IGS", "0", 45, 21), ("igr", "7", 100, 79)):
        s = "%s%s%03d0.%02dI" % (name, reg, doy, yy)
        compare(R, "ionex:" + s, P, read(s), {"name": name.upper(), "doy": doy, "year": 2000 + yy if yy < 80 else 1900 + yy, "region": reg.upper(), "details": False}, "the IONEX name %s" % s, fn.span)
        n += 1
    long = [
        ("ESBC", 0, "DNK", "R", 2020, 177, 22, 23, "01D", "30S", "MO", "crx"),
        ("KMS3", 4, "ESP", "S", 2022, 1, 0, 0, "01H", "01S", "GO", "rnx"),
        ("ABMF", 12, "GLP", "U", 1999, 365, 10, 7, "15M", "15M", "MO", "rnx"),
        ("MOJN", 30, "FRA", "R", 2000, 366, 9, 59, "01Y", "01H", "MO", "crx"),
        ("AMEL", 0, "NLD", "R", 2021, 98, 1, 2, "01D", None, "MN", "rnx"),
        ("AMEL", 99, "NLD", "S", 2031, 123, 23, 45, "01H", None, "GN", "rnx"),
        ("AMEL", 7, "NLD", "R", 2021, 98, 0, 15, "01D", "05M", "MM", "rnx"),
        ("AMEL", 56, "NLD", "R", 2021, 98, 11, 12, "01D", "07D", "RO", "rnx"),
    ]
    for f in long:
        for suf in ("", ".gz"):
            s = ("%s%02d%s_%s_%04d%03d%02d%02d_%s_" % f[:9]) + (f[9] + "_" if f[9] else "") + f[10] + "." + f[11] + suf
            for s in (s, s.lower()):
                w = {"name": f[0], "batch": f[1], "country": f[2], "data_src": SRC[f[3]], "year": f[4], "doy": f[5], "hh": f[6], "mm": f[7], "ppu": PER[f[8]], "ffu": FRQ[f[9]] if f[9] else None, "details": True, "region": None}
                compare(R, "long:" + s, P, read(s), w, "the long name %s" % s, fn.span)
                n += 1
    # names that follow no convention
    base = ["ESBC00DNK_R_20201770000_01D_30S_MO.crx", "AMEL00NLD_R_20210010000_01D_MN.rnx", "AJAC3550.21O"]
    bad = {b[:i] for b in base for i in range(len(b))} - {b[:i] for b in base for i in range(len(b)) if len(b) > 30 and i > b.index(".")} | {
        "", ".", "a", "abcdefgh.o", "station1.x", "station1.", "a_very_long_name_without_extension_at_all", "a_rather_long_file_name_of_nothing.x", "a_rather_long_file_name_of_nothing.",
        "readme.txt", "x" * 34 + ".", "ESBC00DNK_R_2020177000A_01D_30S_MO.crx", "AJAC35A0.21O", "AJAC3550.2aO", "AJAC3550.O"}
    m = 0
    for s in sorted(bad):
        v = read(s)
        key = "foreign:" + s
        if v is BOT:
            R.fail(key, "the name %r aborts the program" % s, fn.span)
        elif all(is_err(x) for x in members(v)) and members(v):
            R.ok(key)
        elif any(is_ok(x) for x in members(v)) and len(members(v)) == 1:
            R.fail(key, "the name %r is taken as conventional" % s, fn.span)
        else:
            R.unknown(key, show(v)[:200])
        m += 1
    for b in base[:2]:
        for i in range(b.index(".") + 1, len(b)):
            R.check(read(b[:i]) is not BOT, "truncated:" + b[:i], "the name %r aborts the program" % b[:i], fn.span)
    R.floor("names read", n, 60)
    R.floor("foreign names", m, 60)


def sampling(ctx):
    """sampling and period codes"""
    P, q, R = ctx.P, ctx.q, ctx.r
    T, U = ty(P, "FFU"), ty(P, "PPU")
    n = 0
    fn = P.trait_fn("std::convert::From", T, "from")
    for d in list(range(1, 100)) + [60 * i for i in range(1, 100)] + [3600 * i for i in range(1, 100)] + [86400 * i for i in range(1, 100)]:
        if fn is None:
            R.unknown("sampling", "gone")
            break
        v = q.call(fn, I(d), partition=True)
        f = fields(v, ("val", "unit"))
        key = "sampling:%d s" % d
        if f is None or not is_c(f[0], "int") or f[1].k != "agg":
            R.unknown(key, show(v)[:200])
            continue
        k = cval(f[0]) * dates.UNITS.get(f[1].a[1], 0)
        t = q.fmt(T, v)
        R.check(k == d, key, "a sampling period of %d s is described as one of %d s" % (d, k), fn.span)
        if t is not None and is_c(t, "str"):
            u = {"S": 1, "M": 60, "H": 3600, "D": 86400}.get(cval(t)[2:])
            R.check(len(cval(t)) == 3 and u and int(cval(t)[:2]) * u == k, "sampling code:%d s" % d, "a sampling period of %d s is written as %s" % (k, cval(t)), fn.span)
        n += 1
    for d in (100, 101, 3599, 6001, 36001, 359999):
        v = q.call(fn, I(d), partition=True) if fn is not None else None
        t = q.fmt(T, v) if v is not None and v is not BOT else None
        if v is BOT:
            R.fail("rounded:%d s" % d, "describing a sampling period of %d s aborts" % d, fn.span)
        elif t is not None and is_c(t, "str"):
            u = {"S": 1, "M": 60, "H": 3600, "D": 86400}.get(cval(t)[2:])
            R.check(len(cval(t)) == 3 and u and abs(int(cval(t)[:2]) * u - d) <= u / 2 + 1e-9, "rounded:%d s" % d, "a sampling period of %d s is written as %s" % (d, cval(t)), fn.span)
            n += 1
    for code, want in FRQ.items():
        v = q.parse(T, code)
        f = fields(inner(v), ("val", "unit")) if v is not None and is_ok(v) else None
        if f is None or not is_c(f[0], "int") or f[1].k != "agg":
            (R.fail if v is not None and is_err(v) else R.unknown)("code:" + code, "the sampling code %s is %s" % (code, show(v)[:100] if v is not None else "gone"))
            continue
        R.check((cval(f[0]), f[1].a[1]) == want, "code:" + code, "the sampling code %s is read as %s" % (code, show(v)[:100]), None)
        n += 1
    fn = P.trait_fn("std::convert::From", U, "from")
    for d, want in ((300, None), (870, "QuarterHour"), (900, "QuarterHour"), (930, "Hourly"), (3570, "Hourly"), (3600, "Hourly"), (3630, "Daily"), (43200, "Daily"), (86370, "Daily"), (86400, "Daily"), (366 * 86400, "Yearly")):
        if fn is None or want is None:
            continue
        v = q.call(fn, I(d), partition=True)
        key = "period:%d s" % d
        if v.k != "agg":
            R.unknown(key, show(v)[:200])
            continue
        R.check(v.a[1] == want, key, "a file of %d s is described as %s" % (d, v.a[1]), fn.span)
        n += 1
    for code, want in PER.items():
        for x, key in ((q.parse(U, code), "period code:" + code), (q.fmt(U, variant(P, U, want)), "period text:" + code)):
            if x is None:
                R.unknown(key, "gone")
            elif "text" in key:
                if is_c(x, "str"):
                    R.check(cval(x) == code, key, "the period %s is written as %r, not %s" % (want, cval(x), code))
                else:
                    R.unknown(key, show(x)[:100])
            elif is_ok(x) and inner(x).k == "agg":
                R.check(inner(x).a[1] == want, key, "the period code %s is read as %s" % (code, inner(x).a[1]))
            else:
                R.unknown(key, show(x)[:100])
            n += 1
    for code in ("05M", "02H", "30M", "12H", "07D", "02Y", "15S", "01M", "15H", "1D", ""):
        x = q.parse(U, code)
        if x is None or not is_ok(x) or inner(x).k != "agg":
            continue
        R.check(inner(x).a[1] not in set(PER.values()) - {"Unspecified"}, "other period:" + code, "the period code %s is read as %s" % (code, inner(x).a[1]))
    R.floor("codes", n, 300)


def attrs(P, name="ABCD", year=2019, doy=45, region=None, details=None):
    d = NONE
    if details is not None:
        c, b, s, p, f, h, m = details
        F = ty(P, "FFU")
        d = some(
            struct(
                P, DP, country=S(c), batch=I(b), data_src=variant(P, ty(P, "DataSource"), SRC[s]), ppu=variant(P, ty(P, "PPU"), PER[p]),
                ffu=some(struct(P, F, val=I(FRQ[f][0]), unit=variant(P, "hifitime::Unit", FRQ[f][1]))) if f else NONE, hh=I(h), mm=I(m),
            )
        )
    return struct(P, PA, name=S(name), year=I(year), doy=I(doy), v3_details=d, region=some(C("char", region)) if region else NONE)


def keyed(P, typ, ts):
    """a record of that type with one entry per date, and the name of its type"""
    if typ == "ObservationData":
        k = lambda t: struct(P, "observation::ObsKey", epoch=t, flag=variant(P, next(x for x in P.adts if x.endswith("::EpochFlag")), "Ok"))
        return "ObsRecord", lists.kvmap([(k(t), E("arg", "observations")) for t in ts])
    T = next(x for x in P.adts if x.endswith("::" + {"NavigationData": "NavKey", "MeteoData": "MeteoKey", "IonosphereMaps": "IonexKey"}[typ]))
    return {"NavigationData": "NavRecord", "MeteoData": "MeteoRecord", "IonosphereMaps": "IonexRecord"}[typ], lists.kvmap([(struct(P, T, epoch=t), E("arg", "v%d" % i)) for i, t in enumerate(ts)])


def document(P, typ, ts, system="Mixed", crinex=False, rcvr=False, production=None, marker=None, version=None):
    rt, rec = keyed(P, typ, ts)
    V = rinex(P, rt, rec, typ)
    obs = NONE
    if typ == "ObservationData":
        H = next(x for x in P.adts if x.endswith("observation::header::HeaderFields"))
        obs = some(struct(P, H, crinex=some(E("arg", "crinex")) if crinex else NONE))
    con = NONE if system is None else some(variant(P, "gnss::constellation::Constellation", system))
    if version:
        marker = dict(marker or {}, version=struct(P, "version::Version", major=I(version[0]), minor=I(version[1])))
    hd = struct(P, "header::Header", rinex_type=variant(P, "types::Type", typ), rcvr=some(E("arg", "receiver") if rcvr is True else rcvr) if rcvr else NONE, obs=obs, constellation=con, **(marker or {}))
    return agg(V.a[0], V.a[1], V.a[2], V.a[3], [hd if n == "header" else production if n == "production" else x for n, x in zip(V.a[3], V.a[4])])


DATES = [
    (2021, 12, 31, 13, 0, 0, "GPST"), (2021, 1, 1, 0, 0, 0, "GPST"), (2020, 12, 31, 23, 59, 30, "GPST"), (2022, 6, 8, 10, 0, 0, "GPST"), (2009, 3, 4, 11, 59, 59, "UTC"), (2000, 2, 29, 12, 0, 0, "UTC"),
    (1999, 12, 31, 18, 45, 0, "GPST"), (2019, 4, 10, 12, 0, 30, "GST"), (2023, 3, 1, 5, 6, 7, "BDT"), (2017, 1, 1, 0, 0, 0, "UTC"), (1998, 10, 9, 0, 0, 0, "UTC"),
]


def doy(f):
    return sum(dates.MD[i] if i != 1 else (29 if f[0] % 4 == 0 else 28) for i in range(f[1] - 1)) + f[2]


def at(f, dt=0):
    t = dates.seconds(f[:6]) + dt
    return dates.epoch(*dates.calendar(t, 0, f[6]))


def naming(ctx):
    P, q, R = ctx.P, ctx.q, ctx.r
    fn = method(P, "standard_filename")
    if fn is None:
        return R.unknown("name", "gone")
    n = [0]

    def one(key, doc, short, want, suffix=None, custom=None):
        n[0] += 1
        v = q.call(fn, doc, B(short), some(S(suffix)) if suffix else NONE, some(custom) if custom is not None else NONE, partition=True)
        if v is BOT:
            return R.fail(key, "generating the name aborts (%s expected)" % want, fn.span)
        if not is_c(v, "str"):
            ms = [cval(m) for m in members(v) if is_c(m, "str")]
            if ms and want not in ms and len(ms) == len(members(v)):
                return R.fail(key, "the name is one of %s, the conventions ask for %s" % (ms, want), fn.span)
            return R.unknown(key, show(v)[:300])
        R.check(cval(v) == want, key, "the name is %s, the conventions ask for %s" % (cval(v), want), fn.span, want)

    det = ("DNK", 4, "S", "01D", "30S", 1, 2)
    for f in DATES:
        lab = "%04d-%02d-%02dT%02d:%02d:%02d %s" % f
        ts = [at(f, 30 * i) for i in range(3)]
        day, yy = doy(f), f[0] % 100
        pr = attrs(P, details=det)
        for typ, sys, crx, ext in (
            ("ObservationData", "Mixed", False, "O"), ("ObservationData", "GPS", True, "D"), ("MeteoData", "Mixed", False, "M"), ("NavigationData", "GPS", False, "N"), ("NavigationData", "Glonass", False, "G"),
            ("NavigationData", "Mixed", False, "N"),
        ):
            doc = document(P, typ, ts, sys, crx, production=pr)
            one("short:%s %s %s:%s" % (typ, sys, crx, lab), doc, True, "ABCD%03d0.%02d%s" % (day, yy, ext))
            fmt = {"ObservationData": "MO", "MeteoData": "MM"}.get(typ) or "M" + SYS[sys]
            want = "ABCD04DNK_S_%04d%03d%02d%02d_01D_%s%s.%s" % (f[0], day, f[3], f[4], "30S_" if typ[0] == "O" else "", fmt, "crx" if crx else "rnx")
            one("long:%s %s %s:%s" % (typ, sys, crx, lab), doc, False, want)
        one("ionex:" + lab, document(P, "IonosphereMaps", ts, production=attrs(P, "JPL", region="R")), True, "JPLR%03d0.%02dI" % (day, yy))
    f = DATES[3]
    ts = [at(f, 30 * i) for i in range(3)]
    pr = attrs(P, details=det)
    for sys, l in SYS.items():
        one("system:%s" % sys, document(P, "NavigationData", ts, sys, production=pr), False, "ABCD04DNK_S_20221591000_01D_M%s.rnx" % l)
    for v in ((2, 10), (2, 11), (3, 0), (3, 2), (3, 5), (4, 0), (1, 0)):
        for typ, sys, crx, ext in (("ObservationData", "Mixed", False, "O"), ("ObservationData", "GPS", True, "D"), ("MeteoData", "Mixed", False, "M"), ("NavigationData", "GPS", False, "N"), ("NavigationData", "Glonass", False, "G")):
            doc = document(P, typ, ts, sys, crx, production=pr, version=v)
            fmt = {"ObservationData": "MO", "MeteoData": "MM"}.get(typ) or "M" + SYS[sys]
            one("short revision:%d.%d %s %s" % (v[0], v[1], typ, sys), doc, True, "ABCD1590.22%s" % ext)
            one("revision:%d.%d %s %s" % (v[0], v[1], typ, sys), doc, False, "ABCD04DNK_S_20221591000_01D_%s%s.%s" % ("30S_" if typ[0] == "O" else "", fmt, "crx" if crx else "rnx"))
    RX = next((x for x in P.adts if x.endswith("::Receiver")), None)
    for a in ("", "X1") if RX else ():
        for b in ("", "123"):
            rx = struct(P, RX, model=S(a), sn=S(b), firmware=S(b))
            one("receiver:%r %r" % (a, b), document(P, "ObservationData", ts, rcvr=rx, production=pr), False, "ABCD04DNK_R_20221591000_01D_30S_MO.rnx")
    for b in (0, 9, 10, 11, 57, 99):
        for hh, mm in ((0, 0), (9, 59), (23, 10)):
            cu = attrs(P, "WXYZ", 2031, 98, details=("FRA", b, "R", "01H", "15M", hh, mm))
            one("custom batch:%d %d:%d" % (b, hh, mm), document(P, "ObservationData", ts, production=pr), False, "WXYZ%02dFRA_R_2031098%02d%02d_01H_30S_MO.rnx" % (b, hh, mm), custom=cu)
    for b in (0, 9, 10, 98, 99):
        one("batch:%d" % b, document(P, "ObservationData", ts, production=attrs(P, details=("DNK", b) + det[2:])), False, "ABCD%02dDNK_S_20221591000_01D_30S_MO.rnx" % b)
    for s in SRC:
        for rc in (False, True):
            one("source:%s %s" % (s, rc), document(P, "ObservationData", ts, rcvr=rc, production=attrs(P, details=("DNK", 4, s) + det[3:])), False, "ABCD04DNK_%s_20221591000_01D_30S_MO.rnx" % ("R" if rc else s))
    for p in PER:
        one("period:" + p, document(P, "ObservationData", ts, production=attrs(P, details=("DNK", 4, "S", p) + det[4:])), False, "ABCD04DNK_S_20221591000_%s_30S_MO.rnx" % p)
    for d, code in ((1, "01S"), (30, "30S"), (60, "01M"), (300, "05M"), (3600, "01H"), (86400, "01D")):
        one("rate:" + code, document(P, "ObservationData", [at(f, d * i) for i in range(4)], production=pr), False, "ABCD04DNK_S_20221591000_01D_%s_MO.rnx" % code)
    for suf in (".gz", "-merged"):
        one("suffix:" + suf, document(P, "ObservationData", ts, production=pr), False, "ABCD04DNK_S_20221591000_01D_30S_MO.rnx" + suf, suffix=suf)
        one("short suffix:" + suf, document(P, "ObservationData", ts, production=pr), True, "ABCD1590.22O" + suf, suffix=suf)
    # custom attributes prevail
    cu = attrs(P, "WXYZ", 2031, 98, details=("FRA", 5, "R", "01H", "15M", 20, 45))
    one("custom:short", document(P, "ObservationData", ts, production=pr), True, "WXYZ0980.31O", custom=cu)
    one("custom:long", document(P, "ObservationData", ts, production=pr), False, "WXYZ05FRA_R_20310982045_01H_30S_MO.rnx", custom=cu)
    one("custom:long nav", document(P, "NavigationData", ts, "GPS", production=pr), False, "WXYZ05FRA_R_20310982045_01H_MG.rnx", custom=cu)
    one("custom:rate when not known", document(P, "ObservationData", ts[:1], production=pr), False, "WXYZ05FRA_R_20310982045_01H_15M_MO.rnx", custom=cu)
    one("custom:ionex", document(P, "IonosphereMaps", ts, production=pr), True, "WXYR0980.31I", custom=attrs(P, "WXYZ", 2031, 98, region="R"))
    one("custom:before 2000", document(P, "ObservationData", ts, production=pr), True, "WXYZ0980.99O", custom=attrs(P, "WXYZ", 1999, 98))
    for t in ("ClockData", "DORIS", "AntennaData"):
        n[0] += 1
        v = q.call(fn, named(P, t, pr), B(True), NONE, NONE, partition=True)
        key = "type:" + t
        if v is BOT:
            R.fail(key, "generating the name of a file of type %s aborts the program, the method is documented as infallible" % t, fn.span)
        else:
            R.ok(key)
    R.floor("names generated", n[0], 180)


def named(P, t, pr):
    V = rinex(P, "ObsRecord", lists.kvmap([]), t)
    hd = struct(P, "header::Header", rinex_type=variant(P, "types::Type", t))
    return agg(V.a[0], V.a[1], V.a[2], V.a[3], [hd if n == "header" else pr if n == "production" else x for n, x in zip(V.a[3], V.a[4])])


def guessing(ctx):
    P, q, R = ctx.P, ctx.q, ctx.r
    fn = method(P, "guess_production_attributes")
    if fn is None:
        return R.unknown("guess", "gone")
    G = next(x for x in P.adts if x.endswith("::GeodeticMarker"))
    mk = {"geodetic_marker": some(struct(P, G, name=S("WXYZ"))), "agency": some(S("AGENCY"))}
    n = 0
    for f in DATES:
        lab = "%04d-%02d-%02dT%02d:%02d:%02d %s" % f
        for typ in ("ObservationData", "NavigationData", "MeteoData"):
            for d in (None, ("DNK", 4, "S", "01D", "30S", 1, 2)):
                v = q.call(fn, document(P, typ, [at(f, 30 * i) for i in range(31)], production=attrs(P, details=d), marker=mk), partition=True)
                w = {"name": "WXYZ", "year": f[0], "doy": doy(f), "hh": f[3], "mm": f[4], "ppu": "QuarterHour", "details": True}
                if d:
                    w.update(country="DNK", batch=4, data_src="Stream", ffu=(30, "Second"))
                key = "guess:%s %s:%s" % (typ, "details" if d else "no details", lab)
                compare(R, key, P, some(v), w, "the attributes guessed for a %s file that starts at %s" % (typ, lab), fn.span)
                n += 1
    for typ, mkr, want in (("IonosphereMaps", mk, "AGENCY"), ("ObservationData", {"geodetic_marker": NONE, "agency": some(S("AGENCY"))}, "AGENCY"), ("ObservationData", {"geodetic_marker": NONE, "agency": NONE}, "ABCD")):
        v = q.call(fn, document(P, typ, [at(DATES[0])], production=attrs(P), marker=mkr), partition=True)
        compare(R, "guess:name %s %s" % (typ, want), P, some(v), {"name": want}, "the attributes guessed for a %s file" % typ, fn.span)
        n += 1
    R.floor("guesses", n, 60)


def run(ctx):
    parsing(ctx)
    sampling(ctx)
    naming(ctx)
    guessing(ctx)
    ctx.r.assume.append("conversions between calendar and time scales are those of the hifitime crate's interface (leap second table of IERS)")

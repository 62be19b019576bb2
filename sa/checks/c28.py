"""C28: look-ups by satellite, time, antenna return the entry that applies."""
import itertools
from lib import *
from checks.c04 import OBS, NONE, some, coll, rinex, method
from checks.c23 import sv, fld, CONST
from evalt import Eval, Unk, close

RULE = (
    "each look-up is abstractly executed on a record holding one entry that fits the query, or differs from it in exactly one component (satellite, constellation, "
    "date, validity, carrier, identifier): an entry that does not fit must never be returned, one that fits must be returnable, with its own content; "
    "where several fit, the ordering term used to choose is evaluated"
)
ANT = "antex::antenna::Antenna"


def antenna(P, spec, vp=None, date=None):
    cal = struct(P, "antex::antenna::Calibration", validity_period=NONE if vp is None else some(tup(I(vp[0]), I(vp[1]))), **({} if date is None else {"date": I(date)}))
    return struct(P, ANT, specific=spec, calibration=cal)


def returned(v, x):
    """True: can return x, False: cannot return anything, None: undecided"""
    if v is None or v is TOP:
        return None
    ms = members(v)
    if any(m is TOP or (m.k == "e" and m.op == "phi") for m in ms):
        return None
    oks = [inner(m) for m in ms if is_ok(m)]
    oks = [o for o in oks if o is not BOT]
    if not oks:
        return False if ms and all(is_err(m) or is_ok(m) for m in ms) else None
    return all(mentions(o, x) for o in oks) or None


def antennas(c):
    P, q, r = c.P, c.q, c.r
    n = 0
    car = lambda s: variant(P, "carrier::Carrier", s)
    apc = E("arg", "apc")
    fdt = [k for k in P.adts if k.endswith("FrequencyDependentData")]
    if not fdt:
        r.unknown("antex", "type gone")
        return
    fd = struct(P, fdt[0], apc_eccentricity=apc)
    rec = lambda a, cc: rinex(P, "AntexRecord", coll(BOT, tup(a, coll(car(cc), fd))))
    AS = "antex::antenna::AntennaSpecific"
    svs = lambda s: variant(P, AS, "SvAntenna", struct(P, "antex::antenna::sv::SvAntenna", sv=s))
    rxs = lambda i, s: variant(P, AS, "RxAntenna", struct(P, "antex::antenna::RxAntenna", igs_type=S(i), serial_number=some(S(s)) if s else NONE))
    G1 = sv(P, "GPS", 1)

    def one(key, m, want, rx, *args):
        nonlocal n
        fn = method(P, m)
        if fn is None:
            r.unknown(key, "gone")
            return
        n += 1
        v = q.call(fn, rx, *args)
        if v.k == "e" and v.op == "iter":
            g = v.args[0]
            got = False if g is BOT else True
        else:
            got = returned(v, apc)
        if got is None:
            r.unknown(key, show(v)[:200])
        else:
            r.check(got == want, key, "%s %s: %s" % (m, "does not return the matching entry" if want else "returns an entry that does not match", show(v)[:160]), fn.span, show(v)[:100])

    for (vp, now, want), date in itertools.product(((None, 5, True), ((2, 8), 5, True), ((6, 8), 5, False), ((2, 4), 5, False)), (None, 1, 9)):
        lab = ("always" if vp is None else "%d-%d" % vp) + ("" if date is None else ", calibrated at %d" % date)
        one("antex:valid:" + lab, "antex_valid_calibrations", want, rec(antenna(P, svs(G1), vp, date), "L1"), I(now))
        one("antex:sv:" + lab, "sv_antenna_apc_offset", want, rec(antenna(P, svs(G1), vp, date), "L1"), I(now), G1, car("L1"))
        fn = meth(P, "Antenna", "is_valid")
        if P.fn(ANT + "::is_valid"):
            v = q.call(P.fn(ANT + "::is_valid"), antenna(P, svs(G1), vp, date), I(now))
            n += 1
            if is_c(v):
                r.check(bool(cval(v)) == want, "antex:is_valid:" + lab, "is_valid at 5 is %s for a calibration valid %s" % (cval(v), lab))
            else:
                r.unknown("antex:is_valid:" + lab, show(v)[:100])
    vp = (2, 8)
    for lab, a, cc, want in (
        ("prn", svs(sv(P, "GPS", 2)), "L1", False),
        ("constellation", svs(sv(P, "Galileo", 1)), "L1", False),
        ("carrier", svs(G1), "L2", False),
        ("receiver", rxs("ABC", "SN1"), "L1", False),
        ("same", svs(G1), "L1", True),
    ):
        one("antex:sv:" + lab, "sv_antenna_apc_offset", want, rec(antenna(P, a, vp), cc), I(5), G1, car("L1"))
    AM = "antex::antenna::AntennaMatcher"
    for kind, val, want in (("IGSCode", "ABC", True), ("IGSCode", "abc", True), ("IGSCode", "AbC", True), ("IGSCode", "SN1", False), ("IGSCode", "ABCD", False), ("SerialNumber", "SN1", True), ("SerialNumber", "sn1", True), ("SerialNumber", "ABC", False), ("SerialNumber", "SN12", False)):
        for low in (("ABC", "SN1"), ("abc", "sn1")):
            one("antex:rx:%s:%s:%s" % (kind, val, low[0]), "rx_antenna_apc_offset", want, rec(antenna(P, rxs(*low), vp), "L1"), I(5), variant(P, AM, kind, S(val)), car("L1"))
    one("antex:rx:no serial", "rx_antenna_apc_offset", False, rec(antenna(P, rxs("ABC", None), vp), "L1"), I(5), variant(P, AM, "SerialNumber", S("ABC")), car("L1"))
    one("antex:rx:carrier", "rx_antenna_apc_offset", False, rec(antenna(P, rxs("ABC", "SN1"), vp), "L2"), I(5), variant(P, AM, "IGSCode", S("ABC")), car("L1"))
    one("antex:rx:satellite", "rx_antenna_apc_offset", False, rec(antenna(P, svs(G1), vp), "L1"), I(5), variant(P, AM, "IGSCode", S("ABC")), car("L1"))
    one("antex:rx:expired", "rx_antenna_apc_offset", False, rec(antenna(P, rxs("ABC", "SN1"), (2, 4)), "L1"), I(5), variant(P, AM, "IGSCode", S("ABC")), car("L1"))
    r.floor("antenna look-ups", n, 30)


DUR = {"GPS": 7200, "QZSS": 7200, "Galileo": 10800, "BeiDou": 21600, "IRNSS": 7200}


def ephemeris(c):
    P, q, r = c.P, c.q, c.r
    m = method(P, "nav_ephemeris_selection")
    if m is None:
        r.unknown("nav", "gone")
        return
    n = 0
    eph = E("arg", "eph")

    def ask(cons, qsv, t, toc, toe, frm="EPH"):
        orders = []

        def hook(I_, f, args, st, fr, b):
            nm = f.get("name")
            if nm == "toe" and "Ephemeris" in (f.get("path") or ""):
                return I_.some(toe)
            if nm in ("min_by_key", "max_by_key") and len(args) == 2:
                it = I_.deref(args[0], st)
                if it.k == "e" and it.op == "iter":
                    orders.append((nm, I_.apply(args[1], [it.args[0]], st, fr, b)))
            elif nm in ("min_by", "max_by", "reduce", "fold", "max", "min", "last", "sorted", "next", "rev"):
                orders.append((nm, None))
            return NotImplemented

        k = struct(P, "navigation::NavKey", sv=cons, epoch=toc, frmtype=variant(P, "navigation::frame::NavFrameType", "Ephemeris"))
        p = variant(P, "navigation::frame::NavFrame", frm, eph)
        v = q.call(m, rinex(P, "NavRecord", coll(k, p)), qsv, t, hooks={"call": hook})
        return v, orders

    def got(v):
        return returned(v, eph)

    def lt(v):
        """fold comparisons of durations with constants"""
        return v

    for cn in ["GPS", "QZSS", "Galileo", "BeiDou", "EGNOS"]:
        S1 = sv(P, cn, 1)
        d = DUR.get(cn)
        for lab, s, want in (("same", S1, True), ("prn", sv(P, cn, 2), False), ("constellation", sv(P, "Galileo" if cn != "Galileo" else "GPS", 1), False)):
            v, _ = ask(s, S1, I(10000), I(9000), I(9500))
            key = "nav:%s:%s" % (cn, lab)
            g = got(v)
            n += 1
            if g is None:
                r.unknown(key, show(v)[:160])
            else:
                r.check(g == want, key, "ephemeris selection %s: %s" % ("misses the satellite's message" if want else "returns the message of another satellite", show(v)[:160]), m.span)
        if cn != "EGNOS":
            v, _ = ask(S1, S1, I(10000), I(10300), I(9500))
            g = got(v)
            n += 1
            if g is None:
                r.unknown("nav:%s:future toc" % cn, show(v)[:160])
            else:
                r.check(not g, "nav:%s:future toc" % cn, "ephemeris selection returns a message of a later time of clock", m.span)
            v, _ = ask(S1, S1, I(10000), I(9000), I(10500))
            g = got(v)
            n += 1
            if g is None:
                r.unknown("nav:%s:future toe" % cn, show(v)[:160])
            else:
                r.check(not g, "nav:%s:future toe" % cn, "ephemeris selection returns a message whose time of ephemeris is in the future", m.span)
        # result: (toc, toe, message)
        toc, toe, t = E("arg", "toc"), E("arg", "toe"), E("arg", "t")
        v, orders = ask(S1, S1, t, toc, toe)
        for o in [inner(x) for x in members(v) if is_ok(x)]:
            if o.k == "agg" and len(o.a[4]) == 3 and not mentions(o, TOP):
                w = (toc, toe if cn != "EGNOS" else toc, eph)
                r.check(o.a[4] == w, "nav:%s:result" % cn, "selection returns %s instead of the time of clock, time of ephemeris and message" % show(o)[:160], m.span, show(o))
                n += 1
        # choice
        ok = [o for o in orders if o[1] is not None]
        if len(orders) == 1 and ok:
            nm, key = ok[0]
            best, worse = ((90.0, 50.0) if cn != "EGNOS" else (90.0, 115.0))
            try:
                f = lambda x: Eval(lambda u: x if u is toc else 100.0 if u is t else x + 3 if u is toe else None)(key)
                kb, kw = f(best), f(worse)
                good = kb < kw if nm == "min_by_key" else kb > kw
                if kb == kw:
                    good = False
                r.check(good, "nav:%s:choice" % cn, "of two valid messages, the one clocked at t-%d is preferred to t-%d (%s %s)" % (100 - worse, 100 - best, nm, show(key)[:120]), m.span, show(key)[:120])
                n += 1
            except (Unk, TypeError) as e:
                r.unknown("nav:%s:choice" % cn, e)
        else:
            r.unknown("nav:%s:choice" % cn, orders)
    # validity window
    iv = meth(P, "Ephemeris", "is_valid")
    for cn, d in list(DUR.items()) + [("Glonass", 1800)]:
        for dt in (-d, -1, 1, d // 2, d - 1, d + 1, 2 * d):
            key = "valid:%s:%d" % (cn, dt)
            v = q.call(iv, E("arg", "e"), sv(P, cn, 1), I(1000000 + dt), I(1000000))
            try:
                g = Eval(lambda u: None)(v)
            except Unk as e:
                r.unknown(key, show(v)[:100])
                continue
            n += 1
            r.check(bool(g) == (0 < dt < d), key, "a %s message is %s %d s after its time of ephemeris" % (cn, "valid" if g else "not valid", dt), iv.span)
    r.floor("ephemeris look-ups", n, 70)


def run(c):
    antennas(c)
    ephemeris(c)

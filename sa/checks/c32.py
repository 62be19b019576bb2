"""C32: listings and summaries of a file are those of its record."""
from lib import *
import lists
from checks.c04 import NONE, some, method, rinex
from checks.c07 import lli_value
from checks.c12 import sv
from checks.c24 import W, sat_of, code_of
from evalt import Eval, Unk

RULE = (
    "each listing (epochs, satellites, constellations, observables, carriers, signal codes) and each summary is abstractly executed on small records of each kind, whose entries "
    "repeat, alternate, carry flags, or stand alone; it must give exactly the items those records contain, each once where every item occurs once, in order where the record orders them"
)

FLAGS = ("Ok", "PowerFailure", "AntennaBeingMoved", "NewSiteOccupation", "HeaderInformationFollows", "ExternalEvent", "CycleSlip")
G, R_, EG, C_, J, S_, I_ = "GPS", "Glonass", "Galileo", "BeiDou", "QZSS", "SBAS", "IRNSS"


def obs_files():
    yield "one entry", [(0, "Ok", [((G, 3), ["L1C"])])]
    yield "no epoch", []
    yield "an epoch without satellite", [(0, "Ok", []), (30, "Ok", [((G, 3), ["L1C"])]), (60, "Ok", [])]
    yield "alternating", [(0, "Ok", [((G, 3), ["L1C", "C1C"]), ((R_, 5), ["C1C"]), ((G, 1), ["L2W"])]), (30, "Ok", [((R_, 5), ["C1C", "L1C"]), ((G, 3), ["S1C"])]), (60, "Ok", [((G, 1), ["L2W"]), ((EG, 3), ["D5Q"])])]
    yield "same number, other systems", [(0, "Ok", [((s, 3), ["C1C"]) for s in (S_, J, EG, R_, G)]), (1, "Ok", [((C_, 3), ["C2I"]), ((I_, 3), ["C5A"])])]
    yield "last satellite only at the end", [(t, "Ok", [((G, 31), ["C1C"])]) for t in (0, 1, 2)] + [(3, "Ok", [((G, 2), ["C1W"])])]
    for f in FLAGS:
        yield "flag " + f, [(0, "Ok", [((G, 3), ["L1C"])]), (30, f, [((G, 4), ["C2W", "X1"])]), (60, "Ok", [((G, 3), ["L1C"])])]
        yield "only " + f, [(7, f, [((EG, 11), ["S5Q"])])]
    yield "two flags at one epoch", [(0, "Ok", [((G, 3), ["L1C"])]), (0, "CycleSlip", [((G, 5), ["L1C"])])]
    yield "two-letter codes", [(0, "Ok", [((G, 3), ["L1", "P2", "C1"]), ((R_, 4), ["P1", "D2", "S1"])])]
    yield "other measurements", [(0, "Ok", [((G, 3), ["X1"]), ((S_, 23), ["C1C", "L5I"])])]
    yield "repeated codes", [(t, "Ok", [((G, p), ["C1C", "L1C", "L2L"]) for p in (9, 2, 5)]) for t in (0, 30, 60)]


class L:
    def __init__(self, w):
        self.w, self.P, self.q, self.r, self.n = w, w.P, w.q, w.r, 0

    def items(self, key, name, R):
        """the items of a listing, or None (recorded as undecided)"""
        fn = method(self.P, name)
        if fn is None:
            self.r.unknown(key, "gone")
            return None, None
        self.n += 1
        v = self.q.call(fn, R, partition=True)
        if v is BOT:
            self.r.fail(key, "%s aborts" % name, fn.span)
            return fn, None
        xs = lists.to_list(None, v) if v.k == "agg" else None
        if xs is None:
            self.r.unknown(key, show(v)[:160])
        return fn, xs

    def listing(self, K, name, R, read, want, once=True, order=None):
        key = "%s:%s" % (name, K)
        fn, xs = self.items(key, name, R)
        if xs is None:
            return
        got = [read(x) for x in xs]
        if any(g is None for g in got):
            self.r.unknown(key, show(xs[got.index(None)])[:160])
            return
        miss, extra = [x for x in want if x not in got], [x for x in got if x not in want]
        if miss or extra:
            self.r.fail(key, "%s gives %s for a record that contains %s" % (name, sorted(map(str, got)), sorted(map(str, want))), fn.span)
        elif once and len(got) != len(set(got)):
            self.r.fail(key, "%s repeats items: %s" % (name, got), fn.span)
        elif order and got != sorted(got, key=order):
            self.r.fail(key, "%s is not in order: %s" % (name, got), fn.span)
        else:
            self.r.ok(key, str(got)[:80])


def num(x):
    return cval(x) if is_c(x, "int") else None


def const(x):
    return x.a[1] if x.k == "agg" and "onstellation" in x.a[0] else None


def text(x):
    return cval(x) if is_str(x) else None


def enum(x):
    return (x.a[1],) + tuple(cval(y) for y in x.a[4] if is_c(y)) if x.k == "agg" else None


def observation(l):
    w, P, q = l.w, l.P, l.q
    carrier = next((P.fn(p) for p in P.bypath if p.endswith("Carrier::from_observable")), None)
    for K, eps in obs_files():
        R = w.file(eps)
        ts = [t for t, f, s in eps]
        sats = {s for t, f, ss in eps for s, cs in ss}
        codes = {c for t, f, ss in eps for s, cs in ss for c in cs}
        l.listing("obs:" + K, "epoch_iter", R, num, set(ts), once=len(set(ts)) == len(ts), order=lambda x: x)
        l.listing("obs:" + K, "sv_iter", R, sat_of, sats)
        l.listing("obs:" + K, "constellations_iter", R, const, {s[0] for s in sats})
        l.listing("obs:" + K, "observables_iter", R, code_of, codes)
        l.listing("obs:" + K, "signal_code_iter", R, text, {c[1:] for c in codes if len(c) == 3})
        if carrier is not None:
            want = set()
            for t, f, ss in eps:
                for s, cs in ss:
                    for c in cs:
                        v = q.call(carrier, variant(P, "gnss::constellation::Constellation", s[0]), w.ob(c))
                        for m in members(v):
                            if is_ok(m):
                                want.add(enum(inner(m)))
            if None not in want:
                l.listing("obs:" + K, "carrier_iter", R, enum, want)


MET = ("PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI")


def met_files():
    yield "none", []
    yield "one", [(0, "TD", 1.0)]
    yield "all", [(t, o, 2.0) for t in (0, 30) for o in MET]
    yield "alternating", [(0, "TD", 1.0), (0, "PR", 2.0), (30, "PR", 2.0), (60, "TD", 0.0), (90, "HR", -1.0)]
    for o in MET:
        yield "only %s, last" % o, [(0, "PR", 1.0), (30, "PR", 1.0), (60, o, 0.0)]
        yield "only %s, first" % o, [(0, o, 0.0), (0, "TD", 1.0), (30, "PR", 1.0), (60, "PR", 1.0)]
    for vs in ((0.0, 0.0, 0.0), (0.0, 1.5, 0.0), (1.0, 2.0, 4.0), (0.0, 0.0, 8.0), (16.0,), ()):
        yield "rain %s" % (vs,), [(30 * i, "RI", v) for i, v in enumerate(vs)] + [(30 * i, "TD", 20.0) for i in range(3)]
        yield "hail %s" % (vs,), [(30 * i, "HI", v) for i, v in enumerate(vs)] + [(30 * i, "RI", 0.0) for i in range(2)] + [(30 * i, "PR", 900.0) for i in range(3)]


def meteo(l):
    w, P, q, r = l.w, l.P, l.q, l.r
    for K, es in met_files():
        es = sorted(es, key=lambda e: (e[0], MET.index(e[1])))
        R = rinex(P, "MeteoRecord", lists.kvmap([(struct(P, "meteo::MeteoKey", epoch=I(t), observable=w.ob(o)), C("f64", v)) for t, o, v in es]))
        l.listing("met:" + K, "epoch_iter", R, num, {t for t, o, v in es}, order=lambda x: x)
        names = {show(w.ob(o)) for t, o, v in es}
        l.listing("met:" + K, "observables_iter", R, show, names)
        l.listing("met:" + K, "sv_iter", R, sat_of, set())
        rain = sum(v for t, o, v in es if o == "RI")
        for name, want in (("total_accumulated_rain", rain), ("rain_detected", rain > 0), ("hail_detected", any(o == "HI" and v > 0 for t, o, v in es))):
            fn = method(P, name)
            key = "%s:%s" % (name, K)
            if fn is None:
                r.unknown(key, "gone")
                continue
            l.n += 1
            v = q.call(fn, R, partition=True)
            if is_c(v):
                r.check(cval(v) == want, key, "%s is %s for %s" % (name, cval(v), [e for e in es if e[1] in ("RI", "HI")]), fn.span)
            else:
                r.unknown(key, show(v)[:160])


def doris(l):
    w, P = l.w, l.P
    so = struct(P, "doris::SignalObservation")
    flag = w.flag
    for K, eps in (
        ("none", []),
        ("one", [(0, "Ok", ["L1"])]),
        ("several", [(0, "Ok", ["L1", "C1"]), (10, "Ok", ["C1", "L2", "T"]), (20, "Ok", ["L1"])]),
        ("flags", [(0, "Ok", ["L1"]), (10, "PowerFailure", ["C2"]), (20, "ExternalEvent", []), (30, "CycleSlip", ["P"])]),
        ("empty epochs", [(0, "Ok", []), (10, "Ok", ["H"]), (20, "Ok", [])]),
    ):
        def keyof(o):
            return struct(P, "doris::SignalKey", observable=w.ob(MAP.get(o, o)))

        MAP = {"T": "TD", "P": "PR", "H": "HR"}
        rec = lists.kvmap([(struct(P, "doris::DorisKey", epoch=I(t), flag=variant(P, flag, f)), struct(P, "doris::Observations", signals=lists.kvmap([(keyof(o), so) for o in os]))) for t, f, os in eps])
        R = rinex(P, "DorisRecord", rec)
        l.listing("doris:" + K, "epoch_iter", R, num, {t for t, f, o in eps}, order=lambda x: x)
        l.listing("doris:" + K, "observables_iter", R, show, {show(w.ob(MAP.get(o, o))) for t, f, os in eps for o in os})
        l.listing("doris:" + K, "sv_iter", R, sat_of, set())


def navigation(l):
    P = l.P
    FR = {"EPH": "Ephemeris", "STO": "SystemTimeOffset", "EOP": "EarthOrientation", "ION": "IonosphereModel"}
    msg = next(k for k in P.adts if k.endswith("NavMessageType"))
    for K, es in (
        ("none", []),
        ("one", [(0, (G, 1), "EPH")]),
        ("several at one epoch", [(0, (G, 1), "EPH"), (0, (G, 9), "EPH"), (0, (EG, 1), "EPH")]),
        ("alternating", [(0, (R_, 4), "EPH"), (0, (G, 4), "EPH"), (7200, (G, 4), "EPH"), (7200, (C_, 21), "EPH"), (9000, (R_, 4), "EPH")]),
        ("all frames", [(0, (G, 1), "EPH"), (10, (G, 2), "STO"), (20, (EG, 3), "EOP"), (30, (C_, 4), "ION")]),
        ("only ionosphere", [(5, (G, 12), "ION")]),
        ("only system time", [(5, (R_, 12), "STO")]),
    ):
        rec = lists.kvmap([(struct(P, "navigation::NavKey", epoch=I(t), sv=sv(P, *s), msgtype=variant(P, msg, "LNAV"), frmtype=variant(P, "navigation::frame::NavFrameType", FR[f])), variant(P, "navigation::frame::NavFrame", f, E("arg", "frame"))) for t, s, f in es])
        R = rinex(P, "NavRecord", rec)
        ts = [t for t, s, f in es]
        l.listing("nav:" + K, "epoch_iter", R, num, set(ts), once=len(ts) == len(set(ts)), order=lambda x: x)
        l.listing("nav:" + K, "sv_iter", R, sat_of, {s for t, s, f in es})
        l.listing("nav:" + K, "constellations_iter", R, const, {s[0] for t, s, f in es})
        l.listing("nav:" + K, "observables_iter", R, code_of, set())


def clock(l):
    P = l.P
    prof = struct(P, "clock::record::ClockProfile")
    for K, es in (
        ("none", []),
        ("one satellite", [(0, [("SV", (G, 3))])]),
        ("one station", [(0, [("Station", "USNO")])]),
        ("station then satellite", [(0, [("Station", "USNO")]), (30, [("SV", (G, 3))])]),
        ("mixed", [(0, [("SV", (G, 3)), ("Station", "A"), ("SV", (R_, 3))]), (30, [("SV", (G, 3))]), (60, [("SV", (EG, 5)), ("SV", (G, 3))])]),
        ("alternating", [(0, [("SV", (G, 3))]), (30, [("SV", (C_, 7))]), (60, [("SV", (G, 3))])]),
    ):
        for pt in ("AS", "AR", "DR", "MS"):
            PT = next(k for k in P.adts if k.endswith("ClockProfileType"))

            def keyof(kind, a):
                return struct(P, "clock::record::ClockKey", clock_type=variant(P, "clock::record::ClockType", kind, sv(P, *a) if kind == "SV" else S(a)), profile_type=variant(P, PT, pt))

            R = rinex(P, "ClockRecord", lists.kvmap([(I(t), lists.kvmap([(keyof(*x), prof) for x in xs])) for t, xs in es]))
            sats = {a for t, xs in es for k, a in xs if k == "SV"}
            l.listing("clk:%s:%s" % (K, pt), "epoch_iter", R, num, {t for t, xs in es}, order=lambda x: x)
            l.listing("clk:%s:%s" % (K, pt), "sv_iter", R, sat_of, sats)
            l.listing("clk:%s:%s" % (K, pt), "constellations_iter", R, const, {s[0] for s in sats})


def quant(P, v, e):
    ty = next(k for k in P.adts if k.endswith("::Quantized"))
    return struct(P, ty, quantized=I(v), exponent=I(e))


def ionex(l):
    P, q, r = l.P, l.q, l.r
    tec = next(k for k in P.adts if k.endswith("::TEC"))
    co = next(k for k in P.adts if k.endswith("::QuantizedCoordinates"))

    def key(t, a, o, h):
        return struct(P, "ionex::IonexKey", epoch=I(t), coordinates=struct(P, co, latitude=quant(P, a, 1), longitude=quant(P, o, 1), altitude=quant(P, h, 0)))

    for K, es in (
        ("none", []),
        ("one", [(0, 875, -1800, 450, 31, None)]),
        ("several", [(t, a, o, 450, 10 * t + a + o, None) for t in (0, 7200) for a in (0, 25) for o in (-5, 0, 5)]),
        ("RMS values", [(t, a, 10, 350, 40 + t + a, 7 + a if (t, a) != (1, 0) else None) for t in (0, 1, 2) for a in (0, 25)]),
        ("null RMS", [(0, 0, 0, 450, 12, 0), (1, 0, 0, 450, 0, 3)]),
    ):
        rec = lists.kvmap([(key(t, a, o, h), struct(P, tec, tecu=quant(P, v, 1), rms=NONE if m is None else some(quant(P, m, 1)), height=NONE)) for t, a, o, h, v, m in es])
        R = rinex(P, "IonexRecord", rec)
        l.listing("ionex:" + K, "epoch_iter", R, num, {e[0] for e in es}, order=lambda x: x)
        l.listing("ionex:" + K, "sv_iter", R, sat_of, set())

        def flat(v):
            ev = Eval(lambda u: None)
            try:
                return tuple(round(float(cval(x)) if is_c(x) else ev(x), 9) for x in v.a[4])
            except (Unk, AttributeError, TypeError):
                return None

        l.listing("ionex:" + K, "ionex_tecu_latlong_ddeg_alt_km_iter", R, flat, {(float(t), a / 10, o / 10, float(h), v / 10) for t, a, o, h, v, m in es})

        def keyed(v):
            try:
                k, x = v.a[4]
                return (show(k), round(Eval(lambda u: None)(x), 9))
            except (Unk, AttributeError, ValueError):
                return None

        l.listing("ionex:" + K, "ionex_rms_tec_maps_iter", R, keyed, {(show(key(t, a, o, h)), m / 10) for t, a, o, h, v, m in es if m is not None})
    # what the header says of the maps
    ls = next(k for k in P.adts if k.endswith("::Linspace"))
    gr = next(k for k in P.adts if k.endswith("grid::Grid"))
    hf = next(k for k in P.adts if k.endswith("ionex::header::HeaderFields") or k == "ionex::HeaderFields")

    def lsp(a, b, s):
        return struct(P, ls, start=C("f64", a), end=C("f64", b), spacing=C("f64", s))

    for K, lat, lon, hgt, dim in (
        ("global", (87.5, -87.5, -2.5), (-180.0, 180.0, 5.0), (450.0, 450.0, 0.0), 2),
        ("northwards", (-87.5, 87.5, 2.5), (0.0, 355.0, 5.0), (350.0, 350.0, 0.0), 2),
        ("westwards", (60.0, 30.0, -1.0), (40.0, -20.0, -2.0), (450.0, 450.0, 0.0), 2),
        ("3D", (60.0, 30.0, -1.0), (-20.0, 40.0, 2.0), (200.0, 800.0, 100.0), 3),
        ("3D downwards", (30.0, 60.0, 1.0), (-20.0, 40.0, 2.0), (800.0, 200.0, -100.0), 3),
    ):
        h = struct(P, hf, grid=struct(P, gr, latitude=lsp(*lat), longitude=lsp(*lon), height=lsp(*hgt)), map_dimension=I(dim))
        R = rinex(P, "IonexRecord", lists.kvmap([]))
        hd = struct(P, "header::Header", rinex_type=variant(P, "types::Type", "IonosphereMaps"), ionex=some(h))
        R = agg(R.a[0], R.a[1], R.a[2], R.a[3], [hd if n == "header" else x for n, x in zip(R.a[3], R.a[4])])

        def pair(x):
            return (min(x[:2]), max(x[:2]))

        for name, want in (
            ("tec_map_borders", [pair(lat), pair(lon)]),
            ("ionex_altitude_range_km", pair(hgt)),
            ("ionex_2d_fixed_altitude_km", hgt[0] if dim == 2 else None),
            ("is_ionex_2d", dim == 2),
            ("is_ionex_3d", dim == 3),
        ):
            fn = method(P, name)
            kk = "%s:%s" % (name, K)
            if fn is None:
                r.unknown(kk, "gone")
                continue
            l.n += 1
            v = q.call(fn, R, partition=True)
            leaves = []

            def nums(x):
                if is_c(x):
                    leaves.append(cval(x))
                elif x.k == "agg":
                    for y in x.a[4]:
                        nums(y)
                else:
                    leaves.append(None)

            nums(v)
            flatw = [want] if isinstance(want, bool) else [] if want is None else [y for x in want for y in (x if isinstance(x, tuple) else (x,))] if isinstance(want, (list, tuple)) else [want]
            if None in leaves:
                r.unknown(kk, show(v)[:160])
            else:
                r.check([float(x) for x in leaves] == [float(x) for x in flatw], kk, "%s gives %s for latitudes %s, longitudes %s, heights %s" % (name, leaves, lat[:2], lon[:2], hgt[:2]), fn.span)


def run(c):
    w = W(c)
    l = L(w)
    for f in (observation, meteo, doris, navigation, clock, ionex):
        f(l)
    c.r.floor("listings and summaries", l.n, 350)

"""C06: a written header is a header: labels in their columns, and the header parser gives back every field the writer was given."""
from templ import *
import dates
import re

RULE = (
    "the header writer is abstractly executed on headers whose fields hold unknown text and numbers (of known width); the resulting lines must carry their label in columns 61-80, and the header "
    "parser, abstractly executed on those very lines, must give back each field from the columns it was written to"
)
CONST = "gnss::constellation::Constellation"
OBSB = "observable::Observable"
SVT = "gnss::sv::SV"
TS = "hifitime::TimeScale"
NONE = agg(OPT, "None", 0, (), ())
LET = {"C": "PseudoRange", "P": "PseudoRange", "L": "PhaseRange", "D": "Doppler", "S": "SSI"}
LABELS = """RINEX VERSION / TYPE|PGM / RUN BY / DATE|COMMENT|MARKER NAME|MARKER NUMBER|MARKER TYPE|OBSERVER / AGENCY|REC # / TYPE / VERS|ANT # / TYPE|APPROX POSITION XYZ|ANTENNA: DELTA H/E/N|INTERVAL|
LEAP SECONDS|GLONASS SLOT / FRQ #|TIME OF FIRST OBS|TIME OF LAST OBS|# / TYPES OF OBSERV|SYS / # / OBS TYPES|CRINEX VERS   / TYPE|CRINEX PROG / DATE|SENSOR MOD/TYPE/ACC|SENSOR POS XYZ/H|# / TYPES OF DATA|TIME SYSTEM ID|
END OF HEADER|SYS / SCALE FACTOR|RCV CLOCK OFFS APPL|DOI|LICENSE OF USE|STATION INFORMATION|SYS / DCBS APPLIED|SYS / PCVS APPLIED|ANTENNA: DELTA X/Y/Z|ANALYSIS CENTER|STATION NAME / NUM|STATION CLK REF|COSPAR NUMBER|WAVELENGTH FACT L1/2|SIGNAL STRENGTH UNIT""".replace("\n", "").split("|")


# decimals of the numbers of the formats
DECIMALS = (("approx [xyz]", 4), ("antenna (height|east|north|x|y|z)", 4), ("sensor [xyz]$", 4), ("sensor height", 4), ("sensor accuracy", 1))


def some(v):
    return agg(OPT, "Some", 1, ("0",), (v,))


def blank(P, ty, **kw):
    """a value holding nothing but the given fields"""
    if ty not in P.adts:
        return None
    fl = P.adts[ty]["variants"][0][2]
    fs = []
    for n, t, _ in fl:
        t = str(t)
        if n in kw:
            v = kw[n]
        elif t.startswith("std::option::Option"):
            v = NONE
        elif "HashMap<" in t or "BTreeMap<" in t:
            v = lists.kvmap([])
        elif "Vec<" in t:
            v = arrv([])
        elif t in ("u8", "u16", "u32", "usize", "i8", "u64", "i32"):
            v = I(0)
        elif t == "bool":
            v = B(False)
        elif t.endswith("String"):
            v = S("")
        else:
            v = E("f", n, E("arg", ty.split("::")[-1]))
        fs.append(v)
    return agg(ty, "", 0, [f[0] for f in fl], fs)


def con(P, n):
    return variant(P, CONST, n)


def scenarios(P):
    """(name, header, [(label, path, value written)])"""
    HD = [p for p in P.adts if p.split("::")[-1] == "Header" and p.startswith("header")]
    HF = {k: [p for p in P.adts if p.split("::")[-1] == "HeaderFields" and p.split("::")[0] == k and "_" not in p] for k in ("observation", "meteo", "clock")}
    if not HD:
        return
    ty = [p for p in P.adts if p.split("::")[-1] == "Type" and p.startswith("types")]

    def ver(a, b):
        return struct(P, "version::Version", major=I(a), minor=I(b))

    def typ(n):
        return variant(P, ty[0], n)

    def H(**kw):
        kw.setdefault("version", ver(3, 5))
        kw.setdefault("rinex_type", typ("ObservationData"))
        kw.setdefault("constellation", some(con(P, "GPS")))
        return blank(P, HD[0], **kw)

    def F(n, w):
        return tmpl(cell(n, w, "f"))

    def A(n):
        return E("arg", n)

    def o(c):
        return variant(P, OBSB, LET[c[0]], S(c))

    def sv(c, n):
        return struct(P, SVT, prn=I(n), constellation=con(P, c))

    def codes(cs):
        return lists.kvmap([(con(P, c), arrv([o(x) for x in xs])) for c, xs in cs])

    def obs(cs, **kw):
        return some(blank(P, HF["observation"][0], codes=codes(cs), **kw))

    def sc(name, h, *exps):
        if h is not None:
            return (name, h, list(exps))

    # identification
    p, r, d = F("program", 12), F("run by", 9), F("date", 19)
    yield sc("identification", H(program=some(p), run_by=some(r), date=some(d)), ("program", ("program",), p), ("run by", ("run_by",), r), ("date", ("date",), d))
    yield sc("run by alone", H(run_by=some(r)), ("run by alone", ("run_by",), r))
    yield sc("date alone", H(date=some(d)), ("date alone", ("date",), d))
    yield sc("program alone", H(program=some(p)), ("program alone", ("program",), p))
    f = F("full program", 20), F("full run by", 20), F("full date", 20)
    yield sc("full identification", H(program=some(f[0]), run_by=some(f[1]), date=some(f[2])), ("full program", ("program",), f[0]), ("full run by", ("run_by",), f[1]), ("full date", ("date",), f[2]))
    a, b = F("observer", 12), F("agency", 30)
    yield sc("observer", H(observer=some(a), agency=some(b)), ("observer", ("observer",), a), ("agency", ("agency",), b))
    yield sc("agency alone", H(agency=some(b)), ("agency alone", ("agency",), b))
    yield sc("observer alone", H(observer=some(a)), ("observer alone", ("observer",), a))
    c = [F("comment 1", 30), F("comment 2", 59)]
    yield sc("comments", H(comments=arrv(c)), ("first comment", ("comments", 0), c[0]), ("second comment", ("comments", 1), c[1]))
    m = F("marker name", 4)
    mk = [x for x in P.adts if x.split("::")[-1] == "GeodeticMarker"]
    mt = [x for x in P.adts if x.split("::")[-1] == "MarkerType"]
    if mk and mt:
        g = blank(P, mk[0], name=m, identification=some(I(10003)), monument=some(I(4)), marker_type=some(variant(P, mt[0], "Geodetic")))
        yield sc("marker", H(geodetic_marker=some(g)), ("marker name", ("geodetic_marker", "name"), m), ("marker identification", ("geodetic_marker", "identification"), I(10003)), ("marker monument", ("geodetic_marker", "monument"), I(4)), ("marker type", ("geodetic_marker", "marker_type"), variant(P, mt[0], "Geodetic")))
        yield sc("marker name only", H(geodetic_marker=some(blank(P, mk[0], name=m))), ("marker name, no number", ("geodetic_marker", "name"), m))
        for v in P.adts[mt[0]]["variants"]:
            if not v[2]:
                x = variant(P, mt[0], v[0])
                yield sc("marker type " + v[0], H(geodetic_marker=some(blank(P, mk[0], name=m, marker_type=some(x)))), ("marker type " + v[0], ("geodetic_marker", "marker_type"), x))
    # hardware
    rc = [x for x in P.adts if x == "hardware::Receiver"]
    if rc:
        t = F("receiver number", 9), F("receiver type", 20), F("receiver version", 8)
        yield sc("receiver", H(rcvr=some(struct(P, rc[0], sn=t[0], model=t[1], firmware=t[2]))), ("receiver number", ("rcvr", "sn"), t[0]), ("receiver type", ("rcvr", "model"), t[1]), ("receiver version", ("rcvr", "firmware"), t[2]))
    an = [x for x in P.adts if x == "hardware::Antenna"]
    if an:
        t = F("antenna number", 9), F("antenna type", 20)
        x = [A("antenna height"), A("antenna east"), A("antenna north")]
        yield sc("antenna", H(rcvr_antenna=some(blank(P, an[0], sn=t[0], model=t[1], height=some(x[0]), eastern=some(x[1]), northern=some(x[2])))),
                 ("antenna number", ("rcvr_antenna", "sn"), t[0]), ("antenna type", ("rcvr_antenna", "model"), t[1]), ("antenna height", ("rcvr_antenna", "height"), x[0]), ("antenna east", ("rcvr_antenna", "eastern"), x[1]), ("antenna north", ("rcvr_antenna", "northern"), x[2]))
    x = [A("approx " + n) for n in "xyz"]
    yield sc("approx position", H(rx_position=some(tup(*x))), *[("approx " + n, ("rx_position", i), x[i]) for i, n in enumerate("xyz")])
    x = A("interval")
    yield sc("interval", H(sampling_interval=some(x)), ("interval", ("sampling_interval",), x))
    lp = [x for x in P.adts if x.split("::")[-1] == "Leap" and x.startswith("leap")]
    if lp:
        x = [A("leap"), A("delta tls"), A("week"), A("day")]
        yield sc("leap", H(leap=some(blank(P, lp[0], leap=x[0]))), ("leap", ("leap", "leap"), x[0]))
        full = dict(leap=x[0], delta_tls=some(x[1]), week=some(x[2]), day=some(x[3]))
        for t in (None, "GPST", "BDT"):
            w = dict(full, timescale=some(variant(P, TS, t))) if t else full
            yield sc("full leap %s" % t, H(leap=some(blank(P, lp[0], **w))), *([("full leap %s: %s" % (t, k), ("leap", k), v) for k, v in full.items()] + [("full leap %s: timescale" % t, ("leap", "timescale"), w.get("timescale", NONE))]))
    for n in list(range(1, 18)) + [24]:
        x = [(sv("Glonass", i + 1), A("channel %d" % (i + 1))) for i in range(n)]
        yield sc("%d glonass channels" % n, H(glo_channels=lists.kvmap(x)), *[("%d glonass channels: R%02d" % (n, i + 1), ("glo_channels", k), v) for i, (k, v) in enumerate(x)])
    # observables
    if HF["observation"]:
        c2 = "L1 L2 C1 P1 P2 D1 D2 S1 S2 C2 C5 L5 D5 S5 C7 L7 D7 S7 C8 L8 D8".split()
        c3 = "C1C L1C D1C S1C C2W L2W D2W S2W C5Q L5Q D5Q S5Q C1W L1W C2L L2L D2L S2L C5X L5X D5X S5X C1L L1L D1L S1L C2X L2X".split()
        for n in list(range(1, 21)):
            x = c2[:n]
            yield sc("%d observables, RINEX 2" % n, H(version=ver(2, 11), obs=obs([("GPS", x)])), ("%d observables, RINEX 2" % n, ("obs", "codes", con(P, "GPS")), arrv([o(y) for y in x])))
        for n in list(range(1, 29)):
            x, y = c3[:n], c3[n:][:13]
            yield sc("%d observables, RINEX 3" % n, H(constellation=some(con(P, "Mixed")), obs=obs([("GPS", x), ("Galileo", y)] if y else [("GPS", x)])), ("%d observables, RINEX 3" % n, ("obs", "codes", con(P, "GPS")), arrv([o(z) for z in x])),
                     *([("%d observables, RINEX 3, other system" % n, ("obs", "codes", con(P, "Galileo")), arrv([o(z) for z in y]))] if y else []))
        for t in ("GPST", "BDT", "GST", "QZSST", "UTC"):
            e, l = dates.epoch(2021, 1, 2, 3, 4, 5, 123456700, t), dates.epoch(2021, 11, 22, 13, 24, 35, 0, t)
            yield sc("time of first and last obs, %s" % t, H(constellation=some(con(P, "Mixed")), obs=obs([("GPS", ["C1C"])], timeof_first_obs=some(e), timeof_last_obs=some(l))), ("time of first obs, %s" % t, ("obs", "timeof_first_obs"), e), ("time of last obs, %s" % t, ("obs", "timeof_last_obs"), l))
        e = dates.epoch(1998, 12, 31, 23, 59, 59, 999999900, "GPST")
        yield sc("time of first obs, RINEX 2", H(version=ver(2, 11), obs=obs([("GPS", ["C1"])], timeof_first_obs=some(e))), ("time of first obs, RINEX 2", ("obs", "timeof_first_obs"), e))
        cx = [x for x in P.adts if x.split("::")[-1] == "CRINEX" and "_" not in x]
        if cx:
            p, e = F("compact program", 17), dates.epoch(2021, 1, 2, 3, 4, 0, 0, "UTC")
            for a, b in ((1, 0), (3, 0)):
                yield sc("compact RINEX %d" % a, H(obs=obs([("GPS", ["C1C"])], crinex=some(struct(P, cx[0], version=ver(a, b), prog=p, date=e)))), ("compact RINEX %d program" % a, ("obs", "crinex", "prog"), p), ("compact RINEX %d revision" % a, ("obs", "crinex", "version", "major"), I(a)), ("compact RINEX %d date" % a, ("obs", "crinex", "date"), e))
            for y, mo, d, h, mi in ((2000, 1, 1, 0, 0), (2005, 2, 3, 4, 5), (2009, 12, 31, 23, 59), (2010, 5, 6, 7, 8), (1998, 9, 10, 10, 11), (2079, 9, 10, 10, 11), *((2022, m, 12, 13, 14) for m in range(1, 13))):
                e2 = dates.epoch(y, mo, d, h, mi, 0, 0, "UTC")
                yield sc("compact RINEX of %04d-%02d" % (y, mo), H(obs=obs([("GPS", ["C1C"])], crinex=some(struct(P, cx[0], version=ver(3, 0), prog=S("prog"), date=e2)))), ("compact RINEX of %04d-%02d, date" % (y, mo), ("obs", "crinex", "date"), e2))
    if HF["meteo"]:
        mo = [v[0] for v in P.adts[OBSB]["variants"] if not v[2] and v[0] in ("Pressure", "Temperature", "HumidityRate", "ZenithWetDelay", "ZenithDryDelay", "ZenithTotalDelay", "WindDirection", "WindSpeed", "RainIncrement", "HailIndicator")]
        for n in range(1, len(mo) + 1):
            x = [variant(P, OBSB, k) for k in mo[:n]]
            yield sc("%d meteo observables" % n, H(rinex_type=typ("MeteoData"), constellation=NONE, meteo=some(blank(P, HF["meteo"][0], codes=arrv(x)))), ("%d meteo observables" % n, ("meteo", "codes"), arrv(x)))
        st = [x for x in P.adts if x.split("::")[-1] == "Sensor" and x.startswith("meteo")]
        if st:
            w = dict(observable=variant(P, OBSB, "Pressure"), model=some(F("sensor model", 7)), sensor_type=some(F("sensor type", 12)), accuracy=some(A("sensor accuracy")))
            pos = dict(position=some(tup(*[A("sensor " + k) for k in "xyz"])), height=some(A("sensor height")))
            other = blank(P, st[0], observable=variant(P, OBSB, "Temperature"))
            cd = arrv([variant(P, OBSB, k) for k in ("Pressure", "Temperature")])
            for nm, kw in (("sensor", w), ("sensor with position", dict(w, **pos))):
                exps = [("%s: %s" % (nm, k), ("meteo", "sensors", 0, k), v) for k, v in kw.items()]
                yield sc(nm, H(rinex_type=typ("MeteoData"), constellation=NONE, meteo=some(blank(P, HF["meteo"][0], codes=cd, sensors=arrv([blank(P, st[0], **kw)])))), *exps)
    if HF["clock"]:
        ct = [x for x in P.adts if x.split("::")[-1] == "ClockProfileType" and "_" not in x]
        if ct:
            kinds = [v[0] for v in P.adts[ct[0]]["variants"]]
            for n in range(1, len(kinds) + 1):
                x = arrv([variant(P, ct[0], k) for k in kinds[:n]])
                yield sc("%d clock data types" % n, H(rinex_type=typ("ClockData"), constellation=some(con(P, "GPS")), clock=some(blank(P, HF["clock"][0], codes=x))), ("%d clock data types" % n, ("clock", "codes"), x))
        for t in ("GPST", "UTC", "TAI"):
            x = variant(P, TS, t)
            yield sc("clock time system %s" % t, H(rinex_type=typ("ClockData"), constellation=some(con(P, "GPS")), clock=some(blank(P, HF["clock"][0], timescale=some(x)))), ("clock time system %s" % t, ("clock", "timescale"), x))
    # values in full: fractions, signs and zeros keep every decimal the format has
    F64 = lambda x: C("f64", x)
    for t in (0.01, 0.1, 0.5, 0.25, 1.0, 30.0, 86400.0):
        yield sc("interval %s" % t, H(sampling_interval=some(F64(t))), ("interval %s" % t, ("sampling_interval",), F64(t)))
    for xs in ((0.0, 6378137.0, 0.0), (-3000000.1234, 0.0001, -6356752.3142), (-0.5, -10.25, 1.0)):
        yield sc("approx position %s" % (xs,), H(rx_position=some(tup(*[F64(x) for x in xs]))), *[("approx %s of %s" % (n, xs), ("rx_position", i), F64(xs[i])) for i, n in enumerate("xyz")])
        if an:
            ks = ("height", "eastern", "northern")
            yield sc("antenna %s" % (xs,), H(rcvr_antenna=some(blank(P, an[0], sn=S("1234"), model=S("TYPE           NONE"), **{k: some(F64(x)) for k, x in zip(ks, xs)}))), *[("antenna %s of %s" % (k, xs), ("rcvr_antenna", k), F64(x)) for k, x in zip(ks, xs)])
    if lp:
        for l in (0, 9, 18, 100):
            for a, b, w, d in ((None,) * 4, (18, 19, 1929, 7), (-1, 0, 0, 1)):
                kw = dict(leap=I(l)) if b is None else dict(leap=I(l), delta_tls=some(I(b)), week=some(I(w)), day=some(I(d)))
                yield sc("leap %s %s" % (l, w), H(leap=some(blank(P, lp[0], **kw))), *[("leap %s %s: %s" % (l, w, k), ("leap", k), v) for k, v in kw.items()])
    for n in (7, 8, 9, 24):
        x = [(sv("Glonass", i + 1), I((i * 5) % 14 - 7)) for i in range(n)]
        yield sc("%d given glonass channels" % n, H(glo_channels=lists.kvmap(x)), *[("%d given glonass channels: R%02d" % (n, i + 1), ("glo_channels", k), v) for i, (k, v) in enumerate(x)])
    if HF["meteo"]:
        st = [x for x in P.adts if x.split("::")[-1] == "Sensor" and x.startswith("meteo")]
        if st:
            ss, exps = [], []
            for i, (o_, xs, acc) in enumerate((("Pressure", (1.5, -2.0, 0.0, 100.25), 0.1), ("Temperature", (0.0, 0.0, 0.0, 0.0), 0.5), ("HumidityRate", (-4000000.1, 4000000.2, 3.3, -4.4), 0.0))):
                kw = dict(observable=variant(P, OBSB, o_), model=some(S("model %d" % i)), sensor_type=some(S("type %d" % i)), accuracy=some(C("f32", acc) if False else F64(acc)), position=some(tup(*[F64(x) for x in xs[:3]])), height=some(F64(xs[3])))
                ss.append(blank(P, st[0], **kw))
                exps += [("three sensors: %d: %s" % (i, k), ("meteo", "sensors", i, k), v) for k, v in kw.items()]
            yield sc("three sensors", H(rinex_type=typ("MeteoData"), constellation=NONE, meteo=some(blank(P, HF["meteo"][0], codes=arrv([variant(P, OBSB, k) for k in ("Pressure", "Temperature", "HumidityRate")]), sensors=arrv(ss)))), *exps)
    # file types
    for t, fld in (("ObservationData", "observation"), ("NavigationData", None), ("MeteoData", "meteo"), ("ClockData", "clock")):
        for c in ("GPS", "Glonass", "Galileo", "BeiDou", "QZSS", "IRNSS", "SBAS", "Mixed"):
            if t in ("MeteoData", "ClockData") and c != "GPS":
                continue
            for a, b in ((2, 11), (3, 5), (4, 0)):
                if a == 2 and (c in ("Galileo", "BeiDou", "QZSS", "IRNSS") or t == "ClockData"):
                    continue  # revision 2 knows none of these
                if a == 4 and t in ("MeteoData", "ClockData"):
                    continue
                kw = {}
                if fld and HF[fld]:
                    kw[{"observation": "obs"}.get(fld, fld)] = some(blank(P, HF[fld][0]))
                nm = "%s %s %d.%02d" % (t, c if t in ("ObservationData", "NavigationData") else "", a, b)
                v = con(P, c)
                exps = [("type of " + nm, ("rinex_type",), typ(t)), ("major of " + nm, ("version", "major"), I(a)), ("minor of " + nm, ("version", "minor"), I(b))]
                if t in ("ObservationData", "NavigationData"):
                    exps.append(("constellation of " + nm, ("constellation",), v))
                yield sc("file type " + nm, H(version=ver(a, b), rinex_type=typ(t), constellation=some(v) if t not in ("MeteoData", "ClockData") else NONE, **kw), *exps)


def split(t):
    """lines of a text value"""
    out, cur = [], []
    for s in t.args if is_t(t) else (t,):
        if is_c(s, "str"):
            ps = cval(s).split("\n")
            for i, p in enumerate(ps):
                if i:
                    out.append(tmpl(*cur) if cur else S(""))
                    cur = []
                if p:
                    cur.append(S(p))
        else:
            cur.append(s)
    if cur:
        out.append(tmpl(*cur))
    return out


def shown(t):
    return "".join(cval(x) if is_c(x) else "<%s:%d>" % (x.meta[0], x.meta[2] - x.meta[1]) for x in (t.args if is_t(t) else (t,)))


def label_of(t):
    """what is written from column 61 on: text, or None when a value reaches into it"""
    n, out = 0, ""
    for x in t.args if is_t(t) else (t,):
        w = len(cval(x)) if is_c(x) else x.meta[2] - x.meta[1]
        if n + w > 60:
            if not is_c(x):
                return None
            out += cval(x)[max(0, 60 - n):]
        n += w
    return out


def same(a, b, reg):
    """written a, parsed b: 'ok', 'bad', 'unk'"""
    if b is None:
        return ("ok", "") if a.k == "agg" and a.a[1] == "None" else ("bad", "it is absent from what is read")
    if b is TOP or vague(b):
        return "unk", show(b)[:200]
    ua, ub = unopt(a), unopt(b)
    if ub.k == "e" and ub.op == "call" and str(ub.meta).endswith("Duration::from_seconds") and len(ub.args) == 1 and is_c(ua, "f64"):
        ub = ub.args[0]
    if ua.k == "agg" and ua.a[1] == "None":
        if ub.k == "agg" and ub.a[1] == "None":
            return "ok", ""
        return ("bad", "read as %s although nothing was written" % show(ub)[:120]) if b.k == "agg" else ("unk", show(b)[:120])
    if ub.k == "agg" and ub.a[1] in ("None", "Err"):
        return "bad", "it is absent from what is read"
    if ua.k == "c":
        if ub.k == "c":
            return ("ok", "") if cval(ua) == cval(ub) or (is_c(ua, "f64") and is_c(ub, "f64") and close(cval(ua), cval(ub), 1e-9)) else ("bad", "%r is read as %r" % (cval(ua), cval(ub)))
        return "unk", show(ub)[:200]
    if is_t(ua):
        t = text_of(ub)
        if is_t(t):
            return ("ok", "") if t.args == ua.args else ("bad", "%s is read as %s" % (shown(ua), shown(t)))
        return ("bad", "%s is read as %s" % (shown(ua), show(t)[:160])) if is_c(t, "str") else ("unk", show(t)[:200])
    if dates.is_epoch(ua):
        if dates.is_epoch(ub):
            return ("ok", "") if ua.meta == ub.meta else ("bad", "%s is read as %s" % (dates.iso(ua.meta), dates.iso(ub.meta)))
        return "unk", show(ub)[:200]
    if ua.k == "agg":
        xs = lambda v: list(v.a[4]) if (is_vec(v) or is_lit(v) or v.a[0] in ("[]", "vec", "lit")) else None
        la, lb = xs(ua), xs(ub) if ub.k == "agg" else None
        if ub.k != "agg":
            return "unk", show(ub)[:200]
        if la is not None and lb is not None:
            if len(la) != len(lb):
                return "bad", "%d are written, %d are read" % (len(la), len(lb))
        elif la is None and lb is None:
            if ua.a[1] != ub.a[1]:
                return "bad", "%s is read as %s" % (show(ua)[:100], show(ub)[:100])
            la, lb = ua.a[4], ub.a[4]
        else:
            return "unk", show(ub)[:200]
        for x, y in zip(la, lb):
            r = same(x, y, reg)
            if r[0] != "ok":
                return r
        return "ok", ""
    if ua.k == "e" and ua.op == "arg":
        nm = ua.meta
        cs = cells(ub)
        if not cs:
            return ("bad", "is read as %s whatever is written" % show(ub)[:120]) if ub.k == "c" else ("unk", show(ub)[:160])

        def leaf(x):
            if x.k == "e" and x.op in ("parse", "parse_int", "parse_f64", "ext_parse"):
                k = cells(x)
                if len(k) == 1:
                    c = next(iter(k))
                    if c in reg:
                        return num(reg[c][0])
                    return sample(c)
            if x.k == "e" and x.op == "arg":
                return sample("arg " + str(x.meta))
            return None

        ev = Eval(leaf)

        def num(t):
            return Eval(leaf)(t)

        for c, rng in cs.items():
            if c in reg:
                w = reg[c][1][2][0]
                if rng != {(0, w, w)}:
                    return "bad", "only columns %s of the %d written are read" % (sorted(x[:2] for x in rng), w)
        for pat, dec in DECIMALS:
            if re.match(pat, nm):
                for c in cs:
                    p = reg[c][1][2][1] if c in reg else None
                    if is_c(p) if hasattr(p, "k") else isinstance(p, int):
                        p = cval(p) if hasattr(p, "k") else p
                        if p < dec:
                            return "bad", "is written with %d decimals, the format has %d" % (p, dec)
        try:
            got = ev(ub)
        except Unk as e:
            return "unk", "%s in %s" % (e, show(ub)[:160])
        if isinstance(got, list) or not close(got, sample("arg " + str(nm)), 1e-6):
            return "bad", "is not read from where it is written (%s)" % show(ub)[:200]
        return "ok", ""
    return "unk", show(ub)[:160]


def run(c):
    P, q, R = c.P, c.q, c.r
    wr, rd = meth(P, "Header", "format"), meth(P, "Header", "parse")
    R.floor("header writer and parser", (wr is not None) + (rd is not None), 2)
    if wr is None or rd is None:
        return
    n = 0
    for s in scenarios(P):
        if s is None:
            continue
        name, h, exps = s
        reg = {}
        I_ = q.interp(hooks=hooks_of(writer_hook), partition=True, reg=reg)
        r, out = I_.entry(wr, {1: h, 2: S("")})
        q.done(I_)
        w = out.get("w") if out else None
        if w is None:
            ks = [k for k in (out or {}) if k not in ("self",)]
            w = out[ks[0]] if len(ks) == 1 else None
        if w is None or not (is_t(w) or is_c(w, "str")):
            w2 = as_tmpl(w, reg) if w is not None else None
            if w2 is None:
                R.unknown("written:" + name, show(w)[:200] if w is not None else "no text")
                continue
            w = w2
        ls = split(w)
        bad = None
        for l in ls:
            lb = label_of(l)
            if lb is None:
                bad = "a value reaches into the label columns: '%s'" % shown(l)
            elif lb.rstrip() not in LABELS:
                bad = "columns 61-80 of '%s' hold %r" % (shown(l), lb)
            elif not lb.strip() == lb.rstrip():
                bad = "the label of '%s' is shifted" % shown(l)
        R.check(bad is None, "labels:" + name, "the header written for '%s' is not one: %s" % (name, bad), wr.span, shown(w)[:200])
        if name.startswith("file type ") and ls:
            # columns 21 and 41 of the first line: file type and satellite system letters
            t, cn, v = (name[10:].split(" ") + [""])[:3]
            first = "".join(cval(x) if is_c(x) else "?" * (x.meta[2] - x.meta[1]) for x in (ls[0].args if is_t(ls[0]) else (ls[0],)))
            kind = {"ObservationData": "O", "NavigationData": "N", "MeteoData": "M", "ClockData": "C"}[t]
            if t == "NavigationData" and v.startswith("2"):
                kind = {"Glonass": "G", "SBAS": first[20:21]}.get(cn, "N")
            R.check(first[20:21] == kind, "type letter:" + name[10:], "column 21 of '%s' is not %s" % (first.rstrip(), kind), wr.span, first)
            if cn and not (t == "NavigationData" and v.startswith("2")):
                k = {"GPS": "G", "Glonass": "R", "Galileo": "E", "BeiDou": "C", "QZSS": "J", "IRNSS": "I", "SBAS": "S", "Mixed": "M"}[cn]
                R.check(first[40:41] == k, "system letter:" + name[10:], "column 41 of '%s' is not %s" % (first.rstrip(), k), wr.span, first)
        I_ = q.interp(hooks=hooks_of(reader_hook(ls)), partition=True)
        ret = I_.entry(rd, {})[0]
        q.done(I_)
        n += 1
        back = unopt(ret) if ret is not None else TOP
        if back.k == "agg" and back.a[1] == "Err":
            R.fail("reread:" + name, "the header written for '%s' is refused by the parser" % name, wr.span)
            continue
        for lab, path, v in exps:
            key = "reread:" + lab
            if back is TOP or back is BOT:
                R.unknown(key, "no parsed header")
                continue
            r, msg = same(v, get(back, path), reg)
            if r == "ok":
                R.ok(key, show(v)[:120])
            elif r == "bad":
                R.fail(key, "%s: %s; written:\n%s" % (lab, msg, "\n".join(shown(l) for l in ls if "END OF" not in shown(l))[:300]), wr.span)
            else:
                R.unknown(key, msg)
    R.floor("written headers read back", n, 60)
    R.assume.append("texts fit the columns of their field and numbers fit theirs; a text holds no blank at its ends")

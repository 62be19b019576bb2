"""C05: every header field is taken from the columns the formats define."""
from templ import *

RULE = (
    "the header parser is abstractly executed on header lines whose layout is that of the standard and whose values are unknown: each field of the parsed header "
    "must be the text (or number) of exactly the columns the standard gives to it, and of no other; constants (system labels) must give the value the standard assigns"
)
CONST = "gnss::constellation::Constellation"
TS = "hifitime::TimeScale"


def named(n):
    return Kt(lambda v: v.k == "agg" and v.a[1] == n, n)


def num(x):
    def ok(v):
        return (is_c(v, "int") or is_c(v, "f64")) and abs(cval(v) - x) < 1e-9

    return Kt(ok, str(x))


def seconds(x):
    def ok(v):
        if v.k == "e" and len(v.args) == 1 and "from_seconds" in str(v.meta):
            v = v.args[0]
        return (is_c(v, "int") or is_c(v, "f64")) and abs(cval(v) - x) < 1e-9

    return Kt(ok, "%s s" % x)


def text(s):
    return Kt(lambda v: is_str(v) and cval(v) == s, repr(s))


def boolean(b):
    return Kt(lambda v: is_c(v, "bool") and cval(v) == b, str(b))


def obsv(var, code=None):
    def ok(v):
        return v.k == "agg" and v.a[1] == var and (code is None or (v.a[4] and is_str(v.a[4][0]) and cval(v.a[4][0]) == code))

    return Kt(ok, "%s %s" % (var, code or ""))


def obsv_list(xs):
    def ok(v):
        if not (v.k == "agg" and (is_vec(v) or is_lit(v) or v.a[0] in ("[]", "vec"))):
            return False
        return len(v.a[4]) == len(xs) and all(obsv(*x).ok(m) for x, m in zip(xs, v.a[4]))

    return Kt(ok, "[%s]" % " ".join(x[1] if len(x) > 1 else x[0] for x in xs))


def con(P, n):
    return variant(P, CONST, n)


def sv_is(c, prn):
    def ok(v):
        p = get(v, ("prn",))
        k = get(v, ("constellation",))
        return v.k == "agg" and p is not None and is_c(p) and cval(p) == prn and k is not None and k.k == "agg" and k.a[1] == c

    return Kt(ok, "%s %d" % (c, prn))


def date7(p):
    """TIME OF FIRST / LAST OBS: 5I6,F13.7"""
    y, m, d, hh, mm = [cell(p + n, 4 if n == "year" else 6, "r") for n in ("year", "month", "day", "hour", "minute")]
    s, f = cell(p + "second", 5, "r"), cell(p + "fraction", 7, "f")
    return (y, m, d, hh, mm, s, f), ["  ", y, m, d, hh, mm, s, ".", f]


OBS3 = line("RINEX VERSION / TYPE", "     3.05           OBSERVATION DATA    G")
OBSM = line("RINEX VERSION / TYPE", "     3.05           OBSERVATION DATA    M")
OBS2 = line("RINEX VERSION / TYPE", "     2.11           OBSERVATION DATA    G (GPS)")
OBS2M = line("RINEX VERSION / TYPE", "     2.11           OBSERVATION DATA    M (MIXED)")
NAV2 = line("RINEX VERSION / TYPE", "     2.11           N: GPS NAV DATA")
NAV3 = line("RINEX VERSION / TYPE", "     3.05           NAVIGATION DATA     M (MIXED)")
MET = line("RINEX VERSION / TYPE", "     3.05           METEOROLOGICAL DATA")
CLK = line("RINEX VERSION / TYPE", "     3.00           C                   G")
DOR = line("RINEX VERSION / TYPE", "     3.00           O                   D")
IOX = line("IONEX VERSION / TYPE", "     1.0            IONOSPHERE MAPS     GPS")
ATX = line("ANTEX VERSION / SYST", "     1.4            M")


def scenarios(P):
    out = []

    def sc(name, lines, *exps):
        out.append((name, lines, list(exps)))

    def l(n, w):
        return cell(n, w, "l")

    def r(n, w):
        return cell(n, w, "r")

    # identification
    c = [l("program", 20), l("run by", 20), l("date", 20)]
    sc("identification", [OBS3, line("PGM / RUN BY / DATE", *c)], ("program", ("program",), T(c[0])), ("run by", ("run_by",), T(c[1])), ("date", ("date",), T(c[2])))
    c = [l("comment", 60), l("comment 2", 60)]
    sc("comments", [OBS3, line("COMMENT", c[0]), line("COMMENT", c[1])], ("first comment", ("comments", 0), T(c[0])), ("second comment", ("comments", 1), T(c[1])))
    c = [l("marker name", 60), l("marker number", 20)]
    sc("marker", [OBS3, line("MARKER NAME", c[0]), line("MARKER NUMBER", c[1]), line("MARKER TYPE", "NON_GEODETIC")],
       ("marker name", ("geodetic_marker", "name"), T(c[0])), ("marker type", ("geodetic_marker", "marker_type"), named("NonGeodetic")))
    sc("marker number", [OBS3, line("MARKER NAME", "TLSE"), line("MARKER NUMBER", "10003M004")],
       ("marker monument", ("geodetic_marker", "monument"), num(4)), ("marker identification", ("geodetic_marker", "identification"), num(10003)), ("marker name (constant)", ("geodetic_marker", "name"), text("TLSE")))
    c = [l("observer", 20), l("agency", 40)]
    sc("observer", [OBS3, line("OBSERVER / AGENCY", *c)], ("observer", ("observer",), T(c[0])), ("agency", ("agency",), T(c[1])))
    c = [l("doi", 40)]
    sc("doi", [OBS3, line("DOI", *c)], ("doi", ("doi",), T(c[0])))
    c = [l("license", 40)]
    sc("license", [OBS3, line("LICENSE OF USE", *c)], ("license", ("license",), T(c[0])))
    c = [l("station url", 40)]
    sc("station url", [OBS3, line("STATION INFORMATION", *c)], ("station url", ("station_url",), T(c[0])))
    # hardware
    c = [l("receiver number", 20), l("receiver type", 20), l("receiver version", 20)]
    sc("receiver", [OBS3, line("REC # / TYPE / VERS", *c)], ("receiver number", ("rcvr", "sn"), T(c[0])), ("receiver type", ("rcvr", "model"), T(c[1])), ("receiver version", ("rcvr", "firmware"), T(c[2])))
    a = [l("antenna number", 20), l("antenna type", 20)]
    h = [r("antenna height", 14), r("antenna east", 14), r("antenna north", 14)]
    x = [r("antenna x", 14), r("antenna y", 14), r("antenna z", 14)]
    A, H, X = line("ANT # / TYPE", *a), line("ANTENNA: DELTA H/E/N", *h), line("ANTENNA: DELTA X/Y/Z", *x)
    ae = [("antenna number", ("rcvr_antenna", "sn"), T(a[0])), ("antenna type", ("rcvr_antenna", "model"), T(a[1]))]
    he = [("antenna height", ("rcvr_antenna", "height"), N(h[0])), ("antenna east", ("rcvr_antenna", "eastern"), N(h[1])), ("antenna north", ("rcvr_antenna", "northern"), N(h[2]))]
    xe = [("antenna x", ("rcvr_antenna", "coords", 0), N(x[0])), ("antenna y", ("rcvr_antenna", "coords", 1), N(x[1])), ("antenna z", ("rcvr_antenna", "coords", 2), N(x[2]))]
    sc("antenna", [OBS3, A, H, X], *(ae + he + xe))
    sc("antenna alone", [OBS3, A], *ae)
    sc("antenna eccentricity alone", [OBS3, H], *he)
    sc("antenna reference point alone", [OBS3, X], *xe)
    p = [r("approx x", 14), r("approx y", 14), r("approx z", 14)]
    sc("approx position", [OBS3, line("APPROX POSITION XYZ", *p)], *[("approx " + n, ("rx_position", i), N(p[i])) for i, n in enumerate("xyz")])
    c = [r("interval", 10)]
    sc("interval", [OBS3, line("INTERVAL", *c)], ("interval", ("sampling_interval",), N(c[0])))
    # applied corrections
    for lab, f, e in (("DCBS", "dcb_compensations", "DCB"), ("PCVS", "pcv_compensations", "PCV")):
        c = [l(e + " program", 17), l(e + " url", 40)]
        sc(e + " applied", [OBSM, line("SYS / %s APPLIED" % lab, "E ", c[0], " ", c[1])],
           (e + " program", (f, 0, "program"), T(c[0])), (e + " url", (f, 0, "url"), T(c[1])), (e + " system", (f, 0, "constellation"), named("Galileo")))
    for n, v in ((0, False), (1, True)):
        sc("receiver clock offset %d" % n, [OBS3, line("RCV CLOCK OFFS APPL", "%6d" % n)], ("receiver clock offset applied %d" % n, ("obs", "clock_offset_applied"), boolean(v)))
    c = [r("scale factor", 4)]
    sc("scale factor", [OBSM, line("SYS / # / OBS TYPES", "E    2 C1C L1C"), line("SYS / SCALE FACTOR", "E ", c[0], "   2 C1C L1C")],
       ("scale factor of a phase", ("obs", "scaling", tup(con(P, "Galileo"), variant(P, OBSB, "PhaseRange", S("L1C")))), N(c[0])),
       ("scale factor of a code", ("obs", "scaling", tup(con(P, "Galileo"), variant(P, OBSB, "PseudoRange", S("C1C")))), N(c[0])))
    # leap seconds
    c = [r("leap", 6)]
    sc("leap seconds", [OBS3, line("LEAP SECONDS", *c)], ("leap", ("leap", "leap"), N(c[0])), ("no delta", ("leap", "delta_tls"), ABS))
    for tsn, v in (("", None), ("BDS", "BDT"), ("GPS", "GPST")):
        c = [r("leap", 6), r("delta tls", 6), r("week", 6), r("day", 6)]
        sc("leap seconds in full %s" % tsn, [OBS3, line("LEAP SECONDS", *(c + [tsn]))],
           ("full leap" + tsn, ("leap", "leap"), N(c[0])), ("delta tls" + tsn, ("leap", "delta_tls"), N(c[1])), ("leap week" + tsn, ("leap", "week"), N(c[2])), ("leap day" + tsn, ("leap", "day"), N(c[3])),
           ("leap timescale " + tsn, ("leap", "timescale"), named(v) if v else ABS))
    # dates
    for w in ("FIRST", "LAST"):
        f = "timeof_%s_obs" % w.lower()
        cs, segs = date7(w.lower() + " ")
        sc("time of %s obs" % w.lower(), [OBSM, line("TIME OF %s OBS" % w, *(segs + ["     GPS"]))], ("time of %s obs" % w.lower(), ("obs", f), D(*cs)))
        cs, segs = date7(w.lower() + " ")
        sc("time of %s doris obs" % w.lower(), [DOR, line("TIME OF %s OBS" % w, *(segs + ["     DOR"]))], ("time of %s doris obs" % w.lower(), ("doris", f), D(*cs)))
    # observables
    G, R_, E_, S_ = [con(P, n) for n in ("GPS", "Glonass", "Galileo", "SBAS")]
    sc("observables 3", [OBSM, line("SYS / # / OBS TYPES", "G    6 C1C L1C D1C S1C C2W L2W"), line("SYS / # / OBS TYPES", "E   14 C1C L1C D1C S1C C5Q L5Q D5Q S5Q C7Q L7Q D7Q S7Q C8Q"), line("SYS / # / OBS TYPES", "       L8Q"), line("SYS / # / OBS TYPES", "R    1 C1P")],
       ("GPS observables", ("obs", "codes", G), obsv_list([("PseudoRange", "C1C"), ("PhaseRange", "L1C"), ("Doppler", "D1C"), ("SSI", "S1C"), ("PseudoRange", "C2W"), ("PhaseRange", "L2W")])),
       ("Galileo observables, two lines", ("obs", "codes", E_), obsv_list([({"C": "PseudoRange", "L": "PhaseRange", "D": "Doppler", "S": "SSI"}[x[0]], x) for x in "C1C L1C D1C S1C C5Q L5Q D5Q S5Q C7Q L7Q D7Q S7Q C8Q L8Q".split()])),
       ("Glonass observables", ("obs", "codes", R_), obsv_list([("PseudoRange", "C1P")])))
    l2 = [line("# / TYPES OF OBSERV", "     6    L1    L2    C1    P1"), line("# / TYPES OF OBSERV", "          D2    S1")]
    o2 = [({"C": "PseudoRange", "P": "PseudoRange", "L": "PhaseRange", "D": "Doppler", "S": "SSI"}[x[0]], x) for x in "L1 L2 C1 P1 D2 S1".split()]
    sc("observables 2", [OBS2] + l2, ("observables of RINEX 2", ("obs", "codes", G), obsv_list(o2)))
    sc("observables 2 mixed", [OBS2M] + l2, *[("observables of RINEX 2, %s in a mixed file" % n, ("obs", "codes", con(P, n)), obsv_list(o2)) for n in ("GPS", "Glonass", "Galileo", "SBAS")])
    sc("observables meteo", [MET, line("# / TYPES OF OBSERV", "     4    PR    TD    HR    ZW")], ("meteo observables", ("meteo", "codes"), obsv_list([("Pressure",), ("Temperature",), ("HumidityRate",), ("ZenithWetDelay",)])))
    sc("observables doris", [DOR, line("SYS / # / OBS TYPES", "D    5 L1  L2  C1  W1  T")], ("DORIS observables", ("doris", "observables"), obsv_list([("PhaseRange",), ("PhaseRange",), ("PseudoRange",), ("Power",), ("Temperature",)])))
    sc("glonass slots", [OBSM, line("GLONASS SLOT / FRQ #", "  3 R01  1 R02 -4 R24  2")], *[("GLONASS channel of R%02d" % n, ("glo_channels", struct(P, "gnss::sv::SV", prn=I(n), constellation=R_)), num(ch)) for n, ch in ((1, 1), (2, -4), (24, 2))])
    # file types
    for hl, ty, co in ((OBS3, "ObservationData", "GPS"), (OBSM, "ObservationData", "Mixed"), (OBS2, "ObservationData", "GPS"), (OBS2M, "ObservationData", "Mixed"), (NAV2, "NavigationData", "GPS"), (NAV3, "NavigationData", "Mixed"),
                       (line("RINEX VERSION / TYPE", "     2.11           G: GLONASS NAV DATA"), "NavigationData", "Glonass"),
                       (line("RINEX VERSION / TYPE", "     2.11           NAVIGATION DATA"), "NavigationData", "GPS"),
                       (line("RINEX VERSION / TYPE", "     3.05           N: GNSS NAV DATA    E: GALILEO"), "NavigationData", None),
                       (line("RINEX VERSION / TYPE", "     4.00           NAVIGATION DATA     C: BEIDOU"), "NavigationData", None),
                       (line("RINEX VERSION / TYPE", "     3.04           NAVIGATION DATA     E"), "NavigationData", "Galileo"),
                       (MET, "MeteoData", None), (CLK, "ClockData", "GPS"), (DOR, "DORIS", None), (IOX, "IonosphereMaps", None), (ATX, "AntennaData", "Mixed")):
        t = cval(hl)
        nm = " ".join((t[:60] + "|" + t[60:]).split())
        exps = [("type of '%s'" % nm, ("rinex_type",), named(ty))]
        if co:
            exps.append(("constellation of '%s'" % nm, ("constellation",), named(co)))
        v = t[:20].split()[0]
        exps.append(("major of '%s'" % nm, ("version", "major"), num(int(v.split(".")[0]))))
        exps.append(("minor of '%s'" % nm, ("version", "minor"), num(int(v.split(".")[1]))))
        for f in ("obs", "meteo", "clock", "ionex", "antex", "doris"):
            want = {"ObservationData": "obs", "MeteoData": "meteo", "ClockData": "clock", "IonosphereMaps": "ionex", "AntennaData": "antex", "DORIS": "doris"}.get(ty)
            exps.append(("%s fields of '%s'" % (f, nm), (lambda h, f=f: fl1(h, f),), Kt(lambda v, s=(f == want): v.k == "agg" and v.a[1] == ("Some" if s else "None"), "Some" if f == want else "None")))
        sc("file type " + nm, [hl], *exps)
    # compact RINEX
    for s, mj in (("1.0", 1), ("3.0", 3)):
        c = [l("crinex program", 40)]
        sc("crinex " + s, [line("CRINEX VERS   / TYPE", s.ljust(20) + "COMPACT RINEX FORMAT"), line("CRINEX PROG / DATE", "RNX2CRX ver.4.0.7".ljust(40) + "01-Jan-21 12:34"), OBS3],
           ("compact revision " + s, ("obs", "crinex", "version", "major"), num(mj)), ("compact program " + s, ("obs", "crinex", "prog"), text("RNX2CRX ver.4.0.7")))
    # meteo
    c = [l("sensor model", 20), l("sensor type", 20), r("sensor accuracy", 7)]
    d = [r("sensor x", 14), r("sensor y", 14), r("sensor z", 14), r("sensor h", 14)]
    se = [("sensor model", ("meteo", "sensors", 0, "model"), T(c[0])), ("sensor type", ("meteo", "sensors", 0, "sensor_type"), T(c[1])), ("sensor accuracy", ("meteo", "sensors", 0, "accuracy"), N(c[2], rel=1e-6)), ("sensor observable", ("meteo", "sensors", 0, "observable"), named("Pressure"))]
    SM = line("SENSOR MOD/TYPE/ACC", c[0], c[1], " " * 6, c[2], " " * 4, "PR")
    SP = line("SENSOR POS XYZ/H", *(d + [" PR"]))
    ST = line("SENSOR MOD/TYPE/ACC", " " * 57, "TD")
    pe = [("sensor x", ("meteo", "sensors", 0, "position", 0), N(d[0])), ("sensor y", ("meteo", "sensors", 0, "position", 1), N(d[1])), ("sensor z", ("meteo", "sensors", 0, "position", 2), N(d[2])), ("sensor h", ("meteo", "sensors", 0, "height"), N(d[3]))]
    sc("sensor", [MET, SM, SP], *(se + pe))
    sc("two sensors", [MET, SM, ST, SP], *([("two sensors: " + n, pth, e) for n, pth, e in se + pe] + [("two sensors: other position", ("meteo", "sensors", 1, "position"), ABS), ("two sensors: other observable", ("meteo", "sensors", 1, "observable"), named("Temperature")), ("two sensors: other model", ("meteo", "sensors", 1, "model"), ABS)]))
    # clock
    c = [l("analysis center code", 3), l("analysis center name", 55)]
    sc("analysis center", [CLK, line("ANALYSIS CENTER", c[0], "  ", c[1])], ("analysis center code", ("clock", "igs"), T(c[0])), ("analysis center name", ("clock", "full_name"), T(c[1])))
    c = [l("station name", 4), l("ref clock", 60)]
    sc("clock station", [CLK, line("STATION NAME / NUM", c[0], " 10003M004")], ("clock station name", ("clock", "site"), T(c[0])), ("clock station domes", ("clock", "domes", "site"), num(3)))
    sc("clock reference", [CLK, line("STATION CLK REF", c[1])], ("station clock reference", ("clock", "ref_clock"), T(c[1])))
    sc("clock types", [CLK, line("# / TYPES OF DATA", "     5    AR    AS    CR    DR    MS")], ("clock data types", ("clock", "codes"), obsv_list([("AR",), ("AS",), ("CR",), ("DR",), ("MS",)])))
    for t, n in (("GPS", "GPST"), ("UTC", "UTC"), ("TAI", "TAI"), ("GAL", "GST"), ("BDS", "BDT")):
        sc("clock time system " + t, [CLK, line("TIME SYSTEM ID", "   " + t)], ("clock time system " + t, ("clock", "timescale"), named(n)))
    # ionex
    c = [r("number of maps", 6)]
    sc("number of maps", [IOX, line("# OF MAPS IN FILE", *c)], ("number of maps", ("ionex", "number_of_maps"), N(c[0])))
    for w in ("FIRST", "LAST"):
        c = [r(w.lower() + " map " + n, 6) for n in ("year", "month", "day", "hour", "minute", "second")]
        sc("epoch of %s map" % w.lower(), [IOX, line("EPOCH OF %s MAP" % w, *c)], ("epoch of %s map" % w.lower(), ("ionex", "epoch_of_%s_map" % w.lower()), D(*c)))
    for lab, f, w, e in (("# OF STATIONS", "nb_stations", 6, 1), ("# OF SATELLITES", "nb_satellites", 6, 1), ("ELEVATION CUTOFF", "elevation_cutoff", 8, 1), ("BASE RADIUS", "base_radius", 8, 1), ("EXPONENT", "exponent", 6, 1)):
        c = [r(lab.lower(), w)]
        sc("ionex " + f, [IOX, line(lab, *c)], (lab.lower(), ("ionex", f), N(c[0], rel=1e-6)))
    c = [l("observables used", 60), l("description", 60)]
    sc("ionex observables", [IOX, line("OBSERVABLES USED", c[0])], ("ionex observables", ("ionex", "observables"), T(c[0])))
    sc("ionex description", [IOX, line("DESCRIPTION", c[1])], ("ionex description", ("ionex", "description"), T(c[1])))
    for lab, f in (("HGT1 / HGT2 / DHGT", "height"), ("LAT1 / LAT2 / DLAT", "latitude"), ("LON1 / LON2 / DLON", "longitude")):
        c = [cell(f + " " + n, 6, "f") for n in ("start", "end", "spacing")]
        sc("grid " + f, [IOX, line(lab, "  ", *c)], *[("grid %s %s" % (f, n), ("ionex", "grid", f, n), N(c[i])) for i, n in enumerate(("start", "end", "spacing"))])
    for t, n in (("COSZ", "CosZ"), ("QFAC", "QFac")):
        sc("mapping function " + t, [IOX, line("MAPPING FUNCTION", "  " + t)], ("mapping function " + t, ("ionex", "mapping"), named(n)))
    sc("mapping function NONE", [IOX, line("MAPPING FUNCTION", "  NONE")], ("mapping function NONE", ("ionex", "mapping"), ABS))
    # ionosphere models of navigation headers
    for base, cons in ((NAV2, ("GPS",)),):
        c = [cell("alpha%d" % i, 12, "d") for i in range(4)]
        d = [cell("beta%d" % i, 12, "d") for i in range(4)]
        ex = []
        for cn in cons:
            ex += [("%s ION ALPHA %d" % (cn, i), ("ionod_corrections", con(P, cn), 0, "alpha", i), N(c[i])) for i in range(4)]
            ex += [("%s ION BETA %d" % (cn, i), ("ionod_corrections", con(P, cn), 0, "beta", i), N(d[i])) for i in range(4)]
        sc("ionosphere 2", [base, line("ION ALPHA", "  ", *c), line("ION BETA", "  ", *d)], *ex)
    for lab, cn in (("GPS", "GPS"), ("BDS", "BeiDou"), ("QZS", "QZSS"), ("IRN", "IRNSS")):
        c = [r("alpha%d" % i, 12) for i in range(4)]
        d = [r("beta%d" % i, 12) for i in range(4)]
        ex = [("%s IONOSPHERIC CORR alpha %d" % (cn, i), ("ionod_corrections", con(P, cn), 0, "alpha", i), N(c[i])) for i in range(4)]
        ex += [("%s IONOSPHERIC CORR beta %d" % (cn, i), ("ionod_corrections", con(P, cn), 0, "beta", i), N(d[i])) for i in range(4)]
        sc("ionosphere 3 " + lab, [NAV3, line("IONOSPHERIC CORR", lab + "A ", *c), line("IONOSPHERIC CORR", lab + "B ", *d)], *ex)
        sc("ionosphere 3 reversed " + lab, [NAV3, line("IONOSPHERIC CORR", lab + "B ", *d), line("IONOSPHERIC CORR", lab + "A ", *c)], *[("reversed " + n, pth, e) for n, pth, e in ex])
    c = [r("a%d" % i, 12) for i in range(3)]
    sc("ionosphere 3 GAL", [NAV3, line("IONOSPHERIC CORR", "GAL  ", *c)], *[("Galileo IONOSPHERIC CORR a%d" % i, ("ionod_corrections", con(P, "Galileo"), 0, "a", i), N(c[i])) for i in range(3)])
    # doris
    c = [r("date offset", 12)]
    sc("doris date offset", [DOR, line("L2 / L1 DATE OFFSET", "D ", *c)], ("L2 / L1 date offset", ("doris", "u2_s1_time_offset"), N(c[0], 1e-6)))
    c = [r("station key", 2), l("station label", 4), l("station name", 29), r("station generation", 1), r("station k factor", 3)]
    sc("doris station", [DOR, line("STATION REFERENCE", "D", c[0], "  ", c[1], " ", c[2], " 10003S005  ", c[3], " ", c[4])],
       ("station key", ("doris", "stations", 0, "key"), N(c[0])), ("station label", ("doris", "stations", 0, "label"), T(c[1])), ("station name", ("doris", "stations", 0, "site"), T(c[2])),
       ("station generation", ("doris", "stations", 0, "gen"), N(c[3])), ("station k factor", ("doris", "stations", 0, "k_factor"), N(c[4])), ("station domes", ("doris", "stations", 0, "domes", "sequential"), num(5)))
    # antex
    c = [l("reference antenna type", 20), l("reference antenna number", 20)]
    sc("antex pcv R", [ATX, line("PCV TYPE / REFANT", "R".ljust(20), *c)], ("pcv type R", ("antex", "pcv_type"), named("Relative")), ("reference antenna number", ("antex", "reference_ant_sn"), T(c[1])))
    sc("antex pcv A", [ATX, line("PCV TYPE / REFANT", "A".ljust(20))], ("pcv type A", ("antex", "pcv_type"), named("Absolute")))
    sc("cospar", [NAV3, line("COSPAR NUMBER", "2018-030A")], ("cospar year", ("cospar", "year"), num(2018)), ("cospar launch", ("cospar", "launch"), num(30)), ("cospar code", ("cospar", "code"), text("A")))
    concrete(P, sc)
    return out


def concrete(P, sc):
    """lines in full: extreme values, and every repetition and continuation the formats allow"""
    KIND = {"C": "PseudoRange", "P": "PseudoRange", "L": "PhaseRange", "D": "Doppler", "S": "SSI"}

    def codes(xs):
        return [(KIND[x[0]], x) for x in xs]

    for t in ("0.010", "0.100", "0.500", "1.000", "30.000", "86400.000"):
        sc("interval %s" % t, [OBS3, line("INTERVAL", t.rjust(10))], ("interval %s" % t, ("sampling_interval",), seconds(float(t))))
    for xs in ((0.0, 6378137.0, 0.0), (6378137.0, 0.0, 0.0), (-1.5, -6000000.25, 0.0), (-3000000.1234, 0.0001, -6356752.3142)):
        t = "".join("%14.4f" % x for x in xs)
        sc("approx position %s" % t, [OBS3, line("APPROX POSITION XYZ", t)], *[("approx %s of %s" % (n, t), ("rx_position", i), num(xs[i])) for i, n in enumerate("xyz")])
        sc("eccentricity %s" % t, [OBS3, line("ANTENNA: DELTA H/E/N", t)], *[("antenna %s of %s" % (n, t), ("rcvr_antenna", n), num(xs[i])) for i, n in enumerate(("height", "eastern", "northern"))])
        sc("reference point %s" % t, [OBS3, line("ANTENNA: DELTA X/Y/Z", t)], *[("antenna %s of %s" % (n, t), ("rcvr_antenna", "coords", i), num(xs[i])) for i, n in enumerate("xyz")])
    for lab, f in (("DCBS", "dcb_compensations"), ("PCVS", "pcv_compensations")):
        ls = [line("SYS / %s APPLIED" % lab, "%s %-17s %-40s" % (g, "prog " + g, "url " + g)) for g in "GREC"]
        sc("several " + lab, [OBSM] + ls, *[("%s of %s: %s" % (lab, g, k), (f, i, k), v) for i, (g, n) in enumerate(zip("GREC", ("GPS", "Glonass", "Galileo", "BeiDou"))) for k, v in (("constellation", named(n)), ("program", text("prog " + g)), ("url", text("url " + g)))])
    twelve = "C1C L1C D1C S1C C5Q L5Q D5Q S5Q C7Q L7Q D7Q S7Q".split()
    for n in (1, 5, 9, 12):
        ls = [line("SYS / # / OBS TYPES", "%s   12 %s" % (g, " ".join(twelve))) for g in "GE"]
        ls += [line("SYS / SCALE FACTOR", "%s %4d  %2d %s" % (g, k, n, " ".join(twelve[:n]))) for g, k in (("G", 10), ("E", 1000))]
        sc("scale factors %d" % n, [OBSM] + ls, *[("scale factor of %s %s (%d)" % (c, x, n), ("obs", "scaling", tup(con(P, c), variant(P, OBSB, KIND[x[0]], S(x)))), num(k)) for c, k in (("GPS", 10), ("Galileo", 1000)) for x in twelve[:n]])
    # sensors
    sens = (("PR", "Pressure", (1.5, -2.0, 0.0, 100.25)), ("TD", "Temperature", (0.0, 0.0, 0.0, 0.0)), ("HR", "HumidityRate", (-4000000.1, 4000000.2, 3.3, -4.4)))
    ls = [line("SENSOR MOD/TYPE/ACC", "%-20s%-20s      %7.1f    %s" % ("model " + o, "type " + o, 0.5 + i, o)) for i, (o, _, _) in enumerate(sens)]
    for order in ((0, 1, 2), (2, 1, 0)):
        ps = [line("SENSOR POS XYZ/H", "".join("%14.4f" % x for x in sens[i][2]) + " " + sens[i][0]) for i in order]
        sc("three sensors %s" % (order,), [MET] + ls + ps, *[("sensor %d %s: %s" % (i, order, k), ("meteo", "sensors", i) + p, v) for i, (o, n, x) in enumerate(sens)
           for k, p, v in [("observable", ("observable",), named(n)), ("model", ("model",), text("model " + o)), ("accuracy", ("accuracy",), num(0.5 + i)), ("height", ("height",), num(x[3]))] + [("position %d" % j, ("position", j), num(x[j])) for j in range(3)]])
    # channels: 8 a line
    for n in (1, 7, 8, 9, 16, 17, 24):
        chans = [(i + 1, (i * 5) % 14 - 7) for i in range(n)]
        ls = [line("GLONASS SLOT / FRQ #", ("%3d " % n if k == 0 else "    ") + "".join("R%02d %2d " % x for x in chans[k : k + 8])) for k in range(0, n, 8)]
        sc("glonass slots %d" % n, [OBSM] + ls, *[("GLONASS channel of R%02d (%d)" % (p, n), ("glo_channels", struct(P, "gnss::sv::SV", prn=I(p), constellation=con(P, "Glonass"))), num(ch)) for p, ch in chans])
    # observables: 13 a line in RINEX 3, 9 a line in RINEX 2
    many = [k + b + a for b in "125678" for a in "CX" for k in "CLDS"]
    for n in (1, 12, 13, 14, 26, 27, 40):
        xs = many[:n]
        ls = [line("SYS / # / OBS TYPES", ("G  %3d" % n if k == 0 else "      ") + "".join(" " + x for x in xs[k : k + 13])) for k in range(0, n, 13)]
        ls += [line("SYS / # / OBS TYPES", "E    2 C1X L1X")]
        sc("%d observables" % n, [OBSM] + ls, ("%d observables" % n, ("obs", "codes", con(P, "GPS")), obsv_list(codes(xs))), ("observables after %d" % n, ("obs", "codes", con(P, "Galileo")), obsv_list(codes(["C1X", "L1X"]))))
    many = "L1 L2 C1 P1 P2 D1 D2 S1 S2 C2 L5 C5 D5 S5 L7 C7 D7 S7 L8 C8".split()
    for n in (1, 8, 9, 10, 18, 19):
        xs = many[:n]
        ls = [line("# / TYPES OF OBSERV", ("%6d" % n if k == 0 else "      ") + "".join("    " + x for x in xs[k : k + 9])) for k in range(0, n, 9)]
        sc("%d observables of RINEX 2" % n, [OBS2] + ls, ("%d observables of RINEX 2" % n, ("obs", "codes", con(P, "GPS")), obsv_list(codes(xs))))
    met = (("PR", "Pressure"), ("TD", "Temperature"), ("HR", "HumidityRate"), ("ZW", "ZenithWetDelay"), ("ZD", "ZenithDryDelay"), ("ZT", "ZenithTotalDelay"), ("WD", "WindDirection"), ("WS", "WindSpeed"), ("RI", "RainIncrement"), ("HI", "HailIndicator"))
    for n in (1, 8, 9, 10):
        ls = [line("# / TYPES OF OBSERV", ("%6d" % n if k == 0 else "      ") + "".join("    " + x for x, _ in met[k : min(n, k + 9)])) for k in range(0, n, 9)]
        sc("%d meteo observables" % n, [MET] + ls, ("%d meteo observables" % n, ("meteo", "codes"), obsv_list([(v,) for _, v in met[:n]])))
    # DORIS stations
    st = (("01", "TLSB", "TOULOUSE", "10003S005", 4, 0), ("02", "KRWB", "KOUROU", "97301S004", 3, -12), ("63", "AMVB", "AMSTERDAM ISLAND", "91401S005", 4, 8))
    ls = [line("STATION REFERENCE", "D%s  %-4s %-29s %-10s %d %3d" % x) for x in st]
    sc("three DORIS stations", [DOR] + ls, *[("DORIS station %d: %s" % (i, k), ("doris", "stations", i) + p, v) for i, x in enumerate(st) for k, p, v in (("key", ("key",), num(int(x[0]))), ("label", ("label",), text(x[1])), ("site", ("site",), text(x[2])), ("generation", ("gen",), num(x[4])), ("k factor", ("k_factor",), num(x[5])))])
    # comments keep their order
    sc("five comments", [OBS3] + [line("COMMENT", "comment number %d" % i) for i in range(5)], *[("comment number %d" % i, ("comments", i), text("comment number %d" % i)) for i in range(5)])


OBSB = "observable::Observable"


def fl1(h, f):
    if h.k == "agg" and f in h.a[3]:
        return h.a[4][h.a[3].index(f)]
    return TOP


def run(c):
    P, q, R = c.P, c.q, c.r
    fns = [f for f in P.fns.values() if f.path.endswith("::parse") and "header" in f.path and "Header" in f.path]
    fn = meth(P, "Header", "parse") or (fns[0] if fns else None)
    if fn is None:
        R.unknown("parser", "no header parser")
        R.floor("header parsers", 0, 1)
        return
    R.floor("header parsers", 1, 1)
    eoh = line("END OF HEADER")
    n = 0
    for name, lines, exps in scenarios(P):
        I_ = q.interp(hooks={"call": reader_hook(lines + [eoh])}, partition=True)
        ret = I_.entry(fn, {})[0]
        q.done(I_)
        h = unopt(ret) if ret is not None else TOP
        if h.k == "agg" and h.a[1] == "Err":
            R.fail("accepted:" + name, "a header holding a well formed '%s' line is refused" % name, fn.span)
            continue
        n += 1
        import templ
        templ.run(R, "field", fn.span, h, exps)
    R.floor("header scenarios", n, 60)
    R.assume.append("numbers written in a column are well formed for their type; text is ASCII (column offsets are byte offsets)")

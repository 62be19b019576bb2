"""C02: text and numeric codes carry the meaning the RINEX standards give them."""
from lib import *

RULE = ("each code of the RINEX/CRINEX/IONEX/ANTEX/CLOCK tables, seeded as a constant into the compiled parser or conversion, "
        "propagates to the variant (and payload) the standard assigns; each variant propagates to its standard text")

OBSKIND = {"C": "PseudoRange", "P": "PseudoRange", "L": "PhaseRange", "D": "Doppler", "S": "SSI", "X": "ChannelNumber"}
BANDCODES = [b + a for b in "1234567" for a in ("", "C", "P", "W", "I", "Q", "X", "A", "Z")]

# type path suffix -> [(texts, variant)]
PARSE = {
    "observation::flag::EpochFlag": [("0", "Ok"), ("1", "PowerFailure"), ("2", "AntennaBeingMoved"), ("3", "NewSiteOccupation"),
                                     ("4", "HeaderInformationFollows"), ("5", "ExternalEvent"), ("6", "CycleSlip"), ("7", None), ("9", None), ("X", None)],
    "observation::snr::SNR": [("0", "DbHz0"), ("1", "DbHz12"), ("2", "DbHz12_17"), ("3", "DbHz18_23"), ("4", "DbHz24_29"), ("5", "DbHz30_35"),
                              ("6", "DbHz36_41"), ("7", "DbHz42_47"), ("8", "DbHz48_53"), ("9", "DbHz54"), (" 7", "DbHz42_47"), ("A", None)],
    "types::Type": [("OBSERVATION DATA", "ObservationData"), ("NAVIGATION DATA", "NavigationData"), ("METEOROLOGICAL DATA", "MeteoData"),
                    ("CLOCK DATA", "ClockData"), ("C", "ClockData"), ("ANTEX", "AntennaData"), ("IONOSPHERE MAPS", "IonosphereMaps"),
                    ("DORIS", "DORIS"), ("D", "DORIS"), ("GLONASS NAV DATA", "NavigationData"), ("N: GNSS NAV DATA", "NavigationData"), ("GPS NAV DATA", "NavigationData"),
                    ("SOMETHING", None)],
    "marker::MarkerType": [("GEODETIC", "Geodetic"), ("NON_GEODETIC", "NonGeodetic"), ("NON_PHYSICAL", "NonPhysical"), ("SPACEBORNE", "Spaceborne"),
                           ("AIRBORNE", "Airborne"), ("WATER_CRAFT", "Watercraft"), ("GROUND_CRAFT", "Groundcraft"), ("FIXED_BUOY", "FixedBuoy"),
                           ("FLOATING_BUOY", "FloatingBuoy"), ("FLOATING_ICE", "FloatingIce"), ("GLACIER", "Glacier"), ("BALLISTIC", "Ballistic"),
                           ("ANIMAL", "Animal"), ("HUMAN", "Human"), ("UNKNOWN TYPE", None)],
    "navigation::message::NavMessageType": [(x, x) for x in ("LNAV", "FDMA", "FNAV", "INAV", "IFNV", "D1", "D2", "D1D2", "SBAS", "CNAV", "CNV1", "CNV2", "CNV3", "CNVX")] + [("XXXX", None)],
    "navigation::frame::NavFrameType": [("EPH", "Ephemeris"), ("STO", "SystemTimeOffset"), ("EOP", "EarthOrientation"), ("ION", "IonosphereModel"), ("XXX", None)],
    "clock::record::ClockProfileType": [(x, x) for x in ("AR", "AS", "CR", "DR", "MS")] + [("XX", None)],
    "antex::antenna::CalibrationMethod": [("CHAMBER", "Chamber"), ("FIELD", "Field"), ("ROBOT", "Robot"), ("COPIED", "Copied"), ("CONVERTED", "Converted"), ("", "Unknown")],
    "antex::pcv::Pcv": [("A", "Absolute"), ("R", "Relative"), ("X", None)],
    "ionex::mapf::MappingFunction": [("COSZ", "CosZ"), ("QFAC", "QFac"), ("ELSE", None)],
    "ionex::system::ObsSystem": [("BEN", "BENt"), ("ENV", "ENVisat"), ("ERS", "ERS"), ("IRI", "IRI"), ("XXX", None)],
    "ionex::system::Model": [("MIX", "MIX"), ("NNS", "NNS"), ("TOP", "TOP"), ("XXX", None)],
    "production::ppu::PPU": [("15M", "QuarterHour"), ("01H", "Hourly"), ("01D", "Daily"), ("01Y", "Yearly"), ("00U", "Unspecified")],
    "production::source::DataSource": [("R", "Receiver"), ("S", "Stream"), ("U", "Unknown")],
    "carrier::Carrier": [("L1", "L1"), ("L2", "L2"), ("L5", "L5"), ("L6", "L6"), ("E1", "E1"), ("E5", "E5"), ("E6", "E6"), ("G1", "G1"), ("G2", "G2"), ("G1a", "G1a"), ("G2a", "G2a"), ("G3", "G3"),
                         ("B1I", "B1I"), ("B1A", "B1A"), ("B1C", "B1C"), ("B2", "B2"), ("B2I", "B2I"), ("B2A", "B2A"), ("B2B", "B2B"), ("B3", "B3"), ("B3A", "B3A"), ("S", "S"), ("S1", "S1"), ("U2", "U2"), ("Q9", None)],
    "observable::Observable": [("PR", "Pressure"), ("TD", "Temperature"), ("HR", "HumidityRate"), ("ZW", "ZenithWetDelay"), ("ZD", "ZenithDryDelay"), ("ZT", "ZenithTotalDelay"),
                               ("WD", "WindDirection"), ("WS", "WindSpeed"), ("RI", "RainIncrement"), ("HI", "HailIndicator"), ("P", "Pressure"), ("T", "Temperature"), ("H", "HumidityRate"),
                               ("F", "FrequencyRatio"), ("W1", "Power"), ("W2", "Power"), ("pr", "Pressure"), ("L1C ", "PhaseRange"), ("Q1C", None), ("LONG", None)]
    + [(k + b, v) for k, v in OBSKIND.items() for b in BANDCODES if not (k == "P" and len(b) > 1) and not (k == "X" and len(b) > 1)],
}

# text written for a variant
DISPLAY = {
    "types::Type": {"ObservationData": "OBS DATA", "NavigationData": "NAVIGATION DATA", "MeteoData": "METEO DATA", "ClockData": "CLOCK DATA", "AntennaData": "ANTEX", "IonosphereMaps": "IONOSPHERE MAPS", "DORIS": "DORIS"},
    "observation::flag::EpochFlag": {"Ok": "0", "PowerFailure": "1", "AntennaBeingMoved": "2", "NewSiteOccupation": "3", "HeaderInformationFollows": "4", "ExternalEvent": "5", "CycleSlip": "6"},
    "clock::record::ClockProfileType": {x: x for x in ("AR", "AS", "CR", "DR", "MS")},
    "navigation::frame::NavFrameType": {"Ephemeris": "EPH", "SystemTimeOffset": "STO", "EarthOrientation": "EOP", "IonosphereModel": "ION"},
    "production::ppu::PPU": {"QuarterHour": "15M", "Hourly": "01H", "Daily": "01D", "Yearly": "01Y", "Unspecified": "00U"},
    "observable::Observable": {"Pressure": "PR", "Temperature": "TD", "HumidityRate": "HR", "ZenithWetDelay": "ZW", "ZenithDryDelay": "ZD", "ZenithTotalDelay": "ZT", "WindDirection": "WD", "WindSpeed": "WS",
                               "RainIncrement": "RI", "HailIndicator": "HI", "FrequencyRatio": "F"},
    "marker::MarkerType": {"Geodetic": "GEODETIC", "NonGeodetic": "NON_GEODETIC", "NonPhysical": "NON_PHYSICAL", "Spaceborne": "SPACEBORNE", "Airborne": "AIRBORNE", "Watercraft": "WATER_CRAFT", "Groundcraft": "GROUND_CRAFT",
                           "FixedBuoy": "FIXED_BUOY", "FloatingBuoy": "FLOATING_BUOY", "FloatingIce": "FLOATING_ICE", "Glacier": "GLACIER", "Ballistic": "BALLISTIC", "Animal": "ANIMAL", "Human": "HUMAN"},
}

SNRHEX = ["DbHz0", "DbHz12", "DbHz12_17", "DbHz18_23", "DbHz24_29", "DbHz30_35", "DbHz36_41", "DbHz42_47", "DbHz48_53", "DbHz54"]
# signal strength classes (RINEX 3 table 8): bounds in dBHz
SNRDB = [(0.5, 1), (11.9, 1), (12.0, 2), (17.0, 2), (17.5, 3), (18.0, 3), (23.0, 3), (24.0, 4), (29.0, 4), (30.0, 5), (35.0, 5), (36.0, 6), (41.0, 6), (42.0, 7), (47.0, 7), (48.0, 8), (53.0, 8), (54.0, 9), (60.0, 9)]


def expect(r, key, what, got, want, payload=None):
    if got is None:
        r.unknown(key, "no such parser")
        return
    if want is None:
        if is_err(got):
            r.ok(key)
        elif is_ok(got):
            r.fail(key, "%s is accepted as %s, the standard defines no such code" % (what, show(inner(got))))
        elif got is BOT:
            r.fail(key, "%s aborts" % what)
        else:
            r.unknown(key, show(got))
        return
    if got is BOT:
        r.fail(key, "%s aborts, expected %s" % (what, want))
    elif is_err(got):
        r.fail(key, "%s is rejected, expected %s" % (what, want))
    elif is_ok(got) and inner(got).k == "agg" and inner(got).a[1]:
        v = inner(got)
        if vname(v) != want:
            r.fail(key, "%s gives %s, expected %s" % (what, show(v), want))
        elif payload is not None and v.a[4] and is_c(v.a[4][0]) and cval(v.a[4][0]) != payload:
            r.fail(key, "%s gives %s, expected payload %r" % (what, show(v), payload))
        else:
            r.ok(key, "%s -> %s" % (what, show(v)))
    else:
        r.unknown(key, show(got))


def run(c):
    P, q, r = c.P, c.q, c.r
    n = 0
    for ty, tab in PARSE.items():
        st = ty.split("::")[-1]
        if P.trait_fn("std::str::FromStr", ty, "from_str") is None:
            r.fail("parser:" + st, "%s is no longer parsed from text" % ty)
            continue
        for text, want in tab:
            n += 1
            pay = None
            if st == "Observable" and want in ("PseudoRange", "PhaseRange", "Doppler", "SSI", "Power", "ChannelNumber"):
                pay = text.strip()
            expect(r, "parse:%s:%s" % (st, text or "blank"), "%s from %r" % (st, text), q.parse(ty, text), want, pay)
    for ty, tab in DISPLAY.items():
        st = ty.split("::")[-1]
        for name, text in tab.items():
            n += 1
            v = variant(P, ty, name)
            key = "text:%s:%s" % (st, name)
            if v is None:
                r.fail(key, "%s has no variant %s" % (st, name))
                continue
            d = q.fmt(ty, v)
            if is_str(d):
                r.check(cval(d) == text, key, "%s::%s is written %r, the standard text is %r" % (st, name, cval(d), text), None, text)
            elif d is BOT:
                r.fail(key, "writing %s::%s never returns" % (st, name))
            else:
                r.unknown(key, show(d))
    # observable payload is written verbatim
    for k, vn in OBSKIND.items():
        v = variant(P, "observable::Observable", vn, S(k + "1C"))
        d = q.fmt("observable::Observable", v) if v else None
        if is_str(d):
            r.check(cval(d) == k + "1C", "text:Observable:" + vn + ":" + k, "Observable::%s(%r) is written %r" % (vn, k + "1C", cval(d)))
    snr(c, r, P, q)
    misc(c, r, P, q)
    r.floor("codes", n, 200)


def snr(c, r, P, q):
    ty = "observation::snr::SNR"
    for i, name in enumerate(SNRHEX):
        v = variant(P, ty, name)
        d = q.fmt(ty, v, "std::fmt::LowerHex")
        if is_str(d):
            r.check(cval(d) == str(i), "snr:hex:%d" % i, "SNR class %s is written %r, RINEX digit is %d" % (name, cval(d), i))
        f8 = P.fn("<%s as std::convert::From<u8>>::from" % ty)
        if f8:
            g = q.call(f8, I(i))
            if g.k == "agg":
                r.check(vname(g) == name, "snr:u8:%d" % i, "digit %d gives %s, expected %s" % (i, show(g), name))
            else:
                r.unknown("snr:u8:%d" % i, show(g))
    ff = P.fn("<%s as std::convert::From<f64>>::from" % ty)
    for db, k in SNRDB:
        if ff:
            g = q.call(ff, C("f64", db))
            key = "snr:db:%s" % db
            if g.k == "agg":
                r.check(vname(g) == SNRHEX[k], key, "%s dBHz is class %s, RINEX class is %d" % (db, show(g), k))
            else:
                r.unknown(key, show(g))
    for name, lo, hi in (("bad", 0, 3), ("weak", 0, 4), ("strong", 5, 9), ("excellent", 8, 9)):
        f = P.fn("%s::%s" % (ty, name))
        if f is None:
            continue
        for i in range(10):
            g = q.call(f, variant(P, ty, SNRHEX[i]))
            key = "snr:%s:%d" % (name, i)
            if is_c(g):
                r.check(bool(cval(g)) == (lo <= i <= hi), key, "SNR class %d: %s() is %s" % (i, name, cval(g)))
            else:
                r.unknown(key, show(g))


LLI = {"OK_OR_UNKNOWN": 0, "LOCK_LOSS": 1, "HALF_CYCLE_SLIP": 2, "UNDER_ANTI_SPOOFING": 4}
GALHEALTH = {"E1B_DVS": 0x01, "E1B_HS0": 0x02, "E1B_HS1": 0x04, "E5A_DVS": 0x08, "E5A_HS0": 0x10, "E5A_HS1": 0x20, "E5B_DVS": 0x40, "E5B_HS0": 0x80, "E5B_HS1": 0x100}


def intval(v):
    """the integer inside a (nested) bit flag constant"""
    while isinstance(v, dict) and "fields" in v:
        if len(v["fields"]) != 1:
            return None
        v = v["fields"][0]
    return v.get("int") if isinstance(v, dict) else None


def bits(r, P, ty, table):
    st = ty.split("::")[-1]
    for n, want in table.items():
        key = "flag:%s:%s" % (st, n)
        c = P.consts.get(ty + "::" + n)
        got = intval(c["v"]) if c else None
        if got is None:
            r.fail(key, "%s no longer defines %s" % (st, n))
        else:
            r.check(got == want, key, "%s::%s is %#x, the standard bit is %#x" % (st, n, got, want))


def misc(c, r, P, q):
    ep = P.fn("observation::flag::EpochFlag::is_ok")
    if ep:
        for v in enum_values(P, "observation::flag::EpochFlag"):
            g = q.call(ep, v)
            if is_c(g):
                r.check(bool(cval(g)) == (vname(v) == "Ok"), "flag:is_ok:" + vname(v), "EpochFlag::%s.is_ok() is %s" % (vname(v), cval(g)))
    # GNSS systems and models of IONEX headers
    rs = "ionex::system::RefSystem"
    for t, want in (("ENV", "ObservationSystem"), ("MIX", "Model"), ("GNSS", "GnssConstellation"), ("TOP", "Model"), ("ERS", "ObservationSystem")):
        g = q.parse(rs, t)
        key = "parse:RefSystem:" + t
        ms = [m for m in members(inner(g))] if is_ok(g) else []
        if is_err(g) or g is BOT:
            r.fail(key, "IONEX system %r is rejected" % t)
        elif ms and all(m.k == "agg" for m in ms):
            names = {vname(m) for m in ms}
            r.check(want in names and names <= {want, "GnssConstellation"}, key, "IONEX system %r gives %s, expected %s" % (t, names, want))
        else:
            r.unknown(key, show(g))
    bits(r, P, "observation::lli::LliFlags", LLI)
    bits(r, P, "navigation::health::GalHealth", GALHEALTH)
    # file production units
    for t, v, u in (("30S", 30, "Second"), ("15M", 15, "Minute"), ("01H", 1, "Hour"), ("02D", 2, "Day")):
        g = q.parse("production::ffu::FFU", t)
        key = "parse:FFU:" + t
        if is_ok(g) and inner(g).k == "agg":
            val, unit = inner(g).a[4]
            r.check(is_c(val) and cval(val) == v and vname(unit) == u, key, "%r gives %s" % (t, show(g)))
            w = q.fmt("production::ffu::FFU", inner(g))
            if is_str(w):
                r.check(cval(w) == t, "text:FFU:" + t, "%s is written %r" % (show(inner(g)), cval(w)))
        elif is_err(g) or g is BOT:
            r.fail(key, "%r is rejected" % t)
        else:
            r.unknown(key, show(g))
    fs = "production::sequence::FileSequence"
    for t, name, p in [("0", "DayCourse", None)] + [(chr(97 + i), "DayPortion", i) for i in (0, 1, 11, 23)] + [(str(i), "Batch", i) for i in (1, 5, 9)] + [("y", None, None), ("z", None, None)]:
        expect(r, "parse:FileSequence:" + t, "file sequence %r" % t, q.parse(fs, t), name, p)
    for name, ch in (("Receiver", "R"), ("Stream", "S"), ("Unknown", "U")):
        f = P.fn("production::source::DataSource::to_char")
        if f:
            g = q.call(f, variant(P, "production::source::DataSource", name))
            if is_c(g):
                r.check(cval(g) in (ch, ord(ch)), "text:DataSource:" + name, "DataSource::%s is written %r" % (name, cval(g)))

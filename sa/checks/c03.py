"""C03: signals, carriers, frequencies and physical constants."""
from lib import *

RULE = ("for every constellation, measurement letter, band and tracking attribute of the RINEX observation code tables, the compiled mapping "
        "propagates to a carrier whose centre frequency constant is that of the ICD; GLONASS FDMA steps, wavelength and the ICD constants are the published ones")

# centre frequencies [MHz] (GPS/QZSS/GAL/BDS/GLO/NavIC/SBAS/DORIS ICDs)
FREQ = {
    "L1": 1575.42, "L2": 1227.60, "L5": 1176.45, "L6": 1278.75,
    "E1": 1575.42, "E5": 1191.795, "E5a": 1176.45, "E5b": 1207.14, "E6": 1278.75,
    "G1": 1602.0, "G1a": 1600.995, "G2": 1246.0, "G2a": 1248.06, "G3": 1202.025,
    "B1I": 1561.098, "B1A": 1575.42, "B1C": 1575.42, "B2": 1191.795, "B2A": 1176.45, "B2I": 1207.14, "B2B": 1207.14, "B3": 1268.52, "B3A": 1268.52,
    "S": 2492.028, "S1": 2036.25, "U2": 401.25,
}
# RINEX 3/4 table of observation codes: band digit -> (MHz, attributes)
BANDS = {
    "GPS": {"1": (1575.42, "CSLXPWYMN"), "2": (1227.60, "CDSLXPWYMN"), "5": (1176.45, "IQX")},
    "Glonass": {"1": (1602.0, "CP"), "4": (1600.995, "ABX"), "2": (1246.0, "CP"), "6": (1248.06, "ABX"), "3": (1202.025, "IQX")},
    "Galileo": {"1": (1575.42, "ABCXZ"), "5": (1176.45, "IQX"), "7": (1207.14, "IQX"), "8": (1191.795, "IQX"), "6": (1278.75, "ABCXZ")},
    "SBAS": {"1": (1575.42, "C"), "5": (1176.45, "IQX")},
    "QZSS": {"1": (1575.42, "CESLXZB"), "2": (1227.60, "SLX"), "5": (1176.45, "IQXDPZ"), "6": (1278.75, "SLXEZ")},
    "BeiDou": {"2": (1561.098, "IQX"), "1": (1575.42, "DPXSLZ"), "5": (1176.45, "DPX"), "7": (1207.14, "IQXDPZ"), "8": (1191.795, "DPX"), "6": (1268.52, "IQXDPZ")},
    "IRNSS": {"5": (1176.45, "ABCX"), "9": (2492.028, "ABCX")},
}
# two-character RINEX 2 codes
BARE = {"GPS": {"1": 1575.42, "2": 1227.60, "5": 1176.45}, "Glonass": {"1": 1602.0, "2": 1246.0, "3": 1202.025}, "Galileo": {"1": 1575.42, "6": 1278.75}, "SBAS": {"1": 1575.42, "5": 1176.45},
        "QZSS": {"1": 1575.42, "2": 1227.60, "5": 1176.45, "6": 1278.75}}
KIND = {"C": "PseudoRange", "L": "PhaseRange", "D": "Doppler", "S": "SSI"}
# codes the crate does not (yet) map: rejected, never mapped to a wrong carrier
DORIS = {"1": ("S1", 2036.25), "2": ("U2", 401.25)}
CONST = "gnss::constellation::Constellation"

def near(a, b, rel=1e-9):
    return abs(a - b) <= rel * max(abs(a), abs(b))


def freq(q, fn, car):
    f = q.call(fn, car)
    return cval(f) if is_c(f) and isinstance(cval(f), float) else None


def run(c):
    P, q, r = c.P, c.q, c.r
    mhz = P.fn("carrier::Carrier::frequency_mhz")
    hz = P.fn("carrier::Carrier::frequency")
    wl = P.fn("carrier::Carrier::wavelength")
    r.floor("frequency functions", sum(f is not None for f in (mhz, hz, wl)), 3)
    none = agg("std::option::Option", "None", 0, (), ())

    def some(v):
        return agg("std::option::Option", "Some", 1, ("0",), (v,))

    if not (mhz and hz and wl):
        return
    for name, want in FREQ.items():
        v = variant(P, "carrier::Carrier", name, *([none] if name in ("G1", "G2") else []))
        if v is None:
            r.fail("freq:" + name, "Carrier::%s is gone" % name)
            continue
        for fn, w, u in ((mhz, want, "MHz"), (hz, want * 1e6, "Hz"), (wl, 299792458.0 / (want * 1e6), "m")):
            g = freq(q, fn, v)
            key = "freq:%s:%s" % (name, u)
            if g is None:
                r.unknown(key, show(q.call(fn, v)))
            else:
                r.check(near(g, w), key, "%s(%s) is %r, the ICD value is %r" % (fn.path.split("::")[-1], name, g, w), None, g)
    for name, base, step in (("G1", 1602.0, 0.5625), ("G2", 1246.0, 0.4375)):
        for k in range(-7, 7):
            v = variant(P, "carrier::Carrier", name, some(I(k)))
            g = freq(q, mhz, v)
            key = "freq:%s:fdma%+d" % (name, k)
            if g is None:
                r.unknown(key, show(q.call(mhz, v)))
            else:
                r.check(near(g, base + k * step), key, "GLONASS %s channel %d is %r MHz, the ICD value is %r" % (name, k, g, base + k * step))
    off = P.fn("carrier::Carrier::with_glonass_offset")
    if off:
        for k in (-7, -1, 0, 5):
            for name, to in (("L1", "G1"), ("L2", "G2")):
                g = q.call(off, variant(P, "carrier::Carrier", name), I(k))
                if g.k == "agg":
                    ok = vname(g) == to and g.a[4] and is_ok(g.a[4][0]) and is_c(inner(g.a[4][0])) and cval(inner(g.a[4][0])) == k
                    r.check(ok, "fdma:%s%+d" % (name, k), "with_glonass_offset(%s, %d) is %s" % (name, k, show(g)))
    signals(c, r, P, q, mhz)
    from_sv(c, r, P, q, mhz)
    phys(c, r, P, q)


def obs(P, kind, code):
    return variant(P, "observable::Observable", kind, S(code))


def signals(c, r, P, q, mhz):
    fn = P.fn("carrier::Carrier::from_observable")
    if fn is None:
        r.fail("api:from_observable", "Carrier::from_observable is gone")
        return
    n = 0
    for cn, bands in BANDS.items():
        cv = variant(P, CONST, cn)
        if cv is None:
            r.unknown("code:" + cn, "no such constellation")
            continue
        todo = [(b, a, f) for b, (f, at) in bands.items() for a in at] + [(b, "", f) for b, f in BARE.get(cn, {}).items()]
        for b, a, f in todo:
            for letter, kind in KIND.items():
                if a == "N" and letter == "C":
                    continue  # codeless tracking: no pseudo range
                n += 1
                code = letter + b + a
                g = q.call(fn, cv, obs(P, kind, code))
                key = "code:%s:%s" % (cn, code)
                if is_ok(g) and inner(g).k == "agg":
                    fr = freq(q, mhz, inner(g))
                    if fr is None:
                        r.unknown(key, show(g))
                    else:
                        r.check(near(fr, f), key, "%s %s maps to %s (%s MHz), the signal is at %s MHz" % (cn, code, show(inner(g)), fr, f))
                elif is_err(g) or g is BOT:
                    r.fail(key, "%s %s has no carrier, the signal is at %s MHz" % (cn, code, f))
                else:
                    r.unknown(key, show(g))
    # codes of a band no system defines are refused
    for cn in BANDS:
        for code in ("L0C", "C0X", "L1?"):
            cv = variant(P, CONST, cn)
            g = q.call(fn, cv, obs(P, KIND[code[0]], code))
            if is_ok(g) and inner(g).k == "agg":
                r.fail("bogus:%s:%s" % (cn, code), "%s %s maps to %s" % (cn, code, show(g)))
            elif is_err(g):
                r.ok("bogus:%s:%s" % (cn, code))
    # DORIS signals
    fn = P.fn("carrier::Carrier::from_doris_observable")
    if fn:
        for b, (name, f) in DORIS.items():
            for letter, kind in KIND.items():
                if letter in "CL":
                    g = q.call(fn, obs(P, kind, letter + b))
                    key = "code:DORIS:" + letter + b
                    if is_ok(g) and inner(g).k == "agg":
                        r.check(vname(inner(g)) == name, key, "DORIS %s maps to %s" % (letter + b, show(g)))
                    elif is_err(g):
                        r.fail(key, "DORIS %s has no carrier" % (letter + b))
    r.floor("signal codes", n, 250)


# band numbers of ANTEX frequency labels ("G05", "E07"...)
ANTEX = {
    "GPS": {1: 1575.42, 2: 1227.60, 5: 1176.45}, "Glonass": {1: 1602.0, 2: 1246.0}, "Galileo": {1: 1575.42, 5: 1176.45, 6: 1278.75, 7: 1207.14, 8: 1191.795},
    "BeiDou": {1: 1575.42, 2: 1561.098, 5: 1176.45, 6: 1268.52, 7: 1207.14, 8: 1191.795}, "QZSS": {1: 1575.42, 2: 1227.60, 5: 1176.45, 6: 1278.75},
    "SBAS": {1: 1575.42, 5: 1176.45}, "IRNSS": {5: 1176.45, 9: 2492.028},
}


def sv(P, cn, prn=None):
    return struct(P, "gnss::sv::SV", prn=I(prn) if prn is not None else E("arg", "prn"), constellation=variant(P, CONST, cn))


def from_sv(c, r, P, q, mhz):
    fn = P.fn("carrier::Carrier::from_sv")
    if fn is None:
        r.unknown("antex", "Carrier::from_sv is gone")
        return
    for cn, tab in ANTEX.items():
        for b, f in tab.items():
            g = q.call(fn, sv(P, cn, b))
            key = "antex:%s:%02d" % (cn, b)
            if is_ok(g) and inner(g).k == "agg":
                fr = freq(q, mhz, inner(g))
                if fr is None:
                    r.unknown(key, show(g))
                else:
                    r.check(near(fr, f), key, "ANTEX frequency label %s %02d is read as %s (%s MHz), the band is at %s MHz" % (cn, b, show(inner(g)), fr, f))
            elif is_err(g) or g is BOT:
                r.fail(key, "ANTEX frequency label %s %02d is refused" % (cn, b))
            else:
                r.unknown(key, show(g))


# ICD constants: gravitational parameter, Earth rotation, relativistic correction
PHYS = {
    "gm": {"GPS": 3.986005e14, "Galileo": 3.986004418e14, "BeiDou": 3.986004418e14, "Glonass": 3.9860044e14, "QZSS": 3.986005e14},
    "omega": {"GPS": 7.2921151467e-5, "Galileo": 7.2921151467e-5, "BeiDou": 7.292115e-5, "Glonass": 7.292115e-5, "QZSS": 7.2921151467e-5},
    "dtr_f": {"GPS": -4.442807633e-10, "Galileo": -4.442807309e-10, "BeiDou": -4.442807309e-10},
}


def phys(c, r, P, q):
    for name, tab in PHYS.items():
        fn = P.fn("constants::Constants::" + name)
        if fn is None:
            r.unknown("const:" + name, "no such function")
            continue
        for cn, want in tab.items():
            g = q.call(fn, sv(P, cn))
            key = "const:%s:%s" % (name, cn)
            if is_c(g):
                r.check(near(cval(g), want), key, "%s(%s) is %r, the ICD value is %r" % (name, cn, cval(g), want), None, cval(g))
            else:
                r.unknown(key, show(g))

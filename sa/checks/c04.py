"""C04: classifying predicates and record iterators yield exactly the entries of their kind."""
from lib import *

RULE = ("each classifying predicate is evaluated on every variant it classifies; each record iterator is evaluated on an abstract record holding one arbitrary entry "
        "of each kind: it must yield that entry, unconditionally and with its own key and value, when the kind matches, and nothing otherwise")

OBS = "observable::Observable"
STRV = {"PseudoRange": "C1C", "PhaseRange": "L1C", "Doppler": "D1C", "SSI": "S1C", "Power": "W1", "ChannelNumber": "X1"}
PRED = {"is_phase_range_observable": "PhaseRange", "is_pseudo_range_observable": "PseudoRange", "is_doppler_observable": "Doppler", "is_ssi_observable": "SSI",
        "is_power_observable": "Power", "is_channel_number": "ChannelNumber"}
RECTYPE = {"ObsRecord": "ObservationData", "NavRecord": "NavigationData", "MeteoRecord": "MeteoData", "ClockRecord": "ClockData", "IonexRecord": "IonosphereMaps", "AntexRecord": "AntennaData", "DorisRecord": "DORIS"}
ISTYPE = {"is_observation_rinex": "ObservationData", "is_navigation_rinex": "NavigationData", "is_meteo_rinex": "MeteoData", "is_clock_rinex": "ClockData", "is_antex": "AntennaData", "is_ionex": "IonosphereMaps", "is_doris": "DORIS"}
AS = {"as_obs": "ObsRecord", "as_nav": "NavRecord", "as_meteo": "MeteoRecord", "as_clock": "ClockRecord", "as_ionex": "IonexRecord", "as_antex": "AntexRecord", "as_doris": "DorisRecord"}
FRAME = {"as_ephemeris": "EPH", "as_system_time": "STO", "as_earth_orientation": "EOP", "as_ionosphere_model": "ION"}
FRTYPE = {"EPH": "Ephemeris", "STO": "SystemTimeOffset", "EOP": "EarthOrientation", "ION": "IonosphereModel"}
OPT = "std::option::Option"


def some(v):
    return agg(OPT, "Some", 1, ("0",), (v,))


NONE = agg(OPT, "None", 0, (), ())


def allobs(P):
    out = []
    for i, (name, d, fields) in enumerate(P.adts[OBS]["variants"]):
        out.append(variant(P, OBS, name, *([S(STRV.get(name, "X1"))] if fields else [])))
    return out


def coll(k, v):
    return agg("coll", "", 0, ("key", "val"), (k, v))


def rinex(P, rv, content, rtype=None):
    hd = struct(P, "header::Header", rinex_type=variant(P, "types::Type", rtype or RECTYPE[rv]))
    return struct(P, "Rinex", header=hd, record=variant(P, "record::Record", rv, content))


def seeds(P):
    """(label, kind, rinex value, [values that must be part of a yielded entry])"""
    out = {"obs": [], "meteo": [], "doris": [], "nav": [], "clock": [], "ionex": []}
    val = E("arg", "value")
    for ob in allobs(P):
        sig = struct(P, "observation::signal::SignalObservation", observable=ob, value=val)
        o = struct(P, "observation::Observations", signals=coll(BOT, sig), clock=NONE)
        out["obs"].append((vname(ob), rinex(P, "ObsRecord", coll(struct(P, "observation::ObsKey"), o)), [val, struct(P, "observation::ObsKey")]))
        mk = struct(P, "meteo::MeteoKey", observable=ob)
        out["meteo"].append((vname(ob), rinex(P, "MeteoRecord", coll(mk, val)), [val, E("f", "epoch", E("arg", "MeteoKey"))]))
        sk = struct(P, "doris::SignalKey", observable=ob)
        so = struct(P, "doris::SignalObservation", value=val)
        do = struct(P, "doris::Observations", signals=coll(sk, so))
        out["doris"].append((vname(ob), rinex(P, "DorisRecord", coll(struct(P, "doris::DorisKey"), do)), [val, E("f", "epoch", E("arg", "DorisKey"))]))
    clk = E("arg", "clk")
    o = struct(P, "observation::Observations", signals=coll(BOT, BOT), clock=some(clk))
    out["obs"].append(("clock", rinex(P, "ObsRecord", coll(struct(P, "observation::ObsKey"), o)), [clk, struct(P, "observation::ObsKey")]))
    nk = "navigation::NavKey"
    models = [None] + [v[0] for v in P.adts["navigation::ionosphere::IonosphereModel"]["variants"]]
    for fr, ft in FRTYPE.items():
        for m in models if fr == "ION" else [None]:
            if fr == "ION" and m is None:
                continue
            p = E("arg", "frame")
            f = variant(P, "navigation::frame::NavFrame", fr, variant(P, "navigation::ionosphere::IonosphereModel", m, p) if m else p)
            k = struct(P, nk, frmtype=variant(P, "navigation::frame::NavFrameType", ft))
            out["nav"].append((fr + (":" + m if m else ""), rinex(P, "NavRecord", coll(k, f)), [p, k]))
    for ct, arg in (("SV", E("arg", "sv")), ("Station", E("arg", "name"))):
        k = struct(P, "clock::record::ClockKey", clock_type=variant(P, "clock::record::ClockType", ct, arg))
        prof = struct(P, "clock::record::ClockProfile")
        out["clock"].append((ct, rinex(P, "ClockRecord", coll(E("arg", "epoch"), coll(k, prof))), [E("arg", "epoch"), arg, prof]))
    return out


OBSIT = [("pseudo_range_observations_iter", {"PseudoRange"}), ("phase_range_observations_iter", {"PhaseRange"}), ("doppler_observations_iter", {"Doppler"}), ("ssi_observations_iter", {"SSI"}),
         ("signal_observations_iter", None), ("signal_observations_iter_mut", None), ("clock_observations_iter", {"clock"}), ("clock_observations_iter_mut", {"clock"})]
METIT = [("temperature_iter", {"Temperature"}), ("pressure_iter", {"Pressure"}), ("moisture_rate_iter", {"HumidityRate"}), ("wind_speed_iter", {"WindSpeed"}), ("wind_direction_iter", {"WindDirection"}),
         ("accumulated_rain_iter", {"RainIncrement"}), ("zenith_total_delay_iter", {"ZenithTotalDelay"}), ("zenith_dry_delay_iter", {"ZenithDryDelay"}), ("zenith_wet_delay_iter", {"ZenithWetDelay"})]
DORIT = [("temperature_iter", {"Temperature"}), ("pressure_iter", {"Pressure"}), ("moisture_rate_iter", {"HumidityRate"}), ("doris_ground_station_pseudo_range_iter", {"PseudoRange"}), ("doris_ground_station_phase_range_iter", {"PhaseRange"}),
         ("doris_ground_station_signals_iter", None)]
NAVIT = [("nav_ephemeris_frames_iter", {"EPH"}), ("nav_earth_orientation_frames_iter", {"EOP"}), ("nav_system_time_frames_iter", {"STO"}),
         ("nav_ionosphere_models_iter", {"ION:Klobuchar", "ION:NequickG", "ION:Bdgim"}), ("nav_klobuchar_models_iter", {"ION:Klobuchar"}), ("nav_nequickg_models_iter", {"ION:NequickG"}), ("nav_bdgim_models_iter", {"ION:Bdgim"})]
CLKIT = [("precise_sv_clock", {"SV"}), ("precise_station_clock", {"Station"})]


def method(P, name):
    ps = [p for p in P.bypath if p.endswith("<impl Rinex>::" + name) or p == "Rinex::" + name]
    return P.fn(ps[0]) if ps else None


def contains(v, t):
    return any(x is t for x in walk(v))


def iterators(c, r, P, q):
    sd = seeds(P)
    n = 0
    for grp, tab in (("obs", OBSIT), ("meteo", METIT), ("doris", DORIT), ("nav", NAVIT), ("clock", CLKIT)):
        for name, kinds in tab:
            fn = method(P, name)
            if fn is None:
                continue
            for label, rx, parts in sd[grp]:
                if kinds is None and label == "clock":
                    continue
                want = kinds is None or label in kinds
                key = "iter:%s:%s:%s" % (grp, name, label)
                v = q.call(fn, rx)
                it = v
                if not (it.k == "e" and it.op == "iter"):
                    r.unknown(key, show(v)[:200])
                    continue
                n += 1
                el = it.args[0]
                may = el is not BOT
                if want and not may:
                    r.fail(key, "%s never yields %s entries" % (name, label))
                elif not want and may:
                    r.fail(key, "%s yields %s entries" % (name, label))
                elif want:
                    lossy = str(it.meta).endswith("?")
                    bad = [p for p in parts if not contains(deep(el), p)] if "mut" not in name else []
                    if lossy:
                        r.fail(key, "%s leaves out some %s entries: %s" % (name, label, it.meta))
                    elif bad and el is not TOP and not has_top(el):
                        r.fail(key, "%s yields a %s entry without its own %s: %s" % (name, label, show(bad[0]), show(el)[:300]))
                    else:
                        r.ok(key, show(el))
                else:
                    r.ok(key)
    r.floor("iterator obligations", n, 100)


def deep(v):
    return v


def has_top(v):
    return any(x is TOP for x in walk(v))


def run(c):
    P, q, r = c.P, c.q, c.r
    ob = allobs(P)
    n = 0
    for name, kind in PRED.items():
        fn = P.fn(OBS + "::" + name)
        if fn is None:
            r.unknown("pred:" + name, "gone")
            continue
        for v in ob:
            g = q.call(fn, v)
            key = "pred:%s:%s" % (name, vname(v))
            n += 1
            if is_c(g):
                r.check(bool(cval(g)) == (vname(v) == kind), key, "%s is %s for %s" % (name, cval(g), show(v)))
            else:
                r.unknown(key, show(g))
    fn = P.fn(OBS + "::same_physics")
    if fn:
        for a in ob:
            for b in ob:
                g = q.call(fn, a, b)
                key = "pred:same_physics:%s:%s" % (vname(a), vname(b))
                n += 1
                if is_c(g):
                    r.check(bool(cval(g)) == (a is b), key, "same_physics(%s, %s) is %s" % (vname(a), vname(b), cval(g)))
                else:
                    r.unknown(key, show(g))
    # file and record types
    for name, ty in ISTYPE.items():
        fn = method(P, name)
        if fn is None:
            r.unknown("type:" + name, "gone")
            continue
        for rv, rt in RECTYPE.items():
            g = q.call(fn, rinex(P, rv, E("arg", "rec")))
            key = "type:%s:%s" % (name, rt)
            n += 1
            if is_c(g):
                r.check(bool(cval(g)) == (rt == ty), key, "%s is %s for a %s file" % (name, cval(g), rt))
            else:
                r.unknown(key, show(g))
    for tab, ty, pre in ((AS, "record::Record", "as_"), (FRAME, "navigation::frame::NavFrame", "as_")):
        for name, kind in tab.items():
            for nm in (name, name.replace("as_", "as_mut_")):
                fn = P.fn("%s::%s" % (ty, nm))
                if fn is None:
                    continue
                for v in P.adts[ty]["variants"]:
                    a = E("arg", "payload")
                    g = q.call(fn, variant(P, ty, v[0], a))
                    key = "as:%s:%s" % (nm, v[0])
                    n += 1
                    want = v[0] == kind
                    if is_ok(g) or is_err(g):
                        r.check(is_ok(g) == want, key, "%s of %s is %s" % (nm, v[0], show(g)))
                    else:
                        r.unknown(key, show(g))
    # Klobuchar / NeQuick / BDGIM accessors
    im = "navigation::ionosphere::IonosphereModel"
    for nm, kind in (("as_klobuchar", "Klobuchar"), ("as_klobuchar_mut", "Klobuchar"), ("as_nequick_g", "NequickG"), ("as_bdgim", "Bdgim")):
        fn = P.fn("%s::%s" % (im, nm))
        if fn:
            for v in P.adts[im]["variants"]:
                g = q.call(fn, variant(P, im, v[0], E("arg", "payload")))
                if is_ok(g) or is_err(g):
                    r.check(is_ok(g) == (v[0] == kind), "as:%s:%s" % (nm, v[0]), "%s of %s is %s" % (nm, v[0], show(g)))
    orbit_items(c, r, P, q)
    r.floor("predicate obligations", n, 400)
    iterators(c, r, P, q)


def orbit_items(c, r, P, q):
    ty = "navigation::orbits::OrbitItem"
    want = {"as_gps_health": "Health", "as_geo_health": "GeoHealth", "as_glo_health": "GloHealth", "as_gal_health": "GalHealth", "as_irnss_health": "IrnssHealth"}
    for nm, kind in want.items():
        fn = P.fn("%s::%s" % (ty, nm))
        if fn is None:
            continue
        for v in P.adts[ty]["variants"]:
            g = q.call(fn, variant(P, ty, v[0], E("arg", "payload")))
            key = "as:%s:%s" % (nm, v[0])
            if is_ok(g) or is_err(g):
                r.check(is_ok(g) == (v[0] == kind), key, "OrbitItem::%s of %s is %s" % (nm, v[0], show(g)))
            else:
                r.unknown(key, show(g))

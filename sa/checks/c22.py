"""C22: builders and setters store their argument in the field they are named after, and nothing else."""
from lib import *
import re

RULE = (
    "Each with_/set_ method is abstractly executed on a value whose fields are kept apart by name and on opaque arguments: the resulting value must differ "
    "from the input in the named field(s) only, and each of those must hold the argument that goes with it. A call whose only effect is the value it returns "
    "(shared or owned receiver of a type, same type returned, no mutable borrow) must have that value used by its caller."
)

# method -> {field: argument index (1-based) or (index, ...)}; nested fields dotted
T = {
    "Rinex.with_header": {"header": 1},
    "Rinex.with_record": {"record": 1},
    "antex::HeaderFields.with_pcv_type": {"pcv_type": 1},
    "antex::HeaderFields.with_reference_antenna_sn": {"reference_ant_sn": 1},
    "antex::antenna::Antenna.with_calibration": {"calibration": 1},
    "antex::antenna::Antenna.with_dazi": {"azi_inc": 1},
    "antex::antenna::Antenna.with_specificities": {"specific": 1},
    "antex::antenna::Antenna.with_validity_period": {"calibration.validity_period": (1, 2)},
    "antex::antenna::Antenna.with_zenith_grid": {"zenith_grid": 1},
    "antex::frequency::Frequency.with_carrier": {"carrier": 1},
    "antex::frequency::Frequency.with_eastern_eccentricity": {"east": 1},
    "antex::frequency::Frequency.with_northern_eccentricity": {"north": 1},
    "antex::frequency::Frequency.with_upper_eccentricity": {"up": 1},
    "hardware::Antenna.with_base_coordinates": {"coords": 1},
    "hardware::Antenna.with_eastern_component": {"eastern": 1},
    "hardware::Antenna.with_height": {"height": 1},
    "hardware::Antenna.with_model": {"model": 1},
    "hardware::Antenna.with_northern_component": {"northern": 1},
    "hardware::Antenna.with_serial_number": {"sn": 1},
    "hardware::Receiver.with_firmware": {"firmware": 1},
    "hardware::Receiver.with_model": {"model": 1},
    "hardware::Receiver.with_serial_number": {"sn": 1},
    "hardware::SvAntenna.with_cospar": {"cospar": 1},
    "hardware::SvAntenna.with_model": {"model": 1},
    "hardware::SvAntenna.with_sv": {"sv": 1},
    "hatanaka::crinex::CRINEX.with_date": {"date": 1},
    "hatanaka::crinex::CRINEX.with_prog": {"prog": 1},
    "hatanaka::crinex::CRINEX.with_prog_date": {"prog": 1, "date": 1},
    "hatanaka::crinex::CRINEX.with_version": {"version": 1},
    "header::Header.with_comment": {"comments": 1},
    "header::Header.with_comments": {"comments": 1},
    "header::Header.with_constellation": {"constellation": 1},
    "header::Header.with_crinex": {"obs": 1},
    "header::Header.with_general_information": {"program": 1, "run_by": 2, "agency": 3},
    "header::Header.with_ionex_fields": {"ionex": 1},
    "header::Header.with_observation_fields": {"obs": 1},
    "header::Header.with_receiver": {"rcvr": 1},
    "header::Header.with_receiver_antenna": {"rcvr_antenna": 1},
    "header::Header.with_rx_orbit": {"rx_position": 1},
    "header::Header.with_type": {"rinex_type": 1},
    "header::Header.with_version": {"version": 1},
    "ionex::header::HeaderFields.with_altitude_grid": {"grid.height": 1},
    "ionex::header::HeaderFields.with_base_radius": {"base_radius": 1},
    "ionex::header::HeaderFields.with_dcb": {"dcbs": (1, 2)},
    "ionex::header::HeaderFields.with_description": {"description": 1},
    "ionex::header::HeaderFields.with_elevation_cutoff": {"elevation_cutoff": 1},
    "ionex::header::HeaderFields.with_epoch_of_first_map": {"epoch_of_first_map": 1},
    "ionex::header::HeaderFields.with_epoch_of_last_map": {"epoch_of_last_map": 1},
    "ionex::header::HeaderFields.with_exponent": {"exponent": 1},
    "ionex::header::HeaderFields.with_latitude_grid": {"grid.latitude": 1},
    "ionex::header::HeaderFields.with_longitude_grid": {"grid.longitude": 1},
    "ionex::header::HeaderFields.with_map_dimension": {"map_dimension": 1},
    "ionex::header::HeaderFields.with_mapping_function": {"mapping": 1},
    "ionex::header::HeaderFields.with_nb_satellites": {"nb_satellites": 1},
    "ionex::header::HeaderFields.with_nb_stations": {"nb_stations": 1},
    "ionex::header::HeaderFields.with_number_of_maps": {"number_of_maps": 1},
    "ionex::header::HeaderFields.with_observables": {"observables": 1},
    "ionex::header::HeaderFields.with_reference_system": {"reference": 1},
    "ionex::tec::TEC.with_rms": {"rms": 1},
    "ionex::tec::TEC.set_quantized_rms": {"rms": (1, 2)},
    "leap::Leap.with_day": {"day": 1},
    "leap::Leap.with_delta_tls": {"delta_tls": 1},
    "leap::Leap.with_timescale": {"timescale": 1},
    "leap::Leap.with_week": {"week": 1},
    "marker::GeodeticMarker.with_name": {"name": 1},
    "marker::GeodeticMarker.with_number": {"identification": 1, "monument": 1},
    "meteo::sensor::Sensor.with_accuracy": {"accuracy": 1},
    "meteo::sensor::Sensor.with_height": {"height": 1},
    "meteo::sensor::Sensor.with_model": {"model": 1},
    "meteo::sensor::Sensor.with_observable": {"observable": 1},
    "meteo::sensor::Sensor.with_position": {"position": 1},
    "meteo::sensor::Sensor.with_type": {"sensor_type": 1},
    "navigation::ephemeris::Ephemeris.with_orbit": {"orbits": (1, 2)},
    "navigation::ephemeris::Ephemeris.with_week": {"orbits": 1},
    "navigation::ephemeris::Ephemeris.with_kepler": {"orbits": 1},
    "navigation::ephemeris::Ephemeris.with_perturbations": {"orbits": 1},
    "navigation::ephemeris::Ephemeris.set_orbit_f64": {"orbits": (1, 2)},
    "observation::Observations.with_clock_observation": {"clock": 1},
    "observation::Observations.with_clock_offset_s": {"clock": (1, 2)},
    "observation::clock::ClockObservation.with_offset_s": {"offset_s": 2, "past_epoch": 1, "drift_s_s": (1, 2)},
    "observation::clock::ClockObservation.set_offset_s": {"offset_s": 2, "past_epoch": 1, "drift_s_s": (1, 2)},
    "observation::header::HeaderFields.with_crinex": {"crinex": 1},
    "observation::header::HeaderFields.with_timeof_first_obs": {"timeof_first_obs": 1},
    "observation::header::HeaderFields.with_timeof_last_obs": {"timeof_last_obs": 1},
    "observation::header::HeaderFields.with_scaling": {"scaling": (1, 2, 3)},
    "doris::header::HeaderFields.with_scaling": {"scaling": (1, 2)},
    "observation::signal::SignalObservation.with_snr": {"snr": 1},
}
# plain stores: the field is the argument (or Some of it), nothing computed
COMPUTED = {"rx_position", "calibration.validity_period", "cospar", "obs", "comments", "dcbs", "description", "rms", "orbits", "drift_s_s", "identification", "monument", "scaling", "clock", "observables", "prog", "date"}
PLAIN_EXC = {"hatanaka::crinex::CRINEX.with_prog", "hatanaka::crinex::CRINEX.with_date", "header::Header.with_comments", "header::Header.with_observation_fields", "observation::Observations.with_clock_observation"}


def payloads(v):
    """the values v can be, under Ok / Some"""
    if v.k == "alt":
        for x in v.a[0]:
            yield from payloads(x)
    else:
        yield v


def field(P, ty, v, path):
    for n in path.split("."):
        if v.k != "agg":
            return None
        if n not in v.a[3]:
            return None
        v = v.a[4][v.a[3].index(n)]
    return v


def diff(a, b, pre=""):
    """dotted names of the fields that differ, None for undecidable"""
    if a is b:
        return {}
    if a.k == "agg" and b.k == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and pre.count(".") < 1:
        out = {}
        for n, x, y in zip(a.a[3], a.a[4], b.a[4]):
            out.update(diff(x, y, (pre + "." if pre else "") + n))
        return out
    return {pre: b}


def expand(P, v, ty, fname):
    return v


def run(c):
    P, q, r = c.P, c.q, c.r
    n = 0
    for key, want in sorted(T.items()):
        ty, m = key.rsplit(".", 1)
        fn = meth(P, ty, m)
        if fn is None or ty not in P.adts:
            r.unknown("set:" + key, "no such method")
            continue
        if fn.argc < 1:
            continue
        base = E("arg", "self")
        nested = {w.split(".")[0] for w in want if "." in w}
        kw = {}
        for fl, t, _ in P.adts[ty]["variants"][0][2]:
            if fl in nested and t in P.adts and len(P.adts[t]["variants"]) == 1:
                kw[fl] = struct(P, t, E("f", fl, base))
        s = struct(P, ty, base, **kw)
        xs = [E("arg", "x%d" % i) for i in range(1, fn.argc)]
        bymut = fn.locals[1][0].startswith("&mut")
        try:
            I_ = q.interp()
            ret, out = I_.entry(fn, {i + 1: a for i, a in enumerate([s] + xs)})
            q.done(I_)
        except RecursionError:
            r.unknown("set:" + key, "recursion")
            continue
        if bymut:
            res = out.get(fn.locals[1][1] or "a1")
            if res is None:
                r.unknown("set:" + key, "receiver lost")
                continue
        else:
            res = ret
        n += 1
        vals = [v for v in payloads(res)] if res is not None else []
        good = []
        for v in vals:
            if v.k == "agg" and v.a[1] in ("Ok", "Some"):
                good += list(payloads(v.a[4][0]))
            elif v.k == "agg" and v.a[1] in ("Err", "None"):
                continue
            else:
                good.append(v)
        if not good or any(v.k != "agg" or v.a[0] != ty for v in good):
            r.unknown("set:" + key, show(res)[:200] if res is not None else "none")
            continue
        for v in good:
            d = diff(s, v)
            for fl, x in sorted(d.items()):
                hit = [w for w in want if w == fl or w.startswith(fl + ".") or fl.startswith(w + ".")]
                if hit:
                    continue
                if x is TOP or mentions(x, TOP):
                    r.unknown("only:%s:%s" % (key, fl), "unresolved")
                    continue
                r.fail("only:%s:%s" % (key, fl), "%s::%s changes field %s (to %s), which it is not about" % (ty, m, fl, show(x)[:120]), fn.span)
            r.ok("only:" + key, "fields changed: %s" % sorted(d))
            for w, ai in want.items():
                x = field(P, ty, v, w)
                k = "store:%s:%s" % (key, w)
                ais = ai if isinstance(ai, tuple) else (ai,)
                if x is None or x is TOP or (mentions(x, TOP) and not all(mentions(x, xs[a - 1]) for a in ais)):
                    r.unknown(k, "unresolved")
                    continue
                plain = w not in COMPUTED or key in PLAIN_EXC
                if plain:
                    a = xs[ais[0] - 1]
                    one = [p for p in payloads(x)]
                    okv = all(p is a or (p.k == "agg" and p.a[1] == "Some" and p.a[4][0] is a) for p in one)
                    keep = [p for p in one if mentions(p, base) and not mentions(p, a)]
                    if len(one) > 1 and keep and key in ("ionex::header::HeaderFields.with_observables", "hardware::SvAntenna.with_cospar", "ionex::header::HeaderFields.with_description"):
                        okv = True
                    if any(mentions(p, TOP) for p in one):
                        r.unknown(k, "unresolved")
                        continue
                    r.check(okv, k, "%s::%s stores %s in %s instead of its argument" % (ty, m, show(x)[:160], w), fn.span, show(x)[:120])
                else:
                    miss = [a for a in ais if not mentions(x, xs[a - 1])]
                    r.check(not miss, k, "%s::%s: %s becomes %s, which does not depend on argument %s" % (ty, m, w, show(x)[:160], miss), fn.span, show(x)[:120])
    r.floor("setters analysed", n, 60)
    discards(c)


IGN = re.compile(r"^(std|core|alloc)::")


def discards(c):
    P, r = c.P, c.r
    n = 0
    for fn in P.fns.values():
        used = None
        for b, t in fn.calls():
            f = t["f"]
            cal = P.callee(t)
            if cal is None or cal.get("kind") == "closure" or not cal.argc:
                continue
            rt = cal.locals[0][0]
            a0 = cal.locals[1][0]
            args = [cal.locals[i + 1][0] for i in range(cal.argc)]
            if rt in ("()", "!") or rt not in P.adts or any("&mut" in a for a in args):
                continue
            if a0.lstrip("&") != rt:
                continue
            n += 1
            d = t["d"]
            if d["p"]:
                continue
            if used is None:
                used = usedlocals(fn)
            key = "discard:%s:%s" % (fn.file, cal.path.split("::")[-1])
            if d["l"] in used or d["l"] == 0:
                r.ok(key)
            else:
                r.fail(key, "%s calls %s and drops the %s it returns: the update it computed is lost" % (fn.path, cal.path, rt.split("::")[-1]), fn.span)
    r.floor("builder calls", n, 40)


def usedlocals(fn):
    out = set()

    def place(p, write=False):
        if not write or p["p"]:
            out.add(p["l"])
        for e in p["p"]:
            if e[0] == "i":
                out.add(e[1])

    def op(o):
        if "c" in o:
            place(o["c"])
        elif "m" in o:
            place(o["m"])

    def rv(x):
        if isinstance(x, dict):
            if "c" in x or "m" in x:
                op(x)
            elif "l" in x and "p" in x:
                place(x)
            else:
                for y in x.values():
                    rv(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                rv(y)

    for sts, t in fn.blocks:
        for s in sts:
            place(s[0], True)
            rv(s[1])
        if t["t"] == "call":
            for a in t["a"]:
                op(a)
            if "f" in t:
                rv(t["f"])
            if t["d"]["p"]:
                place(t["d"], True)
        elif t["t"] == "switch":
            rv([v for k, v in t.items() if k not in ("t", "v", "o")])
        elif t["t"] == "assert":
            rv([v for k, v in t.items() if k not in ("t", "to")])
    return out

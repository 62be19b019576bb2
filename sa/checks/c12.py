"""C12: ephemeris accessors and setters use the navigation message field they are named after."""
from lib import *
import val
from evalt import Eval, Unk, close

RULE = ("each ephemeris accessor is evaluated on a record whose fields are kept apart by name: the value it returns must be the field it is named after; "
        "each setter is evaluated on opaque values: each stored value must sit under the field its reader looks up, and reader after setter is the identity; "
        "stored field values are read through every typed accessor for every kind of value")

EPH = "navigation::ephemeris::Ephemeris"
OI = "navigation::orbits::OrbitItem"
CONST = "gnss::constellation::Constellation"

KEPLER = {"a": "sqrta", "e": "e", "i_0": "i0", "omega": "omega", "omega_0": "omega0", "m_0": "m0", "toe": "toe"}
PERTURB = {"dn": "deltaN", "i_dot": "idot", "omega_dot": "omegaDot", "cuc": "cuc", "cus": "cus", "cic": "cic", "cis": "cis", "crc": "crc", "crs": "crs"}
VALID = {"GPS": 7200, "QZSS": 7200, "IRNSS": 7200, "Galileo": 10800, "BeiDou": 21600, "Glonass": 1800, "SBAS": 86400, "EGNOS": 86400, "WAAS": 86400}
TS = {"GPST": "GPST", "QZSST": "GPST", "GST": "GPST"}


def keyed(P, wrap=None):
    """HashMap::get(k) on the message fields yields the field named k"""

    def hook(I_, f, args, st, fr, b):
        if f.get("name") in ("get", "index") and len(args) > 1 and ("HashMap" in (f.get("path") or "") or "HashMap" in str(f.get("self"))):
            k = I_.deref(args[1], st)
            if is_str(k):
                v = (wrap or (lambda n: variant(P, OI, "F64", E("key", n))))(cval(k))
                return I_.some(v) if f.get("name") == "get" else v
        return NotImplemented

    return {"call": hook}


def sv(P, c, prn=None):
    return struct(P, "gnss::sv::SV", prn=I(prn) if prn else E("arg", "prn"), constellation=variant(P, CONST, c))


def someof(v):
    """payload(s) of the Some/Ok side"""
    out = [inner(m) for m in members(v) if is_ok(m)]
    return joinall(out) if out else None


def keysof(v):
    return {x.meta for x in walk(v) if x.k == "e" and x.op == "key"}


def run(ctx):
    P, q, r = ctx.P, ctx.q, ctx.r
    val.MAXSZ = 10**9
    eph = struct(P, EPH)
    H = keyed(P)
    get = {}
    for fn, table in (("kepler", KEPLER), ("perturbations", PERTURB)):
        v = someof(q.call(meth(P, "Ephemeris", fn), eph, hooks=H) or BOT)
        if v is None or v.k != "agg":
            r.unknown("read:" + fn, show(v) if v else "no result")
            continue
        fields = dict(zip(v.a[3], v.a[4]))
        for f, key in table.items():
            x = fields.get(f)
            ks = keysof(x) if x is not None else set()
            where = "%s().%s" % (fn, f)
            ok = ks == {key} or (f == "dn" and ks <= {"deltaN", "deltaN0"} and "deltaN" in ks)
            if not ks:
                if x is not None and any(y is TOP for y in walk(x)):
                    r.unknown("read:" + where, show(x))
                else:
                    r.fail("read:" + where, "%s does not come from the message field \"%s\" but from %s" % (where, key, show(x)[:200] if x is not None else None))
                continue
            if not r.check(ok, "read:" + where, "%s is read from the message field(s) %s instead of \"%s\"" % (where, sorted(ks), key), sample=show(x)):
                continue
            get[f] = x
            try:
                y = Eval(lambda t: 1.7 if t.k == "e" and t.op == "key" else None)(x)
                want = 1.7**2 if f == "a" else 1.7
                r.check(close(y, want), "value:" + where, "%s alters the message value: %s gives %r for 1.7, expected %r" % (where, show(x), y, want))
            except Unk as e:
                r.unknown("value:" + where, e)
    # setters
    for fn, adt, table in (("with_kepler", "Kepler", KEPLER), ("with_perturbations", "Perturbations", PERTURB)):
        m = meth(P, "Ephemeris", fn)
        I_ = q.interp()
        arg = struct(P, "navigation::ephemeris::kepler::" + adt)
        ret, _ = I_.entry(m, {1: eph, 2: arg})
        q.done(I_)
        got = {}
        dyn = False
        for ev in I_.events.values():
            if ev.callee.endswith("::insert") and "HashMap" in ev.callee and len(ev.args) == 3:
                k = ev.args[1]
                for kk in members(k):
                    if is_str(kk):
                        got.setdefault(cval(kk), []).append(ev.args[2])
                    else:
                        dyn = True
        if dyn or not got:
            r.unknown("write:" + fn, "keys are not resolved")
            continue
        for f, key in table.items():
            vs = got.get(key)
            if not vs:
                r.fail("write:%s.%s" % (fn, f), "%s stores nothing in the message field \"%s\" (fields stored: %s)" % (fn, key, sorted(got)))
                continue
            x = joinall(vs)
            try:
                y = Eval(lambda t: (1.7**2 if t.meta == "a" else 1.7) if t.k == "e" and t.op == "f" and t.meta == f and t.args[0] is E("arg", adt) else None)(x)
                r.check(close(y, 1.7), "write:%s.%s" % (fn, f), "%s stores %s in \"%s\": reading it back does not give %s" % (fn, show(x), key, f), sample=show(x))
            except Unk as e:
                others = {t.meta for t in walk(x) if t.k == "e" and t.op == "f" and t.args and t.args[0] is E("arg", adt)}
                if others and f not in others:
                    r.fail("write:%s.%s" % (fn, f), "%s stores %s in the message field \"%s\" instead of %s" % (fn, sorted(others), key, f))
                else:
                    r.unknown("write:%s.%s" % (fn, f), e)
        rest = {f.meta for f in ([] if ret is None else [ret])}
    # plain accessors
    v = q.call(meth(P, "Ephemeris", "sv_clock"), eph)
    want = tup(*[E("f", n, E("arg", "Ephemeris")) for n in ("clock_bias", "clock_drift", "clock_drift_rate")])
    r.check(v is want or not (v.k == "agg" and v.a[0] == "()"), "read:sv_clock", "sv_clock() returns %s" % show(v))
    for fn, key in (("tgd", "tgd"), ("glonass_freq_channel", "channel")):
        w = None
        if fn == "glonass_freq_channel":
            w = lambda n: variant(P, OI, "I8", E("key", n))
        v = someof(q.call(meth(P, "Ephemeris", fn), eph, hooks=keyed(P, w)) or BOT)
        ks = keysof(v) if v is not None else set()
        if not ks:
            r.unknown("read:" + fn, show(v) if v else "none")
            continue
        r.check(ks == {key}, "read:" + fn, "%s() reads %s instead of \"%s\"" % (fn, sorted(ks), key), sample=show(v))
        try:
            r.check(close(Eval(lambda t: 3.0 if t.k == "e" and t.op == "key" else None)(v), 3.0), "value:" + fn, "%s() alters the value (a number of seconds / a channel number): %s" % (fn, show(v)))
        except Unk as e:
            r.unknown("value:" + fn, e)
    # time of ephemeris
    toe = meth(P, "Ephemeris", "toe")
    for t in ("GPST", "QZSST", "GST", "BDT", "UTC"):
        tsv = variant(P, "hifitime::TimeScale", t)
        if tsv is None:
            continue
        full = q.call(toe, eph, tsv, hooks=H)
        v = someof(full)
        if t == "UTC":
            r.check(v is None, "toe:" + t, "a time of ephemeris is computed in %s: %s" % (t, show(v) if v else ""))
            continue
        if v is None:
            r.fail("toe:" + t, "no time of ephemeris in %s" % t)
            continue
        try:
            y = Eval(lambda x: {"week": 1234.0, "toe": 5678.0}.get(x.meta) if x.k == "e" and x.op == "key" else None)(v)
            r.check(close(y, 1234 * 604800 + 5678.0), "toe:" + t, "time of ephemeris is not week * 7 days + toe seconds: %s" % show(v), sample=show(v))
        except Unk as e:
            r.unknown("toe:" + t, e)
        ts = {x.a[1] for x in walk(v) if x.k == "agg" and x.a[0] == "hifitime::TimeScale"}
        bdt = any(x.k == "e" and x.op == "call" and "bdt" in x.meta for x in walk(v))
        other = any(x.k == "e" and x.op == "call" and x.meta.endswith(("from_gpst_duration", "from_gst_duration", "from_qzsst_duration", "from_utc_duration", "from_tai_duration")) for x in walk(v))
        if t == "BDT":
            if ts or bdt or other:
                r.check((bdt or ts == {"BDT"}) and not other and ts <= {"BDT"}, "toe_scale:" + t, "BeiDou time of ephemeris is expressed in %s" % (sorted(ts) or show(v)))
        elif ts or bdt or other:
            # these three week counters share one origin, up to the GST/GPST epoch aligned in RINEX
            r.check(not bdt and ts <= {"GPST"}, "toe_scale:" + t, "time of ephemeris (RINEX weeks, aligned to GPS weeks) is expressed in %s" % (sorted(ts) or show(v)))
    # week
    I_ = q.interp()
    I_.entry(meth(P, "Ephemeris", "with_week"), {1: eph, 2: E("arg", "week")})
    q.done(I_)
    got = {}
    for ev in I_.events.values():
        if ev.callee.endswith("::insert") and "HashMap" in ev.callee and len(ev.args) == 3 and is_str(ev.args[1]):
            got[cval(ev.args[1])] = ev.args[2]
    if got:
        r.check(set(got) == {"week"} and mentions(got["week"], E("arg", "week")), "write:with_week", "with_week stores %s" % {k: show(v) for k, v in got.items()})
    else:
        r.unknown("write:with_week", "not resolved")
    # state vectors of the systems which broadcast positions
    for c in ("Glonass", "SBAS", "EGNOS"):
        for fn, want in (("kepler2position_velocity", ["satPosX", "satPosY", "satPosZ", "velX", "velY", "velZ"]), ("kepler2position", ["satPosX", "satPosY", "satPosZ"])):
            v = someof(q.call(meth(P, "Ephemeris", fn), eph, sv(P, c), hooks=H) or BOT)
            key = "state:%s.%s" % (fn, c)
            if v is None:
                r.unknown(key, "no result")
                continue
            vec = []

            def collect(x):
                if x.k == "agg":
                    for y in x.a[4]:
                        collect(y)
                elif x.k == "e" and x.op == "call":
                    for y in x.args:
                        collect(y)
                elif x.k == "e" and x.op == "key":
                    vec.append(x.meta)
                elif keysof(x):
                    vec.append(show(x))

            collect(v)
            r.check(vec == want, key, "state vector of %s is built from %s instead of %s" % (c, vec, want), sample=vec)
    # validity
    for c, sec in VALID.items():
        v = someof(q.call(meth(P, "Ephemeris", "validity_duration"), variant(P, CONST, c)) or BOT)
        if v is None:
            r.fail("validity:" + c, "no validity duration for %s" % c)
            continue
        try:
            y = Eval(lambda x: None)(v)
            r.check(close(y, sec), "validity:" + c, "validity of %s messages is %s s instead of %s s" % (c, y, sec), sample=show(v))
        except Unk as e:
            r.unknown("validity:" + c, e)
    # typed values
    num = E("arg", "number")
    for vn in ("U8", "I8", "U32", "F64"):
        item = variant(P, OI, vn, num)
        for fn in ("as_f64", "as_u32", "as_u8", "as_i8"):
            v = q.call(meth(P, "OrbitItem", fn), item)
            p = someof(v) if v is not None else None
            if p is None:
                if fn[3:].upper() == vn or fn == "as_f64":
                    r.fail("typed:%s.%s" % (fn, vn), "%s yields nothing for a %s value" % (fn, vn))
                continue
            try:
                r.check(close(Eval(lambda x: 7.0 if x is num else None)(p), 7.0), "typed:%s.%s" % (fn, vn), "%s of a %s value is %s" % (fn, vn, show(p)), sample=show(p))
            except Unk as e:
                r.unknown("typed:%s.%s" % (fn, vn), e)
    pay = E("arg", "flags")
    for vn, fn in (("Health", "as_gps_health"), ("GeoHealth", "as_geo_health"), ("GloHealth", "as_glo_health"), ("GalHealth", "as_gal_health"), ("IrnssHealth", "as_irnss_health")):
        for on in [x[0] for x in P.adts[OI]["variants"]]:
            v = q.call(meth(P, "OrbitItem", fn), variant(P, OI, on, pay))
            p = someof(v) if v is not None else None
            if on == vn:
                r.check(p is not None and mentions(p, pay), "typed:%s.%s" % (fn, on), "%s of a %s value yields %s" % (fn, on, show(v)), sample=show(v))
            else:
                r.check(p is None, "typed:%s.%s" % (fn, on), "%s yields %s for a %s value" % (fn, show(v), on))
    # text to typed value
    new = meth(P, "OrbitItem", "new")
    txt = E("arg", "content")
    H2 = {"GPS": "Health", "QZSS": "Health", "Glonass": "GloHealth", "Galileo": "GalHealth", "IRNSS": "IrnssHealth", "BeiDou": "U32", "SBAS": "GeoHealth", "EGNOS": "GeoHealth"}
    for td, vn in (("u8", "U8"), ("i8", "I8"), ("u32", "U32"), ("f64", "F64"), ("gloStatus", "GloStatus"), ("health", None)):
        for c in H2 if td == "health" else ("GPS",):
            w = vn or H2[c]
            v = q.call(new, S(td), txt, variant(P, CONST, c))
            kinds = {vname(inner(m)) for m in members(v) if is_ok(m)}
            errs = [m for m in members(v) if is_err(m)]
            key = "typed:new.%s.%s" % (td, c)
            if not kinds or any(k not in [x[0] for x in P.adts[OI]["variants"]] for k in kinds):
                r.unknown(key, show(v))
                continue
            r.check(kinds == {w}, key, "a field of type %s (%s) becomes %s instead of %s" % (td, c, sorted(kinds), w), sample=show(v)[:200])
    messages(ctx)
    r.floor("accessors", r.okc + len(r.unknowns), 90)


def messages(ctx):
    """accessors and setters on messages whose every field is known"""
    import lists

    P, q, r = ctx.P, ctx.q, ctx.r
    names = sorted(set(KEPLER.values()) | set(PERTURB.values()) | {"tgd"})
    rows = [0.0, -0.0, 1.5, -3.25e-9, 5153.5]

    def item(x, k=None):
        return variant(P, OI, k or ("U32" if isinstance(x, int) else "F64"), I(x) if isinstance(x, int) else C("f64", x))

    def message(vals):
        return struct(P, EPH, clock_bias=C("f64", 1.0), clock_drift=C("f64", 2.0), clock_drift_rate=C("f64", 3.0), orbits=lists.kvmap([(S(k), item(x, "I8" if k == "channel" else None)) for k, x in vals.items()]))

    def number(v):
        try:
            return Eval(lambda t: None)(v)
        except Unk:
            return None

    def stored(v):
        """{field: number} of a message"""
        if v is None or v.k != "agg" or v.a[0] != EPH:
            return None
        m = dict(zip(v.a[3], v.a[4])).get("orbits")
        if m is None or not lists.is_kv(m):
            return None
        out = {}
        for e in m.a[4]:
            k, x = e.a[4]
            if not is_str(k) or x.k != "agg" or len(x.a[4]) != 1:
                return None
            out[cval(k)] = number(x.a[4][0])
        return out

    base = {k: 0.01 * (i + 1) for i, k in enumerate(names)}
    base.update(week=2200, channel=-3, sqrta=5153.5)
    n = 0
    for k in names:
        for x in rows:
            if k == "sqrta" and x < 0:
                continue
            vals = dict(base, **{k: x})
            e = message(vals)
            for fn, table in (("kepler", KEPLER), ("perturbations", PERTURB)):
                if k not in table.values():
                    continue
                v = q.call(meth(P, "Ephemeris", fn), e, partition=True)
                key = "message:%s:%s=%r" % (fn, k, x)
                if is_err(v):
                    r.fail(key, "%s yields nothing for a message whose field \"%s\" is %r" % (fn, k, x))
                    n += 1
                    continue
                if not is_ok(v) or inner(v).k != "agg":
                    r.unknown(key, show(v)[:200])
                    continue
                got = dict(zip(inner(v).a[3], inner(v).a[4]))
                bad = None
                for f, kk in table.items():
                    y = number(got[f]) if f in got else None
                    w = vals[kk] ** 2 if f == "a" else vals[kk]
                    if y is None:
                        continue
                    if not close(y, w):
                        bad = "%s is %r" % (f, y)
                r.check(bad is None, key, "%s of a message whose field \"%s\" is %r: %s" % (fn, k, x, bad))
                n += 1
            if k == "tgd":
                v = q.call(meth(P, "Ephemeris", "tgd"), e, partition=True)
                key = "message:tgd=%r" % x
                if is_err(v):
                    r.fail(key, "tgd yields nothing for a group delay of %r" % x)
                elif is_ok(v) and number(inner(v)) is not None:
                    r.check(close(number(inner(v)), x), key, "tgd is %r for a group delay of %r" % (number(inner(v)), x))
                else:
                    r.unknown(key, show(v)[:200])
                n += 1
    # a field that is missing is missing
    for fn, table in (("kepler", KEPLER), ("perturbations", PERTURB)):
        for k in table.values():
            v = q.call(meth(P, "Ephemeris", fn), message({a: b for a, b in base.items() if a != k}), partition=True)
            if v is BOT:
                r.fail("missing:%s:%s" % (fn, k), "%s aborts for a message without \"%s\"" % (fn, k))
            elif is_ok(v) or is_err(v):
                r.check(is_err(v), "missing:%s:%s" % (fn, k), "%s yields %s for a message without \"%s\"" % (fn, show(v)[:200], k))
                n += 1
    # both names of the mean motion difference
    pf = meth(P, "Ephemeris", "perturbations")
    for vals, w in ((dict(base, deltaN0=0.7), base["deltaN"]), (dict({a: b for a, b in base.items() if a != "deltaN"}, deltaN0=0.7), 0.7), (dict(base, deltaN=0.0, deltaN0=0.7), 0.0)):
        v = q.call(pf, message(vals), partition=True)
        if is_ok(v) and inner(v).k == "agg":
            y = number(dict(zip(inner(v).a[3], inner(v).a[4])).get("dn", TOP))
            if y is not None:
                r.check(close(y, w), "message:dn:%r" % sorted((a, b) for a, b in vals.items() if a.startswith("deltaN")), "the mean motion difference is %r, not %r" % (y, w))
    # setters: the named fields hold the argument, the others what they held
    for wk in (0, 1, 1023, 1024, 2047, 2048, 2345, 4096, 65536):
        for vals in (base, {a: b for a, b in base.items() if a != "week"}):
            v = stored(q.call(meth(P, "Ephemeris", "with_week"), message(vals), I(wk), partition=True))
            key = "set:week:%d%s" % (wk, "" if "week" in vals else " (new)")
            if v is None or v.get("week", 0) is None:
                r.unknown(key, "not resolved")
                continue
            r.check(v == dict(vals, week=wk), key, "with_week(%d) leaves week %r%s" % (wk, v.get("week"), "" if {a: b for a, b in v.items() if a != "week"} == {a: b for a, b in vals.items() if a != "week"} else " and alters other fields"))
            n += 1
    for k in ("crs", "week", "other"):
        for x in (0.0, 12.5, 7):
            v = stored(q.call(meth(P, "Ephemeris", "with_orbit"), message(base), S(k), item(x), partition=True))
            key = "set:orbit:%s=%r" % (k, x)
            if v is None or v.get(k, 0) is None:
                r.unknown(key, "not resolved")
                continue
            r.check(v == dict(base, **{k: x}), key, "storing %r in the field \"%s\" leaves %r there" % (x, k, v.get(k)))
            n += 1
    for fn, adt, table in (("with_kepler", "Kepler", KEPLER), ("with_perturbations", "Perturbations", PERTURB)):
        for old in (base, {}):
            for i in range(3):
                new = {f: [0.0, -0.125, 2.5e-9][(i + j) % 3] if f != "a" else [2.65e7, 0.0, 4.2e7][i] for j, f in enumerate(table)}
                arg = struct(P, "navigation::ephemeris::kepler::" + adt, **{f: C("f64", x) for f, x in new.items()})
                v = stored(q.call(meth(P, "Ephemeris", fn), message(old), arg, partition=True))
                key = "set:%s:%d%s" % (fn, i, "" if old else " (new)")
                if v is None or any(x is None for x in v.values()):
                    r.unknown(key, "not resolved")
                    continue
                want = dict(old, **{k: new[f] ** 0.5 if f == "a" else new[f] for f, k in table.items()})
                bad = [k for k in set(v) | set(want) if k not in v or k not in want or not close(v[k], want[k])]
                r.check(not bad, key, "%s leaves %s" % (fn, ", ".join("%s = %r instead of %r" % (k, v.get(k), want.get(k)) for k in bad)))
                n += 1
    r.floor("messages", n, 60)

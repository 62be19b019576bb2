"""C23: whole-file transforms touch what they are about, and their copying form equals their in-place form."""
from lib import *
from checks.c04 import OBS, NONE, some, coll, rinex, method
from evalt import Eval, Unk, close

RULE = (
    "each transform is abstractly executed on a file whose header fields are kept apart and whose record holds one arbitrary entry, next to an operand that matches "
    "it in every key or differs from it in exactly one key component: the resulting record is compared with the definition of the transform, and the copying "
    "form with the in-place form (same abstract record)"
)
CONST = "gnss::constellation::Constellation"


def sv(P, c, n):
    return struct(P, "gnss::sv::SV", prn=I(n), constellation=variant(P, CONST, c))


def sig(P, s, ob, val, **k):
    return struct(P, "observation::signal::SignalObservation", sv=s, observable=variant(P, OBS, *ob), value=val, **k)


def obsrx(P, key, s):
    return rinex(P, "ObsRecord", coll(key, struct(P, "observation::Observations", signals=coll(BOT, s), clock=E("arg", "clk"))))


def fld(v, *names):
    for n in names:
        if v is None or v.k != "agg":
            return None
        if n not in v.a[3]:
            return None
        v = v.a[4][v.a[3].index(n)]
    return v


def both(c, name, *args):
    """(label, resulting Rinex) of the in-place and copying forms"""
    P, q = c.P, c.q
    out = []
    for n in (name + "_mut", name):
        fn = method(P, n)
        if fn is None:
            continue
        I_ = q.interp()
        ret, o = I_.entry(fn, {i + 1: a for i, a in enumerate(args)})
        q.done(I_)
        res = o.get("self") if n.endswith("_mut") else ret
        out.append((n, res, fn.span))
    return out


def payload(rx):
    rec = fld(rx, "record")
    if rec is None or rec.k != "agg" or not rec.a[4]:
        return None, None
    p = rec.a[4][0]
    if p.k == "agg" and p.a[0] == "coll":
        return p.a[4]
    return None, None


def minus(c, key, name, got, a, b, want, span):
    """got must be a (want False) or a - b applied one or more times (smashed list), a-b at least (want True)"""
    r = c.r
    if got is None or got is TOP:
        r.unknown(key, show(got) if got is not None else "lost")
        return
    ms = [m for m in (got.a[0] if got.k == "j" else [got]) if not (m.k == "e" and m.op == "phi")]
    if not want:
        if all(m is a for m in ms):
            r.ok(key, show(got))
        elif any(m is TOP or mentions(m, TOP) for m in ms):
            r.unknown(key, show(got)[:200])
        else:
            r.fail(key, "%s changes a value that has no counterpart: %s" % (name, show(got)[:200]), span)
        return
    A, Bv = 11.25, 3.5
    vals = []
    for m in ms:
        try:
            vals.append(Eval(lambda t: A if t is a else Bv if t is b else None)(m))
        except Unk as e:
            r.unknown(key, e)
            return
    steps = {round(float((A - v) / Bv), 9) for v in vals}
    if any(s != int(s) or s < 0 for s in steps):
        r.fail(key, "%s computes %s, not the stored value minus the operand's" % (name, show(got)[:200]), span)
    elif 1.0 not in steps:
        r.fail(key, "%s leaves a value that has a counterpart as it is: %s" % (name, show(got)[:200]), span)
    else:
        r.ok(key, show(got)[:120])


def substract(c):
    P, r = c.P, c.r
    va, vb = E("arg", "va"), E("arg", "vb")
    n = 0
    OK = variant(P, "observation::flag::EpochFlag", "Ok")
    PF = variant(P, "observation::flag::EpochFlag", "PowerFailure")
    k0 = struct(P, "observation::ObsKey", flag=OK)
    k1 = struct(P, "observation::ObsKey", flag=PF)
    ph = ("PhaseRange", S("L1C"))
    cases = [("same", k0, sv(P, "GPS", 1), ph, True)]
    cases += [("flag", k1, sv(P, "GPS", 1), ph, False), ("prn", k0, sv(P, "GPS", 2), ph, False), ("constellation", k0, sv(P, "Galileo", 1), ph, False)]
    cases += [("code", k0, sv(P, "GPS", 1), ("PhaseRange", S("L1W")), False), ("physics", k0, sv(P, "GPS", 1), ("PseudoRange", S("L1C")), False)]
    for ob in (ph, ("PseudoRange", S("C1C")), ("Doppler", S("D1C")), ("SSI", S("S1C"))):
        a = obsrx(P, k0, sig(P, sv(P, "GPS", 1), ob, va))
        for lab, k, s, o2, want in cases:
            o2 = ob if o2 is ph else o2
            if o2 == ob and lab in ("code", "physics"):
                continue
            b = obsrx(P, k, sig(P, s, o2, vb))
            res = both(c, "observation_substract", a, b)
            recs = []
            for name, rx, span in res:
                kk, vv = payload(rx)
                key = "sub:obs:%s:%s:%s" % (name, ob[0], lab)
                s_ = fld(vv, "signals") if vv is not None else None
                g = fld(s_, "val") if s_ is not None and s_.k == "agg" and s_.a[0] == "coll" else None
                minus(c, key, name, fld(g, "value"), va, vb, want, span)
                n += 1
                if vv is not None:
                    recs.append(vv)
                    for f in ("sv", "observable", "lli", "snr"):
                        x, y = fld(g, f), fld(sig(P, sv(P, "GPS", 1), ob, va), f)
                        if x is not None and x is not TOP and not mentions(x, TOP):
                            r.check(x is y, "sub:keep:%s:%s" % (name, f), "%s changes the %s of an observation: %s" % (name, f, show(x)[:100]), span)
                    x = fld(vv, "clock")
                    if x is not None and x is not TOP:
                        r.check(x is E("arg", "clk"), "sub:keep:%s:clock" % name, "%s changes the clock observation" % name, span)
                h = fld(rx, "header")
                if h is not None and h is not TOP:
                    r.check(h is fld(a, "header"), "sub:header:%s" % name, "%s changes the header" % name, span)
    # doris
    for lab, st, ob, want in (("same", "A", "L1", True), ("station", "B", "L1", False), ("observable", "A", "L2", False)):
        mk = lambda s, o, v: rinex(P, "DorisRecord", coll(struct(P, "doris::DorisKey"), struct(P, "doris::Observations", signals=coll(struct(P, "doris::SignalKey", station=struct(P, "doris::station::Station", label=S(s)), observable=variant(P, OBS, "PhaseRange", S(o))), struct(P, "doris::SignalObservation", value=v)))))
        for name, rx, span in both(c, "observation_substract", mk("A", "L1", va), mk(st, ob, vb)):
            kk, vv = payload(rx)
            g = fld(vv, "signals", "val") if vv is not None else None
            minus(c, "sub:doris:%s:%s" % (name, lab), name, fld(g, "value"), va, vb, want, span)
            n += 1
    # meteo
    for lab, ob, want in (("same", "Temperature", True), ("observable", "Pressure", False)):
        mk = lambda o, v: rinex(P, "MeteoRecord", coll(struct(P, "meteo::MeteoKey", observable=variant(P, OBS, o)), v))
        for name, rx, span in both(c, "observation_substract", mk("Temperature", va), mk(ob, vb)):
            kk, vv = payload(rx)
            minus(c, "sub:meteo:%s:%s" % (name, lab), name, vv, va, vb, want, span)
            n += 1
    # operands of different kinds leave the file unchanged
    a = obsrx(P, k0, sig(P, sv(P, "GPS", 1), ph, va))
    m = rinex(P, "MeteoRecord", coll(struct(P, "meteo::MeteoKey", observable=variant(P, OBS, "Temperature")), vb))
    for lab, x, y in (("obs-meteo", a, m), ("meteo-obs", m, a)):
        for name, rx, span in both(c, "observation_substract", x, y):
            g = fld(rx, "record")
            if g is not None and g is not TOP:
                r.check(g is fld(x, "record"), "sub:kinds:%s:%s" % (name, lab), "%s of files of different kinds changes the record" % name, span)
                n += 1
    r.floor("subtraction cases", n, 40)


def masking(c):
    P, r = c.P, c.r
    LF = "observation::lli::LliFlags"
    n = 0
    mk = lambda bits: flags(P, LF, bits)
    k0 = struct(P, "observation::ObsKey")
    for ob in (("PhaseRange", S("L1C")), ("PseudoRange", S("C1C")), ("Doppler", S("D1C")), ("SSI", S("S1C"))):
        for lli in (None, 0, 1, 2, 4, 3):
            for mask in (1, 2, 4, 3):
                a = obsrx(P, k0, sig(P, sv(P, "GPS", 1), ob, E("arg", "va"), lli=NONE if lli is None else some(mk(lli))))
                if ob[0] != "PhaseRange":
                    want = True
                else:
                    want = lli is not None and (lli & mask) != 0
                for name, rx, span in both(c, "observation_phase_tracking_lli_masking", a, mk(mask)):
                    key = "mask:%s:%s:%s:%s" % (name, ob[0], lli, mask)
                    kk, vv = payload(rx)
                    if vv is None:
                        r.unknown(key, "record lost")
                        continue
                    s_ = fld(vv, "signals", "val") if vv is not BOT else BOT
                    if s_ is None or s_ is TOP:
                        r.unknown(key, show(vv)[:120])
                        continue
                    n += 1
                    if want:
                        r.check(s_ is fld(fld(a, "record").a[4][0], "val", "signals", "val"), key, "%s drops or alters a %s observation with LLI %s under mask %s" % (name, ob[0], lli, mask), span)
                    else:
                        if s_ is BOT:
                            r.ok(key)
                        else:
                            # retained for sure? the predicate may have been undecided
                            r.fail(key, "%s keeps a %s observation with LLI %s under mask %s" % (name, ob[0], lli, mask), span)
    r.floor("masking cases", n, 100)


def flags(P, ty, bits):
    """a bitflags value"""
    for p, fs in P.bypath.items():
        if p.endswith("<impl %s>::from_bits_truncate" % ty):
            return Q(P).call(fs[0], I(bits))
    return E("flags", bits)


def conversions(c):
    P, r = c.P, c.r
    H = "header::Header"
    names = [f[0] for f in P.adts[H]["variants"][0][2]]
    hf = "observation::header::HeaderFields"
    hn = [f[0] for f in P.adts[hf]["variants"][0][2]]
    n = 0
    for name, allowed in (("crnx2rnx", {"obs", "program"}), ("rnx2crnx", {"obs"})):
        for maj in (1, 2, 3, 4):
            for comp in (False, True):
                ob = struct(P, hf, crinex=some(E("arg", "crx")) if comp else NONE)
                hd = struct(P, H, rinex_type=variant(P, "types::Type", "ObservationData"), version=struct(P, "version::Version", major=I(maj)), obs=some(ob))
                s = struct(P, "Rinex", header=hd)
                rr = []
                for nm, rx, span in both(c, name, s):
                    key = "conv:%s:v%d:%s" % (nm, maj, comp)
                    h = fld(rx, "header")
                    if h is None or h.k != "agg":
                        r.unknown(key, show(rx)[:100] if rx is not None else "lost")
                        continue
                    n += 1
                    rr.append(h)
                    for f, x, y in zip(names, h.a[4], hd.a[4]):
                        if f in allowed or x is y or x is TOP:
                            continue
                        r.fail(key + ":" + f, "%s changes the header field %s to %s" % (nm, f, show(x)[:100]), span)
                    o = fld(h, "obs")
                    if o is None or not is_ok(o) or inner(o).k != "agg":
                        (r.fail if o is not None and is_err(o) else r.unknown)(key + ":obs", "%s loses the observation header" % nm)
                        continue
                    o = inner(o)
                    for f in hn:
                        x, y = fld(o, f), fld(ob, f)
                        if f != "crinex" and x is not TOP:
                            r.check(x is y, key + ":obs." + f, "%s changes the observation header field %s to %s" % (nm, f, show(x)[:100]), span)
                    cx = fld(o, "crinex")
                    if name == "crnx2rnx":
                        r.check(is_err(cx), key + ":crinex", "%s leaves the file marked as compressed: %s" % (nm, show(cx)[:100]), span)
                    elif is_err(cx) or not is_ok(cx):
                        (r.fail if is_err(cx) else r.unknown)(key + ":crinex", "%s does not mark the file as compressed" % nm)
                    else:
                        mj = fld(inner(cx), "version", "major")
                        if mj is not None and is_c(mj):
                            r.check(cval(mj) == (1 if maj < 3 else 3), key + ":crinex", "%s marks a RINEX %d file as CRINEX %s" % (nm, maj, cval(mj)), span)
                        else:
                            r.unknown(key + ":crinex", show(inner(cx))[:100])
                    rec = fld(rx, "record")
                    if rec is not None and rec is not TOP:
                        r.check(rec is fld(s, "record"), key + ":record", "%s changes the record" % nm, span)
        for ty in ("MeteoData", "NavigationData", "ClockData"):
            hd = struct(P, H, rinex_type=variant(P, "types::Type", ty), obs=NONE)
            s = struct(P, "Rinex", header=hd)
            for nm, rx, span in both(c, name, s):
                if rx is not None and rx.k == "agg" and not mentions(rx, TOP):
                    r.check(rx is s, "conv:%s:%s" % (nm, ty), "%s changes a %s file" % (nm, ty), span)
                    n += 1
    r.floor("conversion cases", n, 28)


def compensation(c):
    P, q, r = c.P, c.q, c.r
    n = 0
    for name, f, ty in (("dcb_compensation", "dcb_compensations", "header::DcbCompensation"), ("pcv_compensation", "pcv_compensations", "header::PcvCompensation")):
        fn = method(P, name)
        if fn is None or ty not in P.adts:
            r.unknown("comp:" + name, "gone")
            continue
        for have in ("GPS", "Galileo", None):
            for other in ("dcb_compensations", "pcv_compensations"):
                e = coll(BOT, struct(P, ty, constellation=variant(P, CONST, have))) if have and other == f else coll(BOT, BOT)
                oth = "header::PcvCompensation" if ty.endswith("DcbCompensation") else "header::DcbCompensation"
                kw = {f: e, [x for x in ("dcb_compensations", "pcv_compensations") if x != f][0]: coll(BOT, struct(P, oth, constellation=variant(P, CONST, "GPS"))) if other != f else coll(BOT, BOT)}
                s = struct(P, "Rinex", header=struct(P, "header::Header", **kw))
                g = q.call(fn, s, variant(P, CONST, "GPS"))
                want = have == "GPS" and other == f
                key = "comp:%s:%s:%s" % (name, have, other)
                n += 1
                try:
                    g = B(bool(Eval(lambda t: (0.0 if t.args[0] is BOT else 1.0) if t.k == "e" and t.op == "it_count" else None)(g)))
                except Unk:
                    pass
                if is_c(g):
                    r.check(bool(cval(g)) == want, key, "%s(GPS) is %s with %s entries for %s" % (name, cval(g), other, have), fn.span)
                elif want or have is None:
                    r.unknown(key, show(g)[:100])
                else:
                    r.unknown(key, show(g)[:100])
    return n


def run(c):
    conversions(c)
    substract(c)
    masking(c)
    compensation(c)

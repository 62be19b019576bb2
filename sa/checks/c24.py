"""C24: quantities derived from the data are those their definitions give, for the data of that epoch."""
from lib import *
import lists, math
from checks.c04 import NONE, some, rinex, method
from checks.c23 import sv
from evalt import Eval, Unk, close

RULE = (
    "each derivation is abstractly executed on records whose values stay symbolic (one or more satellites, epochs, any order of the signals, signals missing at some epochs): every returned "
    "entry must be, as a function of the symbolic values, the defining formula applied to the values of its own epoch and satellite, and no other entry may exist"
)
Fl = lambda x: C("f64", float(x))
C0 = 299792458.0
F = {"GPS1": 1575.42e6, "GPS2": 1227.60e6, "GPS5": 1176.45e6, "Galileo1": 1575.42e6, "Galileo5": 1176.45e6, "Galileo7": 1207.14e6, "QZSS1": 1575.42e6, "QZSS2": 1227.60e6, "QZSS5": 1176.45e6, "BeiDou2": 1561.098e6, "BeiDou6": 1268.52e6, "SBAS1": 1575.42e6, "SBAS5": 1176.45e6}
SYS = {"GPS": ("1C", ["2W", "5Q"]), "Galileo": ("1C", ["5Q", "7Q"]), "QZSS": ("1C", ["2L", "5Q"]), "SBAS": ("1C", ["5I"])}
L3, L2o = "LC", "CL"


def freq(s, code):
    return F[s + code[1]]


class W:
    def __init__(self, c):
        self.P, self.q, self.r = c.P, c.q, c.r
        P = self.P
        self.n = 0
        self.obs = {}
        self.flag = next(k for k in P.adts if k.endswith("::EpochFlag"))
        self.so = next(k for k in P.adts if k == "observation::signal::SignalObservation")
        self.lli = next((k for k in P.adts if k.endswith("::LliFlags")), None)

    def ob(self, code):
        if code not in self.obs:
            v = self.q.parse("observable::Observable", code)
            v = [inner(m) for m in members(v) if is_ok(m)]
            if len(v) != 1 or v[0].k != "agg":
                return TOP
            self.obs[code] = v[0]
        return self.obs[code]

    def key(self, t, flag="Ok"):
        return struct(self.P, "observation::ObsKey", epoch=I(t), flag=variant(self.P, self.flag, flag))

    def atom(self, s, code, t):
        return E("arg", "%s%02d %s at %d" % (s[0], s[1], code, t))

    def signal(self, s, code, t, lli=NONE, snr=NONE):
        return struct(self.P, self.so, sv=sv(self.P, *s), value=self.atom(s, code, t), observable=self.ob(code), lli=lli, snr=snr)

    def record(self, epochs):
        """[(t, flag, [(satellite, [codes])])]"""
        return lists.kvmap([(self.key(t, fl), struct(self.P, "observation::Observations", clock=NONE, signals=arrv([self.signal(s, c, t) for s, cs in ss for c in cs]))) for t, fl, ss in epochs])

    def file(self, epochs, interval=None):
        R = rinex(self.P, "ObsRecord", self.record(epochs), "ObservationData")
        hd = struct(self.P, "header::Header", rinex_type=variant(self.P, "types::Type", "ObservationData"), sampling_interval=NONE if interval is None else some(I(interval)))
        return agg(R.a[0], R.a[1], R.a[2], R.a[3], [hd if n == "header" else x for n, x in zip(R.a[3], R.a[4])])


def code_of(v):
    """text of an observable term"""
    if v.k == "agg" and len(v.a[4]) == 1 and is_c(v.a[4][0], "str"):
        return cval(v.a[4][0])
    return None


def sat_of(v):
    try:
        p = v.a[4][v.a[3].index("prn")]
        c = v.a[4][v.a[3].index("constellation")]
        return (c.a[1], cval(p)) if is_c(p) and c.k == "agg" else None
    except (ValueError, AttributeError):
        return None


def fields(v, names):
    out = []
    for n in names:
        if v.k != "agg" or n not in v.a[3]:
            return None
        out.append(v.a[4][v.a[3].index(n)])
    return out


def leafs(v, memo=None):
    memo = {} if memo is None else memo
    out, todo, seen = set(), [v], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.k == "e":
            if x.op == "arg":
                out.add(x)
            todo += [y for y in x.args if hasattr(y, "k")]
        elif x.k == "agg":
            todo += list(x.a[4])
        elif x.k == "j":
            todo += list(x.a[0])
    return out


def coefs(v, atoms):
    """coefficients of a linear term in its atoms (and its value at zero)"""
    def at(one):
        return Eval(lambda u: (1.0 if u is one else 0.0) if u in atoms else None)(v)

    z = at(None)
    return z, {a: at(a) - z for a in atoms}


def lin(v, want, absok=False):
    """None when v is the linear form `want` ({atom: coefficient}), else what it is"""
    atoms = leafs(v) | set(want)
    try:
        z, k = coefs(v, atoms)
    except Unk as e:
        return e
    # the same away from zero, with values of either sign
    for p in range(4):
        val = {a: (-1) ** ((i >> (p & 1)) + p // 2) * (3.0 + 2 * i) for i, a in enumerate(sorted(atoms, key=show))}
        try:
            x = Eval(lambda u: val.get(u))(v)
        except Unk as e:
            return e
        y = sum(val[a] * w for a, w in want.items())
        if abs((abs(x) - abs(y)) if absok else x - y) > 1e-9 * sum(abs(val[a] * w) for a, w in want.items()) + 1e-12:
            return "%.9g where the definition gives %.9g, for %s" % (x, y, ", ".join("%s = %g" % (show(a), val[a]) for a in want))
    sg = (1, -1) if absok else (1,)
    for s in sg:
        if abs(z) < 1e-12 and all(abs(s * k[a] - want.get(a, 0.0)) <= 1e-9 * max(1.0, abs(want.get(a, 0.0))) for a in atoms):
            return None
    if absok and abs(z) < 1e-12 and all(abs(abs(k[a]) - abs(want.get(a, 0.0))) <= 1e-9 * max(1.0, abs(want.get(a, 0.0))) for a in atoms):
        return None
    return " + ".join("%.9g x [%s]" % (k[a], show(a)) for a in sorted(atoms, key=show) if k[a]) or "0"


def entries(v):
    """[(key, value, sure)] or None"""
    if v is None:
        return None
    if lists.is_kv(v):
        out = []
        for k, x in lists.kv(v):
            s, y = lists.present(x)
            out.append((k, y, s))
        return out
    M = lists.M
    if M.is_coll(v) and v.a[4][0] is BOT and v.a[4][1] is BOT:
        return []
    return None


def judge(w, key, where, got, want, parts, absok=False, extra=True):
    """want: {(t, satellite, code, code): (linear form)}"""
    r = w.r
    es = entries(got)
    if es is None:
        for k in want:
            r.unknown("%s:%s" % (key, k), show(got)[:200])
            w.n += 1
        return
    seen = {}
    for k, x, s in es:
        f = fields(k, parts)
        if f is None:
            r.unknown(key + ":key", show(k)[:160])
            return
        t = cval(f[0]) if is_c(f[0], "int") else None
        ident = (t, sat_of(f[1]), code_of(f[2]), code_of(f[3]))
        if None in ident:
            r.unknown(key + ":key", show(k)[:160])
            return
        seen[ident] = (x, s)
    for ident, form in want.items():
        w.n += 1
        lab = "%s:%s%02d %s/%s@%d" % (key, ident[1][0], ident[1][1], ident[2], ident[3], ident[0])
        if ident not in seen:
            r.fail(lab, "no value for signal %s with %s of %s%02d although both are observed at that epoch" % (ident[2], ident[3], ident[1][0], ident[1][1]), where)
            continue
        x, s = seen[ident]
        bad = lin(x, form, absok)
        if isinstance(bad, Unk):
            r.unknown(lab, bad)
        elif bad is None and not s:
            r.unknown(lab, "possibly absent")
        else:
            r.check(bad is None, lab, "is %s instead of %s" % (bad, " + ".join("%.9g x [%s]" % (c, show(a)) for a, c in form.items())), where, show(x)[:200])
    if extra:
        for ident, (x, s) in seen.items():
            if ident in want:
                continue
            w.n += 1
            lab = "%s:unexpected %s%02d %s/%s@%d" % (key, ident[1][0], ident[1][1], ident[2], ident[3], ident[0])
            if s:
                r.fail(lab, "a value %s is returned for signals that are not both observed at that epoch" % show(x)[:200], where)
            else:
                r.unknown(lab, show(x)[:120])


def form(w, comb, s, pivot, other, t):
    f1, f2 = freq(s[0], pivot), freq(s[0], other)
    ph = pivot[0] == "L"
    u1, u2 = (C0 / f1, C0 / f2) if ph else (1.0, 1.0)
    a, b = w.atom(s, pivot, t), w.atom(s, other, t)
    if comb == "GeometryFree":
        return {a: u1, b: -u2} if ph else {a: -1.0, b: 1.0}
    k1, k2 = {"IonosphereFree": (f1**2 / (f1**2 - f2**2), -(f2**2) / (f1**2 - f2**2)), "WideLane": (f1 / (f1 - f2), -f2 / (f1 - f2)), "NarrowLane": (f1 / (f1 + f2), f2 / (f1 + f2))}[comb]
    return {a: k1 * u1, b: k2 * u2}


def scenarios(n):
    """(label, epochs); 2: epochs of any flag too"""
    out = []
    for cn, (p, os) in SYS.items():
        A, B = (cn, 3), (cn, 12)
        LC = lambda cs: [x + c for c in cs for x in "LC"]
        one = [p] + os
        out.append((cn + " pivot first", [(0, "Ok", [(A, LC(one))]), (30, "Ok", [(A, LC(one))]), (60, "Ok", [(A, LC(one))])]))
        out.append((cn + " pivot last", [(t, "Ok", [(A, LC(os + [p]))]) for t in (0, 30, 60)]))
        out.append((cn + " pivot missing", [(0, "Ok", [(A, LC(one))]), (30, "Ok", [(A, LC(os))]), (60, "Ok", [(A, LC(one))])]))
        out.append((cn + " two satellites", [(t, "Ok", [(A, LC([p] + os[:1])), (B, LC(one))]) for t in (0, 30)]))
        out.append((cn + " two satellites, gaps", [(0, "Ok", [(A, LC(one)), (B, LC(one))]), (30, "Ok", [(A, LC([p])), (B, LC(os))]), (60, "Ok", [(B, LC(one))])]))
        out.append((cn + " gap", [(0, "Ok", [(A, LC(one))]), (30, "Ok", [(A, LC(one))]), (300, "Ok", [(A, LC(one))]), (315, "Ok", [(A, LC(one))])]))
        out.append((cn + " phase only", [(t, "Ok", [(A, ["L" + c for c in one])]) for t in (0, 30)]))
        out.append((cn + " code only", [(t, "Ok", [(A, ["C" + c for c in one])]) for t in (0, 30)]))
        out.append((cn + " partial codes", [(t, "Ok", [(A, ["L" + c for c in one] + ["C" + p, "C" + os[-1]]), (B, LC([p, os[0]]))]) for t in (0, 30)]))
        out.append((cn + " other observables", [(t, "Ok", [(A, ["S" + p, "D" + p] + LC(one) + ["S" + os[0], "D" + os[0]])]) for t in (0, 30)]))
    for fl in ("PowerFailure", "CycleSlip", "AntennaBeingMoved") if n == 2 else ():
        full = [(("GPS", 3), ["L1C", "C1C", "L2W", "C2W"])]
        out.append(("flag " + fl, [(0, "Ok", full), (30, fl, full), (60, "Ok", full)]))
        out.append(("flags at one epoch, " + fl, [(0, "Ok", [(("GPS", 3), ["L1C", "C1C"])]), (0, fl, [(("GPS", 3), ["L2W", "C2W"])])]))
    out.append(("one epoch", [(0, "Ok", [(("GPS", 3), ["L1C", "C1C", "L2W", "C2W"])])]))
    mix = [(("GPS", 3), ["L1C", "C1C", "L2W", "C2W"]), (("Galileo", 3), ["L1C", "C1C", "L5Q", "C5Q"])]
    out.append(("mixed", [(t, "Ok", mix) for t in (0, 30)]))
    return out


def combinations(w):
    P, q = w.P, w.q
    m = method(P, "signals_combination")
    ct = next((k for k in P.adts if k.split("::")[-1] == "Combination"), None)
    if m is None or ct is None:
        w.r.unknown("combination", "gone")
        return
    parts = ("epoch", "sv", "lhs", "reference")
    for lab, eps in scenarios(2):
        for iv in (30, None):
            R = w.file(eps, iv)
            for comb in [v[0] for v in P.adts[ct]["variants"]]:
                want = {}
                for t, fl, ss in eps:
                    for s, cs in ss:
                        p = SYS[s[0]][0]
                        if comb == "MelbourneWubbena":
                            for c in cs:
                                if c[0] == "L" and c[1:] != p and {"L" + p, "C" + p, "C" + c[1:]} <= set(cs):
                                    f = dict(form(w, "WideLane", s, "L" + p, c, t))
                                    for a, k in form(w, "NarrowLane", s, "C" + p, "C" + c[1:], t).items():
                                        f[a] = -k
                                    want[(t, s, c, "L" + p)] = f
                        elif comb in ("GeometryFree", "IonosphereFree", "WideLane", "NarrowLane"):
                            for c in cs:
                                if c[0] in "LC" and c[1:] != p and c[0] + p in cs:
                                    want[(t, s, c, c[0] + p)] = form(w, comb, s, c[0] + p, c, t)
                v = q.call(m, R, variant(P, ct, comb), partition=True, rec=1)
                judge(w, "combination:%s:%s:%s" % (comb, lab, "interval" if iv else "no interval"), m.span, v, want, parts)


def multipath(w):
    P, q = w.P, w.q
    m = method(P, "signals_multipath")
    if m is None:
        w.r.unknown("multipath", "gone")
        return
    for lab, eps in scenarios(2):
        want = {}
        for t, fl, ss in eps:
            for s, cs in ss:
                for a in cs:
                    for b in cs:
                        if a[0] == b[0] == "L" and a != b and "C" + a[1:] in cs:
                            fi, fj = freq(s[0], a), freq(s[0], b)
                            k = 2 * fj**2 / (fi**2 - fj**2)
                            want[(t, s, a, b)] = {w.atom(s, "C" + a[1:], t): 1.0, w.atom(s, a, t): -(1 + k) * C0 / fi, w.atom(s, b, t): k * C0 / fj}
        for iv in (30, None):
            v = q.call(m, w.file(eps, iv), partition=True)
            judge(w, "multipath:%s:%s" % (lab, "interval" if iv else "no interval"), m.span, v, want, ("epoch", "sv", "signal", "rhs"))


def capture(name, owner):
    got = []

    def hook(I_, f, args, st, fr, b):
        if f.get("name") == name and owner in (f.get("rpath") or f.get("path") or ""):
            a = I_.deref(args[0], st)
            got.append(a)
            return E("tecof", None, a)
        return NotImplemented

    return got, hook


def tec(w):
    P, q, r = w.P, w.q, w.r
    est = meth(P, "SignalObservation", "tec_estimate")
    m = method(P, "observation_dual_phase_ionosphere_tec")
    A, B = ("GPS", 3), ("GPS", 12)
    got, hook = capture("from_tec_m2", "TEC")
    if est:
        for cn, (p, os) in SYS.items():
            A = (cn, 3)
            for o in os:
                f1, f2 = freq(cn, "L" + p), freq(cn, "L" + o)
                g = f1**2 * f2**2 / (f1**2 - f2**2) / 40.308
                v = q.call(est, w.signal(A, "L" + p, 0), w.signal(A, "L" + o, 0), hooks={"call": hook})
                w.n += 1
                x = [inner(y) for y in members(v) if is_ok(y)]
                key = "tec:formula:%s %s" % (cn, o)
                if len(x) != 1 or not (x[0].k == "e" and x[0].op == "tecof"):
                    r.unknown(key, show(v)[:160])
                    continue
                want = {w.atom(A, "L" + p, 0): g * C0 / f1, w.atom(A, "L" + o, 0): -g * C0 / f2}
                cyc = {w.atom(A, "L" + p, 0): g, w.atom(A, "L" + o, 0): -g}
                bad = lin(x[0].args[0], want, True)
                if isinstance(bad, Unk):
                    r.unknown(key, bad)
                elif bad is not None and lin(x[0].args[0], cyc, True) is None:
                    r.fail("tec:phase in cycles", "the phases are combined in cycles, not in metres: %s" % bad, est.span)
                else:
                    r.check(bad is None, key, "the electron content is %s" % bad, est.span, show(x[0])[:200])
            for lab, a, b in (
                ("same signal", w.signal(A, "L" + p, 0), w.signal(A, "L" + p, 0)),
                ("codes", w.signal(A, "C" + p, 0), w.signal(A, "C" + os[0], 0)),
                ("phase and code", w.signal(A, "L" + p, 0), w.signal(A, "C" + os[0], 0)),
                ("other satellite", w.signal(A, "L" + p, 0), w.signal((cn, 4), "L" + os[0], 0)),
            ):
                v = q.call(est, a, b, hooks={"call": hook})
                w.n += 1
                ms = members(v)
                if all(is_err(x) for x in ms):
                    r.ok("tec:none:%s %s" % (cn, lab))
                elif any(is_err(x) for x in ms) or any(x is TOP for x in ms):
                    r.unknown("tec:none:%s %s" % (cn, lab), show(v)[:120])
                else:
                    r.fail("tec:none:%s %s" % (cn, lab), "an electron content is estimated from signals it cannot be estimated from", est.span)
    if m is None:
        r.unknown("tec", "gone")
        return
    # the right pairs, at the right epochs
    def hook2(I_, f, args, st, fr, b):
        if f.get("name") == "tec_estimate":
            a, b2 = (I_.deref(x, st) for x in args[:2])
            fa, fb = (fields(x, ("sv", "observable", "value")) for x in (a, b2))
            if fa and fb and all(sat_of(x[0]) and code_of(x[1]) for x in (fa, fb)):
                (sa, ca), (sb, cb) = ((sat_of(x[0]), code_of(x[1])) for x in (fa, fb))
                if sa == sb and ca != cb and ca[0] == cb[0] == "L" and ca[1:] == SYS[sa[0]][0]:
                    return some(E("pair", None, fa[2], fb[2]))
                return NONE
        return NotImplemented

    for lab, eps in scenarios(3):
        want = {}
        for t, fl, ss in eps:
            for s, cs in ss:
                p = "L" + SYS[s[0]][0]
                for c in cs:
                    if p in cs and c[0] == "L" and c != p:
                        want[(t, s, c, p)] = (w.atom(s, p, t), w.atom(s, c, t))
        v = q.call(m, w.file(eps, 30), partition=True, hooks={"call": hook2})
        es = entries(v)
        key = "tec:pairs:" + lab
        if es is None:
            r.unknown(key, show(v)[:160])
            w.n += len(want)
            continue
        seen = {}
        for k, x, s in es:
            f = fields(k, ("epoch", "sv", "rhs", "reference"))
            if f is None or not is_c(f[0], "int"):
                break
            seen[(cval(f[0]), sat_of(f[1]), code_of(f[2]), code_of(f[3]))] = (x, s)
        else:
            for ident, (a, b) in want.items():
                w.n += 1
                kk = "%s:%s%02d %s@%d" % (key, ident[1][0], ident[1][1], ident[2], ident[0])
                if ident not in seen:
                    r.fail(kk, "no electron content for %s and %s although both are observed at that epoch" % ident[2:], m.span)
                    continue
                x, s = seen[ident]
                if s and x.k == "e" and x.op == "pair":
                    r.check(x.args == (a, b), kk, "the electron content is made of %s" % show(x), m.span, show(x))
                else:
                    r.unknown(kk, show(x)[:120])
            for ident, (x, s) in seen.items():
                if ident not in want and s:
                    w.n += 1
                    r.fail("%s:unexpected %s@%s" % (key, ident[2], ident[0]), "an electron content is returned for signals that are not both observed at that epoch", m.span)
            continue
        r.unknown(key, "keys")
    # flagged epochs are not used
    eps = [(0, "Ok", [(("GPS", 3), ["L1C", "L2W"])]), (30, "PowerFailure", [(("GPS", 3), ["L1C", "L2W"])]), (60, "Ok", [(("GPS", 3), ["L1C", "L2W"])])]
    es = entries(q.call(m, w.file(eps, 30), partition=True, hooks={"call": hook2}))
    if es is None:
        r.unknown("tec:flagged", "not decided")
    else:
        ts = {(cval(fields(k, ("epoch",))[0]), s) for k, x, s in es if fields(k, ("epoch",)) and is_c(fields(k, ("epoch",))[0], "int")}
        w.n += 1
        r.check((30, True) not in ts, "tec:flagged", "an electron content is estimated from an epoch marked as bad", m.span)


def tec_units(w):
    P, q, r = w.P, w.q, w.r
    tecu, tec = meth(P, "TEC", "tecu"), meth(P, "TEC", "tec")
    got = []

    def hook(I_, f, args, st, fr, b):
        nm = f.get("name")
        if nm == "real_value":
            return E("arg", "TECu")
        if nm == "new" and "Quantized" in (f.get("rpath") or f.get("path") or ""):
            got.append(I_.deref(args[0], st))
        if nm == "find_exponent":
            return E("arg", "exponent")
        return NotImplemented

    x = E("arg", "TECu")
    for nm, fn, k in (("tecu", tecu, 1.0), ("tec", tec, 1e16)):
        if fn is None:
            continue
        v = q.call(fn, E("arg", "t"), hooks={"call": hook})
        w.n += 1
        bad = lin(v, {x: k}) if k == 1.0 else None
        if k != 1.0:
            try:
                c = coefs(v, {x})[1][x]
                r.check(abs(c / k - 1) < 1e-9, "tec:unit:" + nm, "one TECu is %g electrons per square metre in %s()" % (c, nm), fn.span)
            except Unk as e:
                r.unknown("tec:unit:" + nm, e)
        elif isinstance(bad, Unk):
            r.unknown("tec:unit:" + nm, bad)
        else:
            r.check(bad is None, "tec:unit:" + nm, "%s() returns %s" % (nm, bad), fn.span)
    a = E("arg", "given")
    for nm, k in (("from_tecu", 1.0), ("from_tec_m2", 1e-16)):
        fn = meth(P, "TEC", nm)
        if fn is None:
            continue
        del got[:]
        q.call(fn, a, hooks={"call": hook})
        w.n += 1
        if not got:
            r.unknown("tec:unit:" + nm, "not seen")
            continue
        try:
            c = coefs(got[0], {a})[1][a]
            r.check(abs(c / k - 1) < 1e-9, "tec:unit:" + nm, "%s multiplies its argument by %g, not %g" % (nm, c, k), fn.span)
        except Unk as e:
            r.unknown("tec:unit:" + nm, e)


def doris(w):
    P, q, r = w.P, w.q, w.r
    for nm, mult in (("s1_frequency_shift", 543.0), ("u2_frequency_shift", 107.0)):
        fn = meth(P, "Station", nm)
        if fn is None:
            r.unknown("doris:" + nm, "gone")
            continue
        st = next((k for k in P.adts if k.endswith("doris::station::Station") or k.endswith("doris::Station")), None)
        for k in (-128, -3, -1, 0, 1, 7, 127):
            v = q.call(fn, struct(P, st, k_factor=I(k)))
            w.n += 1
            want = mult * 5e6 * (0.75 + 87.0 * k / (5.0 * 2**26))
            try:
                x = Eval(lambda u: None)(v)
            except Unk as e:
                r.unknown("doris:%s" % nm, e)
                continue
            # 1e-12: the shift itself is about 1e-7 of the frequency
            r.check(abs(x - want) <= 1e-12 * abs(want), "doris:%s:k=%d" % (nm, k), "the transmitted frequency is %.6f Hz for k=%d, the definition gives %.6f Hz" % (x, k, want), fn.span)


def grids(w):
    """node of a grid next to a coordinate, number of nodes"""
    P, q, r = w.P, w.q, w.r
    ty = next((k for k in P.adts if k.split("::")[-1] == "Linspace"), None)
    low, above = meth(P, "Linspace", "nearest_lower"), meth(P, "Linspace", "nearest_above")
    single = meth(P, "Linspace", "is_single_point")
    if ty is None or low is None:
        r.unknown("grid", "gone")
        return
    for a, b, d in ((-87.5, 87.5, 2.5), (87.5, -87.5, -2.5), (-180.0, 180.0, 5.0), (180.0, -180.0, -5.0), (0.0, 8.0, 2.0), (450.0, 450.0, 0.0), (-10.0, -2.0, 0.5)):
        g = struct(P, ty, start=Fl(a), end=Fl(b), spacing=Fl(d))
        n = 0 if d == 0 else round((b - a) / d)
        nodes = sorted(a + d * i for i in range(n + 1))
        for nm, fn in (("length", meth(P, "Linspace", "length")), ("is_single_point", single)):
            if fn is None:
                continue
            v = q.call(fn, g, partition=True)
            w.n += 1
            key = "grid:%s" % nm if nm == "length" else "grid:%s:%g:%g:%g" % (nm, a, b, d)
            if not is_c(v):
                r.unknown(key, show(v)[:100])
            elif nm == "length":
                r.check(cval(v) == len(nodes), key, "a grid from %g to %g by %g has %d nodes, not %s" % (a, b, d, len(nodes), cval(v)), fn.span)
            else:
                r.check(bool(cval(v)) == (len(nodes) == 1), key, "a grid from %g to %g by %g is%s a single point" % (a, b, d, "" if cval(v) else " not"), fn.span)
        lo, hi = nodes[0], nodes[-1]
        step = abs(d)
        ps = [lo, lo + 0.1, (lo + hi) / 2 + 0.1, lo + 3.3 * step, hi - 0.1, hi - step] if d else [lo]
        for p in ps:
            for nm, fn in (("nearest_lower", low), ("nearest_above", above)):
                if fn is None:
                    continue
                v = q.call(fn, g, Fl(p), partition=True, maxsteps=4000000)
                w.n += 1
                key = "grid:%s:%g:%g:%g:%g" % (nm, a, b, d, p)
                ms = members(v)
                if len(ms) != 1:
                    r.unknown(key, show(v)[:100])
                    continue
                got = None
                if is_ok(ms[0]):
                    try:
                        got = Eval(lambda u: None)(inner(ms[0]))
                    except Unk as e:
                        r.unknown(key, e)
                        continue
                elif not is_err(ms[0]):
                    r.unknown(key, show(v)[:100])
                    continue
                if nm == "nearest_lower":
                    want = [x for x in nodes if x <= p + 1e-9]
                    want = want[-1] if want and p <= hi else None
                    r.check((got is None and want is None) or (got is not None and want is not None and abs(got - want) < 1e-6), key, "the node below %g is %s in a grid from %g to %g by %g, expected %s" % (p, got, a, b, d, want), fn.span, got)
                else:
                    want = [x for x in nodes if x >= p - 1e-9]
                    want = want[0] if want and p >= lo else None
                    if any(abs(x - p) < 1e-6 for x in nodes):
                        continue  # on a node: the node itself or the next one
                    r.check((got is None and want is None) or (got is not None and want is not None and abs(got - want) < 1e-6), key, "the node above %g is %s in a grid from %g to %g by %g, expected %s" % (p, got, a, b, d, want), fn.span, got)


def run(c):
    w = W(c)
    grids(w)
    combinations(w)
    multipath(w)
    tec(w)
    tec_units(w)
    doris(w)
    w.r.floor("derived quantities", w.n, 1500)

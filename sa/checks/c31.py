"""C31: time coverage and quality selections describe the record."""
from lib import *
import lists
from checks.c04 import NONE, some, method
from checks.c07 import lli_value
from checks.c24 import W, fields, sat_of, code_of
from evalt import Eval, Unk

RULE = (
    "each statistic and each quality filter is abstractly executed on records with known dates, epoch flags, loss-of-lock digits and signal strengths (values stay symbolic); the result must be the one "
    "its definition gives, whatever the number, spacing and order of epochs"
)
# epoch lists (seconds)
SERIES = {
    "steady": (0, 30, 60, 90),
    "gap": (0, 30, 60, 300, 330, 360),
    "two gaps": (0, 30, 60, 90, 600, 630, 660, 1000, 1030),
    "late start": (5, 15, 25, 35, 45, 200),
    "rate change": (0, 1, 2, 3, 4, 34, 64, 65, 66),
    "two epochs": (0, 30),
    "one epoch": (17,),
    "no epoch": (),
    "gap first": (0, 500, 530, 560, 590),
    "gap last": (0, 30, 60, 90, 5000),
}


def opt(v):
    """('some', term) / ('none',) / None"""
    ms = members(v)
    if len(ms) != 1:
        return None
    if is_ok(ms[0]):
        return ("some", inner(ms[0]))
    if is_err(ms[0]):
        return ("none",)
    return None


def run(c):
    w = W(c)
    P, q, r = c.P, c.q, c.r
    coverage(w)
    quality(w)
    r.floor("statistics and selections", w.n, 300)


def coverage(w):
    P, q, r = w.P, w.q, w.r
    for lab, ts in SERIES.items():
        for iv in (None, 30):
            R = w.file([(t, "Ok", [(("GPS", 3), ["L1C", "C1C"])]) for t in ts], iv)
            ds = [b - a for a, b in zip(ts, ts[1:])]
            pop = {}
            for d in ds:
                pop[d] = pop.get(d, 0) + 1
            best = max(pop.values()) if pop else 0
            dom = [d for d in pop if pop[d] == best]
            K = "%s:%s" % (lab, "interval" if iv else "no interval")

            def ask(m, *a):
                fn = method(P, m)
                if fn is None:
                    r.unknown("%s:%s" % (m, K), "gone")
                    return None, None
                w.n += 1
                return fn, q.call(fn, R, *a, partition=True)

            def scalar(m, want):
                fn, v = ask(m)
                if fn is None:
                    return
                key = "%s:%s" % (m, K)
                o = opt(v)
                if o is None or (len(o) == 2 and not is_c(o[1], "int")):
                    r.unknown(key, show(v)[:160])
                    return
                got = cval(o[1]) if len(o) == 2 else None
                r.check(got in want, key, "%s is %s for epochs %s, expected %s" % (m, got, ts, want[0]), fn.span, show(v)[:80])

            scalar("first_epoch", [ts[0] if ts else None])
            scalar("last_epoch", [ts[-1] if ts else None])
            scalar("duration", [ts[-1] - ts[0] if ts else None])
            scalar("dominant_sampling_interval", dom or [None])
            fn, v = ask("dominant_sampling_rate_hz")
            if fn is not None:
                key = "dominant_sampling_rate_hz:" + K
                o = opt(v)
                if o is None:
                    r.unknown(key, show(v)[:160])
                elif len(o) == 1:
                    r.check(not dom, key, "no rate although epochs are %s" % (ts,), fn.span)
                else:
                    try:
                        x = Eval(lambda u: None)(o[1])
                        r.check(any(abs(x * d - 1) < 1e-9 for d in dom), key, "the rate is %g Hz for an interval of %s s" % (x, dom), fn.span, show(v)[:80])
                    except Unk as e:
                        r.unknown(key, e)
            fn, v = ask("steady_sampling")
            if fn is not None and ds:
                if is_c(v, "bool"):
                    r.check(bool(cval(v)) == (len(pop) == 1), "steady_sampling:" + K, "steady_sampling is %s for intervals %s" % (bool(cval(v)), sorted(pop)), fn.span)
                else:
                    r.unknown("steady_sampling:" + K, show(v)[:100])
            fn, v = ask("sampling_histogram")
            if fn is not None:
                xs = lists.to_list(None, v) if lists.is_lit(v) or lists.is_vec(v) else None
                key = "sampling_histogram:" + K
                if xs is None or not all(x.k == "agg" and len(x.a[4]) == 2 and all(is_c(y, "int") for y in x.a[4]) for x in xs):
                    r.unknown(key, show(v)[:160])
                else:
                    g = [tuple(cval(y) for y in x.a[4]) for x in xs]
                    r.check(sorted(g) == sorted(pop.items()), key, "the histogram is %s for intervals %s" % (g, ds), fn.span, g)
            fn, v = ask("timeseries")
            if fn is not None:
                key = "timeseries:" + K
                o = opt(v)
                if o is None or len(o) == 2 and not (o[1].k == "e" and o[1].op == "call" and len(o[1].args) == 3 and all(is_c(x, "int") for x in o[1].args)):
                    r.unknown(key, show(v)[:160])
                elif len(o) == 1:
                    r.check(not dom, key, "no time series although epochs are %s" % (ts,), fn.span)
                else:
                    a = tuple(cval(x) for x in o[1].args)
                    r.check(bool(dom) and a[:2] == (ts[0], ts[-1]) and a[2] in dom and o[1].meta.split("::")[-1] == "inclusive", key, "the time series is %s for epochs %s" % (show(o[1]), ts), fn.span, show(o[1]))
            for tol in (None, 1, 29, 30, 60, 250, 10000):
                fn, v = ask("data_gaps", NONE if tol is None else some(I(tol)))
                if fn is None:
                    continue
                key = "data_gaps:%s:%s" % (K, tol)
                if tol is None and len(dom) > 1:
                    continue
                lim = tol if tol is not None else dom[0] if dom else iv
                want = [(a, b - a) for a, b in zip(ts, ts[1:]) if b - a > lim] if lim is not None else []
                xs = list(v.a[4]) if lists.is_lit(v) or lists.is_vec(v) else None
                if xs is None or not all(x.k == "agg" and len(x.a[4]) == 2 and all(is_c(y, "int") for y in x.a[4]) for x in xs):
                    r.unknown(key, show(v)[:160])
                    continue
                g = [tuple(cval(y) for y in x.a[4]) for x in xs]
                r.check(g == want, key, "the gaps are %s for epochs %s and a tolerance of %s, expected %s" % (g, ts, lim, want), fn.span, g)


FLAGS = ("Ok", "PowerFailure", "AntennaBeingMoved", "NewSiteOccupation", "HeaderInformationFollows", "ExternalEvent", "CycleSlip")
OBS = ("L1C", "C1C", "D1C", "S1C")


def quality(w):
    P, q, r = w.P, w.q, w.r
    lli = lli_value(P)
    digits = (None, 0, 1, 2, 3, 4, 5, 6, 7)
    vs = [v[0] for v in P.adts[w.flag]["variants"]]
    # one epoch per flag, one satellite per digit
    eps = [(100 * i, f) for i, f in enumerate(vs)]
    recs = []
    for t, f in eps:
        sg = [w.signal(("GPS", n + 1), ob, t, NONE if d is None else some(lli(d))) for n, d in enumerate(digits) for ob in OBS]
        recs.append((w.key(t, f), struct(P, "observation::Observations", clock=NONE, signals=arrv(sg))))
    R = w.file([])
    rec = variant(P, "record::Record", "ObsRecord", lists.kvmap(recs))
    R = agg(R.a[0], R.a[1], R.a[2], R.a[3], [rec if n == "record" else x for n, x in zip(R.a[3], R.a[4])])
    ok = lambda f: f == "Ok"
    slip = lambda d: d is not None and d & 1 != 0
    half = lambda d: d is not None and d & 3 != 0
    # (name, wanted(flag, digit, observable) -> True / False / None unspecified)
    rules = {
        "signal_observations_sampling_ok_iter": lambda f, d, o: ok(f),
        "pseudo_range_sampling_ok_iter": lambda f, d, o: ok(f) and o[0] == "C",
        "phase_range_sampling_ok_iter": lambda f, d, o: ok(f) and o[0] == "L",
        "phase_range_tracking_ok_iter": lambda f, d, o: False if not ok(f) or o[0] != "L" or half(d) else True if d in (None, 0) else None,
        "phase_cycle_slip_events": lambda f, d, o: o[0] == "L" and slip(d),
        "phase_half_full_cycle_slip_events": lambda f, d, o: o[0] == "L" and half(d),
    }
    for m, want in rules.items():
        fn = method(P, m)
        if fn is None:
            r.unknown(m, "gone")
            continue
        v = q.call(fn, R, partition=True)
        xs = list(v.a[4]) if lists.is_lit(v) or lists.is_vec(v) else None
        seen = set()
        bad = xs is None
        for x in xs or []:
            fs = fields(x.a[4][1], ("sv", "observable", "value")) if x.k == "agg" and len(x.a[4]) == 2 else None
            k = x.a[4][0] if fs else None
            if k is not None and k.k == "agg" and "epoch" in k.a[3]:
                k = fields(k, ("epoch",))[0]
            if fs is None or not is_c(k, "int") or sat_of(fs[0]) is None or code_of(fs[1]) is None:
                bad = True
                break
            ident = (cval(k), sat_of(fs[0])[1], code_of(fs[1]))
            if fs[2] is not w.atom(("GPS", ident[1]), ident[2], ident[0]):
                r.fail("%s:value" % m, "%s returns the value %s for %s" % (m, show(fs[2]), ident), fn.span)
            seen.add(ident)
        if bad:
            r.unknown(m, show(v)[:200])
            continue
        for t, f in eps:
            for n, d in enumerate(digits):
                for o in OBS:
                    e = want(f, d, o)
                    if e is None:
                        continue
                    w.n += 1
                    g = (t, n + 1, o) in seen
                    r.check(g == e, "%s:%s:%s:%s" % (m, f, d, o), "%s %s an observation %s of an epoch flagged %s with loss of lock digit %s" % (m, "returns" if g else "drops", o, f, d), fn.span)
    fn = method(P, "epoch_anomalies")
    if fn is not None:
        v = q.call(fn, R, partition=True)
        xs = list(v.a[4]) if lists.is_lit(v) or lists.is_vec(v) else None
        ks = [fields(x, ("epoch",)) for x in xs] if xs is not None else [None]
        if any(k is None or not is_c(k[0], "int") for k in ks):
            r.unknown("epoch_anomalies", show(v)[:200])
        else:
            g = {cval(k[0]) for k in ks}
            for t, f in eps:
                w.n += 1
                r.check((t in g) == (f != "Ok"), "epoch_anomalies:" + f, "an epoch flagged %s is %s as abnormal" % (f, "reported" if t in g else "not reported"), fn.span)
    # single signals
    snr = {v[0]: variant(P, "observation::snr::SNR", v[0]) for v in P.adts["observation::snr::SNR"]["variants"]}
    order = [v[0] for v in P.adts["observation::snr::SNR"]["variants"]]
    strong = set(order[order.index("DbHz30_35"):]) if "DbHz30_35" in order else set()
    a, b = meth(P, "SignalObservation", "is_ok"), meth(P, "SignalObservation", "is_ok_snr")
    for d in digits:
        for s in [None] + order:
            sig = w.signal(("GPS", 1), "L1C", 0, NONE if d is None else some(lli(d)), NONE if s is None else some(snr[s]))
            if a is not None:
                w.n += 1
                key = "is_ok:%s:%s" % (d, s)
                v = q.call(a, sig)
                if is_c(v, "bool"):
                    e = d in (None, 0) and (s is None or s in strong)
                    r.check(bool(cval(v)) == e, key, "a signal with loss of lock digit %s and strength %s is said to be %s" % (d, s, "ok" if cval(v) else "not ok"), a.span)
                else:
                    r.unknown(key, show(v)[:100])
            if b is not None:
                for lim in order:
                    w.n += 1
                    key = "is_ok_snr:%s:%s:%s" % (d, s, lim)
                    v = q.call(b, sig, snr[lim])
                    if is_c(v, "bool"):
                        e = d in (None, 0) and s is not None and order.index(s) >= order.index(lim)
                        r.check(bool(cval(v)) == e, key, "a signal with loss of lock digit %s and strength %s is said to be %s for a limit of %s" % (d, s, "ok" if cval(v) else "not ok", lim), b.span)
                    else:
                        r.unknown(key, show(v)[:100])



"""C10: clock records: every clock bias, drift and deviation is taken from its own field, under its own clock, type and date."""
from files import *
import dates
from checks.c08 import sv_is

RULE = (
    "the file reader is abstractly executed on clock files whose fields hold unknown numbers in the columns of the format (revisions 2.00, 3.00 and 3.04); the record it returns must hold each "
    "of them exactly once, under the clock, data type, date and time scale written on its line"
)
FIELDS = ["bias", "bias_dev", "drift", "drift_dev", "drift_change", "drift_change_dev"]
D1, D2, D3 = (2020, 6, 25, 0, 1, 30), (1994, 7, 14, 20, 59, 0), (2020, 6, 25, 0, 2, 0)
SCALES = {"GPS": "GPST", "GAL": "GST", "UTC": "UTC", "TAI": "TAI", "BDT": "BDT", "QZS": "QZSST", None: "GPST"}


def header(ver, scale="GPS", sys="G"):
    if ver == "3.04":
        hs = ["3.04                 C                    %s" % sys]
    else:
        hs = ["     %s           CLOCK DATA          %s" % (ver, sys)]
    hs = [line("RINEX VERSION / TYPE", hs[0])]
    if scale:
        hs.append(line("TIME SYSTEM ID", "   " + scale))
    return hs + [line("# / TYPES OF DATA", "     5    AS    AR    CR    DR    MS"), line("END OF HEADER")]


def clock(ver, ty, name, d, cs, us=0, blank=False):
    w = 9 if ver == "3.04" else 4
    head = "%s %-*s " % (ty, w, name)
    head += ("%04d %2d %2d %2d %2d%3d.%06d" if blank else "%04d %02d %02d %02d %02d%3d.%06d") % (d + (us,))
    head += "%3d   " % len(cs)
    sep = "  " if ver == "3.04" else " "
    out = [tmpl(head, cs[0], *([sep, cs[1]] if len(cs) > 1 else []))]
    if len(cs) > 2:
        segs = []
        for c in cs[2:]:
            segs += [sep, c] if segs else [c]
        out.append(tmpl(*segs))
    return out


def scenarios():
    """name, version, header arguments, [(type, clock, date, number of values, microseconds, blank padded)]"""
    for ver in ("2.00", "3.00", "3.04"):
        st = "AREQ00USA" if ver == "3.04" else "AREQ"
        for n in range(1, 7):
            yield "%d values" % n, ver, {}, [("AR", st, D1, n, 0, False), ("AS", "G16", D1, n, 0, False)]
        for ty in ("AS", "AR", "CR", "DR", "MS"):
            yield "type %s" % ty, ver, {}, [(ty, "G16" if ty == "AS" else "USNO", D2, 2, 0, False)]
        yield "date padded with blanks", ver, {}, [("AS", "E01", D1, 2, 0, True), ("AS", "E02", (2021, 1, 2, 3, 4, 5), 2, 0, True)]
        for us in (1, 500000, 123456, 999999):
            yield "fraction of second %06d" % us, ver, {}, [("AS", "E01", D1, 2, us, False)]
        for s in SCALES:
            yield "time system %s" % s, ver, {"scale": s}, [("AS", "E01", D1, 2, 0, False)]
        yield "two epochs", ver, {}, [("AS", "E01", D1, 2, 0, False), ("AS", "E02", D1, 4, 0, False), ("AS", "E01", D3, 3, 0, False), ("AS", "E02", D3, 1, 0, False)]
        yield "two types", ver, {}, [("AR", "USNO", D1, 2, 0, False), ("CR", "USNO", D1, 2, 0, False), ("DR", "USNO", D1, 6, 0, False)]
        yield "decreasing dates", ver, {}, [("AR", "USNO", D3, 2, 0, False), ("AR", "USNO", D1, 2, 0, False)]
        for sv in ("G01", "G32", "R24", "E36", "C37", "J02"):
            yield "satellite %s" % sv[0], ver, {}, [("AS", sv, D1, 2, 0, False)]
        for nm in ("G1", "GR0B", "R01A", "PIE1", "E01B", "1234"):
            yield "station %s" % nm, ver, {}, [("AR", nm, D1, 2, 0, False)]
        yield "comment", ver, {}, [("AS", "E01", D1, 4, 0, False), "COMMENT", ("AS", "E02", D1, 4, 0, False)]
        for n in range(1, 7):
            yield "%d values, last line not terminated" % n, ver, {"eof": False}, [("AS", "E01", D1, 2, 0, False), ("AS", "E02", D1, n, 0, False)]


def literals():
    for mode in MODES:
        for sc in scenarios():
            if sc[0] in ("6 values", "5 values", "1 values", "two types"):
                yield mode, sc
    for sc in scenarios():
        yield None, sc


def run(ctx):
    P, q, R = ctx.P, ctx.q, ctx.r
    where = meth(P, "Rinex", "parse").span
    n = 0
    for mode, (name, ver, hk, rows) in literals():
        name += ", %s numbers" % mode if mode else ""
        g = "%s %s" % (ver, name)
        hk = dict(hk)
        eof = hk.pop("eof", True)
        lines, want = [], {}
        for i, row in enumerate(rows):
            if row == "COMMENT":
                lines.append(line("COMMENT", "this station was restarted"))
                continue
            ty, nm, d, k, us, blank = row
            with literal((lambda nm, w, k: number(mode, nm, w, 12, True)) if mode else None):
                cs = [cell("%s %s %s@%d" % (ty, nm, f, i), 19, "r") for f in FIELDS[:k]]
            lines += clock(ver, ty, nm, d, cs, us, blank)
            want[d + (us * 1000,), ty, nm] = cs
        v = ok_of(parse_file(P, q, header(ver, **hk), lines, eof=eof))
        r = get(v, ("record",)) if v is not None else None
        es = entries(r.a[4][0]) if r is not None and r.k == "agg" and r.a[4] else None
        if es is None:
            R.unknown("file:" + g, show(v)[:200] if v is not None else "no result")
            continue
        n += 1
        seen = set()
        ts = SCALES[hk.get("scale", "GPS")]
        bad = False
        for e, m in es:
            ks = entries(m)
            if not dates.is_epoch(e) or ks is None:
                R.unknown("file:" + g, show(e)[:100])
                bad = True
                break
            for key, prof in ks:
                ct, pt = get(key, ("clock_type",)), get(key, ("profile_type",))
                if ct is None or ct.k != "agg" or pt is None or pt.k != "agg":
                    R.unknown("file:" + g, show(key)[:160])
                    bad = True
                    continue
                hits = []
                for w in want:
                    if w[1] != pt.a[1]:
                        continue
                    if ct.a[1] == "Station":
                        if is_str(ct.a[4][0]) and cval(ct.a[4][0]) == w[2]:
                            hits.append(w)
                    elif sv_is(ct.a[4][0], w[2]) if w[2][1:].isdigit() and w[2][0].isalpha() else False:
                        hits.append(w)
                hits = [w for w in hits if w[0] == tuple(e.meta[:7])] or hits[:1]
                k = "%s:%s %s" % (g, dates.iso(e.meta), show(key)[:120])
                if not hits:
                    R.fail("clock:" + k, "a clock is filed as %s at %s, it is written in no line (RINEX %s, %s)" % (show(key), dates.iso(e.meta), ver, name), where)
                    continue
                w = hits[0]
                seen.add(w)
                lab = "%s %s (RINEX %s, %s)" % (w[1], w[2], ver, name)
                R.check(tuple(e.meta[:7]) == w[0] and e.meta[7] == ts, "date:%s:%s %s" % (g, w[1], w[2]), "the clock %s dated %s %s is filed at %s" % (lab, w[0], ts, dates.iso(e.meta)), where)
                for i, f in enumerate(FIELDS):
                    x = get(prof, (f,))
                    kk = "field:%s:%s %s %s" % (g, w[1], w[2], f)
                    if i < len(want[w]):
                        r_, msg = judge(x, N(want[w][i])) if x is not None else ("bad", "absent")
                        if r_ == "ok":
                            R.ok(kk, show(x)[:160])
                        elif r_ == "bad":
                            R.fail(kk, "%s of %s %s" % (f, lab, msg), where)
                        else:
                            R.unknown(kk, msg)
                    elif x is None or (x.k == "agg" and x.a[1] == "None"):
                        R.ok(kk)
                    elif x.k == "agg" and x.a[1] == "Some":
                        R.fail(kk, "%s of %s is %s, nothing is written there" % (f, lab, show(x)[:160]), where)
                    else:
                        R.unknown(kk, show(x)[:160])
        if bad:
            continue
        for w in want:
            if w not in seen:
                R.fail("clock:%s:%s %s" % (g, w[1], w[2]), "the clock %s %s at %s is lost (RINEX %s, %s)" % (w[1], w[2], w[0], ver, name), where)
    R.floor("clock files", n, 80)
    R.assume.append("clock, satellite and station names mean what the gnss crate says; values are separated by blanks")

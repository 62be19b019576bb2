"""C11: dates: every epoch of a file is the instant its columns say, in the time system of the file."""
from files import *
import dates
from checks import c08, c10, c29

RULE = (
    "the file reader is abstractly executed on files of every type whose epochs run through the limits of each calendar field, two digit years, every fraction of a second and every time system; "
    "each epoch must come out at its own date, with its own fraction, in the file's time system, and what the writer produces must be read back at the same dates"
)
DAYS = [(1980, 1, 6, 0, 0, 0), (1995, 10, 9, 8, 7, 6), (1999, 12, 31, 23, 59, 59), (2000, 1, 1, 0, 0, 0), (2000, 2, 29, 12, 0, 1), (2009, 9, 9, 9, 9, 9), (2020, 2, 29, 10, 10, 10), (2020, 11, 30, 20, 30, 45), (2023, 4, 30, 19, 1, 30), (2079, 12, 31, 23, 0, 9)]
WIDE = DAYS + [(2099, 6, 30, 1, 59, 0), (2100, 2, 28, 23, 59, 59)]
BAD = [(2021, 2, 29, 0, 0, 0), (2100, 2, 29, 0, 0, 0), (2021, 4, 31, 0, 0, 0), (2021, 13, 1, 0, 0, 0), (2021, 0, 5, 0, 0, 0), (2021, 5, 0, 0, 0, 0), (2021, 5, 1, 24, 0, 0), (2021, 5, 1, 0, 60, 0), (2021, 5, 1, 0, 0, 61)]
FR = {7: [0, 5000000, 1, 9999999, 100000, 1000, 1234567], 1: [0, 5, 1, 9], 6: [0, 500000, 1, 999999, 10000, 123456], 9: [0, 500000000, 1, 999999999, 1000000, 123456789], 0: [0]}
LABEL = {"GPS": "GPST", "GLO": "UTC", "GAL": "GST", "BDT": "BDT", "QZS": "QZSST"}
OWN = {"G": "GPST", "R": "UTC", "E": "GST", "C": "BDT", "J": "QZSST"}
SYSNAME = {"G": "G (GPS)", "R": "R (GLONASS)", "E": "E (GALILEO)", "C": "C (BEIDOU)", "J": "J (QZSS)", "M": "M (MIXED)"}


class Kind:
    """name, header lines, f(i, date, fraction) -> lines, time system, digits of the fraction, first year of two digit years or None, written back?"""

    def __init__(self, name, head, rec, ts, digits, dates_, back=False):
        self.name, self.head, self.rec, self.ts, self.digits, self.dates, self.back = name, head, rec, ts, digits, dates_, back


def tag(i):
    return "value@%d" % i


def obs(ver, sys, label):
    old = ver[0] == "2"
    H = [line("RINEX VERSION / TYPE", "%9s           OBSERVATION DATA    %s" % (ver, SYSNAME[sys]))]
    sats = "GRECJ" if sys == "M" else sys
    if old:
        H.append(line("# / TYPES OF OBSERV", "     1    C1"))
    else:
        H += [line("SYS / # / OBS TYPES", "%s    1 %s" % (s, "C2I" if s == "C" else "C1C")) for s in sats]
    if label is not None:
        H.append(line("TIME OF FIRST OBS", "  1980     1     6     0     0    0.0000000     %s" % label))
    H.append(line("END OF HEADER"))
    s = "%s03" % sats[0]

    def rec(i, d, fr):
        c = cell(tag(i), 14, "f")
        if old:
            return [" %02d %2d %2d %2d %2d%3d.%07d  0  1%s" % (d[0] % 100, *d[1:], fr, s), tmpl(c, "  ")]
        return ["> %04d %02d %02d %02d %02d%3d.%07d  0  1" % (*d, fr), tmpl(s, c, "  ")]

    ts = LABEL[label] if label and label.strip() else OWN[sys]
    return Kind("observations %s %s %s" % (ver, sys, label if label is not None else "without TIME OF FIRST OBS"), H, rec, ts, 7, DAYS if old else WIDE, True)


def nav(ver, sv, fields, msg=None):
    old = ver[0] == "2"

    def rec(i, d, fr):
        d = d[:5] + (d[5] + fr / 10.0,) if old else d
        return c08.message(tag(i), ver, sv, msg, fields, d, "full")[0]

    return Kind("navigation %s %s" % (ver, sv), c08.header(ver, sv[0]), rec, c08.TS[sv[0]], 1 if old else 0, DAYS if old else WIDE)


def met(ver):
    H = [line("RINEX VERSION / TYPE", "%9s           METEOROLOGICAL DATA" % ver), line("# / TYPES OF OBSERV", "     1    PR"), line("END OF HEADER")]

    def rec(i, d, fr):
        t = " %02d %2d %2d %2d %2d %2d" % (d[0] % 100, *d[1:]) if ver[0] == "2" else " %4d %2d %2d %2d %2d %2d" % d
        return [tmpl(t, cell(tag(i), 7, "f"))]

    return Kind("meteo %s" % ver, H, rec, "GPST", 0, DAYS if ver[0] == "2" else WIDE, True)


def clk(ver, scale, sys="G", ts=None):
    def rec(i, d, fr):
        return c10.clock(ver, "AS", "G03", d, [cell(tag(i), 19, "r")], us=fr, blank=bool(i % 2))

    return Kind("clocks %s %s" % (ver, scale or "of system %s" % sys), c10.header(ver, scale, sys), rec, ts or {**LABEL, "UTC": "UTC", "TAI": "TAI"}[scale], 6, WIDE)


def doris():
    H = c29.header(c29.CODES[:1])

    def rec(i, d, fr):
        return [c29.epoch(d, fr, "0", 1, "  -4.432841287", "0"), tmpl("D01", cell(tag(i), 14, "f"), "  ")]

    return Kind("DORIS", H, rec, "TAI", 9, WIDE, True)


def kinds():
    for s in "GRECJ":
        yield obs("3.04", s, [k for k in LABEL if LABEL[k] == OWN[s]][0])
    yield obs("3.04", "G", "   ")
    for l in LABEL:
        yield obs("3.04", "M", l)
    yield obs("3.04", "R", "GPS")
    yield obs("3.04", "E", "GPS")
    yield obs("2.11", "G", "GPS")
    yield obs("2.11", "G", None)
    yield obs("2.11", "R", "GLO")
    yield obs("2.11", "M", "GPS")
    yield obs("2.11", "M", "GLO")
    yield obs("4.00", "M", "GPS")
    for v, sv, f in (("2.11", "G07", c08.LNAV), ("2.11", "R07", c08.GLO), ("3.04", "G07", c08.LNAV), ("3.04", "R21", c08.GLO), ("3.04", "E11", c08.GAL), ("3.04", "C30", c08.BDS), ("3.04", "J02", c08.LNAV), ("3.04", "S23", c08.SBAS)):
        yield nav(v, sv, f)
    yield nav("4.0", "G07", c08.LNAV, "LNAV")
    yield nav("4.0", "C30", c08.D1, "D1")
    yield met("2.11")
    yield met("3.04")
    for v in ("2.00", "3.04"):
        for l in ("GPS", "UTC", "TAI", "GAL", "BDT"):
            yield clk(v, l)
    yield clk("3.04", "", "R", "UTC")
    yield clk("3.04", "", "E", "GST")
    yield doris()


def filed(v):
    """{tag index: [epochs it is filed under]}, and whether everything was understood"""
    r = get(v, ("record",)) if v is not None else None
    r = r.a[4][0] if r is not None and r.k == "agg" and r.a[4] else None
    es = entries(r) if r is not None else None
    if es is None:
        return None
    out = {}
    for k, x in es:
        ep = [e for e in walk(k) if is_e(e)]
        for c in cells(x):
            c = c.split("/")[0]
            if c.startswith("value@"):
                out.setdefault(int(c[6:]), []).append(ep[0] if ep else k)
    return out


def is_e(e):
    return dates.is_epoch(e) or (e.k == "e" and e.op == "call" and "Epoch" in str(e.meta) and "gregorian" in str(e.meta))


def run(ctx):
    P, q, R = ctx.P, ctx.q, ctx.r
    where = meth(P, "Rinex", "parse").span
    n = back = 0
    for K in kinds():
        frs = FR[K.digits]
        eps = []
        for j, d in enumerate(K.dates):
            eps.append((d, frs[j % len(frs)]))
        for fr in frs:
            eps.append(((2021, 3, 4, 5, 6, 7), fr))
        eps = sorted(set(eps))
        v = parse_file(P, q, K.head, [l for i, (d, fr) in enumerate(eps) for l in K.rec(i, d, fr)])
        if v is not None and not ok_of(v) and errs_of(v) and v.k == "agg":
            R.fail("file:" + K.name, "a well formed file (%s) is refused: %s" % (K.name, show(errs_of(v)[0])[:100]), where)
            continue
        v = ok_of(v)
        got = filed(v)
        if got is None:
            R.unknown("file:" + K.name, show(v)[:200] if v is not None else "no result")
            continue
        n += 1
        scale = K.name.split()[0] == "meteo"
        for i, (d, fr) in enumerate(eps):
            want = d + (fr * 10 ** (9 - K.digits), K.ts)
            key = "%s:%s" % (K.name, dates.iso(want))
            es = got.get(i, [])
            if not es:
                R.fail("lost:" + key, "what is dated %s is lost (%s)" % (dates.iso(want), K.name), where)
                continue
            for e in es:
                if not dates.is_epoch(e):
                    R.unknown("date:" + key, show(e)[:120])
                    continue
                R.check(tuple(e.meta[:7]) == want[:7], "date:" + key, "the date %s becomes %s (%s)" % (dates.iso(want), dates.iso(e.meta), K.name), where)
                R.check(e.meta[7] == K.ts, "scale:" + ("meteo" if scale else K.name), "dates of %s files are read in %s, not %s" % (K.name, e.meta[7], K.ts), where)
        if K.back:
            w = write_file(P, q, v)
            ls = body_of(w[0]) if w is not None else None
            v2 = ok_of(parse_file(P, q, K.head, ls)) if ls is not None else None
            g2 = None
            if v2 is not None and w is not None:
                r2 = get(v2, ("record",))
                es2 = entries(r2.a[4][0]) if r2 is not None and r2.k == "agg" and r2.a[4] else None
                if es2 is not None:
                    g2 = {tuple(e.meta) for k, _ in es2 for e in walk(k) if dates.is_epoch(e)}
            if g2 is None:
                R.unknown("written:" + K.name, "what is written is not known")
            else:
                back += 1
                for es in got.values():
                    for e in es:
                        if dates.is_epoch(e):
                            R.check(tuple(e.meta) in g2, "written:%s:%s" % (K.name, dates.iso(e.meta)), "what is dated %s is not read back at that date from the file it is written to (%s)" % (dates.iso(e.meta), K.name), where)
        # dates that do not exist
        for b in BAD:
            if K.name not in ("observations 3.04 G GPS", "observations 3.04 R GLO", "observations 2.11 G GPS", "navigation 2.11 G07", "navigation 3.04 R21", "navigation 3.04 E11", "meteo 3.04", "clocks 3.04 GPS", "DORIS"):
                continue
            if K.dates is DAYS and b[0] == 2100:
                continue
            g0, g1 = (2021, 1, 1, 0, 0, 0), (2021, 6, 1, 0, 0, 0)
            v = parse_file(P, q, K.head, K.rec(0, g0, 0) + K.rec(1, b, 0) + K.rec(2, g1, 0))
            key = "%s:%s" % (K.name, "%04d-%02d-%02d %02d:%02d:%02d" % b)
            if v is None or v is BOT:
                R.fail("abort:" + key, "reading a date that does not exist aborts the program (%s)" % K.name, where)
                continue
            got = filed(ok_of(v)) if ok_of(v) is not None else {} if errs_of(v) else None
            if got is None:
                R.unknown("refused:" + key, show(v)[:100])
                continue
            for i, es in got.items():
                for e in es:
                    if not dates.is_epoch(e):
                        if i == 1:
                            R.check("maybe" in str(e.meta) or not all(is_c(x) for x in e.args), "abort:" + key, "a date that does not exist is given to a constructor that aborts (%s)" % K.name, where)
                        continue
                    if i == 1:
                        R.fail("refused:" + key, "what has the date %s, which does not exist, is filed at %s (%s)" % ("%04d-%02d-%02d %02d:%02d:%02d" % b, dates.iso(e.meta), K.name), where)
                    else:
                        R.check(tuple(e.meta[:6]) == (g0 if i == 0 else g1), "next:" + key, "a date that does not exist changes the date of its neighbour (%s)" % K.name, where)
            if 1 not in got:
                R.ok("refused:" + key)
    R.floor("file kinds", n, 24)
    R.floor("file kinds written back", back, 6)

"""C09: meteo records: every value is taken from its own columns, filed under its own observable and date, and written back to the same columns."""
from files import *
import dates
from checks.c06 import same, shown

RULE = (
    "the file reader is abstractly executed on meteo files whose fields hold unknown numbers in the columns of the format, and the record it returns must hold exactly these; the file writer is "
    "then abstractly executed on what was read, and reading its text again must give the same record"
)
CODES = "PR TD HR ZW ZD ZT WD WS RI HI".split()
LONG = {"PR": "Pressure", "TD": "Temperature", "HR": "HumidityRate", "ZW": "ZenithWetDelay", "ZD": "ZenithDryDelay", "ZT": "ZenithTotalDelay", "WD": "WindDirection", "WS": "WindSpeed", "RI": "RainIncrement", "HI": "HailIndicator"}


def header(ver, codes):
    ls = [line("RINEX VERSION / TYPE", "%9s           METEOROLOGICAL DATA" % ver)]
    rest = codes
    n = "%6d" % len(codes)
    while rest:
        ls.append(line("# / TYPES OF OBSERV", n + "".join("%6s" % c for c in rest[:9])))
        rest, n = rest[9:], " " * 6
    return ls + [line("END OF HEADER")]


def date(ver, d):
    return " %02d %2d %2d %2d %2d %2d" % ((d[0] % 100,) + d[1:]) if ver[0] == "2" else " %4d %2d %2d %2d %2d %2d" % d


def epoch(ver, d, cs, trim=True, first=8):
    """cs: cells, or None for a blank field; blanks beyond the given number of fields of the first line are left out"""
    last = max([i for i, c in enumerate(cs) if c is not None], default=-1) + 1 if trim else len(cs)
    xs = [c if c is not None else " " * 7 for c in cs[:last]]
    out = [tmpl(date(ver, d), *xs[:8][:first])]
    rest = xs[8:]
    while rest:
        out.append(tmpl("    ", *rest[:10]))
        rest = rest[10:]
    return out


DATES = [(2021, 1, 7, 0, 0, 0), (2021, 1, 7, 12, 30, 59), (1999, 12, 31, 23, 59, 30), (2000, 1, 1, 0, 0, 0), (2079, 10, 20, 3, 4, 5), (1980, 2, 29, 6, 15, 0)]


def scenarios():
    for ver in ("2.11", "3.04", "4.00"):
        for n in range(1, 11):
            yield ver, "%d observables" % n, CODES[:n], [(DATES[0], "f" * n), (DATES[1], "f" * n)], True
        yield ver, "reversed observables", CODES[::-1], [(DATES[0], "f" * 10)], True
        for i, d in enumerate(DATES):
            yield ver, "date %04d" % d[0], CODES[:3], [(d, "fff")], True
        yield ver, "right justified values", CODES, [(DATES[0], "r" * 10), (DATES[1], "rfrfrfrfrf")], True
        for m in ("f.f", ".ff", "ff.", "f..", "..f", ".f."):
            yield ver, "missing values %s" % m, CODES[:3], [(DATES[0], m), (DATES[1], "fff")], True
        for m in ("ffffffff.f", "fffffff.ff", ".fffffffff", "ffffffff..", "fff.......", "ffffffffff"):
            yield ver, "missing values %s" % m, CODES, [(DATES[0], m), (DATES[1], "f" * 10)], True
            yield ver, "missing values %s, last line not terminated" % m, CODES, [(DATES[1], "f" * 10), (DATES[0], m)], False
        yield ver, "first line shortened", CODES, [(DATES[0], "ffff....ff", True, 4), (DATES[1], "f" * 10)], True
        yield ver, "first line shortened to its date", CODES, [(DATES[0], "........ff", True, 0), (DATES[1], "f" * 10)], True
        yield ver, "blank trailing values", CODES[:4], [(DATES[0], "fr..", False), (DATES[1], "ffff")], True
        yield ver, "comment between epochs", CODES[:4], [(DATES[0], "ffff"), "COMMENT", (DATES[1], "frff")], True
        yield ver, "comment before the first epoch", CODES[:4], ["COMMENT", (DATES[0], "ffff"), (DATES[1], "frff")], True
        yield ver, "comment after a continued epoch", CODES, [(DATES[0], "f" * 10), "COMMENT", "COMMENT", (DATES[1], "f" * 10)], True
        yield ver, "last line not terminated", CODES[:2], [(DATES[0], "ff"), (DATES[1], "fr")], False


def rec(v):
    r = get(v, ("record",)) if v is not None else None
    return entries(r.a[4][0]) if r is not None and r.k == "agg" and r.a[4] else None


def literals():
    """scenarios whose fields hold extreme numbers"""
    for mode in MODES:
        for sc in scenarios():
            if sc[0] != "3.04" and sc[1] in ("2 observables", "10 observables") or sc[1] in ("missing values ffffffff.f, last line not terminated", "missing values f.f"):
                yield mode, sc
    for sc in scenarios():
        yield None, sc


def run(ctx):
    P, q, R = ctx.P, ctx.q, ctx.r
    where = meth(P, "Rinex", "parse").span
    n = m = 0
    for mode, (ver, name, codes, eps, eof) in literals():
        g = "%s %s" % (ver, name)
        if mode:
            g = "%s %s numbers" % (g, mode)
            name += ", %s numbers" % mode
        r = one(P, q, R, where, g, ver, name, codes, eps, eof, (lambda nm, w, k: number(mode, nm, w, 1)) if mode else None)
        n += r[0]
        m += r[1]
    R.floor("meteo files", n, 60)
    R.floor("meteo files written back", m, 60)


def one(P, q, R, where, g, ver, name, codes, eps, eof, lit):
    lines, want = [], {}
    for i, e in enumerate(eps):
        if e == "COMMENT":
            lines.append(line("COMMENT", "the sensor was cleaned"))
            continue
        d, kinds = e[:2]
        with literal(lit):
            cs = [None if k == "." else cell("%s@%d" % (c, i), 7, k) for c, k in zip(codes, kinds)]
        lines += epoch(ver, d, cs, *e[2:])
        for c, x in zip(codes, cs):
            if x is not None:
                want[d, c] = x
    H = header(ver, codes)
    v = ok_of(parse_file(P, q, H, lines, eof=eof))
    es = rec(v)
    if es is None:
        R.unknown("file:" + g, show(v)[:200] if v is not None else "no result")
        return 0, 0
    compare(R, "read", g, where, es, want, "written in a meteo file (RINEX %s, %s)" % (ver, name))
    # written back
    t = write_file(P, q, v)
    if t is None:
        R.unknown("written:" + g, "text not known")
        return 1, 0
    ls, reg = t
    body = body_of(ls)
    if body is None:
        R.unknown("written:" + g, "no END OF HEADER")
        return 1, 0
    bad = [a for a, (t_, sp) in reg.items() if sp[2][1] is not None and sp[2][1] < 1 and sp[1] in ("f32", "f64") and any(c in want_cells(want) for c in cells(t_))]
    R.check(not bad, "precision:" + g, "meteo values are written without their decimal", where)
    a = []
    for e in (e for e in eps if e != "COMMENT"):
        a += epoch(ver, e[0], [want.get((e[0], c)) for c in codes], True)
    a, b = (sorted((c if c[:4] == (" ",) * 4 else c[18 if ver[0] == "2" else 20:] for c in (columns(l, rg) for l in ls_) if c), key=repr) for ls_, rg in ((a, ()), (body, reg)))
    lost = [x for x in a if a.count(x) > b.count(x)]
    more = [x for x in b if b.count(x) > a.count(x)]
    R.check(not lost and not more, "layout:" + g, "the values %r are written as %r (meteo, RINEX %s, %s)" % (draw(lost[0]) if lost else "", draw(more[0]) if more else "", ver, name), where)
    v2 = ok_of(parse_file(P, q, H, body))
    es2 = rec(v2)
    if es2 is None:
        R.unknown("written:" + g, show(v2)[:200] if v2 is not None else "no result")
        return 1, 1
    compare(R, "written", g, where, es2, want, "read from a meteo file (RINEX %s, %s) and written again" % (ver, name), reg)
    return 1, 1


def want_cells(want):
    return {c.meta[0] for c in want.values()}


def compare(R, what, g, where, es, want, ctx, reg=None):
    seen = set()
    for k, x in es:
        e, o = get(k, ("epoch",)), get(k, ("observable",))
        if e is None or not dates.is_epoch(e) or o is None or o.k != "agg":
            R.unknown("%s:%s" % (what, g), show(k)[:200])
            return
        c = [a for a, b in LONG.items() if b == o.a[1]]
        kk = (tuple(e.meta[:6]), c[0] if c else o.a[1])
        w = want.get(kk)
        key = "%s:%s:%s %s" % (what, g, dates.iso(e.meta), kk[1])
        if w is None:
            R.fail(key, "%s of %s appears, it was not %s" % (kk[1], dates.iso(e.meta), ctx), where)
            continue
        seen.add(kk)
        R.check(e.meta[6] == 0 and e.meta[7] == "UTC", key + " date", "the date %s becomes %s when %s" % (kk[0], dates.iso(e.meta), ctx), where)
        r, msg = judge_back(x, w, reg or {})
        if r == "ok":
            R.ok(key, show(x)[:160])
        elif r == "bad":
            R.fail(key, "%s of %s, %s, %s" % (kk[1], dates.iso(e.meta), ctx, msg), where)
        else:
            R.unknown(key, msg)
    for kk in want:
        if kk not in seen:
            R.fail("%s:%s:%s %s" % (what, g, "%04d-%02d-%02dT%02d:%02d:%02d UTC" % kk[0], kk[1]), "%s of %s is lost when %s" % (kk[1], kk[0], ctx), where)
    if not want:
        R.ok("%s:%s" % (what, g))

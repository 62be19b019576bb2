"""C30: comments inside a record: none is lost, and none changes what is read around it."""
from files import *
import dates
from checks import c08, c09, c10, c29

RULE = (
    "the file reader is abstractly executed on files of every type with comment lines inserted at every possible place of the record; the record must be the one read without them, and the "
    "comments must come out in order, under the epoch they follow"
)


def obs2():
    H = [line("RINEX VERSION / TYPE", "     2.11           OBSERVATION DATA    G (GPS)"), line("# / TYPES OF OBSERV", "     6    C1    L1    P1    C2    L2    P2"), line("TIME OF FIRST OBS", "  2020     1     1     0     0    0.0000000     GPS"), line("END OF HEADER")]
    out = []
    for i, d in enumerate(((2020, 1, 1, 0, 0, 0), (2020, 1, 1, 0, 0, 30))):
        ls = [" %02d %2d %2d %2d %2d %10.7f  0  2G01G02" % (d[0] % 100, d[1], d[2], d[3], d[4], d[5])]
        for s in (1, 2):
            ls += [tmpl(*[x for k in range(5) for x in (cell("s%d.%d@%d" % (s, k, i), 14, "f"), "  ")]), tmpl(cell("s%d.5@%d" % (s, i), 14, "f"), "  ")]
        out.append((d, "GPST", ls))
    return H, out


def obs3():
    H = [line("RINEX VERSION / TYPE", "     3.04           OBSERVATION DATA    G (GPS)"), line("SYS / # / OBS TYPES", "G    3 C1C L1C S1C"), line("TIME OF FIRST OBS", "  2020     1     1     0     0    0.0000000     GPS"), line("END OF HEADER")]
    out = []
    for i, d in enumerate(((2020, 1, 1, 0, 0, 0), (2020, 1, 1, 0, 0, 30))):
        out.append((d, "GPST", ["> %04d %02d %02d %02d %02d %10.7f  0  2" % d] + [tmpl("G%02d" % s, *[x for k in range(3) for x in (cell("s%d.%d@%d" % (s, k, i), 14, "f"), "  ")]) for s in (1, 2)]))
    return H, out


def nav(ver, sv, fields):
    def f():
        out = []
        for i, d in enumerate(((2021, 3, 5, 6, 10, 0), (2021, 3, 5, 8, 10, 0))):
            ls, _ = c08.message("m%d" % i, ver, sv, None, fields, d, "full")
            out.append((d, c08.TS[sv[0]], ls))
        return c08.header(ver, sv[0]), out

    return f


def met(ver):
    def f():
        codes = c09.CODES
        return c09.header(ver, codes), [(d, "UTC", c09.epoch(ver, d, [cell("%s@%d" % (c, i), 7, "f") for c in codes])) for i, d in enumerate(c09.DATES[:2])]

    return f


def clk(ver):
    def f():
        out = []
        for i, d in enumerate((c10.D1, c10.D3)):
            out.append((d, "GPST", c10.clock(ver, "AS", "G1%d" % i, d, [cell("%s@%d" % (x, i), 19, "r") for x in c10.FIELDS[:4]])))
        return c10.header(ver), out

    return f


def dor():
    out = []
    for i, d in enumerate((c29.D1, c29.D2)):
        ls, _ = c29.build([(d, 0, "0", "0", [(1, "v" * 6), (2, "v" * 6)])], c29.CODES[:6], False)
        out.append((d, "TAI", ls))
    return c29.header(c29.CODES[:6]), out


def again(gen, more):
    """a third entry, dated as the second"""

    def f():
        H, out = gen()
        d, ts, _ = out[1]
        out.append((d, ts, more(d)))
        return H, out

    return f


def obs2p():
    H, out = obs2()
    d, ts, ls = out[1]
    out[1] = d, ts, [ls[0].replace("  0  2G01", "  1  2G01")] + ls[1:]
    return H, out


def obs3p():
    H, out = obs3()
    d, ts, ls = out[1]
    out[1] = d, ts, [ls[0][:-6] + "  1  2"] + ls[1:]
    return H, out


TEXTS = ["remark %d.%d: antenna 2 moved", "   indented remark %d.%d", "> 2020 01 01 00 00 30.0000000  0  2 remark %d.%d", "EXPONENT, EPOCH OF CURRENT MAP, END OF HEADER, remark %d.%d", "G01 remark %d.%d ", " 20  1  1  0  0 30.0000000  0  2G01G02 remark %d.%d", "remark %d.%d, RINEX VERSION / TYPE"]


KINDS = [("observations 2.11", obs2), ("observations 3.04", obs3), ("GPS navigation 2.11", nav("2.11", "G07", c08.LNAV)), ("GLONASS navigation 3.04", nav("3.04", "R21", c08.GLO)), ("meteo 2.11", met("2.11")), ("meteo 3.04", met("3.04")), ("clocks 2.00", clk("2.00")), ("clocks 3.04", clk("3.04")), ("DORIS", dor)]
KINDS += [
    ("observations 2.11 after a power failure", obs2p), ("observations 3.04 after a power failure", obs3p),
    ("clocks 3.04 of one date", again(clk("3.04"), lambda d: c10.clock("3.04", "AS", "G20", d, [cell("%s@2" % x, 19, "r") for x in c10.FIELDS[:2]]))),
    ("GLONASS navigation 3.04 of one date", again(nav("3.04", "R21", c08.GLO), lambda d: c08.message("m2", "3.04", "R22", None, c08.GLO, d, "full")[0])),
]


def run(ctx):
    P, q, R = ctx.P, ctx.q, ctx.r
    where = meth(P, "Rinex", "parse").span
    n = 0
    for name, gen in KINDS:
        H, eps = gen()
        flat = [l for _, _, ls in eps for l in ls]
        first = [sum(len(x[2]) for x in eps[:j]) for j in range(len(eps))]
        ref = ok_of(parse_file(P, q, H, flat))
        r0 = get(ref, ("record",)) if ref is not None else None
        if r0 is None or r0.k != "agg" or vague(r0):
            R.unknown("file:" + name, show(ref)[:160] if ref is not None else "no result")
            continue
        places = [[i] for i in range(len(flat) + 1)]
        places = [p for p in places if p[0] < 4 or p[0] >= len(flat) - 1 or p[0] in (first[1], first[1] + 1, first[-1])] + [[0, 0, first[1]], [1, first[1], first[1], len(flat)], [first[1] + 1, first[-1], len(flat)]]
        for np, pl in enumerate(places):
            ls, want = [], {}
            for i in range(len(flat) + 1):
                for k in range(pl.count(i)):
                    txt = (TEXTS[(np + k + pl.index(i)) % len(TEXTS)] % (i, k)).rstrip()
                    ls.append(line("COMMENT", txt))
                    e = [j for j in range(len(eps)) if i > first[j]]
                    d = eps[e[-1]][0:2] if e else None
                    want.setdefault(d, []).append(txt)
                if i < len(flat):
                    ls.append(flat[i])
            tag = "%s:%s" % (name, ",".join(map(str, pl)))
            v = ok_of(parse_file(P, q, H, ls))
            rec, com = (get(v, (k,)) if v is not None else None for k in ("record", "comments"))
            if rec is None or com is None:
                R.unknown("file:" + tag, show(v)[:160] if v is not None else "no result")
                continue
            n += 1
            if rec is r0:
                R.ok("record:" + tag)
            elif vague(rec):
                R.unknown("record:" + tag, show(rec)[:160])
            else:
                R.fail("record:" + tag, "what is read from a %s file changes when comments are inserted before line %s of its record" % (name, pl), where)
            es = entries(com)
            if es is None:
                R.unknown("comments:" + tag, show(com)[:160])
                continue
            got = {}
            for e, t in es:
                xs = [cval(x).rstrip() for x in t.a[4] if is_str(x)] if t.k == "agg" else None
                got[(tuple(e.meta[:6]), e.meta[7]) if dates.is_epoch(e) else show(e)] = xs
            allg = sorted(x for xs in got.values() for x in (xs or ["?"]))
            allw = sorted(x for xs in want.values() for x in xs)
            if "?" in allg:
                R.unknown("comments:" + tag, str(got)[:160])
                continue
            R.check(allg == allw, "kept:" + tag, "comments inserted before line %s of the record of a %s file: %s are kept, %s are written" % (pl, name, allg, allw), where)
            for d, xs in want.items():
                if d is None or allg != allw:
                    continue
                g = [x for x in (got.get(d) or []) if x in xs]
                R.check(g == xs, "under:%s:%s" % (tag, d[0]), "comments following the epoch %s of a %s file are filed as %s" % (d[0], name, got), where)
    R.floor("files with comments", n, 50)

"""C13: ionosphere maps: each value is filed under the date and the node it is written for."""
from files import *
import dates

RULE = (
    "the file reader is abstractly executed on IONEX files whose nodes hold unknown numbers; each number must come out once, at the date of its map, at the latitude, longitude and height of its "
    "node, scaled by the exponent in force, as total electron content or as its root mean square error"
)
D0 = (2017, 1, 1, 0, 0, 0)


def rng(a, b, s):
    n = 1 if not s else int(round((b - a) / s)) + 1
    return [a + i * s for i in range(n)]


def header(lat, lon, hgt, exp, nmaps):
    f3 = lambda t: "  " + "".join("%6.1f" % x for x in t)
    H = [
        line("IONEX VERSION / TYPE", "     1.0            IONOSPHERE MAPS     GPS"),
        line("EPOCH OF FIRST MAP", "%6d%6d%6d%6d%6d%6d" % D0),
        line("EPOCH OF LAST MAP", "%6d%6d%6d%6d%6d%6d" % D0),
        line("INTERVAL", "%6d" % 7200),
        line("# OF MAPS IN FILE", "%6d" % nmaps),
        line("MAPPING FUNCTION", "  NONE"),
        line("ELEVATION CUTOFF", "%8.1f" % 10),
        line("BASE RADIUS", "%8.1f" % 6371),
        line("MAP DIMENSION", "%6d" % (3 if hgt[2] else 2)),
        line("HGT1 / HGT2 / DHGT", f3(hgt)),
        line("LAT1 / LAT2 / DLAT", f3(lat)),
        line("LON1 / LON2 / DLON", f3(lon)),
    ]
    if exp is not None:
        H.append(line("EXPONENT", "%6d" % exp))
    return H + [line("END OF HEADER")]


def amap(kind, i, d, lat, lon, hgt, missing, exp=None):
    """lines and {(lat, lon, h): cell}"""
    ls = [line("START OF %s MAP" % kind, "%6d" % (i + 1)), line("EPOCH OF CURRENT MAP", "%6d%6d%6d%6d%6d%6d" % d)]
    if exp is not None:
        ls.append(line("EXPONENT", "%6d" % exp))
    cs, n = {}, 0
    for h in rng(*hgt):
        for la in rng(*lat):
            ls.append(line("LAT/LON1/LON2/DLON/H", "  " + "".join("%6.1f" % x for x in (la, lon[0], lon[1], lon[2], h))))
            row = []
            for lo in rng(*lon):
                n += 1
                if n in missing:
                    row.append(" 9999")
                else:
                    c = cell("%s map %d %g/%g/%g" % (kind, i, la, lo, h), 5, "r")
                    cs[la, lo, h] = c
                    row.append(c)
            for k in range(0, len(row), 16):
                ls.append(tmpl(*row[k:k + 16]))
    ls.append(line("END OF %s MAP" % kind, "%6d" % (i + 1)))
    return ls, cs


H450 = (450.0, 450.0, 0.0)


def scenarios():
    """name, latitudes, longitudes, heights, exponent of the header, TEC maps, RMS maps, missing nodes, exponents written in maps"""
    A = ((87.5, 82.5, -2.5), (-180.0, -165.0, 5.0))
    yield "two TEC maps", *A, H450, -1, 3, 0, (), {}
    for e in (None, -2, 0, 1, -3):
        yield "exponent %s" % e, (80.0, 70.0, -10.0), (-10.0, 10.0, 10.0), H450, e, 2, 0, (), {}
    yield "missing nodes", *A, H450, -1, 2, 0, (1, 2, 6, 12), {}
    yield "longitudes from zero", (20.0, 10.0, -10.0), (0.0, 20.0, 10.0), H450, -1, 2, 0, (), {}
    yield "regional grid", (71.0, 69.0, -1.0), (-12.0, -8.0, 2.0), H450, -1, 2, 0, (), {}
    yield "half degrees", (87.5, 77.5, -5.0), (2.5, 12.5, 5.0), H450, -1, 2, 0, (), {}
    yield "tenths of degree", (50.4, 50.0, -0.2), (10.1, 10.7, 0.3), H450, -1, 2, 0, (), {}
    yield "accumulated tenths", (0.3, -0.3, -0.1), (0.7, 1.3, 0.1), H450, -1, 2, 0, (), {}
    yield "accumulated negative tenths", (0.9, 1.1, 0.1), (-1.3, -0.7, 0.1), H450, -1, 2, 0, (), {}
    yield "westwards", (50.0, 45.0, -5.0), (180.0, 170.0, -5.0), H450, -1, 2, 0, (), {}
    yield "northwards", (-50.0, -45.0, 5.0), (180.0, 170.0, -5.0), H450, -1, 2, 0, (), {}
    yield "from 180 to -180", (50.0, 45.0, -5.0), (180.0, -180.0, -90.0), H450, -1, 2, 0, (), {}
    yield "continued rows", (50.0, 45.0, -5.0), (0.0, 80.0, 5.0), H450, -1, 2, 0, (3, 17), {}
    yield "full rows", (50.0, 45.0, -5.0), (0.0, 75.0, 5.0), H450, -1, 2, 0, (), {}
    yield "heights", (50.0, 45.0, -5.0), (0.0, 10.0, 5.0), (200.0, 400.0, 100.0), -1, 2, 0, (), {}
    yield "fractional heights", (50.0, 45.0, -5.0), (0.0, 10.0, 5.0), (350.5, 350.5, 0.0), -1, 2, 0, (), {}
    yield "TEC and RMS maps", *A, H450, -1, 3, 3, (), {}
    yield "TEC and RMS maps, missing nodes", *A, H450, -1, 3, 3, (2, 5), {}
    yield "exponents of maps", (80.0, 70.0, -10.0), (-10.0, 10.0, 10.0), H450, -1, 3, 0, (), {0: -2, 1: -1}


def literals():
    for mode in MODES:
        def f(nm, w, k):
            h = sum(map(ord, nm))
            return "%5d" % {"zero": 0, "negative": -(h * 37 % 1000), "long": 9998 - h * 31 % 9000}[mode]

        for sc in scenarios():
            if sc[0] in ("two TEC maps", "exponent -2", "missing nodes", "exponent 1", "TEC and RMS maps, missing nodes"):
                yield f, mode, sc
    for sc in scenarios():
        yield None, None, sc


def run(ctx):
    P, q, R = ctx.P, ctx.q, ctx.r
    where = meth(P, "Rinex", "parse").span
    co = [meth(P, "QuantizedCoordinates", n) for n in ("latitude_ddeg", "longitude_ddeg", "altitude_km")]
    vt = [meth(P, "ionex::tec::TEC", n) or meth(P, "TEC", n) for n in ("tecu", "rms_tec")]
    R.floor("node and value accessors", sum(x is not None for x in co + vt), 5)
    if None in co + vt:
        return
    n = 0
    for lit, mode, (name, lat, lon, hgt, exp, nt, nr, missing, own) in literals():
        name += ", %s numbers" % mode if mode else ""
        lines, want = [], {}
        e0 = exp if exp is not None else -1
        for kind, m in (("TEC", nt), ("RMS", nr)):
            for i in range(m):
                d = (2017, 1, 1, 2 * i, 0, 0)
                with literal(lit):
                    ls, cs = amap(kind, i, d, lat, lon, hgt, missing if kind == "TEC" or True else (), own.get(i) if kind == "TEC" else None)
                lines += ls
                for k, c in cs.items():
                    want[kind, d, k] = (c, i == m - 1, own.get(i, e0) if kind == "TEC" else e0)
        lines.append(line("END OF FILE"))
        v = parse_file(P, q, header(lat, lon, hgt, exp, nt), lines)
        if v is not None and not ok_of(v) and errs_of(v) and v.k == "agg":
            R.fail("file:" + name, "a well formed IONEX file (%s) is refused: %s" % (name, show(errs_of(v)[0])[:100]), where)
            continue
        v = ok_of(v)
        r = get(v, ("record",)) if v is not None else None
        es = entries(r.a[4][0]) if r is not None and r.k == "agg" and r.a[4] else None
        if es is None:
            R.unknown("file:" + name, show(v)[:200] if v is not None else "no result")
            continue
        n += 1
        seen, bad = set(), False
        for key, tec in es:
            tec = lists.present(tec)[1]
            e, c = get(key, ("epoch",)), get(key, ("coordinates",))
            pos = [q.call(f, c) for f in co] if c is not None else [None]
            if e is None or not dates.is_epoch(e) or any(p is None or p.k != "c" for p in pos):
                R.unknown("file:" + name, show(key)[:200])
                bad = True
                break
            k = (tuple(e.meta[:6]), tuple(round(float(cval(p)), 4) for p in pos))
            node = [w for w in want if w[0] == "TEC" and w[1] == k[0] and all(abs(a - b) < 1e-4 for a, b in zip(w[2], k[1]))]
            lab = "%s %s" % (k[0][3], "%g/%g/%g" % k[1])
            if not node:
                R.fail("node:%s:%s" % (name, lab), "a value appears at %s, node %g/%g/%g km, where none is written (IONEX, %s)" % (dates.iso(e.meta), *k[1], name), where)
                continue
            R.check(e.meta[6] == 0 and e.meta[7] == "UTC", "date:%s:%s" % (name, lab), "the date of a map becomes %s" % dates.iso(e.meta), where)
            w = node[0]
            for kind, f in (("TEC", vt[0]), ("RMS", vt[1])):
                ww = (kind,) + w[1:]
                x = q.call(f, tec)
                kk = "%s:%s:%s" % (kind, name, lab)
                if ww not in want or (kind == "RMS" and want[ww][1]):
                    if kind == "RMS" and ww not in want:
                        R.check(x is None or not set(cells(x)), kk, "a node without RMS value gets one", where)
                    continue
                seen.add(ww)
                c_, last, ex = want[ww]
                if x is None:
                    R.unknown(kk, "no value")
                    continue
                u = unopt(x)
                r_, msg = judge(x, N(c_, scale=10.0 ** ex)) if not (u.k == "agg" and u.a[1] == "None") else ("bad", "is lost")
                if r_ == "ok":
                    R.ok(kk, show(x)[:160])
                elif r_ == "bad":
                    R.fail(kk, "the %s value of node %g/%g/%g at %02dh (IONEX, %s) %s" % (kind, *k[1], k[0][3], name, msg), where)
                else:
                    R.unknown(kk, msg)
        if bad:
            continue
        for w, (c_, last, ex) in want.items():
            if w in seen:
                continue
            kind = "last %s map%s" % (w[0], " before RMS maps" if w[0] == "TEC" and nr else " of a file")
            if last:
                got = any(c_.meta[0] in cells(t) for _, t in es)
                if not got:
                    R.fail("lost:" + kind, "the %s is not read (%s)" % (kind, name), where)
                continue
            R.fail("lost:%s:%s %d %g/%g/%g" % (name, w[0], w[1][3], *w[2]), "the %s value of node %g/%g/%g at %02dh is lost (IONEX, %s)" % (w[0], *w[2], w[1][3], name), where)
    R.floor("IONEX files", n, 14)
    R.assume.append("values of neighbouring columns are separated by a blank")

"""C14: antenna calibrations: every antenna keeps its description, validity and the eccentricities of each of its frequencies."""
from files import *
import dates

RULE = (
    "the file reader is abstractly executed on ANTEX files whose fields are unknown texts and numbers; each antenna must come out once, in order, with every field taken from its own columns and the "
    "eccentricities of a frequency under that frequency; the lookups are then executed on the antennas read"
)
FREQ = {  # frequency code of the format: carrier frequency in MHz
    "G01": 1575.42, "G02": 1227.60, "G05": 1176.45, "R01": 1602.0, "R02": 1246.0, "R03": 1202.025, "R04": 1600.995, "R06": 1248.06,
    "E01": 1575.42, "E05": 1176.45, "E06": 1278.75, "E07": 1207.14, "E08": 1191.795,
    "C01": 1575.42, "C02": 1561.098, "C05": 1176.45, "C06": 1268.52, "C07": 1207.14, "C08": 1191.795,
    "J01": 1575.42, "J02": 1227.60, "J05": 1176.45, "J06": 1278.75, "S01": 1575.42, "S05": 1176.45, "I05": 1176.45, "I09": 2492.028,
}
HEAD = [line("ANTEX VERSION / SYST", "     1.4            M"), line("PCV TYPE / REFANT", "A"), line("END OF HEADER")]
METHODS = {"CHAMBER": "Chamber", "FIELD": "Field", "ROBOT": "Robot", "COPIED": "Copied", "CONVERTED": "Converted", "": "Unknown"}


def antenna(tag, kind="rx", typ=None, radome="    ", serial=None, sv="G01", svn="G032", cospar="1992-079A", meth_="CHAMBER", date="01-JAN-20", zen=None, freqs=("G01", "G02"), start=None, until=None, sinex=None, rms=False, pattern=True, comment=False):
    c = {}
    mk = lambda n, w, k: c.setdefault(n, cell("%s.%s" % (tag, n), w, k))
    ls = [line("START OF ANTENNA")]
    if kind == "rx":
        ls.append(line("TYPE / SERIAL NO", typ or mk("type", 16, "l"), radome, serial if serial is not None else mk("serial", 20, "l")))
    else:
        ls.append(line("TYPE / SERIAL NO", typ or mk("type", 16, "l"), "    ", sv.ljust(20), svn.ljust(10), cospar.ljust(10)))
    ls.append(line("METH / BY / # / DATE", meth_.ljust(20), mk("agency", 20, "l"), mk("number", 6, "r"), "    ", date))
    ls.append(line("DAZI", "  ", mk("dazi", 6, "r")))
    ls.append(line("ZEN1 / ZEN2 / DZEN", "  ", mk("zen1", 6, "f"), mk("zen2", 6, "f"), mk("dzen", 6, "f")))
    ls.append(line("# OF FREQUENCIES", "%6d" % len(freqs)))
    ep = lambda d: "%6d%6d%6d%6d%6d%13.7f" % d
    if start:
        ls.append(line("VALID FROM", ep(start)))
    if until:
        ls.append(line("VALID UNTIL", ep(until)))
    if sinex is not False:
        ls.append(line("SINEX CODE", mk("sinex", 10, "l")))
    if comment:
        ls.append(line("COMMENT", "CONVERTED FROM RELATIVE TO ABSOLUTE, VALID FOR ALL"))
    for f in freqs:
        ls.append(line("START OF FREQUENCY", "   ", f))
        ls.append(line("NORTH / EAST / UP", *[mk("%s.%s" % (f, x), 10, "f") for x in "neu"]))
        if comment:
            ls.append(line("COMMENT", "UP IS A MEAN VALUE"))
        if pattern:
            ls.append("   NOAZI" + "".join("%8.2f" % (k / 10.0) for k in range(19)))
            ls += ["%8.1f" % (5.0 * a) + "".join("%8.2f" % (k / 10.0) for k in range(19)) for a in range(2)]
        ls.append(line("END OF FREQUENCY", "   ", f))
        if rms:
            ls.append(line("START OF FREQ RMS", "   ", f))
            ls.append(line("NORTH / EAST / UP", "      0.40      0.50      0.60"))
            ls.append("   NOAZI" + "".join("%8.2f" % 0.1 for k in range(19)))
            ls.append(line("END OF FREQ RMS", "   ", f))
    ls.append(line("END OF ANTENNA"))
    return ls, c, dict(kind=kind, typ=typ, serial=serial, sv=sv, cospar=cospar, meth=meth_, freqs=freqs, start=start, until=until, radome=radome, sinex=sinex, date=date)


D1, D2, D3 = (1992, 11, 22, 0, 0, 0.0), (2008, 10, 16, 23, 59, 59.9999999), (2011, 7, 16, 12, 30, 15.5)


def scenarios():
    yield "one receiver antenna", [antenna("a")]
    yield "one satellite antenna", [antenna("a", "sv")]
    for sysm in "GRECJSI":
        yield "frequencies of system %s" % sysm, [antenna("a", freqs=[f for f in FREQ if f[0] == sysm])]
    yield "several systems", [antenna("a", freqs=("G02", "G05", "R01", "R02", "E06", "E08", "C02", "C06", "I09"))]
    yield "shared carriers", [antenna("a", freqs=("G01", "J01", "S01"))]
    yield "two satellites", [antenna("a", "sv", sv="G01"), antenna("b", "sv", sv="R24", svn="R737", cospar="2010-041C", freqs=("R01", "R02"))]
    yield "satellites then receivers", [antenna("a", "sv", sv="E11", svn="E101", cospar="2011-060A", freqs=("E01", "E05")), antenna("b", freqs=("G01",)), antenna("c", freqs=("G02", "R02"))]
    yield "validity period", [antenna("a", "sv", start=D1, until=D2), antenna("b", "sv", sv="G02", start=D3, until=(2030, 1, 1, 0, 0, 0.0))]
    yield "validity start", [antenna("a", "sv", start=D3)]
    yield "validity end", [antenna("a", "sv", until=D3)]
    yield "number reused", [antenna("a", "sv", start=D1, until=D2), antenna("b", "sv", start=(2009, 3, 24, 0, 0, 0.0), until=(2011, 5, 6, 23, 59, 59.0))]
    yield "no serial number", [antenna("a", serial=" " * 20), antenna("b", serial=" " * 20)]
    yield "radome", [antenna("a", radome="SCIS")]
    yield "radome, no serial number", [antenna("a", radome="SCIS", serial=" " * 20)]
    yield "no radome", [antenna("a", radome="NONE")]
    yield "no radome, no serial number", [antenna("a", radome="NONE", serial=" " * 20)]
    for m in METHODS:
        yield "method %s" % (m or "not given"), [antenna("a", meth_=m)]
    yield "root mean squares", [antenna("a", rms=True), antenna("b", rms=True)]
    yield "comments", [antenna("a", comment=True)]
    yield "no pattern", [antenna("a", pattern=False)]
    yield "no SINEX code", [antenna("a", sinex=False), antenna("b"), antenna("c", sinex=False)]
    yield "calibrated on another day", [antenna("a", date="17-FEB-15")]
    for m in MONTHS:
        yield "calibrated in " + m, [antenna("a", date="12-%s-10" % m), antenna("b", date="10-%s-12" % m.title())]
    yield "calibrated before 2000", [antenna("a", date="23-NOV-98")]
    yield "calibrated at the end of a month", [antenna("a", date="31-OCT-06")]


    for mode in MODES:
        def f(nm, w, k):
            n = nm.split(".")[-1]
            if k == "l" or n == "dazi":
                return None
            if n == "number":
                return "%6d" % {"zero": 1, "negative": 300, "long": 65000}[mode]
            if n.startswith("zen") or n == "dzen":
                return "%6.1f" % ({"zen1": 0, "zen2": 90, "dzen": 5} if mode == "zero" else {"zen1": 10, "zen2": 85.5, "dzen": 0.5})[n]
            return number(mode, nm, w, 2)

        with literal(f):
            xs = [("%s numbers, receivers" % mode, [antenna("a"), antenna("b", freqs=("G01", "E05"))]), ("%s numbers, satellite" % mode, [antenna("a", "sv")])]
        yield from xs


MONTHS = "JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC".split()


def when(d):
    s, ns = int(d[5]), int(round((d[5] - int(d[5])) * 1e9))
    return (*d[:5], s, ns, "UTC")


def is_date(v, want):
    """None: not known"""
    if v is None or not dates.is_epoch(v):
        return None
    return tuple(v.meta[:7]) == tuple(want[:7]) and v.meta[7] == want[7]


def run(ctx):
    P, q, R = ctx.P, ctx.q, ctx.r
    where = meth(P, "Rinex", "parse").span
    fr = meth(P, "Carrier", "frequency_mhz") or meth(P, "Carrier", "frequency")
    R.floor("carrier frequency", fr is not None, 1)
    n = 0
    kept = {}
    for name, ants in scenarios():
        v = parse_file(P, q, HEAD, [l for a in ants for l in a[0]])
        if v is not None and not ok_of(v) and errs_of(v) and v.k == "agg":
            R.fail("file:" + name, "a well formed ANTEX file (%s) is refused: %s" % (name, show(errs_of(v)[0])[:100]), where)
            continue
        full = ok_of(v)
        r = get(full, ("record",)) if full is not None else None
        r = r.a[4][0] if r is not None and r.k == "agg" and r.a[4] else None
        if r is None or not (is_vec(r) or is_lit(r)):
            R.unknown("file:" + name, show(r)[:200] if r is not None else "no result")
            continue
        n += 1
        kept[name] = full, ants
        xs = list(r.a[4])
        old = [a for a in ants if int(a[2]["date"][-2:]) > 31]
        if len(xs) < len(ants):
            R.fail("lost:" + ("calibrated before 2000" if old else name), "%d of the %d antennas of a file are read (%s)" % (len(xs), len(ants), name), where)
            continue
        R.check(len(xs) == len(ants), "lost:" + name, "%d antennas come out of a file of %d (%s)" % (len(xs), len(ants), name), where)
        for i, (e, (ls, c, d)) in enumerate(zip(xs, ants)):
            g = "%s:%d" % (name, i)
            a, fm = get(e, (0,)), get(e, (1,))
            sp = get(a, ("specific",))
            what = "the antenna (%s)" % name
            if sp is not None and sp.k == "agg" and sp.a[0].endswith("AntennaSpecific") and sp.a[4]:
                R.check(("Sv" in sp.a[1]) == (d["kind"] == "sv"), "kind:" + g, "a %s antenna is read as %s" % (d["kind"], sp.a[1]), where)
                ty = get(sp, (0, "igs_type"))
                if ty is not None and d["typ"] is None:
                    cs = cells(ty)
                    ok = set(cs) == {c["type"].meta[0]} and cs[c["type"].meta[0]] == whole(c["type"])
                    R.check(ok or d["radome"].strip(), "type:" + g, "the type of the antenna (%s) becomes %s" % (name, show(ty)[:80]), where)
                if d["kind"] == "sv":
                    run_(R, g, what, where, sp, [("spacecraft", (0, "sv"), Kt(lambda x: sv_is(x, d["sv"]), d["sv"])), ("COSPAR", (0, "cospar"), Kt(lambda x: d["cospar"][5:8].lstrip("0") in show(x) and d["cospar"][:4] in show(x), d["cospar"]))])
                else:
                    s = get(sp, (0, "serial_number"))
                    if s is not None:
                        x = unopt(s)
                        none = x.k == "agg" and x.a[1] == "None"
                        if d["serial"] is not None:
                            key, ok = "serial", none
                        else:
                            key, ok = "serial", not none and set(cells(x)) == {c["serial"].meta[0]} and cells(x)[c["serial"].meta[0]] == whole(c["serial"]) and not any(is_c(m, "str") and d["radome"].strip() and d["radome"] in cval(m) for m in walk(x))
                        R.check(ok, "%s:%s" % (key, name), "the serial number of an antenna (%s) becomes %s" % (name, show(x)[:80]), where)
            else:
                R.unknown("kind:" + g, show(sp)[:100] if sp is not None else "nothing")
            exps = [
                ("agency", ("calibration", "agency"), T(c["agency"])),
                ("number of antennas calibrated", ("calibration", "number"), N(c["number"])),
                ("first zenith angle", ("zenith_grid", "start"), N(c["zen1"])),
                ("last zenith angle", ("zenith_grid", "end"), N(c["zen2"])),
                ("zenith increment", ("zenith_grid", "spacing"), N(c["dzen"])),
                ("calibration method", ("calibration", "method"), Kt(lambda x: vname(x) == METHODS[d["meth"]], METHODS[d["meth"]])),
            ]
            if d["sinex"] is not False:
                exps.append(("SINEX code", ("sinex_code",), T(c["sinex"])))
            run_(R, g, what, where, a, exps)
            if d["sinex"] is False:
                x = get(a, ("sinex_code",))
                R.check(x is None or not cells(x), "SINEX code:" + g, "an antenna without SINEX code gets the one of another", where)
            az = get(a, ("azi_inc",))
            if az is not None:
                R.check(c["dazi"].meta[0] in cells(az) or not is_c(az), "azimuth increment", "the azimuth increment of an antenna is always %s" % show(az), where)
            dd, mm, yy = d["date"].split("-")
            want = (1900 + int(yy) if int(yy) >= 80 else 2000 + int(yy), MONTHS.index(mm.upper()) + 1, int(dd), 0, 0, 0, 0, "UTC")
            ce = get(a, ("calibration", "date"))
            ok = is_date(ce, want)
            if ok is not None:
                R.check(ce.meta[1] == want[1], "month of calibration:" + mm, "a calibration of %s is dated %s" % (d["date"], dates.iso(ce.meta)), where)
                R.check(ok, "date of calibration", "a calibration of %s is dated %s" % (d["date"], dates.iso(ce.meta)), where)
            else:
                R.unknown("date of calibration:" + g, show(ce)[:80] if ce is not None else "nothing")
            vp = get(a, ("calibration", "validity_period"))
            u = unopt(vp) if vp is not None else None
            if u is None:
                R.unknown("validity:" + g, "nothing")
            elif not d["start"] and not d["until"]:
                R.check(u.k == "agg" and u.a[1] == "None", "validity:" + g, "an antenna without validity period gets one", where)
            else:
                none = u.k == "agg" and u.a[1] == "None"
                R.check(not none, "validity:" + g, "the validity period of an antenna is dropped (%s)" % name, where)
                for j, k in enumerate(("start", "until")):
                    x = get(u, (j,)) if not none else None
                    if d[k] and x is not None:
                        ok = is_date(x, when(d[k]))
                        if ok is None:
                            R.unknown("validity %s:%s" % (k, g), show(x)[:80])
                        else:
                            R.check(ok, "validity %s:%s" % (k, g), "%s of the validity period becomes %s instead of %s (%s)" % (k, dates.iso(x.meta), dates.iso(when(d[k])), name), where)
            es = entries(fm)
            if es is None:
                R.unknown("frequencies:" + g, show(fm)[:200])
                continue
            R.check(len(es) == len(d["freqs"]), "frequencies:" + (name if name == "shared carriers" else g), "an antenna of %d frequencies comes out with %d (%s)" % (len(d["freqs"]), len(es), name), where)
            for f in d["freqs"]:
                if sum(abs(FREQ[x] - FREQ[f]) < 1e-3 for x in d["freqs"]) > 1:
                    continue
                key = None
                for k, t in es:
                    fz = q.call(fr, k) if fr is not None else None
                    if fz is not None and fz.k == "c" and (abs(cval(fz) - FREQ[f]) < 1e-3 or abs(cval(fz) / 1e6 - FREQ[f]) < 1e-3):
                        key = t
                if not R.check(key is not None, "frequency:%s:%s" % (g, f), "the frequency %s of an antenna is not found at %s MHz (%s)" % (f, FREQ[f], name), where):
                    continue
                run_(R, "%s:%s" % (g, f), "frequency %s (%s)" % (f, name), where, key, [("%s eccentricity" % x, ("apc_eccentricity", j), N(c["%s.%s" % (f, y)])) for j, (x, y) in enumerate((("north", "n"), ("east", "e"), ("up", "u")))])
    R.floor("ANTEX files", n, 16)
    lookups(P, q, R, kept)


CON = {"G": "GPS", "R": "Glonass", "E": "Galileo", "C": "BeiDou", "J": "QZSS", "S": "SBAS", "I": "IRNSS"}


def sv_is(x, s):
    t = show(x)
    con = CON[s[0]]
    p = get(x, ("prn",))
    return con in t and p is not None and is_c(p) and cval(p) == int(s[1:])


def run_(R, g, what, where, v, exps):
    for lab, path, e in exps:
        x = get(v, path)
        k = "%s:%s" % (lab, g)
        if x is None:
            R.unknown(k, "no such field")
            continue
        if isinstance(e, Kt):
            if vague(x):
                R.unknown(k, show(x)[:100])
            else:
                R.check(e.ok(x), k, "%s of %s becomes %s instead of %s" % (lab, what, show(x)[:60], e.what), where)
            continue
        r_, msg = judge(x, e)
        if r_ == "ok":
            R.ok(k, show(x)[:120])
        elif r_ == "bad":
            R.fail(k, "%s of %s %s" % (lab, what, msg), where)
        else:
            R.unknown(k, msg)


def lookups(P, q, R, kept):
    f = meth(P, "Rinex", "sv_antenna_apc_offset")
    g = meth(P, "Rinex", "rx_antenna_apc_offset")
    R.floor("antenna lookups", (f is not None) + (g is not None), 2)
    if f is None or g is None:
        return
    full_name = lambda n: next((k for k in P.adts if k.split("::")[-1] == n), None)
    svp = lambda s: struct(P, full_name("SV"), prn=I(int(s[1:])), constellation=variant(P, full_name("Constellation"), CON[s[0]]))
    L = lambda f_: variant(P, full_name("Carrier"), f_)

    def want(v, c, fcode, key, msg):
        """c: cells of the antenna expected, None: nothing is expected"""
        if v is None or vague(v):
            R.unknown(key, show(v)[:160] if v is not None else "nothing")
            return
        u = unopt(v)
        none = u.k == "agg" and u.a[1] == "None"
        if c is None:
            R.check(none, key, "%s: the offsets of an antenna which is not meant are returned" % msg, f.span)
            return
        if not R.check(not none, key, "%s: nothing is returned" % msg, f.span):
            return
        for j, y in enumerate("neu"):
            x = get(u, (j,))
            r_, m = judge(x, N(c["%s.%s" % (fcode, y)])) if x is not None else ("unk", "nothing")
            if r_ == "bad":
                R.fail("%s:%s" % (key, y), "%s: %s" % (msg, m), f.span)
            elif r_ == "ok":
                R.ok("%s:%s" % (key, y), show(x)[:100])
            else:
                R.unknown("%s:%s" % (key, y), m)

    at = lambda *d: dates.epoch(*d, 0, 0, 0, 0, "UTC")
    n = 0
    for name, qs in (
        ("two satellites", [("G01", "L1", "G01", at(2015, 1, 1), 0), ("G01", "L2", "G02", at(2015, 1, 1), 0), ("R24", "L1", None, at(2015, 1, 1), None), ("G24", "L1", None, at(2015, 1, 1), None), ("R01", "L1", None, at(2015, 1, 1), None)]),
        ("satellites then receivers", [("E11", "E1", "E01", at(2015, 1, 1), 0), ("E11", "L1", None, at(2015, 1, 1), None), ("E12", "E1", None, at(2015, 1, 1), None)]),
        ("number reused", [("G01", "L1", "G01", at(2000, 1, 1), 0), ("G01", "L2", "G02", at(2010, 1, 1), 1), ("G01", "L1", None, at(2008, 12, 25), None), ("G01", "L1", None, at(1990, 1, 1), None), ("G01", "L1", None, at(2020, 1, 1), None)]),
        ("validity start", [("G01", "L1", "G01", at(2020, 1, 1), 0), ("G01", "L1", None, at(2000, 1, 1), None)]),
        ("validity end", [("G01", "L1", "G01", at(2000, 1, 1), 0), ("G01", "L1", None, at(2020, 1, 1), None)]),
    ):
        if name not in kept:
            continue
        full, ants = kept[name]
        for s, carrier, code, t, i in qs:
            sv = svp(s)
            if sv is None or L(carrier) is None:
                R.unknown("lookup:%s:%s" % (name, s), "argument")
                continue
            n += 1
            x = q.call(f, full, t, sv, L(carrier), partition=True)
            want(x, ants[i][1] if i is not None else None, code, "lookup:%s:%s:%s:%s" % (name, s, carrier, dates.iso(t.meta)), "%s %s at %s (%s)" % (s, carrier, dates.iso(t.meta), name))
    # receivers
    recs = [antenna("a", typ="TRM59800.00     ", serial="".ljust(20)), antenna("b", typ="LEIAR25.R4      ", serial="725072".ljust(20)), antenna("c", "sv", typ="BLOCK IIA       ")]
    full = ok_of(parse_file(P, q, HEAD, [l for a in recs for l in a[0]]))
    for m, s, i in (("IGSCode", "TRM59800.00", 0), ("IGSCode", "trm59800.00", 0), ("IGSCode", "LEIAR25.R4", 1), ("IGSCode", "LEIAR25", None), ("SerialNumber", "725072", 1), ("SerialNumber", "72507", None), ("IGSCode", "BLOCK IIA", None), ("SerialNumber", "LEIAR25.R4", None), ("IGSCode", "725072", None)):
        mt = variant(P, full_name("AntennaMatcher"), m, S(s))
        if full is None or mt is None:
            R.unknown("lookup:%s %s" % (m, s), "argument")
            continue
        n += 1
        x = q.call(g, full, at(2020, 1, 1), mt, L("L1"), partition=True)
        want(x, recs[i][1] if i is not None else None, "G01", "lookup:%s %s" % (m, s), "receiver antenna %s %s" % (m, s))
    R.floor("lookups", n, 15)

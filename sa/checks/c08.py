"""C08: navigation records: every field of a message is taken from its own columns, and lands under its own name."""
from files import *
from templ import run as judge_all
import dates

RULE = (
    "the file reader is abstractly executed on navigation files whose fields hold unknown numbers in the columns of the format; each message must appear once, under its satellite, message "
    "type and date, and each of its fields must come from the columns where the standard puts that field"
)
KEP = "{0} crs deltaN m0|cuc e cus sqrta|toe cic omega0 cis|i0 crc omega omegaDot|"
LNAV = KEP.format("iode") + "idot l2Codes week l2pDataFlag|svAccuracy health tgd iodc|t_tm fitInt - -"
GLO = "satPosX velX accelX health|satPosY velY accelY channel|satPosZ velZ accelZ ageOp"
SBAS = "satPosX velX accelX health|satPosY velY accelY accuracyCode|satPosZ velZ accelZ iodn"
GAL = KEP.format("iodnav") + "idot dataSrc week -|sisa health bgdE5aE1 bgdE5bE1|t_tm - - -"
FNAV = GAL.replace("bgdE5bE1", "-")
BDS = KEP.format("aode") + "idot - week -|svAccuracy satH1 tgd1b1b3 tgd2b2b3|t_tm aodc - -"
D1 = BDS.replace("tgd1b1b3", "tgdb1b3").replace("tgd2b2b3", "tgdb2b3")
CNAV = "adot crs deltaN0 m0|cuc e cus sqrta|t_op cic omega0 cis|i0 crc omega omegaDot|idot deltaN0Dot uraiNed0 uraiNed1|uraiEd svHealth tgd uraiNed2|iscL1Ca iscL2C iscL5I5 iscL5Q5|"
CNV2 = CNAV + "iscL1Cd iscL1Cp - -|t_tm wn_op - -"
CNAV += "t_tm wn_op - -"
BCN = "adot crs deltaN0 m0|cuc e cus sqrta|toe cic omega0 cis|i0 crc omega omegaDot|idot deltaN0Dot satType t_op|sisa1_oe sisa1_ocb sisa1_oc1 sisa1_oc2|"
BCN1 = BCN + "iscB1Cd - tgdB1Cp tgdB2ap|sismai health integrityB1C iodc|t_tm - - iode"
BCN2 = BCN + "- iscB2ad tgdB1Cp tgdB2ap|sismai health integrityB2aB1C iodc|t_tm - - iode"
BCN3 = BCN + "sismai health integrityB2b tgdB2bI|t_tm - - -"
TS = {"G": "GPST", "J": "QZSST", "E": "GST", "C": "BDT", "R": "UTC", "S": "GPST"}
SYS = {"G": "GPS", "J": "QZSS", "E": "Galileo", "C": "BeiDou", "R": "Glonass"}
SV_ = "gnss::sv::SV"
CON = "gnss::constellation::Constellation"
# (versions, satellite, message type, fields)
EPH = [
    ("1.0 2.0 2.10 2.11", "G07", None, LNAV),
    ("2.0 2.10 2.11", "R07", None, GLO),
    ("3.0 3.02 3.03 3.04 3.05", "G07", None, LNAV),
    ("3.0 3.04 3.05", "R21", None, GLO),
    ("3.0 3.04 3.05", "E11", None, GAL),
    ("3.02 3.04 3.05", "J02", None, LNAV),
    ("3.02 3.04 3.05", "C30", None, BDS),
    ("3.0 3.04 3.05", "S23", None, SBAS),
    ("4.0", "G07", "LNAV", LNAV),
    ("4.0", "G07", "CNAV", CNAV),
    ("4.0", "G07", "CNV2", CNV2),
    ("4.0", "J02", "LNAV", LNAV),
    ("4.0", "J02", "CNAV", CNAV),
    ("4.0", "J02", "CNV2", CNV2),
    ("4.0", "R21", "FDMA", GLO + "|status L1L2GrpDelay urai almanacHealth"),
    ("4.0", "E11", "INAV", GAL),
    ("4.0", "E11", "FNAV", FNAV),
    ("4.0", "C30", "D1", D1),
    ("4.0", "C03", "D2", D1),
    ("4.0", "C30", "CNV1", BCN1),
    ("4.0", "C30", "CNV2", BCN2),
    ("4.0", "C30", "CNV3", BCN3),
    ("4.0", "S23", "SBAS", SBAS),
]
CLASS = ("health", "almanacHealth", "status", "satH1", "svHealth")  # decoded to an enumeration: only their presence is judged


def header(ver, sys=" "):
    if ver[0] in "12":
        body = "%9s           %s" % (ver, "GLONASS NAV DATA" if sys == "R" else "NAVIGATION DATA")
        if sys == "R":
            body = "%9s           G: GLONASS NAV DATA" % ver
        else:
            body = "%9s           N: GPS NAV DATA" % ver
    else:
        body = "%9s           N: GNSS NAV DATA    M: MIXED" % ver
    return [line("RINEX VERSION / TYPE", body), line("END OF HEADER")]


def date(ver, d):
    if ver[0] in "12":
        return "%02d %2d %2d %2d %2d%5.1f" % (d[0] % 100, d[1], d[2], d[3], d[4], d[5])
    return "%04d %02d %02d %02d %02d %02d" % d


def message(tag, ver, sv, msg, fields, d, style):
    """lines, {name: cell}: style is 'full', 'short' (nothing after the last field), 'blank' (blank spares), 'padded', 'zeros'"""
    old = ver[0] in "12"
    kind = "d" if old or style in ("short", "D") else "f"
    cs = {}

    def c(n):
        if n not in cs:
            cs[n] = cell("%s/%s" % (tag, n), 19, kind)
        return cs[n]

    out = []
    if msg:
        out.append("> EPH %s %s" % (sv, msg))
    head = ("%2d " % int(sv[1:]) if old else sv + " ") + date(ver, d)
    out.append(tmpl(head, c("clock bias"), c("clock drift"), c("clock drift rate")))
    ind = "   " if old else "    "
    for row in fields.split("|"):
        segs = []
        names = row.split()
        for i, n in enumerate(names):
            if n == "-":
                if style == "full" or style == "D":
                    segs.append(" 0.000000000000E+00")
                else:
                    segs.append(" " * 19)
            elif style == "zeros" and i % 2 == 0:
                segs.append(" 0.000000000000%s+00" % ("D" if old else "E"))
            else:
                segs.append(c(n))
        if style in ("short", "spared"):
            k = len(names)
            while k and names[k - 1] == "-":
                k -= 1
            if style == "spared" and k < 4 and k > 0:  # one blank spare is kept, the others are omitted
                k = min(k + 1, 3) if k < 3 else k
            segs = segs[:k]
        out.append(tmpl(ind, *segs) if segs else ind)
    if style == "padded":
        out = [tmpl(x, " ") for x in out]
    return out, cs


def files():
    for vers, sv, msg, fields in EPH:
        vs = vers.split()
        for i, ver in enumerate(vs):
            for styles in (["full", "short"], ["blank"], ["spared"], ["zeros"], ["padded"]) if i == len(vs) - 1 else (["short"],):
                if msg:  # one message per file
                    for st_ in styles:
                        yield ver, sv, msg, fields, [st_]
                else:
                    yield ver, sv, msg, fields, styles


def literals():
    for mode in ("negative", "long"):
        def f(nm, w, k):
            n = nm.split("/")[-1]
            if n in CLASS:
                return None
            if n in ("week", "channel"):
                x = {"week": 2200 if mode == "negative" else 70000, "channel": -7 if mode == "negative" else 13}[n]
                t = ("%.12E" % x).rjust(w)
            else:
                t = number(mode, nm, w, 12, True)
            return t.replace("E", "D") if k == "d" else t

        for fs in files():
            if fs[4] in (["full", "short"], ["spared"]) or len(fs[4]) == 1 and fs[4][0] in ("full", "short"):
                yield f, mode, fs
    for fs in files():
        yield None, None, fs


def names_of(c):
    return {c.meta[0]} if c.k == "e" else set()


def record_of(v):
    r = get(v, ("record",)) if v is not None else None
    if r is None or r.k != "agg" or not r.a[4]:
        return None
    return entries(r.a[4][0])


def sv_is(v, sv):
    d = dict(zip(v.a[3], v.a[4])) if v.k == "agg" and v.a[0] == SV_ else {}
    p, c = d.get("prn"), d.get("constellation")
    if p is None or c is None or not is_c(p, "int") or c.k != "agg":
        return None
    n = c.a[1]
    return cval(p) == int(sv[1:]) and (n == SYS.get(sv[0]) if sv[0] != "S" else n in models.SBASSYS)


def ephemerides(P, q, R):
    where = meth(P, "Rinex", "parse").span
    n = 0
    for lit, mode, (ver, sv, msg, fields, styles) in literals():
        lines, want = [], []
        for i, st_ in enumerate(styles):
            d = (2021, 3, 5 + i, 6 + i, 10 + i, 2 * i)
            with literal(lit):
                ls, cs = message("%s %s %s %s" % (sv[0], msg or "", ver, st_), ver, sv, msg, fields, d, st_)
            lines += ls
            want.append((st_, d, cs))
        v = ok_of(parse_file(P, q, header(ver, sv[0]), lines))
        tail = ", %s numbers" % mode if mode else ""
        g = "%s%s %s %s%s" % (sv[0], " " + msg if msg else "", ver, styles[0], tail)
        es = record_of(v)
        if es is None:
            R.unknown("file:" + g, show(v)[:200] if v is not None else "no result")
            continue
        n += 1
        seen = set()
        for st_, d, cs in want:
            k = "%s%s %s:%s%s" % (sv[0], " " + msg if msg else "", ver, st_, tail)
            hit = []
            vague_ = False
            for key, fr in es:
                e = get(key, ("epoch",))
                if e is None or not dates.is_epoch(e):
                    vague_ = True
                elif e.meta[1:7] == d[1:] + (0,) and e.meta[0] == d[0] or set(cells(fr)) & set().union(*map(names_of, cs.values())):
                    hit.append((key, fr))
            if not hit:
                (R.unknown if vague_ else lambda a, b: R.fail(a, b, where))("message:" + k, "a well formed %s message (RINEX %s, %s) does not appear in the record" % (SYS.get(sv[0], "SBAS") + (" " + msg if msg else ""), ver, STY[st_]))
                continue
            key, fr = hit[0]
            seen.add(show(key))
            e = get(key, ("epoch",))
            if dates.is_epoch(e):
                R.check(e.meta == d + (0, TS[sv[0]]), "date:" + k, "the date of a %s message is %s, %s %s is written" % (g, dates.iso(e.meta), "%04d-%02d-%02dT%02d:%02d:%02d" % d, TS[sv[0]]), where, dates.iso(e.meta))
            s = get(key, ("sv",))
            r = sv_is(s, sv) if s is not None else None
            if r is None:
                R.unknown("satellite:" + k, show(s))
            else:
                R.check(r, "satellite:" + k, "the satellite of a %s message is %s, %s is written" % (g, show(s), sv), where)
            m = get(key, ("msgtype",))
            if m is not None and m.k == "agg":
                R.check(m.a[1] == (msg or "LNAV"), "type:" + k, "a %s message is filed as %s" % (g, m.a[1]), where)
            m = get(key, ("frmtype",))
            if m is not None and m.k == "agg":
                R.check(m.a[1] == "Ephemeris" and (fr.k != "agg" or fr.a[1] == "EPH"), "frame:" + k, "an ephemeris is filed as %s" % m.a[1], where)
            eph = fr.a[4][0] if fr.k == "agg" and fr.a[1] == "EPH" else None
            if eph is None:
                R.unknown("fields:" + k, show(fr)[:200])
                continue
            exps = [("clock bias", ("clock_bias",), N(cs["clock bias"])), ("clock drift", ("clock_drift",), N(cs["clock drift"]))]
            if sv[0] != "S":
                exps.append(("clock drift rate", ("clock_drift_rate",), N(cs["clock drift rate"])))
            judge_all(R, "clock:" + k, where, eph, exps)
            orb = get(eph, ("orbits",))
            os_ = entries(orb) if orb is not None else None
            if os_ is None:
                R.unknown("fields:" + k, show(orb)[:200] if orb is not None else "none")
                continue
            od = {cval(a): b for a, b in os_ if is_str(a)}
            for nm in fields.replace("|", " ").split():
                if nm == "-":
                    continue
                x = od.get(nm)
                kk = "field:%s:%s" % (k, nm)
                if nm not in cs:  # zero is written
                    if x is None:
                        R.ok(kk)
                        continue
                    ci = {y for y in cells(x)}
                    R.check(not ci, kk, "%s of a %s message comes from the columns of %s" % (nm, g, ", ".join(sorted(ci))), where)
                    continue
                sure, x = lists.present(x) if x is not None else (False, None)
                if x is None or x is BOT:
                    R.fail(kk, "%s of a %s message (%s) is lost" % (nm, g, STY[st_]), where)
                    continue
                if nm in CLASS:
                    ci = {y for y in cells(x)} - names_of(cs[nm])
                    R.check(not ci, kk, "%s of a %s message comes from the columns of %s" % (nm, g, ", ".join(sorted(ci))), where)
                    continue
                r, msg_ = judge(item(x), N(cs[nm]))
                if r == "ok":
                    R.ok(kk, show(x)[:200])
                elif r == "bad":
                    R.fail(kk, "%s of a %s message (%s) %s" % (nm, g, STY[st_], msg_), where)
                else:
                    R.unknown(kk, msg_)
            spare = [a for a, b in od.items() if a.startswith("spare") or a == "-"]
            R.check(not spare, "spares:" + k, "spare columns of a %s message appear as fields (%s)" % (g, ", ".join(spare)), where)
        extra = [show(k_) for k_, _ in es if show(k_) not in seen]
        R.check(not extra, "exact:" + g, "a %s file yields messages that were not written: %s" % (g, "; ".join(extra)[:200]), where)
    R.floor("navigation files", n, len(list(files())) - 4)


STY = {"full": "every field written", "short": "trailing spares omitted", "blank": "blank spares", "spared": "last spare omitted, others blank", "zeros": "null fields", "padded": "trailing blanks"}


def item(x):
    """the number an orbit field holds"""
    ms = [m.a[4][0] if m.k == "agg" and m.a[0].endswith("OrbitItem") and m.a[4] else m for m in members(x)]
    return joinall(ms)


def models_(P, q, R):
    """ionosphere, system time and earth orientation frames of RINEX 4"""
    where = meth(P, "Rinex", "parse").span
    d = (2022, 6, 8, 9, 30, 12)
    D_ = date("4.0", d)

    def c(n, k="f"):
        return cell(n, 19, k)

    def f(i, *n):
        return tmpl("    " + (" " * 19 if not n or i is None else ""), *n)

    out = []
    for kind in ("f", "d"):
        for sv, msg in (("G07", "LNAV"), ("J02", "LNAV"), ("C30", "D1D2"), ("G07", "CNVX"), ("I03", "LNAV"), ("J02", "CNVX")):
            if sv[0] == "I":
                continue
            cs = [c("%s%s %s%d" % (sv, kind, msg, i), kind) for i in range(8)]
            ls = ["> ION %s %s" % (sv, msg), tmpl("    " + D_, *cs[:3]), tmpl("    ", *cs[3:7]), tmpl("    ", cs[7])]
            out.append(("klobuchar %s %s%s" % (sv[0], msg, " D" if kind == "d" else ""), sv, msg, "IonosphereModel", ls, ("ION", "Klobuchar"), [("alpha %d" % i, ("alpha", str(i)), N(cs[i])) for i in range(4)] + [("beta %d" % i, ("beta", str(i)), N(cs[4 + i])) for i in range(4)]))
        for msg in ("CNVX",):
            cs = [c("bd%s%d" % (kind, i), kind) for i in range(9)]
            ls = ["> ION C30 CNVX", tmpl("    " + D_, *cs[:3]), tmpl("    ", *cs[3:7]), tmpl("    ", *cs[7:])]
            out.append(("bdgim" + (" D" if kind == "d" else ""), "C30", msg, "IonosphereModel", ls, ("ION", "Bdgim"), [("alpha %d" % i, ("alpha", str(i)), N(cs[i])) for i in range(9)]))
        cs = [c("ng%s%d" % (kind, i), kind) for i in range(3)]
        ls = ["> ION E11 IFNV", tmpl("    " + D_, *cs[:3]), "     0.000000000000E+00"]
        out.append(("nequick g" + (" D" if kind == "d" else ""), "E11", "IFNV", "IonosphereModel", ls, ("ION", "NequickG"), [("a %d" % i, ("a", str(i)), N(cs[i])) for i in range(3)]))
        cs = [c("st%s%d" % (kind, i), kind) for i in range(4)]
        ls = ["> STO E11 IFNV", "    " + D_ + " GAUT                                  UTCGAL", tmpl("    ", *cs)]
        if kind == "f":
            out.append(("system time", "E11", "IFNV", "SystemTimeOffset", ls, ("STO", None), [("transmission time", ("t_tm",), N(cs[0]))] + [("a%d" % i, ("a", str(i)), N(cs[i + 1])) for i in range(3)] + [("system", ("system",), Kt(lambda v: is_str(v) and cval(v) == "GAUT", "GAUT")), ("utc", ("utc",), Kt(lambda v: is_str(v) and cval(v) == "UTCGAL", "UTCGAL"))]))
        cs = [c("eo%s%d" % (kind, i), kind) for i in range(10)]
        ls = ["> EOP G07 CNVX", tmpl("    " + D_, *cs[:3]), tmpl("    " + " " * 19, *cs[3:6]), tmpl("    ", *cs[6:10])]
        if kind == "f" or True:
            out.append(("earth orientation" + (" D" if kind == "d" else ""), "G07", "CNVX", "EarthOrientation", ls, ("EOP", None), [("x%d" % i, ("x", str(i)), N(cs[i])) for i in range(3)] + [("y%d" % i, ("y", str(i)), N(cs[3 + i])) for i in range(3)] + [("transmission time", ("t_tm",), N(cs[6]))] + [("delta ut1 %d" % i, ("delta_ut1", str(i)), N(cs[7 + i])) for i in range(3)]))
    # the region codes
    for code, want in ((0, "Worldwide"), (1, "Japan")):
        cs = [c("rg%d%d" % (code, i)) for i in range(8)]
        ls = ["> ION J02 LNAV", tmpl("    " + D_, *cs[:3]), tmpl("    ", *cs[3:7]), tmpl("    ", cs[7], "%19s" % ("%.12E" % code).replace("E+0", "E+0"))]
        out.append(("klobuchar region %d" % code, "J02", "LNAV", "IonosphereModel", ls, ("ION", "Klobuchar"), [("region", ("region",), Kt(lambda v, w=want: v.k == "agg" and v.a[1] == w, want))]))
    for bit in range(5):
        cs = [c("rn%d%d" % (bit, i)) for i in range(3)]
        ls = ["> ION E11 IFNV", tmpl("    " + D_, *cs), "    %19s" % ("%.12E" % (1 << bit))]
        out.append(("nequick g region %d" % bit, "E11", "IFNV", "IonosphereModel", ls, ("ION", "NequickG"), []))
    n = 0
    for name, sv, msg, cls, ls, (fr_, inner_), exps in out:
        filler, cs0 = message("after " + name, "4.0", "G01", "LNAV", LNAV, (2022, 6, 9, 0, 0, 0), "full")
        v = ok_of(parse_file(P, q, header("4.0"), ls + filler))
        es = record_of(v)
        if es is None:
            R.unknown("frame:" + name, show(v)[:200] if v is not None else "no result")
            continue
        hits = [(k, x) for k, x in es if (lambda e: e is not None and dates.is_epoch(e) and e.meta[:6] == d)(get(k, ("epoch",)))]
        if not hits:
            if any(get(k, ("epoch",)) is None or not dates.is_epoch(get(k, ("epoch",))) for k, _ in es):
                R.unknown("frame:" + name, show(es[0][0])[:200])
            else:
                R.fail("frame:" + name, "a well formed %s frame does not appear in the record" % name, where)
            continue
        n += 1
        key, x = hits[0]
        e = get(key, ("epoch",))
        R.check(e.meta == d + (0, TS[sv[0]]), "frame date:" + name, "the date of a %s frame is %s" % (name, dates.iso(e.meta)), where)
        m, t, s = get(key, ("msgtype",)), get(key, ("frmtype",)), get(key, ("sv",))
        if s is not None and sv_is(s, sv) is not None:
            R.check(sv_is(s, sv), "frame satellite:" + name, "the satellite of a %s frame is %s instead of %s" % (name, show(s), sv), where)
        if m is not None and m.k == "agg":
            R.check(m.a[1] == msg, "frame type:" + name, "a %s frame is filed as %s" % (name, m.a[1]), where)
        if t is not None and t.k == "agg":
            R.check(t.a[1] == cls, "frame class:" + name, "a %s frame is filed as %s" % (name, t.a[1]), where)
        if x.k != "agg" or x.a[1] != fr_:
            (R.fail if x.k == "agg" else R.unknown)("frame content:" + name, "holds %s" % show(x)[:160])
            continue
        y = x.a[4][0]
        if inner_:
            if y.k != "agg" or y.a[1] != inner_:
                (lambda a, b: R.fail(a, b, where) if y.k == "agg" else R.unknown(a, b))("frame content:" + name, "a %s frame holds %s" % (name, show(y)[:160]))
                continue
            y = y.a[4][0]
        if lists.present(y)[1] is not y:
            y = lists.present(y)[1]
        judge_all(R, "frame field:" + name, where, y, exps, " (%s)" % name)
        if name.startswith("nequick g region"):
            b = get(y, ("region",))
            bits = [v_ for v_ in walk(b) if is_c(v_, "int")] if b is not None else []
            if len(bits) == 1:
                R.check(cval(bits[0]) == 1 << int(name[-1]), "frame field:%s:region" % name, "region flags %d are read as %d" % (1 << int(name[-1]), cval(bits[0])), where)
            else:
                R.unknown("frame field:%s:region" % name, show(b)[:160] if b is not None else "none")
        R.check(any(set(cells(z)) & {c_.meta[0] for c_ in cs0.values()} for _, z in es), "frame next:" + name, "the message after a %s frame is lost" % name, where)
    R.floor("ionosphere, time and orientation frames", n, 18)


def single(P, q, R):
    """one orbit field, of every kind and constellation: its number, and no abort"""
    fn = meth(P, "OrbitItem", "new")
    if fn is None or fn.argc != 3 or not fn.locals[3][0].endswith("Constellation"):
        return
    n = 0
    for k in ("u8", "i8", "u32", "f64", "health", "gloStatus"):
        for c in ("GPS", "Glonass", "Galileo", "BeiDou", "QZSS", "IRNSS", "SBAS", "WAAS", "EGNOS"):
            x = cell("orbit field", 19, "f")
            v = q.call(fn, S(k), tmpl(x), variant(P, CON, c), partition=True)
            if v is None:
                continue
            n += 1
            R.check(v is not BOT, "single:%s of %s" % (k, c), "reading a field of kind %s of a %s message aborts" % (k, c), fn.span)
    R.floor("single orbit fields", n, 0)


def run(ctx):
    P, q, R = ctx.P, ctx.q, ctx.r
    ephemerides(P, q, R)
    single(P, q, R)
    models_(P, q, R)
    R.assume.append("numbers written in a column are well formed for their type; constellation and satellite names mean what the gnss crate says")

"""C07: observation records are read from the columns the format defines."""
from templ import *
from files import columns, draw
from lists import cw
import dates

RULE = (
    "the observation epoch parser is abstractly executed on records whose layout is that of the format (RINEX 1, 2 and 3; one or several lines per satellite, missing values, blank and "
    "trailing fields) and whose values are unknown: every value written must come out once, under its satellite and observable, taken from exactly its columns, with its own flags"
)
CONST = "gnss::constellation::Constellation"
OBSB = "observable::Observable"
SVT = "gnss::sv::SV"


def con(P, n):
    return variant(P, CONST, n)


def sv(P, c, prn):
    return struct(P, SVT, prn=I(prn), constellation=con(P, c))


LET = {"C": "PseudoRange", "P": "PseudoRange", "L": "PhaseRange", "D": "Doppler", "S": "SSI"}


def ob(P, code):
    return variant(P, OBSB, LET[code[0]], S(code))


def dflt(P, path, **kw):
    return struct(P, path, **kw)


def some(v):
    return agg(OPT, "Some", 1, ("0",), (v,))


NONE = agg(OPT, "None", 0, (), ())


def header(P, major, constellation, codes):
    ver = struct(P, "version::Version", major=I(major), minor=I(0))
    fl = P.adts["observation::header::HeaderFields"] if "observation::header::HeaderFields" in P.adts else None
    of = [p for p in P.adts if p.endswith("HeaderFields") and "observation" in p][0]
    hd = [p for p in P.adts if p.split("::")[-1] == "Header" and "header" in p][0]
    entries = [(con(P, c), arrv([ob(P, o) for o in os])) for c, os in codes]
    obs = struct(P, of, codes=lists.kvmap(entries))
    return struct(P, hd, version=ver, constellation=some(con(P, constellation)) if constellation else NONE, obs=some(obs))



def scan(P, q, fn, hd, content, ts="GPST"):
    I_ = q.interp(partition=True)
    obs = struct(P, "observation::Observations", clock=NONE, signals=arrv([]))
    r = I_.entry(fn, {1: hd, 2: content, 3: variant(P, "hifitime::TimeScale", ts), 4: obs})
    q.done(I_)
    return r


class Sat:
    """one satellite and its fields: (cell or None, lli text, snr text) in header order"""

    def __init__(self, name, c, prn, fields):
        self.name, self.c, self.prn, self.fields = name, c, prn, fields


N_ = [0]


def fields(spec, tag):
    """a compact notation: v value, V full width value, - blank, then optional lli and snr digits; e.g. 'v V15 - v_7'"""
    out = []
    for i, w in enumerate(spec.split()):
        if w[0] == "-":
            out.append((None, " ", " "))
            continue
        k = "f" if w[0] == "V" else "r"
        fl = (w[1:] + "__")[:2].replace("_", " ")
        out.append((cell("%s#%d" % (tag, i + 1), 14, k), fl[0], fl[1]))
    return out


def segs(fs, pad):
    """text of a run of fields; trailing blanks kept or removed"""
    out = []
    for c, l, s in fs:
        out += [c if c is not None else " " * 14, l + s]
    t = tmpl(*out)
    if not pad:
        if is_t(t):
            a = list(t.args)
            while a and is_c(a[-1]) and not cval(a[-1]).strip():
                a.pop()
            if a and is_c(a[-1]):
                a[-1] = S(cval(a[-1]).rstrip())
            t = tmpl(*a)
        else:
            t = S(cval(t).rstrip())
    return t


def v3(sats, pad=False, flag="0"):
    out = ["> 2021 01 01 00 00 30.0000000  %s%3d\n" % (flag, len(sats))]
    for s in sats:
        out += [s.name, segs(s.fields, pad), "\n"]
    return tmpl(*out)


def v2(sats, nobs, pad=False, flag="0", year="21", short=False):
    out = []
    for i in range(0, len(sats), 12):
        l = " " * 32
        if i == 0:
            l = " %s 01 01 00 00 30.0000000  %s%3d" % (year, flag, len(sats))
        out.append(l + "".join(s.name for s in sats[i : i + 12]) + "\n")
    for s in sats:
        fs = s.fields + ([] if short else [(None, " ", " ")] * (nobs - len(s.fields)))
        for i in range(0, max(1, len(fs)), 5):
            t = segs(fs[i : i + 5], pad)
            out += [t]
            if pad and not short:
                out.append(" " * (80 - 16 * len(fs[i : i + 5])))
            out.append("\n")
    return tmpl(*out)


def scenarios(P):
    out = []

    def sat(name, c, prn, spec, tag=None):
        return Sat(name, c, prn, fields(spec, tag or name.replace(" ", "_")))

    G4 = ["C1C", "L1C", "D1C", "S1C"]
    E3 = ["C1X", "L1X", "C8X"]
    # RINEX 3
    out.append(("3 one system", 3, "GPS", [("GPS", G4)], [sat("G01", "GPS", 1, "v v17 v v"), sat("G12", "GPS", 12, "V_8 V18 V V")], lambda s: v3(s)))
    out.append(("3 blank fields", 3, "GPS", [("GPS", G4)], [sat("G01", "GPS", 1, "- v16 - v"), sat("G32", "GPS", 32, "v_7"), sat("G05", "GPS", 5, "- -"), sat("G07", "GPS", 7, "v v2_ - v_3")], lambda s: v3(s)))
    out.append(("3 padded lines", 3, "GPS", [("GPS", G4)], [sat("G01", "GPS", 1, "v v16 - -"), sat("G32", "GPS", 32, "- - - v")], lambda s: v3(s, pad=True)))
    out.append(("3 mixed", 3, "Mixed", [("GPS", G4), ("Galileo", E3), ("Glonass", ["C1P", "L1P"]), ("SBAS", ["C1C", "L1C"]), ("BeiDou", ["C2I", "L2I", "S2I"])],
                [sat("R24", "Glonass", 24, "v_5 v14"), sat("G01", "GPS", 1, "v v17 v v"), sat("E36", "Galileo", 36, "v v38 v_6"), sat("C05", "BeiDou", 5, "v v_8 v")], lambda s: v3(s)))
    out.append(("3 undeclared system", 3, "Mixed", [("GPS", G4), ("Galileo", E3)],
                [sat("G01", "GPS", 1, "v v17 v v"), Sat("R24", None, 24, fields("v v17", "undeclared")), sat("E36", "Galileo", 36, "v v v_6")], lambda s: v3(s)))
    out.append(("3 many observables", 3, "Galileo", [("Galileo", "C1C L1C D1C S1C C5Q L5Q D5Q S5Q C7Q L7Q D7Q S7Q C8Q L8Q".split())],
                [sat("E01", "Galileo", 1, "v v17 v v " * 3 + "V V18"), sat("E02", "Galileo", 2, "- - - - v v26")], lambda s: v3(s)))
    out.append(("3 loss of lock and signal strength", 3, "GPS", [("GPS", ["L1C", "L2W", "L5Q"])], [sat("G%02d" % k, "GPS", k, "v%d%d v%d_ v_%d" % (k % 8, k, k % 8, k)) for k in range(1, 10)], lambda s: v3(s)))
    # RINEX 2
    L6 = ["L1", "L2", "C1", "P1", "D1", "S1"]
    L5 = L6[:5]
    out.append(("2 five observables", 2, "GPS", [("GPS", L5)], [sat("G01", "GPS", 1, "v17 v26 v v v"), sat("G12", "GPS", 12, "v_8 - v v v")], lambda s: v2(s, 5)))
    out.append(("2 six observables", 2, "GPS", [("GPS", L6)], [sat("G01", "GPS", 1, "v17 v26 v v v v"), sat("G12", "GPS", 12, "v_8 - v - - v"), sat("G 3", "GPS", 3, "- - - - V v")], lambda s: v2(s, 6)))
    out.append(("2 eleven observables", 2, "GPS", [("GPS", "C1 C2 C5 L1 L2 L5 P1 P2 S1 S2 S5".split())],
                [sat("G07", "GPS", 7, "v_6 v_6 - v03 v03 - v_3 v_3 v v v"), sat("G08", "GPS", 8, "v v v v08 v08 v08 v v_8 v v v")], lambda s: v2(s, 11)))
    out.append(("2 blank last line", 2, "GPS", [("GPS", L6)], [sat("G01", "GPS", 1, "v17 v26 v v v"), sat("G12", "GPS", 12, "v_8 v v - v v")], lambda s: v2(s, 6)))
    out.append(("2 no observation for a satellite", 2, "GPS", [("GPS", L6)], [sat("G01", "GPS", 1, "-"), sat("G12", "GPS", 12, "v_8 v v - v v")], lambda s: v2(s, 6)))
    out.append(("2 padded lines", 2, "GPS", [("GPS", L6[:4])], [sat("G01", "GPS", 1, "v17 v26 v v"), sat("G12", "GPS", 12, "v_8 - v -"), sat("G13", "GPS", 13, "- - - v")], lambda s: v2(s, 4, pad=True)))
    out.append(("2 padded lines, two lines each", 2, "GPS", [("GPS", L6)], [sat("G01", "GPS", 1, "v17 v26 v v v v"), sat("G12", "GPS", 12, "v_8 - v - - v")], lambda s: v2(s, 6, pad=True)))
    out.append(("2 trailing fields omitted", 2, "GPS", [("GPS", L6[:4])], [sat("G01", "GPS", 1, "v17 v26"), sat("G12", "GPS", 12, "v_8 v v v")], lambda s: v2(s, 4, short=True)))
    out.append(("2 mixed", 2, "Mixed", [("GPS", L5), ("Glonass", L5), ("Galileo", L5), ("SBAS", L5)],
                [sat("G01", "GPS", 1, "v17 v26 v v v"), sat("R 3", "Glonass", 3, "v_8 - v v v"), sat("E11", "Galileo", 11, "v v v v v"), sat("R24", "Glonass", 24, "v - - - v")], lambda s: v2(s, 5)))
    out.append(("2 blank system", 2, "GPS", [("GPS", L5)], [sat("  9", "GPS", 9, "v17 v26 v v v"), sat(" 12", "GPS", 12, "v_8 - v v v"), sat("  3", "GPS", 3, "v v v v v")], lambda s: v2(s, 5)))
    out.append(("2 fifteen satellites", 2, "Mixed", [("GPS", ["L1", "C1"]), ("Glonass", ["L1", "C1"])],
                [sat("G%2d" % k, "GPS", k, "v17 v") for k in range(1, 11)] + [sat("R%02d" % k, "Glonass", k, "v_5 v") for k in range(1, 6)], lambda s: v2(s, 2)))
    out.append(("2 thirteen satellites, blank system", 2, "GPS", [("GPS", ["L1", "C1"])], [sat(" %2d" % k, "GPS", k, "v17 v") for k in range(1, 14)], lambda s: v2(s, 2)))
    for k in (11, 12, 24, 25):
        out.append(("2 %d satellites" % k, 2, "GPS", [("GPS", ["L1", "C1"])], [sat("G%02d" % i, "GPS", i, "v17 v") for i in range(1, k + 1)], lambda s: v2(s, 2)))
    out.append(("2 two blank lines", 2, "GPS", [("GPS", "C1 C2 C5 L1 L2 L5 P1 P2 S1 S2 S5".split())],
                [sat("G07", "GPS", 7, "v v v v v"), sat("G08", "GPS", 8, "- - - - - - - - - - v"), sat("G09", "GPS", 9, "v v v v v v v v v v v")], lambda s: v2(s, 11)))
    out.append(("2 ten observables", 2, "GPS", [("GPS", "C1 C2 C5 L1 L2 L5 P1 P2 S1 S2".split())],
                [sat("G07", "GPS", 7, "v v v v v"), sat("G08", "GPS", 8, "- - - - - - - - - v"), sat("G09", "GPS", 9, "v v v v v v v v v v")], lambda s: v2(s, 10)))
    names = [x + b for b in "12578" for x in "LCPDS"]
    for k in (6, 10, 11, 13):
        for m in range(0, 5):
            for lead in (0, 1, m):
                row = lambda full: " ".join((["v"] * 5 if full else ["-"] * lead + ["v17"] * (m - lead) + ["-"] * (5 - max(m, lead))) + ["v"] * 5)
                specs = [" ".join((row(False).split()[:5] + row(True).split()[:5] * 2)[:k]), " ".join((row(True).split()[:5] + row(False).split()[:5] + ["v"] * 5)[:k])]
                if lead and lead >= m and lead != m:
                    continue
                out.append(("2 lines of %d fields from %d, %d observables" % (m, lead, k), 2, "GPS", [("GPS", names[:k])],
                            [sat("G%02d" % (i + 1), "GPS", i + 1, (x if not x.endswith("-") else x[:-1] + "v"), "w%d.%d.%d.%d" % (k, m, lead, i)) for i, x in enumerate(specs)] + [sat("G09", "GPS", 9, "v " * k, "w%d.%d.%d.9" % (k, m, lead))], lambda s, k=k: v2(s, k)))
    for k in range(1, 21):
        full = [sat("G03", "GPS", 3, "v " * k, "x%d" % k), sat("G14", "GPS", 14, "- " * (k - 1) + "v15", "y%d" % k), sat("G31", "GPS", 31, "v_9 " * k, "z%d" % k)]
        out.append(("2 each number of observables, %d" % k, 2, "GPS", [("GPS", names[:k])], full, lambda s, k=k: v2(s, k)))
        out.append(("3 each number of observables, %d" % k, 3, "GPS", [("GPS", [x + "C" for x in names[:k]])], full, lambda s: v3(s)))
    # RINEX 1
    out.append(("1", 1, "GPS", [("GPS", L5)], [sat("  9", "GPS", 9, "v17 v26 v v v"), sat(" 12", "GPS", 12, "v_8 - v v v"), sat(" 27", "GPS", 27, "v_8 - v v v")], lambda s: v2(s, 5, year="89")))
    for fl, nm in (("1", "after a power failure"), ("6", "cycle slips")):
        if fl == "1":
            out.append(("3 " + nm, 3, "GPS", [("GPS", G4)], [sat("G01", "GPS", 1, "v v17 v v")], lambda s, fl=fl: v3(s, flag=fl)))
            out.append(("2 " + nm, 2, "GPS", [("GPS", L5)], [sat("G01", "GPS", 1, "v v17 v v v")], lambda s, fl=fl: v2(s, 5, flag=fl)))
    return out


def literals(P):
    for mode in MODES:
        with literal(lambda nm, w, k: number(mode, nm, w, 3)):
            scs = scenarios(P)
        for sc in scs:
            if sc[0] in ("3 one system", "3 blank fields", "3 many observables", "2 six observables", "2 eleven observables", "2 blank last line", "1"):
                yield mode, sc
    for sc in scenarios(P):
        yield None, sc


def consts_in(v):
    return {cval(x) for x in walk(v) if is_c(x, "int")}


def find_parser(P):
    f = P.fn("observation::parsing::parse_epoch")
    if f is not None:
        return f
    c = [f for f in P.fns.values() if f.argc == 4 and "Header" in f.locals[1][0] and "str" in f.locals[2][0] and f.locals[3][0].endswith("TimeScale") and "Observations" in f.locals[4][0]]
    return c[0] if len(c) == 1 else None


def compare(R, q, name, fn, ob_codes, sats, got, snr):
    """each expected observation exactly once, and no other"""
    where = fn.span
    if not (got.k == "agg" and got.a[0] == "[]"):
        for s in sats:
            R.unknown("record:%s:%s" % (name, s.name.strip()), show(got)[:200])
        return
    items = list(got.a[4])
    used = set()
    for s in sats:
        key = "record:%s:%s" % (name, s.name.strip())
        if s.c is None:
            continue
        bad = unk = None
        for i, (c, l, sn) in enumerate(s.fields):
            code = ob_codes[s.c][i]
            hits = []
            for k, it in enumerate(items):
                o = get(it, ("observable",))
                p = get(it, ("sv", "prn"))
                cc = get(it, ("sv", "constellation"))
                if o is None or p is None or cc is None or not (o.k == "agg" and is_c(p) and cc.k == "agg"):
                    unk = show(it)[:200]
                    continue
                if cval(p) == s.prn and cc.a[1] == s.c and o.a[4] and is_str(o.a[4][0]) and cval(o.a[4][0]) == code:
                    hits.append(k)
            used |= set(hits)
            if c is None:
                for k in hits:
                    if cells(get(items[k], ("value",)) or TOP) or is_c(get(items[k], ("value",))):
                        bad = bad or "%s has a value, its field is blank" % code
                continue
            if not hits:
                bad = bad or "the %s value is lost" % code
                continue
            if len(hits) > 1:
                bad = bad or "%s comes out %d times" % (code, len(hits))
                continue
            it = items[hits[0]]
            r, msg = judge(get(it, ("value",)), N(c))
            if r == "bad":
                bad = bad or "the %s value %s" % (code, msg)
            elif r == "unk":
                unk = msg
            lv = get(it, ("lli",))
            if l == " ":
                r, msg = judge(lv, ABS)
                if r == "bad":
                    bad = bad or "loss of lock of %s %s" % (code, msg)
                elif r == "unk":
                    unk = msg
            elif lv is None or vague(lv) or lv.k == "j":
                unk = show(lv) if lv is not None else "no lli"
            elif lv.k == "agg" and lv.a[1] == "None":
                bad = bad or "the loss of lock digit of %s is lost" % code
            elif int(l) not in consts_in(lv):
                bad = bad or "loss of lock of %s is %s when %s is written" % (code, show(lv)[:80], l)
            sv_ = get(it, ("snr",))
            if sn == " ":
                r, msg = judge(sv_, ABS)
                if r == "bad":
                    bad = bad or "signal strength of %s %s" % (code, msg)
                elif r == "unk":
                    unk = msg
            elif sv_ is None or vague(sv_) or sv_.k == "j":
                unk = show(sv_) if sv_ is not None else "no snr"
            elif sv_.k == "agg" and sv_.a[1] == "None":
                bad = bad or "the signal strength digit of %s is lost" % code
            elif unopt(sv_) is not snr.get(sn, unopt(sv_)):
                bad = bad or "signal strength of %s is %s when %s is written" % (code, show(sv_)[:80], sn)
        if bad:
            R.fail(key, bad, where)
        elif unk:
            R.unknown(key, unk)
        else:
            R.ok(key, "%d fields" % len(s.fields))
    extra = [items[k] for k in range(len(items)) if k not in used]
    if not extra:
        R.ok("nothing else:%s" % name)
    elif any(vague(x) for x in extra):
        R.unknown("nothing else:%s" % name, show(extra[0])[:200])
    else:
        R.fail("nothing else:%s" % name, "an observation nobody wrote comes out: %s" % show(extra[0])[:300], where)


def run(c):
    P, q, R = c.P, c.q, c.r
    fn = find_parser(P)
    if fn is None:
        R.unknown("parser", "no observation epoch parser")
        return
    snr = {}
    snrt = [t for t in P.adts if t.split("::")[-1] == "SNR"]
    for d in "123456789":
        v = unopt(q.parse(snrt[0], d)) if snrt else None
        if v is not None and v.k == "agg" and v.a[0] == snrt[0]:
            snr[d] = v
    n = 0
    for mode, (name, major, cons, codes, sats, mk) in literals(P):
        name += ", %s numbers" % mode if mode else ""
        hd = header(P, major, cons, codes)
        ret, outp = scan(P, q, fn, hd, mk(sats))
        r = ret
        if r is not None and r.k == "agg" and r.a[1] == "Err":
            R.fail("accepted:" + name, "a well formed epoch (%s) is refused" % name, fn.span)
            continue
        if r is not None and r.k == "agg" and r.a[1] == "Ok":
            R.ok("accepted:" + name, show(r)[:200])
        else:
            R.unknown("accepted:" + name, show(r)[:200])
        got = get(outp.get(fn.locals[4][1] or "a4", TOP), ("signals",))
        compare(R, q, name, fn, dict(codes), sats, got if got is not None else TOP, snr)
        n += 1
    R.floor("observation scenarios", n, 15)
    R.count("written scenarios", written(P, q, R, fn, snr))
    special(P, q, R)


# ------------------------------------------------------------------ writing, then reading what was written
def signal(P, s, code, val, l, sn, lli, snr):
    return struct(P, "observation::signal::SignalObservation", sv=sv(P, s.c, s.prn), value=val, observable=ob(P, code),
                  lli=some(lli(l)) if l != " " else NONE, snr=some(snr[sn]) if sn != " " else NONE)


def lli_value(P):
    t = [x for x in P.adts if x.split("::")[-1] == "LliFlags"][0]
    i = [x for x in P.adts if x.split("::")[-1] == "InternalBitFlags" and "lli" in x][0]
    return lambda l: agg(t, "", 0, ("0",), (agg(i, "", 0, ("0",), (I(int(l)),)),))


def split_lines(t):
    out = [[]]
    for x in t.args if is_t(t) else (t,):
        if not is_str(x):
            out[-1].append(x)
            continue
        for i, y in enumerate(cval(x).split("\n")):
            if i:
                out.append([])
            out[-1].append(y)
    return [tmpl(*l) for l in out]


def laid_out(R, name, where, major, sats, expected, got, reg):
    """every line of a satellite holds the expected values, digits and blanks in the columns of the format"""
    sats = [s for s in sats]
    skip = lambda ls: ls[1:] if major > 2 else ls[(len(sats) + 11) // 12:]
    key = lambda c: tuple(str(x) for x in c)
    norm = lambda c: c if major < 3 or len(c) > 1 and c[1] != " " else (c[0], "0") + c[2:]
    a = sorted((norm(c) for c in (columns(l) for l in skip(split_lines(expected))) if len(c) > (3 if major > 2 else 0)), key=key)
    b = sorted((norm(c) for c in (columns(l, reg) for l in skip(split_lines(got))) if c), key=key)
    lost = [x for x in a if a.count(x) > b.count(x)]
    more = [x for x in b if b.count(x) > a.count(x)]
    R.check(not lost and not more, "layout:" + name, "the line %r is written as %r (observations, %s)" % (draw(lost[0]) if lost else "", draw(more[0]) if more else "", name), where)


def written(P, q, R, fn, snr):
    """every epoch the writer produces is read back by the parser as it was"""
    w = meth(P, "Observations", "format")
    ws = [w] if w is not None else []
    ws = [f for f in P.fns.values() if f.path.endswith("::format") and f.argc == 5 and "observation::Observations" in f.locals[1][0]] or ws
    if not ws:
        R.unknown("written", "no observation writer")
        return 0
    w = ws[0]
    lli = lli_value(P)
    n = 0
    for mode, (name, major, cons, codes, sats, mk) in literals(P):
        if major == 1 or "omitted" in name or "padded" in name or "undeclared" in name or any(s.name[1:2] == " " or s.name[0] == " " for s in sats):
            continue
        name = "written " + name + (", %s numbers" % mode if mode else "")
        hd = header(P, major, cons, codes)
        oh = unopt(get(hd, ("obs",)))
        codesd = dict(codes)
        sigs, names = [], {}
        for s in sats:
            for i, (c, l, sn) in enumerate(s.fields):
                if c is None:
                    continue
                if mode:
                    v = C("f64", float(cval(c)))
                else:
                    v = E("arg", "%s %s" % (s.name, codesd[s.c][i]))
                    names[v] = c.meta[0]
                sigs.append(signal(P, s, codesd[s.c][i], v, l, sn, lli, snr))
        for order in (0, 1):
            nm = name + (", in another order" if order else "")
            obs = struct(P, "observation::Observations", clock=NONE, signals=arrv(sigs[::-1] if order else sigs))
            key = struct(P, "observation::ObsKey", epoch=dates.epoch(2021, 1, 2, 3, 4, 5, 678900000, "GPST"), flag=variant(P, "observation::flag::EpochFlag", "Ok"))
            I_ = q.interp(partition=True, hooks=hooks_of(writer_hook))
            ret, outp = I_.entry(w, {1: obs, 2: B(major < 3), 3: key, 4: oh, 5: S("")})
            q.done(I_)
            text = outp.get(w.locals[5][1] or "a5", TOP)
            reg = {}
            t = as_tmpl(text, reg, names) if text.k == "e" or is_c(text, "str") else None
            if t is None or not (is_t(t) or mode and is_str(t)):
                R.unknown("written:" + nm, show(text)[:200])
                continue
            laid_out(R, nm, w.span, major, sats, mk(sats), t, {k: (E("num", None, cell(names[x[0]], 14)) if x[0] in names else x[0], x[1]) for k, x in reg.items()})
            # what is expected back: the same satellites, their values in the columns the writer chose
            bycell = {}
            for k, (term, spec) in reg.items():
                bycell[names.get(term)] = [x for x in (t.args if is_t(t) else ()) if x.k == "e" and x.meta[0] == k][0]
            back = []
            lost = None
            for s in sats:
                fs = []
                for i, (c, l, sn) in enumerate(s.fields):
                    if c is None:
                        fs.append((None, " ", " "))
                    elif mode:
                        fs.append((c, l, sn))
                    elif c.meta[0] not in bycell:
                        lost = lost or "the %s value of %s is not written" % (codesd[s.c][i], s.name)
                        fs.append((None, " ", " "))
                    else:
                        fs.append((bycell[c.meta[0]], l, sn))
                back.append(Sat(s.name, s.c, s.prn, fs))
            if lost:
                R.fail("written:" + nm, lost, w.span)
                continue
            ret, outp = scan(P, q, fn, hd, t)
            if ret is not None and ret.k == "agg" and ret.a[1] == "Err":
                R.fail("written:" + nm, "what is written is refused when read back: %s" % show(t)[:300], w.span)
                continue
            R.ok("written:" + nm, show(t)[:200])
            e = get(ret, ("epoch",)) if ret is not None else TOP
            ep = get(key, ("epoch",))
            if e is ep:
                R.ok("written epoch:" + nm)
            elif e is not None and e.k == "e" and e.op == "epoch":
                R.fail("written epoch:" + nm, "%s is read back as %s" % (dates.iso(ep.meta), dates.iso(e.meta)), w.span)
            else:
                R.unknown("written epoch:" + nm, show(e)[:200] if e is not None else "none")
            fl = get(ret, ("flag",)) if ret is not None else None
            if fl is not None and fl.k == "agg" and fl.a[1] != "Ok":
                R.fail("written flag:" + nm, "flag Ok is read back as %s" % fl.a[1], w.span)
            got = get(outp.get(fn.locals[4][1] or "a4", TOP), ("signals",))
            compare(R, q, nm, w, codesd, back, got if got is not None else TOP, snr)
            n += 1
    return n


def writer(P):
    ws = [f for f in P.fns.values() if f.path.endswith("::format") and f.argc == 5 and "observation::Observations" in f.locals[1][0]]
    return ws[0] if ws else None


def special(P, q, R):
    """epochs without observation, and the receiver clock offset"""
    w = writer(P)
    if w is None:
        return
    off = E("arg", "offset")
    ck = [t for t in P.adts if t.split("::")[-1] == "ClockObservation" and t.startswith("observation")]
    for major in (2, 3):
        hd = header(P, major, "GPS", [("GPS", ["L1", "C1"])])
        key = struct(P, "observation::ObsKey", epoch=dates.epoch(2021, 1, 2, 3, 4, 5, 678900000, "GPST"), flag=variant(P, "observation::flag::EpochFlag", "Ok"))
        for nm, clock in (("no observation", NONE), ("clock offset", some(struct(P, ck[0], offset_s=off)) if ck else None)):
            if clock is None or (clock is not NONE and major == 2):
                continue
            obs = struct(P, "observation::Observations", clock=clock, signals=arrv([]))
            I_ = q.interp(partition=True, hooks=hooks_of(writer_hook))
            ret, outp = I_.entry(w, {1: obs, 2: B(major < 3), 3: key, 4: unopt(get(hd, ("obs",))), 5: S("")})
            q.done(I_)
            reg = {}
            t = as_tmpl(outp.get(w.locals[5][1] or "a5", TOP), reg)
            k = "written %s:%d" % (nm, major)
            if t is None or not (is_t(t) or is_str(t)):
                R.unknown(k, show(outp.get(w.locals[5][1] or "a5", TOP))[:200])
                continue
            last = t.args[-1] if is_t(t) else t
            if not (is_str(last) and cval(last).endswith("\n")):
                R.fail(k, "the line of an epoch (%s) is not ended" % nm, w.span)
                continue
            if clock is NONE:
                R.ok(k, show(t))
                continue
            pos = 0
            at = None
            for x in t.args if is_t(t) else ():
                if x.k == "e" and reg[x.meta[0]][0] is off:
                    at = (pos, pos + cw(x), reg[x.meta[0]][1][2][1])
                pos += len(cval(x)) if is_str(x) else cw(x)
            if at is None:
                R.fail(k, "the receiver clock offset is not written", w.span)
            else:
                R.check(at[:2] == (41, 56) and at[2] == 12, k, "the receiver clock offset is written in columns %d-%d with %s decimals, its format is F15.12 in columns 42-56" % (at[0] + 1, at[1], at[2]), w.span, show(t))

"""C29: DORIS records: stations, epochs, clock, values and flags come from their own columns, and are written back to the same columns."""
from files import *
import dates

RULE = (
    "the file reader is abstractly executed on DORIS files whose fields hold unknown numbers in the columns of the format, and the record it returns must hold exactly these; the file writer is "
    "then abstractly executed on what was read, and reading its text again (under the same header) must give the same record"
)
CODES = "L1 L2 C1 C2 W1 W2 F P T H".split()
ST = ["D01  OWFC OWENGA                        50253S002  3   0", "D02  ADHC TERRE ADELIE                  91501S005  3   0", "D12  GR4B GRASSE                        10002S019  3 -15", "D13  TLSB TOULOUSE                      10003S005  3   0"]
SITE = {1: "OWENGA", 2: "TERRE ADELIE", 12: "GRASSE", 13: "TOULOUSE"}


def header(codes, stations=ST):
    return [
        line("RINEX VERSION / TYPE", "     3.00           O                   D"),
        line("SYS / # / OBS TYPES", "D  %3d" % len(codes) + "".join("%4s" % c for c in codes)),
        line("# OF STATIONS", "%6d" % len(stations)),
    ] + [line("STATION REFERENCE", s) for s in stations] + [line("END OF HEADER")]


def names(v):
    """observable name -> abstract value, by parsing the code"""


def epoch(d, ns, flag, n, clock, extra):
    return tmpl("> %04d %02d %02d %02d %02d %02d.%09d  %s%3d      " % (d + (ns, flag, n)), clock, " %s " % extra)


def station(key, fields, trim):
    """fields: (value, m1, m2) cells or None"""
    out = []
    for i in range(0, len(fields), 5):
        segs = []
        for f in fields[i:i + 5]:
            if f is None:
                segs.append(" " * 16)
            else:
                segs += [f[0], f[1] if f[1] is not None else " ", f[2] if f[2] is not None else " "]
        if trim:
            while segs and isinstance(segs[-1], str):
                segs.pop()
        out.append(tmpl("D%02d" % key if i == 0 else "   ", *segs))
    return out


D1, D2, D3 = (2018, 6, 13, 0, 0, 33), (2018, 6, 13, 0, 0, 43), (2017, 12, 31, 23, 59, 59)


def scenarios():
    """name, observables, [(date, ns, flag, extrapolated, [(station, field kinds)])], trim"""
    F = "v.. "
    for n in (1, 2, 4, 5, 6, 9, 10):
        yield "%d observables" % n, CODES[:n], [(D1, 179947800, "0", "0", [(1, "a" * n)]), (D2, 179947800, "0", "0", [(1, "a" * n)])], False
    yield "observables in another order", CODES[::-1], [(D1, 0, "0", "0", [(1, "a" * 10)])], False
    yield "flags", CODES, [(D1, 1, "0", "0", [(1, "vabcvabcva")])], False
    yield "missing values", CODES, [(D1, 5, "0", "0", [(1, "v.a.b.c.v.")]), (D2, 999999999, "0", "0", [(1, ".a.a..a..a")])], False
    yield "trailing blanks removed", CODES, [(D1, 5, "0", "0", [(1, "vvv.vvv..v")]), (D2, 0, "0", "0", [(1, "aaaa.vvv..")])], True
    yield "first line blank", CODES, [(D1, 5, "0", "0", [(1, ".....vvvvv")])], False
    yield "right justified", CODES, [(D1, 5, "0", "0", [(1, "rrrrrrrrrr"), (2, "rrrrrrrrrr")])], False
    yield "two stations", CODES, [(D1, 179947800, "0", "0", [(1, "a" * 10), (2, "c" * 10)]), (D2, 179947801, "0", "0", [(2, "a" * 10)])], False
    yield "three stations", CODES[:4], [(D1, 100, "0", "0", [(12, "abcv"), (1, "cvab"), (13, "vvvv")])], False
    yield "station number 12", CODES[:4], [(D1, 100, "0", "0", [(12, "abcv")])], False
    yield "unknown station", CODES[:4], [(D1, 100, "0", "0", [(1, "abcv"), (40, "vvvv"), (2, "vvvv")])], False
    for x in "01":
        yield "clock extrapolation %s" % x, CODES[:2], [(D1, 100, "0", x, [(1, "vv")])], False
    for f in "01":
        yield "epoch flag %s" % f, CODES[:2], [(D1, 100, f, "0", [(1, "vv")])], False
    for d, ns in ((D3, 999999999), ((2000, 2, 29, 12, 0, 0), 0), ((2024, 10, 10, 10, 10, 10), 10), (D1, 123456789), (D1, 100000000)):
        yield "date %s" % dates.iso(d + (ns, "TAI")), CODES[:1], [(d, ns, "0", "0", [(1, "v")])], False
    yield "comment", CODES[:6], [(D1, 100, "0", "0", [(1, "vvvvvv")]), "COMMENT", (D2, 100, "0", "0", [(1, "vvvvvv")])], False


def literals():
    for mode in MODES:
        for sc in scenarios():
            if sc[0] in ("5 observables", "flags", "two stations", "clock extrapolation 1", "missing values"):
                yield mode, sc
    for sc in scenarios():
        yield None, sc


def build(eps, codes, trim, numbered=False):
    lines, want = [], {}
    for i, e in enumerate(eps):
        if e == "COMMENT":
            lines.append(line("COMMENT", "beacon restarted"))
            continue
        if numbered:
            d, i, ns, fl, ex, sts = e
        else:
            d, ns, fl, ex, sts = e
        ck = cell("clock@%d" % i, 13, "r")
        lines.append(epoch(d, ns, fl, len(sts), ck, ex))
        w = want[d + (ns,), fl] = {"clock": ck, "extra": ex == "1", "sig": {}}
        for key, kinds in sts:
            fs = []
            for c, k in zip(codes, kinds):
                if k == ".":
                    fs.append(None)
                    continue
                nm = "D%02d %s@%d" % (key, c, i)
                m = {"v": (0, 0), "a": (1, 1), "b": (1, 0), "c": (0, 1), "r": (0, 0)}[k]
                f = (cell(nm, 14, "r" if k == "r" else "f"), cell(nm + " m1", 1, "i") if m[0] else None, cell(nm + " m2", 1, "i") if m[1] else None)
                fs.append(f)
                if key in SITE:
                    w["sig"][key, c] = f
            lines += station(key, fs, trim)
    return lines, want


def rec(v):
    r = get(v, ("record",)) if v is not None else None
    return entries(r.a[4][0]) if r is not None and r.k == "agg" and r.a[4] else None


def compare(R, what, g, where, es, want, ctx, obs, reg=None):
    reg = reg or {}
    seen = set()
    FL = {"0": "Ok", "1": "PowerFailure"}
    for k, x in es:
        e, f = get(k, ("epoch",)), get(k, ("flag",))
        if e is None or not dates.is_epoch(e):
            R.unknown("%s:%s" % (what, g), show(k)[:200])
            return
        hit = [w for w in want if w[0] == tuple(e.meta[:7])]
        key = "%s:%s:%s" % (what, g, dates.iso(e.meta))
        if not hit:
            R.fail(key, "an epoch dated %s appears, it was not %s" % (dates.iso(e.meta), ctx), where)
            continue
        w = hit[0]
        seen.add(w)
        R.check(e.meta[7] == "TAI", key + " scale", "the date %s is not in TAI (%s)" % (dates.iso(e.meta), ctx), where)
        if f is not None and f.k == "agg":
            R.check(f.a[1] == FL[w[1]], key + " flag", "epoch flag %s becomes %s (%s)" % (w[1], f.a[1], ctx), where)
        else:
            R.unknown(key + " flag", show(f) if f is not None else "none")

        def J(lab, v, c):
            kk = "%s:%s:%s %s" % (what, g, dates.iso(e.meta), lab)
            if v is None:
                R.fail(kk, "%s is lost (%s)" % (lab, ctx), where)
                return
            r, msg = judge_back(unopt(v), c, reg)
            if r == "ok":
                R.ok(kk, show(v)[:160])
            elif r == "bad":
                R.fail(kk, "%s, %s, %s" % (lab, ctx, msg), where)
            else:
                R.unknown(kk, msg)

        J("clock", get(x, ("clock", "offset_s")), want[w]["clock"])
        ex = get(x, ("clock_extrapolated",))
        if ex is not None and ex.k == "c":
            R.check(bool(cval(ex)) == want[w]["extra"], key + " extrapolated", "clock extrapolation flag %d becomes %s (%s)" % (want[w]["extra"], cval(ex), ctx), where)
        else:
            R.unknown(key + " extrapolated", show(ex) if ex is not None else "none")
        sg = entries(get(x, ("signals",)))
        if sg is None:
            R.unknown(key + " signals", show(get(x, ("signals",)))[:200])
            continue
        got = set()
        for sk, so in sg:
            s, o = get(sk, ("station",)), get(sk, ("observable",))
            site = get(s, ("site",)) if s is not None else None
            st = [n for n, t in SITE.items() if site is not None and is_str(site) and cval(site) == t]
            oc = [c for c, v in obs.items() if v is o]
            if len(st) != 1 or len(oc) != 1:
                R.unknown(key + " signals", show(sk)[:200])
                return
            id_ = (st[0], oc[0])
            got.add(id_)
            lab = "%s of %s" % (oc[0], SITE[st[0]])
            c = want[w]["sig"].get(id_)
            if c is None:
                R.fail("%s:%s:%s %s" % (what, g, dates.iso(e.meta), lab), "%s at %s appears, it was not %s" % (lab, dates.iso(e.meta), ctx), where)
                continue
            J(lab, get(so, ("value",)), c[0])
            for m, cc in (("m1", c[1]), ("m2", c[2])):
                v = get(so, (m,))
                if cc is not None:
                    J(lab + " " + m, v, cc)
                elif v is not None and v.k == "agg" and v.a[1] == "Some":
                    R.fail("%s:%s:%s %s %s" % (what, g, dates.iso(e.meta), lab, m), "%s %s is %s, it is blank when %s" % (lab, m, show(v)[:80], ctx), where)
                else:
                    R.ok("%s:%s:%s %s %s" % (what, g, dates.iso(e.meta), lab, m))
        for id_ in want[w]["sig"]:
            if id_ not in got:
                R.fail("%s:%s:%s %s of %s" % (what, g, dates.iso(e.meta), id_[1], SITE[id_[0]]), "%s of %s at %s is lost (%s)" % (id_[1], SITE[id_[0]], dates.iso(e.meta), ctx), where)
    for w in want:
        if w not in seen:
            R.fail("%s:%s:%s" % (what, g, w[0]), "the epoch %s is lost (%s)" % (w[0], ctx), where)


def laid_out(R, name, where, codes, eps, mode, dec, body, reg):
    """the record written: every line holds the expected values in the columns of the format"""
    eps = [e if e == "COMMENT" else e[:4] + ([s for s in e[4] if s[0] in SITE],) for e in eps]
    with literal((lambda nm, w, k: number(mode, nm, w, dec(nm, w))) if mode else None):
        want, _ = build([(e[0], i) + e[1:] for i, e in enumerate(eps) if e != "COMMENT"], codes, False, True)
    split = lambda ls, rg: sorted((c[31:] if c[:1] == (">",) else c for c in (columns(l, rg) for l in ls) if c), key=repr)
    a, b = split(want, ()), split(body, reg)
    lost = [x for x in a if a.count(x) > b.count(x)]
    more = [x for x in b if b.count(x) > a.count(x)]
    R.check(not lost and not more, "layout:" + name, "the line %r is written as %r (DORIS, %s)" % (draw(lost[0]) if lost else "", draw(more[0]) if more else "", name), where)


def run(ctx):
    P, q, R = ctx.P, ctx.q, ctx.r
    where = meth(P, "Rinex", "parse").span
    n = m = 0
    for mode, (name, codes, eps, trim) in literals():
        name += ", %s numbers" % mode if mode else ""
        dec = lambda nm, w: 9 if nm.startswith("clock@") else 0 if w == 1 else 3
        with literal((lambda nm, w, k: number(mode, nm, w, dec(nm, w))) if mode else None):
            lines, want = build(eps, codes, trim)
        H = header(codes)
        v = ok_of(parse_file(P, q, H, lines))
        es = rec(v)
        oh = get(v, ("header", "doris", "observables")) if v is not None else None
        os_ = list(unopt(oh).a[4]) if oh is not None and unopt(oh).k == "agg" else []
        if es is None or len(os_) != len(codes):
            R.unknown("file:" + name, show(v)[:200] if v is not None else "no result")
            continue
        obs = dict(zip(codes, os_))
        n += 1
        compare(R, "read", name, where, es, want, "written in a DORIS file (%s)" % name, obs)
        t = write_file(P, q, v)
        if t is None or body_of(t[0]) is None:
            R.unknown("written:" + name, "text not known")
            continue
        ls, reg = t
        m += 1
        for k, (term, sp) in reg.items():
            cs = cells(term)
            p = sp[2][1]
            for c in cs:
                need = 9 if c.startswith("clock@") else 3 if not c.endswith((" m1", " m2")) else None
                if need and "@" in c:
                    R.check(p is None or p >= need, "precision:%s:%s" % (name, c), "%s is written with %s decimals, the format has %d" % (c, p, need), where)
        laid_out(R, name, meth(P, "Rinex", "format").span, codes, eps, mode, dec, body_of(ls), reg)
        v2 = ok_of(parse_file(P, q, H, body_of(ls)))
        es2 = rec(v2)
        if es2 is None:
            R.unknown("written:" + name, show(v2)[:200] if v2 is not None else "no result")
            continue
        compare(R, "written", name, where, es2, want, "read from a DORIS file (%s) and written again" % name, obs, reg)
    R.floor("DORIS files", n, 20)
    R.floor("DORIS files written back", m, 15)
    R.assume.append("numbers written in a column are well formed for their type")

"""C20: compact RINEX: compression and decompression are inverse, and follow the format."""
from files import *
import math, random, re
from evalt import Eval, Unk

RULE = (
    "the difference coders are abstractly executed on unknown numbers (and texts of every kind of change): what they produce must be the differences the format defines, and decoding it must give back "
    "the input; the file reader is abstractly executed on compact files whose values are unknown, and must return the record the format defines; the compact writer is abstractly executed on records "
    "with unknown values, and a decoder written from the format must recover each of them from its lines"
)


def sizes(P):
    """{const generic parameter values the library is instantiated with}"""
    out = set()
    for f in P.fns.values():
        for l in f.get("locals") or []:
            m = re.search(r"(?:NumDiff|DecompressorExpert|CompressorExpert)<(\d+)>", str(l))
            if m:
                out.add(int(m.group(1)))
    return sorted(out)


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def delta(xs, i, k):
    """k-th order difference of xs at i"""
    return sum((-1) ** j * binom(k, j) * xs[i - j] for j in range(k + 1))


def value(t, env):
    return Eval(lambda v: env.get(v))(t)


def numdiff(ctx):
    P, q, R = ctx.P, ctx.q, ctx.r
    new, init, comp, dec = (meth(P, "NumDiff", n) for n in ("new", "force_init", "compress", "decompress"))
    n = 0
    for M in sorted(set(sizes(P)) | {3, 5, 6}):
        for k in range(M + 1):
            L = 2 * k + 3
            rnd = random.Random(100 * M + k)
            for restart in (None, k + 1):
                xs = [E("sym", "x%d" % i) for i in range(L + 4)]
                val = [rnd.randrange(-(10**12), 10**12) for _ in xs]
                env = dict(zip(xs, val))
                for what, f in (("compress", comp), ("decompress", dec)):
                    key = "%s:order %d of %d%s" % (what, k, M, "" if restart is None else " restarted")
                    s = q.call(new, xs[0], I(k), partition=True, cparams={"M": M})
                    base = 0
                    bad = None
                    for i in range(1, L + 4):
                        if s is None or s is BOT:
                            bad = "aborts"
                            break
                        I_ = q.interp(partition=True, cparams={"M": M})
                        if restart == i:
                            r, out = I_.entry(init, {1: s, 2: xs[i], 3: I(k)}, names=None)
                            q.done(I_)
                            base = i
                            s = list(out.values())[0] if out else None
                            if r is None or r is BOT:
                                s = None
                            continue
                        o = min(i - base, k)
                        d = delta(val, i, o)
                        a = xs[i]
                        if what == "decompress":
                            a = E("sym", "d%d" % i)
                            env[a] = d
                        r, out = I_.entry(f, {1: s, 2: a})
                        q.done(I_)
                        if r is None or r is BOT:
                            bad = "aborts"
                            break
                        try:
                            got = value(r, env)
                        except Unk as e:
                            bad = e
                            break
                        if o and what == "decompress" and got == val[i]:
                            out = {a: rewrite(v, lambda x, r=r, y=xs[i]: y if x is r else x) for a, v in out.items()}
                        if got != (d if what == "compress" else val[i]):
                            bad = "gives another value than the format at point %d" % (i - base)
                            break
                        s = list(out.values())[0]
                    if isinstance(bad, Unk):
                        R.unknown(key, str(bad))
                    else:
                        n += 1
                        R.check(bad is None, key, "numerical %sion of order %d (maximum %d) %s" % (what, k, M, bad), f.span)
    R.floor("orders of the numerical difference", n, 40)




# ------------------------------------------------------------------ text
def textdiff_ref(old, new):
    """the compressed form of new after old"""
    n = max(len(old), len(new))
    o, w = old.ljust(n), new.ljust(n)
    return "".join(" " if a == b else "&" if b == " " else b for a, b in zip(o, w))


def textdiff_dec(old, c):
    n = max(len(old), len(c))
    return "".join(a if b == " " else " " if b == "&" else b for a, b in zip(old.ljust(n), c.ljust(n)))


TEXTS = [
    "ABC  123 ", "ABC  123", "AXC 4123", "A C  1 3", "    ", "A", "AB", "AB CD", "AB", "B", "", "Q", "  Q", "Q 1 2 3 4", "Q 1 2", "Q 1 2 3 4 5", "20  1  1  0  0  0.0000000  0  3G01G02G03",
    "20  1  1  0  0 30.0000000  0  4G01G02G03R21", "20  1  1  0  1  0.0000000  0  2G01G03", "20  1  1  0  1 30.0000000  0  3G01G03R21",
]


def textdiff(ctx):
    P, q, R = ctx.P, ctx.q, ctx.r
    new, init, comp, dec = (meth(P, "TextDiff", n) for n in ("new", "force_init", "compress", "decompress"))
    n = 0

    def step(f, s, t):
        I_ = q.interp(partition=True)
        r, out = I_.entry(f, {1: s, 2: S(t)})
        q.done(I_)
        if r is None or r is BOT:
            return "aborts", None
        return r, list(out.values())[0] if out else None

    def text(r, s):
        """the text a result refers to"""
        if is_c(r, "str"):
            return cval(r)
        return None

    for seq in (TEXTS, TEXTS[::-1], TEXTS[::2] + TEXTS[1::2]):
        c, d = q.call(new, S(seq[0]), partition=True), q.call(new, S(seq[0]), partition=True)
        for k, t in enumerate(seq[1:]):
            old = seq[k]
            key = "'%s' after '%s'" % (t, old)
            r, c = step(comp, c, t)
            if r == "aborts":
                R.fail("text:compress " + key, "compressing %s aborts" % key, comp.span)
                break
            got = text(r, c)
            ref = textdiff_ref(old, t)
            if got is None:
                R.unknown("text:compress " + key, show(r)[:100])
                break
            n += 1
            back = textdiff_dec(old, got)
            R.check(back.rstrip() == t.rstrip(), "text:compress " + key, "%s is compressed into '%s', which stands for '%s'" % (key, got, back), comp.span)
            if k % 2:
                ref = ref[: len(old)] + ref[len(old) :].replace(" ", "&")
            r, d = step(dec, d, ref)
            if r == "aborts":
                R.fail("text:decompress " + key, "decompressing %s aborts" % key, dec.span)
                break
            got = text(r, d)
            if got is None:
                R.unknown("text:decompress " + key, show(r)[:100])
                break
            n += 1
            R.check(got.rstrip() == t.rstrip(), "text:decompress " + key, "%s is decompressed into '%s'" % (key, got), dec.span)
    R.floor("text differences", n, 80)


# ------------------------------------------------------------------ files
class Enc:
    """a compact file, written the way the format says; numbers are cells, `env` gives them random values"""

    def __init__(self, ver, codes, system="M", order=3, seed=1, trim=True, year=2021):
        self.v3 = ver == 3
        self.year = year
        self.codes, self.order, self.trim = codes, order, trim
        self.rnd = random.Random(seed)
        self.env, self.want = {}, {}
        self.lines = []
        self.arcs, self.flags, self.desc, self.clk = {}, {}, None, None
        self.n = 0
        self.hist = []
        H = [line("CRINEX VERS   / TYPE", "%-20s%-20s" % ("3.0" if self.v3 else "1.0", "COMPACT RINEX FORMAT")), line("CRINEX PROG / DATE", "%-40s%s" % ("RNX2CRX ver.4.0.7", "01-Jan-21 00:00"))]
        H.append(line("RINEX VERSION / TYPE", "%9s           OBSERVATION DATA    %s" % ("3.04" if self.v3 else "2.11", {"M": "M (MIXED)", "G": "G (GPS)", "R": "R (GLONASS)"}[system])))
        if self.v3:
            for s, cs in codes.items():
                for i in range(0, len(cs), 13):
                    H.append(line("SYS / # / OBS TYPES", "%s  %3s %s" % (s if not i else " ", len(cs) if not i else "", " ".join(cs[i : i + 13]))))
        else:
            cs = codes
            for i in range(0, len(cs), 9):
                H.append(line("# / TYPES OF OBSERV", "%6s%s" % (len(cs) if not i else "", "".join("%6s" % c for c in cs[i : i + 9]))))
        H.append(line("TIME OF FIRST OBS", "  %d     1     1     0     0    0.0000000     GPS" % year))
        H.append(line("END OF HEADER"))
        self.head = H

    def of(self, sv):
        return self.codes[sv[0]] if self.v3 else self.codes

    def num(self, d, width):
        self.n += 1
        nm = "d%d" % self.n
        self.env[nm] = d
        return cell(nm, width, "f")

    def arc(self, key, x, w=None):
        """the token that stands for x"""
        a = self.arcs.get(key)
        if a is None:
            self.arcs[key] = [x]
            return tmpl("%d&" % self.order, self.num(x, w or 10))
        a.append(x)
        return tmpl(self.num(delta(a, len(a) - 1, min(len(a) - 1, self.order)), w or 1 + (self.n % 3) * 2))

    def epoch(self, sec, sats, flag=0, clock=None, init=False, omit=False, verbatim=()):
        """sats: [(sv, [None or (lli, snr), ...])]"""
        if self.v3:
            t = " %d 01 01 %02d %02d %02d.0000000  %d%3d      " % (self.year, sec // 3600, sec // 60 % 60, sec % 60, flag, len(sats) or len(verbatim))
        else:
            t = "%02d  1  1 %2d %2d %2d.0000000  %d%3d" % (self.year % 100, sec // 3600, sec // 60 % 60, sec % 60, flag, len(sats) or len(verbatim))
        t += "".join(s for s, _ in sats)
        if verbatim or flag in (2, 3, 4, 5):
            verbatim, t = list(verbatim) or [""], t.rstrip()
        if self.desc is None or init or verbatim:
            self.arcs, self.flags, self.clk = {}, {}, None
            self.lines.append((">" if self.v3 else "&") + t)
        else:
            self.lines.append((" " + textdiff_ref(self.desc, t)).rstrip())
        self.desc = t
        if verbatim:
            self.lines += [x for x in verbatim if x]
            self.desc = None
            return
        ck = None
        if clock is None:
            self.arcs.pop("clock", None)
            self.lines.append("")
        else:
            ck = self.rnd.randrange(10**5, 10**8)
            self.lines.append(self.arc("clock", ck, 8 if "clock" not in self.arcs else clock))
        self.hist.append((sec, flag, ck, []))
        seen = {s for s, _ in sats}
        self.arcs = {k: v for k, v in self.arcs.items() if k == "clock" or k[0] in seen}
        self.flags = {k: v for k, v in self.flags.items() if k in seen}
        for s, obs in sats:
            segs, fl = [], ""
            self.hist[-1][3].append((s, []))
            for i, o in enumerate(obs):
                if o is None:
                    self.arcs.pop((s, i), None)
                    segs.append(" ")
                    fl += "  "
                    self.hist[-1][3][-1][1].append(None)
                    continue
                x = self.rnd.randrange(10**9, 10**10)
                segs += [self.arc((s, i), x), " "]
                self.hist[-1][3][-1][1].append((x, o[0], o[1]))
                fl += "%1s%1s" % tuple("" if y is None else y for y in o)
                self.want[(sec, s, self.of(s)[i])] = (x / 1000.0, o[0], o[1])
            d = textdiff_ref(self.flags.get(s, ""), fl)
            self.flags[s] = fl
            t = tmpl(*segs, d)
            self.lines.append(rtrim(t) if self.trim else rtrim(tmpl(*segs, d.rstrip()), keep=len(segs)))

    def file(self):
        return self.head, self.lines


def rtrim(t, keep=None):
    """without trailing blanks (keep: only those of the flags are removed)"""
    if keep is not None:
        return t
    if is_c(t, "str"):
        return cval(t).rstrip()
    a = list(t.args)
    while a and is_c(a[-1], "str"):
        z = cval(a[-1]).rstrip()
        if z:
            a[-1] = S(z)
            break
        a.pop()
    return tmpl(*a)


def lists_of(ver):
    G = ["C1C", "L1C", "S1C", "C2W", "L2W", "S2W", "C5Q", "L5Q", "S5Q", "D1C", "D2W", "D5Q"]
    R_ = ["C1C", "L1C", "C2P", "L2P", "D1C"]
    old = ["C1", "L1", "L2", "P1", "P2", "C2", "C5", "L5", "S1", "S2", "S5", "D1", "D2"]
    return (lambda n, m=2: {"G": G[:n], "R": R_[:m], "S": ["C1C", "L1C"]}) if ver == 3 else (lambda n, m=2: old[:n])


def full(n, k=0):
    """observations with every kind of flags"""
    return [[(None, None), (1, 7), (None, 5), (0, None), (3, 1)][(i + k) % 5] for i in range(n)]


def scenarios(ver):
    L = lists_of(ver)
    e = Enc(ver, L(2))
    for i in range(6):
        e.epoch(30 * i, [("G01", full(2)), ("G12", full(2, 1)), ("R03", full(2, 2))])
    yield "steady", e
    for d in (60, 3600, 36000):
        e = Enc(ver, L(1, 1), seed=80 + d)
        for i in range(3):
            e.epoch(d * i, [("G01", full(1)), ("R03", full(1, 1))])
        yield "sampling interval of %d s" % d, e
    for tr in (True, False):
        e = Enc(ver, L(3), seed=2, trim=tr)
        for i in range(8):
            o = full(3, 1)
            if i in (1, 2, 6):
                o[0] = None
            if i in (2, 4):
                o[1] = None
            if i in (2, 3, 6):
                o[2] = None
            e.epoch(30 * i, [("G01", o), ("G12", full(3, 1))])
        yield "missing observations%s" % ("" if tr else " (blanks kept)"), e
        e = Enc(ver, L(2), seed=3, trim=tr)
        for i, (a, b) in enumerate([((0, 7), (0, 7)), ((0, 7), (0, 7)), ((1, 7), (0, 6)), ((None, 7), (None, None)), ((None, 7), (None, None)), ((None, None), (0, 4)), ((None, None), (None, 4)), ((2, 9), (None, 4)), ((2, 9), (None, 4)), ((None, None), (None, None)), ((1, 1), (1, 1))]):
            e.epoch(30 * i, [("G01", [a, b]), ("G02", [b, a])])
        yield "changing flags%s" % ("" if tr else " (blanks kept)"), e
    e = Enc(ver, L(2), seed=4)
    for i, ss in enumerate(["G01 G02 R03", "G01 R03", "G01 G02 R03", "R03", "G01 G02 R03 R04", "G02", "G01"]):
        e.epoch(30 * i, [(s, full(2, i + k) if s != "G02" else [(1, 5), (None, 7)] if i < 2 else [(None, 6), (None, None)]) for k, s in enumerate(ss.split())])
    yield "satellites come and go", e
    e = Enc(ver, L(2), seed=5)
    for i in range(6):
        e.epoch(30 * i, [("G01", full(2)), ("R03", full(2, 1))], init=i in (2, 3))
    yield "initialized again", e
    for k in (0, 1, 2, 4, 5):
        e = Enc(ver, L(2), order=k, seed=6 + k)
        for i in range(k + 4):
            e.epoch(30 * i, [("G01", full(2)), ("R03", full(2, 1))])
        yield "differences of order %d" % k, e
    for w in (1, 4):
        e = Enc(ver, L(2), seed=12)
        for i in range(5):
            e.epoch(30 * i, [("G01", full(2)), ("R03", full(2, 1))], clock=w)
        yield "receiver clock, %d digit differences" % w, e
    e = Enc(ver, L(2), seed=13)
    for i in range(5):
        e.epoch(30 * i, [("G01", full(2)), ("R03", full(2, 1))], clock=3 if i in (1, 2, 4) else None)
    yield "receiver clock at some epochs", e
    for n in (1, 4, 5, 6, 9, 10, 11):
        e = Enc(ver, L(n, 1), seed=14 + n)
        for i in range(3):
            o = full(n, i)
            if i == 1 and n > 1:
                o[-1] = None
            if i == 2 and n > 4:
                o[3] = None
                o[4] = None
            e.epoch(30 * i, [("G01", o), ("R03", full(1 if ver == 3 else n, 1)), ("G09", [None] * (n - 1) + [(1, 4)])])
        yield "%d observables" % n, e
    for n in (11, 12, 13, 24, 25):
        e = Enc(ver, L(1, 1), seed=30 + n)
        for i in range(2):
            e.epoch(30 * i, [("G%02d" % (k + 1), full(1, k)) for k in range(n)])
        yield "%d satellites" % n, e
    e = Enc(ver, L(2), seed=60)
    e.epoch(0, [("G01", full(2)), ("R03", full(2, 1))])
    e.epoch(30, [("G01", full(2)), ("R03", full(2, 1))], flag=1, init=True)
    e.epoch(60, [("G01", full(2)), ("R03", full(2, 1))])
    yield "power failure", e
    for a, b, c in ((3, 3, 3), (3, 3, None), (None, 3, 3), (3, None, 3)):
        e = Enc(ver, L(2), seed=63)
        for i in range(3):
            e.epoch(30 * i, [("G01", full(2)), ("R03", full(2, 1))], clock=a)
        e.epoch(90, [("G01", full(2)), ("R03", full(2, 1))], flag=1, init=True, clock=b)
        for i in range(4, 7):
            e.epoch(30 * i, [("G01", full(2)), ("R03", full(2, 1))], clock=c)
        yield "power failure, receiver clock %s" % "/".join("no" if x is None else "yes" for x in (a, b, c)), e
    for k in range(6):
        e = Enc(ver, L(2), order=k, seed=90 + k)
        for i in range(k + 3):
            e.epoch(30 * i, [("G01", full(2))], clock=4)
        yield "receiver clock, differences of order %d" % k, e
    for y in (1998, 2000, 2009, 2079) if ver == 1 else (1998,):
        e = Enc(ver, L(2), seed=100, year=y)
        for i in range(3):
            e.epoch(30 * i, [("G01", full(2)), ("R03", full(2, 1))])
        yield "year %d" % y, e
    for k in (3, 4):
        e = Enc(ver, L(2), seed=60 + k)
        e.epoch(0, [("G01", full(2)), ("R03", full(2, 1))])
        e.epoch(30, [], flag=k, verbatim=[line("MARKER NAME", "OTHER"), line("ANTENNA: DELTA H/E/N", "        0.0000        0.0000        0.0000")])
        e.epoch(60, [("G01", full(2)), ("R03", full(2, 1))])
        e.epoch(90, [("G01", full(2)), ("R03", full(2, 1))])
        yield "event of kind %d" % k, e
    e = Enc(ver, L(2), seed=66)
    e.epoch(0, [("G01", full(2)), ("R03", full(2, 1))])
    e.epoch(30, [], flag=4, verbatim=[line("COMMENT", "something"), line("COMMENT", "happened")])
    e.epoch(60, [("G01", full(2)), ("R03", full(2, 1))])
    e.epoch(90, [], flag=5)
    e.epoch(120, [("G01", full(2)), ("R03", full(2, 1))])
    yield "comments in an event", e
    e = Enc(ver, L(2), seed=70)
    for i in range(3):
        e.epoch(30 * i, [("G01", full(2)), ("S23", full(2, 1)), ("R03", full(2, 2))])
    yield "SBAS", e
    e = Enc(ver, L(2), seed=71)
    for i in range(3):
        e.epoch(30 * i, [("S23", full(2, 1)), ("G01", full(2))])
    yield "SBAS first", e


def read(ctx):
    jobs = [(ver, k) for ver in (3, 1) for k in range(len(list(scenarios(ver))))]
    ctx.r.floor("compact files read", sum(spread(ctx, jobs, read_one)), 20)


def read_one(ctx, job):
    P, q, R = ctx.P, ctx.q, ctx.r
    from checks.c24 import sat_of, code_of, fields

    where = meth(P, "Rinex", "parse").span
    M = (sizes(P) or [5])[0]
    ver = job[0]
    name, e = list(scenarios(ver))[job[1]]
    key = "V%d %s" % (ver, name)
    reg = {}
    texts = []
    hk = spy(P, texts)
    v = parse_file(P, q, *e.file(), hooks=(hk,) if hk else (), reg=reg, cparams={"M": M}, maxsteps=150000)
    if v is None or v is BOT:
        R.fail("read:" + key, "reading a well formed compact file (%s) aborts" % key, where)
        return 0
    if not ok_of(v) and errs_of(v) and v.k == "agg":
        R.fail("read:" + key, "a well formed compact file (%s) is refused" % key, where)
        return 0
    r = get(ok_of(v), ("record",)) if ok_of(v) is not None else None
    es = entries(r.a[4][0]) if r is not None and r.k == "agg" and r.a[4] else None
    if es is None:
        R.unknown("read:" + key, show(v)[:300])
        return 0
    got, vague_ = {}, None

    def leaf(t):
        if t.k == "e" and t.op.startswith("parse") and len(t.args) == 1 and is_t(t.args[0]) and len(t.args[0].args) == 1:
            c = t.args[0].args[0]
            if c.k == "e" and c.op == "cell" and c.meta[2] - c.meta[1] == c.meta[3]:
                if c.meta[0] in e.env:
                    return e.env[c.meta[0]]
                if c.meta[0] in reg:
                    return Eval(leaf)(reg[c.meta[0]][0])
        return None

    for k, x in es:
        ep = [y for y in walk(k) if dates.is_epoch(y)]
        sg = fields(x, ("signals",)) if x.k == "agg" else None
        if not ep or sg is None or not is_vec(sg[0]):
            vague_ = show(tup(k, x))[:200]
            break
        t = ep[0].meta
        sec = t[3] * 3600 + t[4] * 60 + t[5] if t[0] == e.year else "year %s" % t[0]
        for s in sg[0].a[4]:
            f = fields(s, ("sv", "observable", "value", "lli", "snr"))
            if f is None:
                vague_ = show(s)[:200]
                break
            sat = sat_of(f[0])
            try:
                val = Eval(leaf)(f[2])
            except Unk as ex:
                vague_ = "%s: %s" % (ex, show(f[2])[:200])
                break
            got.setdefault((sec, sat, code_of(f[1])), []).append((val, f[3], f[4]))
    if vague_:
        R.unknown("read:" + key, vague_)
        return 0
    yield_(R, P, key, e.want, got, where)
    if hk:
        clocks(R, key, e, texts, reg, leaf, where)
    return 1


def spy(P, texts):
    """a hook that notes the recovered text of each epoch"""
    from checks.c07 import find_parser

    fn = find_parser(P)
    if fn is None:
        return None

    def call(I_, f, args, st, fr, b):
        if P.callee({"f": f}) is fn:
            texts.append(I_.deref(args[1], st))
        return NotImplemented

    return call


def clocks(R, key, e, texts, reg, leaf, where):
    """the receiver clock offset is in its columns of the recovered epoch line"""
    lo, hi, scale = (41, 56, 1e12) if e.v3 else (68, 80, 1e9)
    got = {}
    for t in texts:
        if not (is_c(t, "str") or is_t(t)):
            continue
        cs = list(columns(split(t)[0], reg))
        head = "".join(c for c in cs[: lo if e.v3 else 26] if isinstance(c, str))
        m = re.match(r">? *(\d+) +(\d+) +(\d+) +(\d+) +(\d+) +(\d+)\.", head)
        if not m:
            continue
        h, mi, s = (int(x) for x in m.groups()[3:])
        got.setdefault(h * 3600 + mi * 60 + s, []).append((t, cs))
    for sec, flag, ck, sats in e.hist:
        for t, cs in got.get(sec, ())[:1]:
            part = cs[lo:hi]
            if ck is None:
                R.check(all(c == " " for c in part), "clock:%s:%d s" % (key, sec), "an epoch without receiver clock offset is recovered with one (compact file %s)" % key, where)
                continue
            first = split(t)[0]
            src = [x for x in (first.args if is_t(first) else ()) if x.k == "e" and x.op == "cell" and x.meta[0] in reg]
            bad = None
            if len(src) != 1:
                R.unknown("clock:%s:%d s" % (key, sec), draw(cs)[:200])
                continue
            nm = src[0].meta[0]
            try:
                val = Eval(leaf)(reg[nm][0])
            except Unk as ex:
                R.unknown("clock:%s:%d s" % (key, sec), "%s: %s" % (ex, show(reg[nm][0])[:200]))
                continue
            at = [i for i, c in enumerate(cs) if not isinstance(c, str)]
            w = reg[nm][1][2]
            if abs(val * scale - ck) > 0.5:
                bad = "has another value"
            elif at[0] < lo or at[-1] >= hi:
                bad = "is in columns %d to %d, not %d to %d" % (at[0] + 1, at[-1] + 1, lo + 1, hi)
            elif w[1] != round(math.log10(scale)):
                bad = "has %s decimals" % w[1]
            R.check(bad is None, "clock:%s:%d s" % (key, sec), "the recovered receiver clock offset %s (compact file %s)" % (bad, key), where)
    R.check(all(h[0] in got for h in e.hist) or not got, "clock:%s" % key, "an epoch is not recovered (compact file %s)" % key, where)


def yield_(R, P, key, want, got, where):
    def sats(s):
        return {"G": "GPS", "R": "Glonass"}.get(s[0])

    bad = None
    left = dict(got)
    for (sec, s, code), (x, lli, snr) in want.items():
        hit = [k for k in left if k[0] == sec and k[1] and k[1][1] % 100 == int(s[1:]) % 100 and (sats(s) == k[1][0] if sats(s) else k[1][0] not in ("GPS", "Glonass")) and k[2] == code]
        if not hit:
            bad = "%s of %s at %d s is lost" % (code, s, sec)
            break
        es = left.pop(hit[0])
        if len(es) != 1:
            bad = "%s of %s at %d s comes out %d times" % (code, s, sec, len(es))
            break
        val, l, n = es[0]
        if abs(val - x) > 1e-6 * abs(x) + 1e-4:
            bad = "%s of %s at %d s has another value" % (code, s, sec)
            break
        for what, g, w in (("loss of lock", l, lli), ("signal strength", n, snr)):
            d = digit(g)
            if d == "?":
                continue
            if d != w:
                bad = "the %s digit of %s of %s at %d s is %s, not %s" % (what, code, s, sec, d, w)
        if bad:
            break
    if bad is None and left:
        bad = "%s comes out, nothing such is written" % (list(left)[0],)
    R.check(bad is None, "read:" + key, "%s (compact file %s)" % (bad, key), where)


# ------------------------------------------------------------------ writing
def plain(e):
    """(header, lines, env): the plain file of a compact one"""
    out, env = [], {}
    for sec, flag, ck, sats in e.hist:
        if e.v3:
            out.append("> %d 01 01 %02d %02d %02d.0000000  %d%3d" % (e.year, sec // 3600, sec // 60 % 60, sec % 60, flag, len(sats)))
        else:
            for i in range(0, len(sats), 12):
                h = " " * 32 if i else " %02d  1  1 %2d %2d %2d.0000000  %d%3d" % (e.year % 100, sec // 3600, sec // 60 % 60, sec % 60, flag, len(sats))
                out.append(h + "".join(s for s, _ in sats[i : i + 12]))
        for s, obs in sats:
            segs = []
            for o in obs:
                if o is None:
                    segs.append([" " * 16])
                    continue
                nm = "p%d" % len(env)
                env[nm] = o[0] / 1000.0
                segs.append([cell(nm, 14, "r"), "%1s%1s" % tuple("" if y is None else y for y in o[1:])])
            if e.v3:
                out.append(tmpl(s, *sum(segs, [])))
            else:
                for i in range(0, len(segs), 5):
                    out.append(tmpl(*sum(segs[i : i + 5], [])))
    return e.head[2:], out, env


class Bad(Exception):
    pass


def chars(w):
    """lines of a text: lists of characters and unknown numbers"""
    out = [[]]
    for p in w.args if w.k == "e" and w.op in ("cat", "tmpl") else (w,):
        if is_c(p, "str"):
            for c in cval(p):
                if c == "\n":
                    out.append([])
                else:
                    out[-1].append(c)
        elif p.k == "e" and p.op == "cat":
            for k, l in enumerate(chars(p)):
                if k:
                    out.append([])
                out[-1] += l
        else:
            out[-1].append(p)
    return out


def txt(l, what):
    if not all(isinstance(c, str) for c in l):
        raise Unk("unknown characters in %s" % what)
    return "".join(l)


class Dec:
    """decodes compact lines the way the format says; numbers are given by `num`"""

    def __init__(self, v3, count, num):
        self.v3, self.count, self.num = v3, count, num
        self.arcs, self.flags, self.desc = {}, {}, None

    def field(self, key, f, what):
        if "&" in f:
            k = txt(f[: f.index("&")], what)
            if len(k) != 1 or not k.isdigit() or int(k) > 9:
                raise Bad("%s is initialized with a bad order" % what)
            x = self.int(f[f.index("&") + 1 :], what)
            self.arcs[key] = (int(k), [x])
            return x
        a = self.arcs.get(key)
        if a is None:
            raise Bad("%s is written as a difference although nothing comes before it" % what)
        k, xs = a
        o = min(len(xs), k)
        x = self.int(f, what) - sum((-1) ** j * binom(o, j) * xs[-j] for j in range(1, o + 1))
        xs.append(x)
        return x

    def int(self, f, what):
        if len(f) == 1 and not isinstance(f[0], str):
            v = self.num(f[0])
            if not float(v).is_integer():
                raise Bad("%s is not an integer" % what)
            return int(v)
        t = txt(f, what)
        if not t.lstrip("-").isdigit():
            raise Bad("%s is '%s', not an integer" % (what, t))
        return int(t)

    def run(self, lines):
        """[(descriptor, clock, {(satellite, index): (value, lli, snr)})]"""
        out, i = [], 0
        while i < len(lines):
            if not lines[i] and i == len(lines) - 1:
                break
            l = txt(lines[i], "an epoch line")
            i += 1
            m = l[:1]
            if m == (">" if self.v3 else "&"):
                self.desc = l[1:]
                self.arcs, self.flags = {}, {}
            elif self.desc is None or m not in (" ", ""):
                raise Bad("an epoch starts with '%s'" % m)
            else:
                self.desc = textdiff_dec(self.desc, l[1:])
            d = self.desc.rstrip()
            n = d[31:34] if self.v3 else d[28:31]
            if not n.strip().isdigit():
                raise Bad("the number of satellites is not where it should be in '%s'" % d)
            sats = [d[j : j + 3] for j in range(40 if self.v3 else 31, len(d), 3)]
            if len(sats) != int(n):
                raise Bad("%s satellites are announced, %d named in '%s'" % (n.strip(), len(sats), d))
            if i >= len(lines):
                raise Bad("the clock line of an epoch is missing")
            ck, l = None, lines[i]
            i += 1
            if l:
                ck = self.field("clock", l, "a clock offset")
            else:
                self.arcs.pop("clock", None)
            self.arcs = {k: v for k, v in self.arcs.items() if k == "clock" or k[0] in sats}
            self.flags = {k: v for k, v in self.flags.items() if k in sats}
            obs = {}
            for s in sats:
                if i >= len(lines):
                    raise Bad("the observations of %s are missing" % s)
                l = lines[i]
                i += 1
                got = {}
                for k in range(self.count(s)):
                    j = l.index(" ") if " " in l else len(l)
                    f, l = l[:j], l[j + 1 :]
                    if f:
                        got[k] = self.field((s, k), f, "observation %d of %s" % (k + 1, s))
                    else:
                        self.arcs.pop((s, k), None)
                self.flags[s] = textdiff_dec(self.flags.get(s, ""), txt(l, "the flags of %s" % s))
                fl = self.flags[s].ljust(2 * self.count(s))
                for k, x in got.items():
                    a, b = fl[2 * k], fl[2 * k + 1]
                    obs[(s, k)] = (x, None if a == " " else a, None if b == " " else b)
            out.append((d, ck, obs))
        return out


def with_(v, **kw):
    """a struct with some fields replaced"""
    return agg(v.a[0], v.a[1], v.a[2], v.a[3], [kw.get(n, f) for n, f in zip(v.a[3], v.a[4])])


def clocked(P, v, hist):
    """the record with receiver clock offsets"""
    left = list(hist)
    ty = next((n for n in P.adts if n.endswith("::ClockObservation")), None)

    def go(x):
        if x.k == "agg" and x.a[0].endswith("::Observations"):
            ck = left.pop(0)[2] if left else None
            if ck is not None:
                off = E("sym", "clock%d" % (len(hist) - len(left)))
                return with_(x, clock=agg("core::option::Option", "Some", 1, ["0"], [struct(P, ty, offset_s=off)]))
        return x

    return rewrite(v, go)


def write(ctx):
    jobs = [(ver, k) for ver in (3, 1) for k in range(len(list(scenarios(ver))))]
    ctx.r.floor("compact files written", sum(spread(ctx, jobs, write_one)), 16)


def write_one(ctx, job):
    P, q, R = ctx.P, ctx.q, ctx.r
    fmt = meth(P, "Rinex", "format")
    M = (sizes(P) or [5])[0]
    ver = job[0]
    name, e = list(scenarios(ver))[job[1]]
    if "kept" in name or "order" in name or "event" in name or "again" in name:
        return 0
    key = "V%d %s" % (ver, name)
    head, body, env = plain(e)
    v = ok_of(parse_file(P, q, head, body))
    h = ok_of(parse_file(P, q, e.head, []))
    c = with_(clocked(P, v, e.hist), header=get(h, ("header",))) if v is not None and h is not None else None
    if c is None or c is BOT:
        R.unknown("write:" + key, "no record to write")
        return 0
    I_ = q.interp(hooks=hooks_of(writer_hook), partition=True, maxdepth=16, maxsteps=200000, cparams={"M": M})
    r, out = I_.entry(fmt, {1: c, 2: S("")})
    q.done(I_)
    if r is None or r is BOT:
        R.fail("write:" + key, "writing observations as compact RINEX (%s) aborts" % key, fmt.span)
        return 0
    ws = [x for k, x in (out or {}).items() if k != "self"]
    w = ws[0] if len(ws) == 1 else None
    if w is None or not ok_of(r):
        (R.fail if errs_of(r) and r.k == "agg" else R.unknown)("write:" + key, "observations (%s) are not written as compact RINEX" % key)
        return 0

    def leaf(t):
        if t.k == "e" and t.op == "fa":
            return Eval(leaf)(t.args[0])
        if t.k == "e" and t.op.startswith("parse") and len(t.args) == 1 and is_t(t.args[0]) and len(t.args[0].args) == 1:
            x = t.args[0].args[0]
            if x.k == "e" and x.op == "cell" and x.meta[2] - x.meta[1] == x.meta[3]:
                return env.get(x.meta[0])
        if t.k == "e" and t.op == "sym" and str(t.meta).startswith("clock"):
            ck = e.hist[int(str(t.meta)[5:]) - 1][2]
            return ck / (1e12 if e.v3 else 1e9)
        return None

    bad = None
    try:
        ls = chars(w)
        at = [k for k, l in enumerate(ls) if "".join(x for x in l if isinstance(x, str)).rstrip().endswith("END OF HEADER")]
        if not at:
            R.unknown("write:" + key, "no header in %s" % show(w)[-300:])
            return 0
        dec = Dec(e.v3, lambda s: len(e.of(s)), Eval(leaf)).run(ls[at[0] + 1 :])
        bad = compare(e, dec)
    except Unk as ex:
        R.unknown("write:" + key, str(ex)[:300])
        return 0
    except Bad as ex:
        bad = str(ex)
    R.check(bad is None, "write:" + key, "%s (observations written as compact RINEX, %s)" % (bad, key), fmt.span)
    return 1


def compare(e, dec):
    if len(dec) != len(e.hist):
        return "%d epochs are written, not %d" % (len(dec), len(e.hist))
    for (d, ck, obs), (sec, flag, wck, sats) in zip(dec, e.hist):
        if ck != wck:
            return "the clock offset at %d s is written %s, not %s" % (sec, ck, wck)
        d = d[1:] if e.v3 else d
        t = d[:27].split() if e.v3 else d[:25].split()
        try:
            g = [float(x) for x in t]
        except ValueError:
            return "the epoch is written '%s'" % d
        if len(g) != 6 or g[0] != (e.year if e.v3 else e.year % 100) or g[1:3] != [1, 1] or g[3] * 3600 + g[4] * 60 + g[5] != sec:
            return "the epoch of %d s is written '%s'" % (sec, d)
        f = d[29] if e.v3 else d[27]
        if f != str(flag):
            return "the flag of an epoch is written '%s', not %d" % (f, flag)
        want = {}
        for s, o in sats:
            for k, x in enumerate(o):
                if x is not None:
                    want[(s, k)] = x
        nm = lambda s: s[0] + "%02d" % int(s[1:])
        got = {(nm(s), k): x for (s, k), x in obs.items()}
        for (s, k), (x, l, r) in want.items():
            y = got.pop((nm(s), k), None)
            if y is None:
                return "observation %d of %s at %d s is not written" % (k + 1, s, sec)
            if abs(y[0] - x) > 0.5:
                return "observation %d of %s at %d s is written with another value" % (k + 1, s, sec)
            for what, a, b in (("loss of lock", y[1], l), ("signal strength", y[2], r)):
                if a != (None if b is None else str(b)) and not (a in (None, "0") and b in (None, 0)):
                    return "the %s digit of observation %d of %s at %d s is written %s, not %s" % (what, k + 1, s, sec, a, b)
        if got:
            return "%s is written at %d s, nothing such was there" % (list(got)[0], sec)
    return None


SNR = {}


def digit(v):
    """the digit of an optional flag: None when absent, '?' when unknown"""
    if v is NONE_ or v.k == "agg" and v.a[1] == "None":
        return None
    if v.k == "agg" and v.a[1] == "Some":
        x = v.a[4][0]
        while x.k == "agg" and len(x.a[4]) == 1:
            x = x.a[4][0]
        if is_c(x, "int"):
            return cval(x)
        if x.k == "agg" and not x.a[4]:
            return x.a[2]
    return "?"


NONE_ = None


def run(ctx):
    numdiff(ctx)
    textdiff(ctx)
    read(ctx)
    write(ctx)

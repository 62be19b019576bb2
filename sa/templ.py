"""Column rules: a routine is executed abstractly on a text whose layout is known (which columns hold which value) and
whose values are unknown; the result is then asked which columns each of its fields was taken from.

  T(cell)         the text of exactly these columns, blanks trimmed
  N(cell, scale)  the number written in exactly these columns, times scale
  K(pred, what)   a constant
  D(cell, ...)    an epoch whose constructor received exactly these columns, in that order
  ABS             nothing there
"""
import contextlib
from lib import *
import lists
import models
from lists import cell, tmpl, lit, is_t, tlen, cells, is_lit, is_vec, is_kv, kv, kv_get
from evalt import Eval, Unk, close

OPT = "std::option::Option"


class T:
    def __init__(self, c):
        self.c = c


class N:
    def __init__(self, c, scale=1.0, rel=1e-9):
        self.c, self.scale, self.rel = c, scale, rel


class Kt:
    def __init__(self, ok, what):
        self.ok, self.what = ok, what


class D:
    def __init__(self, *c):
        self.c = c


class ABS:
    pass


def vague(v):
    for x in walk(v):
        if x is TOP or (x.k == "e" and x.op in ("phi", "big", "loop")):
            return True
    return False


def unopt(v):
    """payload(s) of Some / Ok; None dropped when something else is possible"""
    while v is not None:
        if v.k == "agg" and v.a[1] in ("Some", "Ok") and len(v.a[4]) == 1:
            v = v.a[4][0]
            continue
        if v.k == "j":
            ms = [m for m in members(v) if not (m.k == "agg" and m.a[1] in ("None", "Err"))]
            if not ms:
                return v
            w = joinall([m.a[4][0] if m.k == "agg" and m.a[1] in ("Some", "Ok") else m for m in ms])
            if w is v:
                return v
            v = w
            continue
        return v
    return v


def get(v, path):
    """walks a path of field names, indexes and map keys; Option and Box are looked through. None: not there"""
    for p in path:
        v = unopt(v)
        if v is None or v is BOT:
            return None
        if isinstance(p, str):
            if v.k != "agg" or p not in v.a[3]:
                if v.k == "e" or v is TOP or v.k == "j":
                    return TOP if v is TOP else E("f", p, v)
                return None
            v = v.a[4][v.a[3].index(p)]
        elif isinstance(p, int):
            if is_vec(v) or is_lit(v) or (v.k == "agg" and v.a[0] in ("[]", "()", "vec", "lit")):
                xs = v.a[4]
                if p >= len(xs):
                    return None
                v = xs[p]
            elif v.k == "agg" and v.a[0] not in ("coll",):
                if p >= len(v.a[4]):
                    return None
                v = v.a[4][p]
            elif v.k == "agg" and v.a[0] == "coll":
                v = v.a[4][1] if v.a[4][1] is not BOT else None
            else:
                return TOP
        elif callable(p):
            v = p(v)
        else:  # map key
            if is_kv(v):
                r = kv_get(v, p)
                v = r
            elif v.k == "agg" and v.a[0] == "coll":
                v = TOP if v.a[4][1] is not BOT else None
            else:
                return TOP
    return v


SAMPLE = {}


def sample(name):
    if name not in SAMPLE:
        h = 0
        for ch in name:
            h = (h * 131 + ord(ch)) % 1000003
        SAMPLE[name] = float(3 + h % 89)
    return SAMPLE[name]


def numeric(v, scale_ok=True):
    def leaf(x):
        if x.k == "e" and x.op in ("parse", "parse_int", "parse_f64", "ext_parse"):
            cs = cells(x)
            if len(cs) == 1:
                return sample(next(iter(cs)))
        if x.k == "e" and x.op == "call" and cells(x) and ("Duration" in x.meta or "Epoch" in x.meta or "hifitime" in x.meta):
            return None
        return None

    return Eval(leaf)


def text_of(v):
    while v.k == "e" and v.op in ("trim", "trim_start", "trim_end", "clone", "ok", "deref", "to_string") and v.args:
        v = v.args[0]
    return v


def whole(c):
    return {(0, c.meta[2], c.meta[3])}


@contextlib.contextmanager
def literal(f):
    """cells made meanwhile hold the text f(name, width, kind) instead of an unknown one"""
    old, lists.LITERAL[0] = lists.LITERAL[0], f
    try:
        yield
    finally:
        lists.LITERAL[0] = old


def number(mode, name, width, dec, exp=False):
    """a literal number for a field: zero, negative, or as long as the field"""
    h = int(sample(name)) * 7 + width
    if width == 1:
        return str({"zero": 0, "negative": h % 9 + 1}.get(mode, 9))
    if mode == "zero":
        t = "0.%s" % ("0" * dec) if dec else "0"
        t += "E+00" if exp else ""
    elif exp:
        t = "%s%d.%0*dE%s%02d" % ("-" if mode == "negative" else "", h % 9 + 1, dec, h * 7919 % 10 ** dec, "-" if mode == "negative" else "+", h % 12)
    else:
        room = width - (dec + 1 if dec else 0)
        k = room - 1 if mode == "negative" else room
        n = (h * 7919 % (9 * 10 ** (k - 1))) + 10 ** (k - 1)
        t = ("-" if mode == "negative" else "") + str(n) + (".%0*d" % (dec, h * 31 % 10 ** dec) if dec else "")
    return t.rjust(width)


MODES = ("zero", "negative", "long")


def judge_text(u, exp, text):
    """the same when the field holds a known text"""
    if vague(u):
        return "unk", show(u)[:200]
    if isinstance(exp, T):
        if is_c(u, "str"):
            return ("ok", "") if cval(u).strip() == text.strip() else ("bad", "is %r instead of %r" % (cval(u), text.strip()))
        return "unk", show(u)[:200]
    if not isinstance(exp, N):
        return "unk", show(u)[:200]
    want = float(text.strip().replace("D", "E").replace("d", "e")) * exp.scale
    try:
        got = cval(u) if is_c(u, "int") or is_c(u, "f64") else numeric(u)(u)
    except Unk as e:
        return "unk", "%s in %s" % (e, show(u)[:160])
    if isinstance(got, bool) or isinstance(got, (list, str)) or not close(got, want, max(exp.rel, 1e-12)):
        return "bad", "is %r when %r is written" % (got, text.strip())
    return "ok", ""


def judge(v, exp):
    """(verdict, text): 'ok', 'bad' or 'unk'"""
    if isinstance(exp, ABS) or exp is ABS:
        if v is None:
            return "ok", ""
        if v.k == "agg" and v.a[1] == "None":
            return "ok", ""
        u = unopt(v)
        if vague(v):
            return "unk", show(v)
        if v.k == "agg" and v.a[1] == "Some":
            return "bad", "holds %s, nothing is written there" % show(u)[:200]
        return "unk", show(v)[:200]
    if v is None:
        return "bad", "absent"
    if v is TOP:
        return "unk", "unknown value"
    if isinstance(exp, Kt):
        u = unopt(v)
        if v.k == "j" or u.k == "j":
            ms = members(u)
            if any(exp.ok(m) for m in ms):
                return ("ok", "") if all(exp.ok(m) for m in ms) else ("unk", show(u)[:200])
            if vague(u):
                return "unk", show(u)[:200]
            return "bad", "is %s instead of %s" % (show(u)[:160], exp.what)
        if exp.ok(u) or exp.ok(v):
            return "ok", ""
        if vague(u) or u.k == "e":
            return "unk", show(u)[:200]
        return "bad", "is %s instead of %s" % (show(u)[:160], exp.what)
    u = unopt(v)
    if u.k == "agg" and u.a[1] in ("None", "Err"):
        return "bad", "is absent"
    if isinstance(exp, D):
        want = [c.meta[0] for c in exp.c]
        if vague(u):
            return "unk", show(u)[:200]
        got = order(u)
        for c in exp.c:
            cs = cells(u).get(c.meta[0])
            if cs and cs != whole(c):
                return "bad", "reads columns %s of the %d columns of %s" % (sorted(x[:2] for x in cs), cw_(c), c.meta[0])
        extra = set(cells(u)) - set(want)
        if extra:
            return "bad", "depends on %s" % ", ".join(sorted(extra))
        if not cells(u):
            if u.k == "c" or u.k == "agg":
                return "bad", "does not depend on the written date (%s)" % show(u)[:120]
            return "unk", show(u)[:200]
        miss = [w for w in want if w not in cells(u)]
        if miss:
            return "bad", "does not depend on %s" % ", ".join(miss)
        if got is not None and got != want:
            return "bad", "takes %s as %s" % (", ".join(got), ", ".join(want))
        return "ok", ""
    c = exp.c
    if is_c(c, "str"):
        return judge_text(u, exp, cval(c))
    name = c.meta[0]
    if vague(u):
        cs = cells(u)
        return "unk", show(u)[:200]
    cs = cells(u)
    if not cs:
        if u.k == "c" or (u.k == "agg" and not any(x.k == "e" for x in walk(u))):
            return "bad", "is %s whatever is written in its columns" % show(u)[:120]
        return "unk", show(u)[:200]
    other = sorted(set(cs) - {name})
    if other:
        return "bad", "is taken from the columns of %s" % ", ".join(other)
    if cs[name] != whole(c):
        return "bad", "is taken from columns %s of the %d its field has" % (", ".join("%d-%d" % x[:2] for x in sorted(cs[name])), c.meta[3])
    if u.k == "j":  # a default for a blank field, or a value known on one path
        ms = [m for m in members(u) if cells(m)]
        if len(ms) == 1 and all(is_c(m) for m in members(u) if m is not ms[0]):
            u = ms[0]
    if isinstance(exp, T):
        for m in members(u):
            t = text_of(m)
            if not is_t(t):
                return "unk", show(u)[:200]
            if len(t.args) != 1:
                return "bad", "holds more than its field: %s" % show(t)[:160]
        return "ok", ""
    try:
        got = numeric(u)(u)
    except Unk as e:
        return "unk", "%s in %s" % (e, show(u)[:160])
    want = sample(name) * exp.scale
    if isinstance(got, list) or not close(got, want, exp.rel):
        return "bad", "is %r when %r is written (expected %r)" % (got, sample(name), want)
    return "ok", ""


def cw_(c):
    return c.meta[2] - c.meta[1]


def order(u):
    """names of the date cells in the order a hifitime constructor received them"""
    best = None
    for x in walk(u):
        if x.k == "e" and x.op in ("call",) and "hifitime" in x.meta and len(x.args) >= 5:
            got = []
            for a in x.args:
                n = list(cells(a))
                if len(n) == 1:
                    got.append(n[0])
                elif len(n) > 1:
                    return None
            if best is None or len(got) > len(best):
                best = got
        if x.k == "e" and x.op in ("cat", "tmpl", "fmt") and len(x.args) >= 5:
            pass
    return best


def line(label, *segs):
    """a header line: content padded to 60 columns, then its label"""
    t = tmpl(*segs)
    n = tlen(t) if is_t(t) else len(cval(t))
    assert n <= 60, (label, n)
    return tmpl(t, " " * (60 - n) + label.ljust(20))


def reader_hook(lines):
    ls = lit([agg(RES, "Ok", 0, ("0",), (l,)) for l in lines])

    def hook(I_, f, args, st, fr, b):
        if f.get("name") == "lines" and (f.get("trait") or "").endswith("BufRead"):
            return ls
        return NotImplemented

    return hook


def run(R, group, where, value, exps, ctx=""):
    """exps: [(label, path, expectation)]"""
    for label, path, e in exps:
        key = "%s:%s" % (group, label)
        v = get(value, path) if value is not None else None
        if value is None or value is BOT or value is TOP:
            R.unknown(key, "no result")
            continue
        r, msg = judge(v, e)
        if r == "ok":
            R.ok(key, show(unopt(v))[:200] if v is not None else "absent")
        elif r == "bad":
            R.fail(key, "%s %s" % (label, msg) + ctx, where)
        else:
            R.unknown(key, msg)


# ------------------------------------------------------------------ what a writer wrote, as a template
def writer_hook(I_, f, args, st, fr, b):
    """std::io::Write on a text value: writing succeeds"""
    if (f.get("trait") or "") == "std::io::Write":
        n = f.get("name")
        if n in ("write_fmt", "write_all", "write"):
            s = I_.deref(args[1], st)
            models.append(I_, args[0], s, st)
            return agg(RES, "Ok", 0, ("0",), (C("unit", None) if n != "write" else E("len", None, s),))
        if n == "flush":
            return agg(RES, "Ok", 0, ("0",), (C("unit", None),))
    return NotImplemented


def hooks_of(*hs):
    def hook(I_, f, args, st, fr, b):
        for h in hs:
            r = h(I_, f, args, st, fr, b)
            if r is not NotImplemented:
                return r
        return NotImplemented

    return {"call": hook}


INTS = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize")


def one_digit(t):
    """an integer read from a field of one column is written in one column"""
    if t.k != "e" or t.op not in ("parse", "parse_int") or len(t.args) != 1:
        return False
    a = t.args[0]
    return is_t(a) and len(a.args) == 1 and not is_c(a.args[0]) and a.args[0].meta[2] - a.args[0].meta[1] == 1


def as_tmpl(v, reg, names=None):
    """the text of a cat(...) of constants and formatted pieces; every formatted piece of known width becomes a cell (reg: name -> (term, spec)). None: some width is not known"""
    if is_t(v) or is_c(v, "str"):
        return v
    if not (v.k == "e" and v.op in ("cat", "fa")):
        return None
    out = []
    for x in v.args if v.op == "cat" else (v,):
        if is_c(x, "str") or is_t(x):
            out.append(x)
            continue
        if x.k == "e" and x.op == "cat":
            y = as_tmpl(x, reg, names)
            if y is None:
                return None
            out.append(y)
            continue
        if not (x.k == "e" and x.op == "fa"):
            return None
        kind, ty, spec = x.meta
        meta = x.meta
        if spec[0] is None and ty in INTS and kind == "display" and one_digit(x.args[0]):
            spec = (1,) + tuple(spec[1:])
            meta = (kind, ty, spec)
        w, p, fill, align, zero = spec[:5]
        if w is None or (fill != " " and not zero):
            return None
        term = x.args[0]
        num = ty in INTS or ty in ("f32", "f64")
        nm = None
        for k, (t, s) in reg.items():
            if t is term and s == meta:
                nm = k
        if nm is None:
            nm = "%s#%d" % ((names or {}).get(term) or show(term)[:40], len(reg))
            reg[nm] = (term, meta)
        a = align or (">" if num else "<")
        k = "f" if zero else ({">": "r", "<": "l"}.get(a))
        if k is None or kind not in ("display", "lower_exp", "upper_exp", "lower_hex"):
            return None
        if kind in ("lower_exp", "upper_exp") and k == "r":
            k = "r"
        out.append(cell(nm, w, k))
    return tmpl(*out)

"""Abstract semantics of the std / itertools functions the crate calls.

Only *constant* operands are folded; anything else becomes an opaque term that
keeps its provenance (which column range, which format template, ...)."""
import re
from val import *
import lists

OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"

STRT = ("str", "&str", "&&str", "&mut str", "std::string::String", "&std::string::String", "&&std::string::String", "std::borrow::Cow<'_, str>", "&std::borrow::Cow<'_, str>")
INTS = ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "usize", "isize")


def coll(k, v):
    return agg("coll", "", 0, ("key", "val"), (k, v))


def is_coll(v):
    return v.k == "agg" and v.a[0] == "coll"


def to_coll(I_, v):
    if v.k == "agg" and v.a[0] in ("kvmap", "lit"):
        v = lists.smash(v)
    if v.k == "j":
        return joinall([to_coll(I_, m) for m in v.a[0]])
    if is_coll(v):
        return v
    if v.k == "agg" and v.a[0] == "[]":
        return coll(BOT, joinall(v.a[4]))
    if v is TOP or v is BOT:
        return coll(v, v)
    return coll(I_.E("key", None, v), I_.E("elem", None, v))


def elem_of(I_, v, ismap=False, seen=()):
    """abstract element of a collection value"""
    if v.k == "j":
        return joinall([elem_of(I_, m, ismap, seen) for m in v.a[0]])
    if v is TOP or v is BOT:
        return v
    if v.k == "agg" and v.a[0] == "kvmap":
        v = lists.smash(v)
    if is_coll(v):
        return tup(*v.a[4]) if ismap else v.a[4][1]
    if v.k == "agg" and v.a[0] in ("[]", "lit"):
        return joinall(v.a[4])
    if v.k == "agg" and v.a[0] == OPT:
        return v.a[4][0] if v.a[4] else BOT
    if v.k == "e" and v.op == "iter":
        return v.args[0]
    if v.k == "e" and v.op == "phi":
        ms = I_.phi.get(v)
        if ms:
            if v in seen:
                return BOT
            r = [elem_of(I_, m, ismap, seen + (v,)) for m in ms if not (m.k == "e" and m.op == "phi")]
            r = joinall(r)
            if r is not BOT:
                return r
    if v.k == "e" and v.op == "mut":
        return elem_of(I_, v.args[0], ismap)
    if v.k == "agg" and v.a[0].startswith("std::ops::Range"):
        return I_.E("range", None, *v.a[4])
    if ismap:
        return tup(I_.E("key", None, v), I_.E("elem", None, v))
    return I_.E("elem", None, v)


def mkiter(I_, tag, el):
    return E("iter", tag, el)


# ------------------------------------------------------------------ strings
def str_len(I_, v):
    if v.k == "j":
        return joinall([str_len(I_, m) for m in v.a[0]])
    if is_c(v, "str"):
        return I(len(cval(v).encode()))
    if is_c(v, "bytes"):
        return I(len(cval(v)))
    if v.k == "agg" and v.a[0] == "[]":
        return I(len(v.a[4]))
    if v.k == "e" and v.op == "tmpl" and not v.meta:
        return I(lists.tlen(v))
    return I_.E("len", None, v)


def clip(v):
    """min(const, len) is a defensive clip of a column bound"""
    if v.k == "e" and v.op == "min":
        for x in v.args:
            if is_c(x, "int"):
                return x
    return v


def default_of(I_, t):
    """the default value of a type given by name"""
    t = t.lstrip("&").strip()
    if t.startswith("'"):
        t = t.split(" ", 1)[-1]
    if t in INTS:
        return I(0)
    if t in ("f64", "f32"):
        return C("f64", 0.0)
    if t == "bool":
        return B(False)
    if t == "str" or t.endswith("string::String"):
        return S("")
    if t.startswith(OPT):
        return I_.NONE
    if I_.lists:
        e = lists.empty_of(t)
        if e is not None:
            return e
    return E("default", None)


def slc(I_, v, lo, hi):
    """v[lo..hi]; hi None = open"""
    if v.k == "j":
        return joinall([slc(I_, m, lo, hi) for m in v.a[0]])
    if v is TOP or v is BOT:
        return v
    lo = I(0) if lo is None else clip(lo)
    if hi is not None:
        hi = clip(hi)
        if hi.k == "e" and hi.op == "len" and hi.args[0] is v:
            hi = None
    if lo.k == "j" or (hi is not None and hi.k == "j"):
        return joinall([slc(I_, v, a, b) for a in members(lo) for b in (members(hi) if hi is not None else [None])])
    if v.k == "e" and v.op == "tmpl":
        r = lists.t_slice_pos(v, lo, hi)
        if r is not None:
            return r
    cl = is_c(lo, "int")
    ch = hi is None or is_c(hi, "int")
    if cl and ch:
        a = cval(lo)
        b = None if hi is None else cval(hi)
        if is_c(v, "str"):
            s = cval(v)
            if a > len(s) or (b is not None and (b > len(s) or b < a)):
                return BOT
            return S(s[a:b])
        if v.k == "agg" and v.a[0] == "[]":
            return arrv(v.a[4][a:b])
        if a == 0 and b is None:
            return v
        if v.k == "e" and v.op == "tmpl":
            r = lists.t_slice(v, a, b)
            if r is not None:
                return r
        if v.k == "e" and v.op == "slice":
            a0, b0 = v.meta
            na = a0 + a
            nb = b0 if b is None else (a0 + b if b0 is None else min(b0, a0 + b))
            return I_.E("slice", (na, nb), v.args[0])
        return I_.E("slice", (a, b), v)
    return I_.E("slicev", None, v, lo, hi if hi is not None else UNIT)


TRIM = {
    "trim": lambda s: s.strip(),
    "trim_start": lambda s: s.lstrip(),
    "trim_end": lambda s: s.rstrip(),
    "trim_left": lambda s: s.lstrip(),
    "trim_right": lambda s: s.rstrip(),
}
CASE = {
    "to_uppercase": str.upper,
    "to_lowercase": str.lower,
    "to_ascii_uppercase": str.upper,
    "to_ascii_lowercase": str.lower,
}


def strop(I_, name, v):
    def f(x):
        if is_c(x, "str") or is_c(x, "char"):
            fn = TRIM.get(name) or CASE.get(name)
            return C(x.a[0], fn(cval(x)))
        if x.k == "e" and x.op == "tmpl" and name.startswith("trim"):
            return lists.t_trim(x, {"trim": "lr", "trim_start": "l", "trim_left": "l"}.get(name, "r"))
        if x.k == "e" and x.op == name:
            return x
        if x.k == "e" and x.op == "trim" and name.startswith("trim"):
            return x
        if name == "trim" and x.k == "e" and x.op in ("trim_start", "trim_end"):
            return I_.E("trim", None, x.args[0])
        nm = {"to_ascii_uppercase": "upper", "to_uppercase": "upper", "to_ascii_lowercase": "lower", "to_lowercase": "lower"}.get(name, name)
        return I_.E(nm, None, x)

    return I_.map(f, v)


def cat(I_, a, b):
    """string append"""
    if a.k == "j" or b.k == "j":
        n = (len(a.a[0]) if a.k == "j" else 1) * (len(b.a[0]) if b.k == "j" else 1)
        if n > 24:
            return I_.E("cat", None, a, b)
        return joinall([cat(I_, x, y) for x in members(a) for y in members(b)])
    if a is BOT or b is BOT:
        return BOT
    if a is TOP:
        return TOP
    if (lists.is_t(a) or is_c(a)) and (lists.is_t(b) or is_c(b)) and (lists.is_t(a) or lists.is_t(b)):
        r = lists.t_cat(a, b)
        if r is not None:
            return r
    pa = list(a.args) if a.k == "e" and a.op == "cat" else [a]
    pb = list(b.args) if b.k == "e" and b.op == "cat" else [b]
    out = []
    for p in pa + pb:
        if is_c(p, "char"):
            p = S(cval(p))
        if is_c(p, "str"):
            if cval(p) == "":
                continue
            if out and is_c(out[-1], "str"):
                out[-1] = S(cval(out[-1]) + cval(p))
                continue
        out.append(p)
    if not out:
        return S("")
    if len(out) == 1 and (is_c(out[0]) or (out[0].k == "e" and out[0].op != "cat")):
        return out[0]
    if len(out) > 400:
        return E("cat", None, E("big", None))
    return I_.E("cat", None, *out)


def decode_template(bs):
    """core::fmt template bytes -> list of ('lit', s) / ('arg', index, spec)"""
    out = []
    i = 0
    n = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(("lit", bytes(bs[i : i + b]).decode("utf8", "replace")))
            i += b
        elif b == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("lit", bytes(bs[i : i + ln]).decode("utf8", "replace")))
            i += ln
        else:
            flags = None
            width = prec = None
            wi = pi = False
            if b & 1:
                flags = int.from_bytes(bytes(bs[i : i + 4]), "little")
                i += 4
            if b & 2:
                width = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 4:
                prec = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 8:
                n = bs[i] | bs[i + 1] << 8
                i += 2
            wi = bool(b & 0x10)
            pi = bool(b & 0x20)
            fill, align, zero, plus, alt = " ", "", False, False, False
            if flags is not None:
                fill = chr(flags & 0x1FFFFF)
                plus = bool(flags & (1 << 21))
                alt = bool(flags & (1 << 23))
                zero = bool(flags & (1 << 24))
                align = {0: "<", 1: ">", 2: "^", 3: ""}[(flags >> 29) & 3]
                if prec is None and flags & (1 << 28):
                    prec = 0  # a value of zero is left out of the template
            out.append(("arg", n, (width, prec, fill, align, zero, plus, alt), wi, pi))
            n += 1
    return out


NUMT = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64")
NOSPEC = (None, None, " ", "", False, False, False)


def pad_const(s, spec, numeric):
    w, p, fill, align, zero, plus, alt = spec
    if w is None or len(s) >= w:
        return s
    if numeric and zero:
        sign = ""
        if s[:1] in "+-":
            sign, s = s[0], s[1:]
        return sign + s.rjust(w - len(sign), "0")
    a = align or (">" if numeric else "<")
    if a == "<":
        return s.ljust(w, fill)
    if a == ">":
        return s.rjust(w, fill)
    tot = w - len(s)
    return fill * (tot // 2) + s + fill * (tot - tot // 2)


def fmt_piece(I_, kind, ty, v, spec, st, fr, b):
    """one formatted argument -> string value"""
    v = I_.deref(v, st)
    if v.k == "j" and len(v.a[0]) <= 12:
        return joinall([fmt_piece(I_, kind, ty, m, spec, st, fr, b) for m in members(v)])
    t = ty.replace("&mut ", "").replace("&", "").strip()
    t = re.sub(r"'\w+ ", "", t)
    r = ext_fmt(I_, kind, t, v)
    if r is not None:
        return r
    if kind in ("lower_hex", "upper_hex") and is_c(v, "int") and t in ("u8", "u16", "u32", "u64", "usize") and not spec[6]:
        return S(pad_const(("%x" if kind == "lower_hex" else "%X") % cval(v), spec, True))
    if kind == "display":
        if v.k == "c":
            tag = v.a[0]
            x = cval(v)
            if tag in ("str", "char"):
                s = x
                if spec[1] is not None:
                    s = s[: spec[1]]
                return S(pad_const(s, spec, False))
            if tag == "bool":
                return S(pad_const("true" if x else "false", spec, False))
            if tag == "int":
                return S(pad_const(("+" if spec[5] and x >= 0 else "") + str(x), spec, True))
            if tag == "f64":
                s = ("%." + str(spec[1]) + "f") % x if spec[1] is not None else (str(int(x)) if x == int(x) and abs(x) < 1e15 else repr(x))
                return S(pad_const(("+" if spec[5] and x >= 0 else "") + s, spec, True))
        if t in STRT or t in ("str", "std::string::String"):
            if spec == NOSPEC:
                return v
            if v.k == "e" and v.op == "cat" and spec[0] is None and spec[1] is None:
                return v
            import lists

            if lists.is_t(v) and spec[1] is None and spec[0] is not None:
                n = spec[0] - lists.tlen(v)
                if n <= 0:
                    return v
                a = spec[3] or "<"
                k = {"<": (0, n), ">": (n, 0)}.get(a, (n // 2, n - n // 2))
                return lists.tmpl(spec[2] * k[0], v, spec[2] * k[1])
    tr = {"display": "std::fmt::Display", "debug": "std::fmt::Debug", "lower_hex": "std::fmt::LowerHex", "upper_hex": "std::fmt::UpperHex", "upper_exp": "std::fmt::UpperExp", "lower_exp": "std::fmt::LowerExp", "octal": "std::fmt::Octal"}.get(kind)
    fn = I_.p.trait_fn(tr, t, "fmt") if tr else None
    if kind == "debug" and fn is not None and v.k == "agg" and v.a[1] and not v.a[4] and fn.get("derived"):
        return S(v.a[1])
    if fn is not None and not (kind == "debug" and fn.get("derived")) and fr.depth < I_.maxdepth and fr.stack.count(fn.id) < 1 and not I_.opaque(fn):
        fr.site += 1
        k = (fr.fid, "fmt%d_%d" % (b, fr.site))
        st[k] = agg("Formatter", "", 0, ("buf", "spec"), (S(""), C("spec", spec)))
        r = I_.call(fn, [v, ptr(k[0], k[1], ())], st, fr, b)
        f = st.pop(k)
        if f.k == "agg" and f.a[0] == "Formatter":
            return f.a[4][0]
        return I_.E("fa", (kind, t, spec), v)
    r = I_.E("fa", (kind, t, spec), v)
    if I_.reg is not None and spec[0] is not None and t in NUMT and v.k == "e":
        import templ

        c = templ.as_tmpl(r, I_.reg)
        if c is not None:
            return c
    return r


def arguments(I_, template, args, st, fr, b):
    out = S("")
    for p in decode_template(template):
        if p[0] == "lit":
            out = cat(I_, out, S(p[1]))
            continue
        _, n, spec, wi, pi = p
        a = args[n] if n < len(args) else TOP
        spec = list(spec)
        if wi:
            w = args[spec[0]] if spec[0] is not None and spec[0] < len(args) else TOP
            spec[0] = cval(w.args[0]) if w.k == "e" and w.op == "fmtarg" and is_c(w.args[0], "int") else "*"
        if pi:
            w = args[spec[1]] if spec[1] is not None and spec[1] < len(args) else TOP
            spec[1] = cval(w.args[0]) if w.k == "e" and w.op == "fmtarg" and is_c(w.args[0], "int") else "*"
        spec = tuple(spec)
        if a.k == "e" and a.op == "fmtarg":
            kind, ty = a.meta
            out = cat(I_, out, fmt_piece(I_, kind, ty, a.args[0], spec, st, fr, b) if "*" not in spec[:2] else I_.E("fa", (kind, ty, spec), a.args[0]))
        else:
            out = cat(I_, out, E("fa", ("?", "?", spec), a))
    return out


def append(I_, w, s, st):
    """append text to the writer/string behind a mutable pointer"""
    for m in members(w):
        if m.k != "ptr":
            continue
        old = I_.load(st, m)
        if old.k == "ptr":
            return append(I_, old, s, st)

        def f(o):
            if o.k == "agg" and o.a[0] == "Formatter":
                return agg(*o.a[:4], (cat(I_, o.a[4][0], s), o.a[4][1]))
            if o.k == "j":
                return joinall([f(x) for x in o.a[0]])
            return cat(I_, o, s)

        I_.store(st, m, f(old))


# ------------------------------------------------------------------ equality
def deepcmp(a, b):
    """True/False/None(unknown)"""
    if a.k == "c" and b.k == "c":
        if a.a[0] == b.a[0] or {a.a[0], b.a[0]} <= {"str", "bytes"}:
            return cval(a) == cval(b)
        return None
    if a.k == "e" and b.k == "e" and a.op == "epoch" and b.op == "epoch" and a.meta[7] == b.meta[7]:
        return a.meta == b.meta
    if a.k == "agg" and b.k == "agg":
        if a.a[0] != b.a[0]:
            return None
        if a.a[0] == "coll":
            return None
        if a.a[2] != b.a[2] or a.a[1] != b.a[1]:
            return False
        if len(a.a[4]) != len(b.a[4]):
            return False if a.a[0] == "[]" else None
        r = True
        for x, y in zip(a.a[4], b.a[4]):
            q = deepcmp(x, y)
            if q is False:
                return False
            if q is None:
                r = None
        return r
    return None


def order(I_, x, y, st, fr, b):
    """-1, 0, 1 or None (undecided) for two aggregates of one type"""
    if x.a[0] != y.a[0]:
        return None
    ty = x.a[0]
    fn = I_.p.trait_fn("std::cmp::PartialOrd", ty, "partial_cmp")
    if fn is not None and not fn.get("derived"):
        r = I_.call(fn, [x, y], st, fr, b)
        if r is not None and r.k == "agg" and r.a[1] == "Some":
            r = r.a[4][0]
        if r is not None and r.k == "agg" and r.a[1] in ("Less", "Equal", "Greater"):
            return {"Less": -1, "Equal": 0, "Greater": 1}[r.a[1]]
        return None
    if x.a[2] != y.a[2]:
        return -1 if x.a[2] < y.a[2] else 1
    for p, q in zip(x.a[4], y.a[4]):
        if p is q:
            continue
        if is_c(p) and is_c(q):
            if cval(p) != cval(q):
                return -1 if cval(p) < cval(q) else 1
            continue
        if p.k == "agg" and q.k == "agg":
            o = order(I_, p, q, st, fr, b)
            if o == 0:
                continue
            return o
        return None
    return 0


def uncased(v):
    """numbers are the same text in either case, as far as letters other than their exponent go"""
    if v.k == "e" and v.op in ("lower", "upper") and len(v.args) == 1 and lists.is_t(v.args[0]) and not any(c.k == "e" and c.meta[4] == "l" for c in v.args[0].args):
        return v.args[0]
    return v


def equality(I_, a, b, neg=False):
    def f(x, y):
        r = deepcmp(x, y)
        if r is None and I_.lists:
            x2, y2 = uncased(x), uncased(y)
            if lists.is_t(x2) or lists.is_t(y2):
                r = lists.t_eq(x2, y2)
        if r is None:
            if is_c(x) or (x.k == "agg" and y.k == "e"):
                x, y = y, x
            return I_.E("ne" if neg else "eq", None, x, y)
        return B(r != neg)

    return I_.map(f, a, b)


def const_parse(ty, s):
    s0 = s
    try:
        if ty in INTS:
            if not re.fullmatch(r"[+-]?\d+", s) or (ty[0] == "u" and s.startswith("-")):
                return None, True
            n = int(s)
            bits = 64 if "size" in ty else int(ty[1:])
            lo, hi = (0, (1 << bits) - 1) if ty[0] == "u" else (-(1 << bits - 1), (1 << bits - 1) - 1)
            if not lo <= n <= hi:
                return None, True
            return I(n), True
        if ty in ("f64", "f32"):
            if not re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?|[+-]?(inf|infinity|nan)", s, re.I):
                return None, True
            return C("f64", float(s)), True
        if ty == "char":
            return (C("char", s), True) if len(s) == 1 else (None, True)
        if ty == "bool":
            return (B(s == "true"), True) if s in ("true", "false") else (None, True)
        if ty == "std::string::String":
            return S(s), True
    except ValueError:
        pass
    return None, False


def parse(I_, ty, x, st, fr, b):
    """str::parse::<ty> / FromStr::from_str"""
    ty = re.sub(r"'\w+ ", "", ty)
    fn = I_.p.trait_fn("std::str::FromStr", ty, "from_str")
    if fn is not None and not I_.opaque(fn) and fr.depth < I_.maxdepth and fr.stack.count(fn.id) < 1:
        fr.site += 1
        r = I_.call(fn, [x], st, fr, b)
        return r if r is not None else BOT

    def f(v):
        if ty in (CONSTEL, SVT, TSC, "gnss::domes::DOMES", "gnss::cospar::COSPAR"):
            r = ext_parse(I_, ty, v)
            if r is not None:
                return r
        if ty == "hifitime::Epoch" and is_c(v, "str"):
            import dates

            e = dates.from_text(cval(v))
            if e is not None and e is not False:
                return I_.ok(e)
        if is_c(v, "str"):
            r, known = const_parse(ty, cval(v))
            if known:
                return I_.ok(r) if r is not None else I_.err(E("parse_err", ty))
        if lists.wf(v) and lists.dexp(v):
            return I_.err(E("parse_err", ty))
        if v.k == "e" and v.op == "tmpl" and (ty in INTS or ty in ("f64", "f32")) and any(is_c(x, "str") and set(cval(x)) - set("0123456789+-" + ("" if ty in INTS else ".eEinftyaINFTYA")) for x in v.args):
            return I_.err(E("parse_err", ty))  # a character no number has
        if lists.wf(v):
            # a well formed field
            return I_.ok(I_.E("parse", ty, v))
        return I_.mkres(I_.E("parse", ty, v), E("parse_err", ty))

    return I_.map(f, x)


def slf_int(path):
    m = re.search(r"<impl ([iu](?:8|16|32|64|128|size))>", path)
    return m.group(1) if m else None


def pat_test(I_, name, s, p):
    """starts_with / ends_with / contains on constants"""

    def f(x, y):
        if is_c(x, "str") and (is_c(y, "str") or is_c(y, "char")):
            a, b = cval(x), cval(y)
            return B({"starts_with": a.startswith, "ends_with": a.endswith, "contains": a.__contains__}[name](b))
        if x.k == "e" and x.op == "tmpl" and (is_c(y, "str") or is_c(y, "char")):
            r = lists.t_test(name, x, cval(y))
            if r is not None:
                return B(r)
        return I_.E(name, None, x, y)

    return I_.map(f, s, p)


def range_bounds(v):
    if v.k == "agg":
        n = v.a[0].split("::")[-1]
        fs = v.a[4]
        if n == "Range":
            return fs[0], fs[1]
        if n == "RangeFrom":
            return fs[0], None
        if n == "RangeTo":
            return None, fs[0]
        if n == "RangeFull":
            return None, None
        if n == "RangeInclusive":
            return fs[0], (I(cval(fs[1]) + 1) if is_c(fs[1], "int") else E("bin", "Add", fs[1], I(1)))
        if n == "RangeToInclusive":
            return None, (I(cval(fs[0]) + 1) if is_c(fs[0], "int") else E("bin", "Add", fs[0], I(1)))
    if v.k == "c" and v.a[0] == "unit":
        return None, None
    return False


def within(I_, r, x):
    """x is in the range r"""
    rb = range_bounds(r)
    if rb and all(y is None or is_c(y) and y.a[0] == x.a[0] for y in rb if is_c(x, "int") or is_c(x, "f64")) and (is_c(x, "int") or is_c(x, "f64")):
        lo, hi = rb
        if is_c(x, "f64") and r.a[0].endswith("Inclusive"):
            return I_.E("in_range", None, r, x)
        return B((lo is None or cval(lo) <= cval(x)) and (hi is None or cval(x) < cval(hi)))
    return I_.E("in_range", None, r, x)


IDENT = {
    "deref", "deref_mut", "as_str", "as_ref", "as_mut", "borrow", "borrow_mut", "to_owned", "into", "as_bytes", "as_slice",
    "must_use", "into_boxed_slice", "by_ref", "as_mut_str", "as_bytes_mut", "to_vec", "into_bytes", "as_mut_slice", "to_string_lossy",
    "into_owned", "as_deref", "as_deref_mut", "cloned", "copied", "clone", "from_utf8_lossy", "as_os_str", "identity",
}
ITER_SAME = {"filter", "rev", "skip", "take", "step_by", "peekable", "cloned", "copied", "by_ref", "unique", "sorted", "skip_while", "take_while", "fuse", "sorted_by", "sorted_by_key", "sorted_unstable", "inspect", "cycle", "unique_by", "dedup", "into_iter", "iter", "iter_mut", "drain"}
DIVERGE = {"panic_fmt", "panic", "panic_display", "unreachable_display", "panic_nounwind", "begin_panic", "exit", "abort", "unwrap_failed", "expect_failed", "panic_explicit"}
MATH1 = {"sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "ln", "abs", "floor", "ceil", "round", "trunc", "fract", "to_radians", "to_degrees", "log10", "sin_cos", "is_nan", "is_finite", "is_infinite", "signum"}


def local_from(P, t, u):
    """the conversion the program defines from t to u (its From or Into impl)"""
    d = getattr(P, "_from", None)
    if d is None:
        d = P._from = {}
        for g in P.fns.values():
            m = re.match(r"^<(.+) as std::convert::From<(.+)>>::from$", g.path) or re.match(r"^.*<impl std::convert::From<(.+)> for (.+)>::from$", g.path)
            if m:
                d[(m[2], m[1]) if g.path.startswith("<") else (m[1], m[2])] = g
            m = re.match(r"^<(.+) as std::convert::Into<(.+)>>::into$", g.path)
            if m:
                d[(m[1], m[2])] = g
    return d.get((t, u))


def model(I_, f, args, st, fr, b, loop):
    path = f.get("path") or ""
    n = f.get("name") or path.split("::")[-1]
    slf = f.get("self") or ""
    tr = f.get("trait") or ""
    targs = f.get("targs") or []
    D = lambda i: I_.deref(args[i], st)

    if n in DIVERGE:
        return None
    if I_.lists:
        r = lists.pre(I_, f, args, st, fr, b)
        if r is not NotImplemented:
            return r
    if path.startswith("core::fmt::rt::Argument"):
        if n.startswith("new_"):
            return E("fmtarg", (n[4:], targs[0] if targs else "?"), D(0))
        if n == "from_usize":
            return E("fmtarg", ("usize", "usize"), D(0))
    if path.startswith("std::fmt::Arguments"):
        if n == "new":
            t, a = D(0), D(1)
            if is_c(t, "bytes"):
                av = list(a.a[4]) if a.k == "agg" and a.a[0] == "[]" else []
                return arguments(I_, cval(t), av, st, fr, b)
            return TOP
        if n.startswith("from_str"):
            return D(0)
        if n == "as_str":
            v = D(0)
            return I_.some(v) if is_c(v, "str") else I_.mkopt(v)
    if path == "std::fmt::format" or path.endswith("fmt::format_inner") or n == "format" and "fmt" in path:
        return D(0)
    # ---- writers
    if n in ("write_fmt", "write_str", "write_all", "push_str", "write_char", "push", "pad", "extend_from_slice", "write") and (
        "fmt::Formatter" in path or tr in ("std::fmt::Write", "std::io::Write") or "string::String" in path
    ):
        s = D(1)
        if n == "pad":
            o = D(0)
            if o.k == "agg" and o.a[0] == "Formatter" and o.a[4][1].k == "c":
                sp = cval(o.a[4][1])
                s = I_.map(lambda x: S(pad_const(cval(x), sp, False)) if is_c(x, "str") else (x if sp == NOSPEC else I_.E("fa", ("display", "str", sp), x)), s)
        append(I_, args[0], s, st)
        if "string::String" in path:
            return UNIT
        if I_.lists and "fmt::Formatter" in path:
            return I_.ok(UNIT)  # the formatter of a text does not fail
        return I_.mkres(UNIT, E("write_err", None))
    if n == "flush" and tr == "std::io::Write":
        return I_.mkres(UNIT, E("write_err", None))
    if n == "fmt" and tr.startswith("std::fmt::"):
        # delegated formatting: spec of the formatter carries over
        v = D(0)
        o = D(1)
        sp = NOSPEC
        if o.k == "agg" and o.a[0] == "Formatter" and o.a[4][1].k == "c":
            sp = cval(o.a[4][1])
        kind = {"Display": "display", "Debug": "debug", "LowerHex": "lower_hex", "UpperHex": "upper_hex", "LowerExp": "lower_exp", "UpperExp": "upper_exp"}.get(tr.split("::")[-1], "?")
        append(I_, args[1], fmt_piece(I_, kind, slf, v, sp, st, fr, b), st)
        return I_.mkres(UNIT, E("fmt_err", None))

    if n == "from_str_radix" and slf_int(path) and is_c(D(1), "int") and cval(D(1)) == 10 and all(is_c(x, "str") or lists.wf(x) for x in members(D(0))):
        return parse(I_, slf_int(path), D(0), st, fr, b)
    if path.startswith("lazy_static::lazy::Lazy") and n == "get" and I_.lists and len(args) == 2:
        r = I_.apply(args[1], [], st, fr, b)
        return r if r is not None else BOT

    # ---- strings
    isstr = "<impl str>" in path or path.startswith("std::string::String")
    if isstr:
        if n in TRIM or n in CASE:
            return strop(I_, n, D(0))
        if n == "split_at":
            x, k = D(0), D(1)
            return tup(slc(I_, x, I(0), k), slc(I_, x, k, None))
        if n in ("len",):
            return str_len(I_, D(0))
        if n == "is_empty":
            return I_.map(lambda x: B(cval(x) == "") if is_c(x, "str") else (B(False) if lists.is_t(x) else I_.E("is_empty", None, x)), D(0))
        if n in ("contains", "starts_with", "ends_with"):
            if D(1).k in ("agg",) or is_c(D(1), "fn"):
                p = D(1)
                if p.k == "agg" and p.a[0] == "[]":
                    rs = [pat_test(I_, n, D(0), c) for c in p.a[4]]
                    if all(is_c(r, "bool") for r in rs):
                        return B(any(cval(r) for r in rs))
                else:
                    I_.apply(p, [I_.E("char", None, D(0))], st, fr, b)
                return I_.E(n, None, D(0), D(1))
            return pat_test(I_, n, D(0), D(1))
        if n == "parse":
            return parse(I_, targs[-1] if targs else "?", D(0), st, fr, b)
        if n in ("trim_start_matches", "trim_end_matches", "trim_matches", "trim_left_matches", "trim_right_matches"):

            def h(x, p):
                if not (is_c(x, "str") and (is_c(p, "str") or is_c(p, "char")) and cval(p)):
                    return I_.E(n, cval(p) if is_c(p) else "?", x)
                a, q = cval(x), cval(p)
                while n not in ("trim_end_matches", "trim_right_matches") and a.startswith(q):
                    a = a[len(q):]
                while n not in ("trim_start_matches", "trim_left_matches") and a.endswith(q):
                    a = a[: len(a) - len(q)]
                return S(a)

            if D(1).k == "agg" and D(1).a[0] == "[]" and is_c(D(0), "str") and all(is_c(c, "char") for c in D(1).a[4]):
                cs = "".join(cval(c) for c in D(1).a[4])
                f = {"trim_matches": str.strip, "trim_start_matches": str.lstrip, "trim_left_matches": str.lstrip}.get(n, str.rstrip)
                return S(f(cval(D(0)), cs))
            if D(1).k not in ("agg",) and not is_c(D(1), "fn"):
                return I_.map(h, D(0), D(1))
        if n in ("strip_prefix", "strip_suffix"):

            def g(x, p):
                if is_c(x, "str") and is_c(p):
                    a, q = cval(x), cval(p)
                    if n == "strip_prefix":
                        return I_.some(S(a[len(q):])) if a.startswith(q) else I_.NONE
                    return I_.some(S(a[: len(a) - len(q)])) if a.endswith(q) else I_.NONE
                return I_.mkopt(I_.E(n, None, x, p))

            return I_.map(g, D(0), D(1))
        if n == "replace":

            def g(x, p, q):
                if is_c(x, "str") and is_c(p) and is_c(q):
                    return S(cval(x).replace(cval(p), cval(q)))
                if lists.is_t(x) and is_c(p) and is_c(q):
                    r = lists.t_replace(x, cval(p), cval(q))
                    if r is not None:
                        return r
                return I_.E("replace", (cval(p) if is_c(p) else "?", cval(q) if is_c(q) else "?"), x)

            p, w = D(1), D(2)
            if p.k == "agg" and p.a[0] == "[]" and all(is_c(c, "char") for c in p.a[4]) and is_c(w, "str") and not any(cval(c) in cval(w) for c in p.a[4]):
                x = D(0)
                for c in p.a[4]:
                    x = I_.map(g, x, c, w)
                return x
            return I_.map(g, D(0), D(1), D(2))
        if n == "lines":
            return mkiter(I_, "lines", I_.E("line", None, D(0)))
        if n in ("split", "rsplit", "split_terminator", "splitn"):
            p = D(len(args) - 1)
            return mkiter(I_, "split", I_.E("part", cval(p) if is_c(p) else "?", D(0)))
        if n in ("split_ascii_whitespace", "split_whitespace"):
            return mkiter(I_, "words", I_.E("word", None, D(0)))
        if n in ("chars", "bytes", "char_indices"):
            x = D(0)
            if is_c(x, "str") and n == "chars":
                return E("iter", "constchars", joinall([C("char", c) for c in cval(x)]) if cval(x) else BOT, x)
            el = I_.E("char" if n != "bytes" else "byte", None, x)
            return mkiter(I_, "chars", tup(E("index", None), el) if n == "char_indices" else el)
        if n == "get":
            r = range_bounds(D(1))
            if r:
                v = slc(I_, D(0), *r)
                if v is not BOT and (is_c(v, "str") or lists.is_t(v)) and (is_c(D(0), "str") or lists.is_t(D(0))):
                    return I_.some(v)
                return I_.mkopt(v) if v is not BOT else I_.NONE
        if n == "find" and lists.is_t(D(0)):
            r = lists.t_find(I_, D(0), D(1), st, fr, b)
            if r is not None:
                return r
        if n in ("find", "rfind") and is_c(D(0), "str") and len(cval(D(0))) <= 80 and not is_c(D(1)) and "closure" in show(D(1)):
            x = cval(D(0))
            known = True
            for i in range(len(x)) if n == "find" else range(len(x) - 1, -1, -1):
                r = I_.apply(args[1], [C("char", x[i])], st, fr, b)
                if not is_c(r, "bool"):
                    known = False
                    break
                if cval(r):
                    return I_.some(I(i))
            if known:
                return I_.NONE
        if n in ("find", "rfind"):
            return I_.map(lambda x, p: (I_.some(I(getattr(cval(x), n)(cval(p)))) if cval(p) in cval(x) else I_.NONE) if is_c(x, "str") and (is_c(p, "str") or is_c(p, "char")) else I_.mkopt(I_.E(n, None, x, p)), D(0), D(1))
        if n == "eq_ignore_ascii_case":
            return I_.map(lambda x, y: B(cval(x).lower() == cval(y).lower()) if is_c(x, "str") and is_c(y, "str") else I_.E("eqi", None, x, y), D(0), D(1))
        if n in ("split_once", "rsplit_once"):
            p = D(1)
            x = D(0)
            if lists.is_t(x) and is_c(p) and n == "split_once":
                r = lists.t_find(I_, x, p, st, fr, b)
                if r is I_.NONE:
                    return r
                if r is not None:
                    at = r.a[4][0]
                    return I_.some(tup(slc(I_, x, I(0), at), slc(I_, x, I_.bin1("Add", at, I(len(cval(p)))), None)))
            if is_c(x, "str") and is_c(p):
                a, sep, c = cval(x).partition(cval(p))
                return I_.some(tup(S(a), S(c))) if sep else I_.NONE
            return I_.mkopt(tup(I_.E("before", cval(p) if is_c(p) else "?", x), I_.E("after", cval(p) if is_c(p) else "?", x)))
        if n == "repeat":
            return I_.map(lambda x, k: S(cval(x) * cval(k)) if is_c(x, "str") and is_c(k, "int") and cval(k) < 200 else I_.E("repeat", None, x, k), D(0), D(1))
        if n in ("new", "with_capacity"):
            return S("")
        if n in ("as_str", "as_bytes", "as_mut_str", "to_string", "into_bytes", "as_bytes_mut", "into_boxed_str", "as_ref"):
            return args[0] if n in ("as_mut_str", "as_bytes_mut") else D(0)
        if n == "clear":
            I_.store(st, args[0], S("")) if args[0].k == "ptr" else None
            return UNIT
        if n == "from_utf8_lossy":
            return D(0)
        if n == "insert_str" or n == "insert":
            if args[0].k == "ptr":
                I_.store(st, args[0], cat(I_, D(2), D(0)) if is_c(D(1), "int") and cval(D(1)) == 0 else I_.E("insert_str", None, D(0), D(1), D(2)))
            return UNIT
        if n == "pop":
            x = D(0)
            if is_c(x, "str"):
                return I_.some(C("char", cval(x)[-1])) if cval(x) else I_.NONE
        if n == "chars" or n == "is_char_boundary":
            return I_.E(n, None, *[D(i) for i in range(len(args))])
    if path in ("std::str::from_utf8", "core::str::from_utf8", "std::string::String::from_utf8"):
        return I_.mkres(D(0), E("utf8_err", None))
    if n == "from_str" and tr == "std::str::FromStr":
        return parse(I_, slf, D(0), st, fr, b)
    if n in ("is_ascii_alphabetic", "is_ascii_digit", "is_numeric", "is_alphabetic", "is_ascii_uppercase", "is_whitespace", "is_alphanumeric", "is_ascii_alphanumeric", "is_digit", "is_ascii_punctuation", "is_uppercase", "is_ascii_lowercase", "is_ascii_whitespace") and args:
        fns = {"is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(), "is_ascii_digit": lambda c: c.isascii() and c.isdigit(), "is_digit": lambda c: c.isascii() and c.isdigit(), "is_numeric": str.isnumeric, "is_alphabetic": str.isalpha, "is_ascii_uppercase": lambda c: c.isascii() and c.isupper(), "is_uppercase": str.isupper, "is_whitespace": str.isspace, "is_ascii_whitespace": str.isspace, "is_alphanumeric": str.isalnum, "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(), "is_ascii_lowercase": lambda c: c.isascii() and c.islower(), "is_ascii_punctuation": lambda c: c in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"}
        return I_.map(lambda x: B(fns[n](cval(x))) if is_c(x, "char") else I_.E(n, None, x), D(0))
    if n == "to_digit" and "char" in path:
        return I_.map(lambda x: (I_.some(I(int(cval(x)))) if cval(x).isdigit() else I_.NONE) if is_c(x, "char") else I_.mkopt(I_.E("to_digit", None, x)), D(0))

    if n == "to_string" and tr == "std::string::ToString":
        t = slf
        v = D(0)
        return fmt_piece(I_, "display", t, v, NOSPEC, st, fr, b)

    # ---- comparison
    if tr == "std::cmp::PartialEq" or (n in ("eq", "ne") and "cmp" in path):
        return equality(I_, D(0), D(1), n == "ne")
    if tr in ("std::cmp::PartialOrd", "std::cmp::Ord"):
        op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}.get(n)
        if op:

            def g(x, y):
                if x.k == "agg" and y.k == "agg":
                    o = order(I_, x, y, st, fr, b)
                    if o is None:
                        return I_.E("bin", op, x, y)
                    return B({"Lt": o < 0, "Le": o <= 0, "Gt": o > 0, "Ge": o >= 0}[op])
                return I_.bin1(op, x, y)

            return I_.map(g, D(0), D(1))
        if n in ("min", "max"):

            def g(x, y):
                if is_c(x) and is_c(y):
                    return x if (cval(x) <= cval(y)) == (n == "min") else y
                return I_.E(n, None, x, y)

            return I_.map(g, D(0), D(1))
        xs = [D(i) for i in range(len(args))]
        if n in ("cmp", "partial_cmp") and I_.lists and len(xs) == 2 and ordering_of(I_.E("cmp", None, *xs)) is None:
            ks = [lists.ordkey(I_, x) for x in xs]
            if all(k is not None for k in ks) and ks[0][0] == ks[1][0]:
                return I_.E("cmp", None, I((ks[0] > ks[1]) - (ks[0] < ks[1])), I(0))
        return I_.E(n, None, *xs)
    if path.startswith(("std::cmp::Ordering::", "core::cmp::Ordering::")) and args:
        o = ordering_of(D(0))
        if o is not None:
            if n == "then":
                return D(0) if o else D(1)
            if n == "then_with":
                return D(0) if o else I_.apply(args[1], [], st, fr, b)
            if n == "reverse":
                return I_.E("cmp", None, I(-o), I(0))
            if n in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne"):
                return B({"lt": o < 0, "le": o <= 0, "gt": o > 0, "ge": o >= 0, "eq": o == 0, "ne": o != 0}[n[3:]])
    if path in ("std::cmp::min", "std::cmp::max", "core::cmp::min", "core::cmp::max"):

        def g(x, y):
            if is_c(x) and is_c(y):
                return x if (cval(x) <= cval(y)) == (n == "min") else y
            return I_.E(n, None, x, y)

        return I_.map(g, D(0), D(1))

    # ---- try / option / result
    if tr == "std::ops::Try" and n == "branch":
        out = []
        for g, p, m in I_.cases(D(0)):
            if g:
                out.append(agg(CF, "Continue", 0, ("0",), (p,)))
            else:
                if m.k == "agg":
                    bad = m
                else:
                    bad = I_.err(p)
                out.append(agg(CF, "Break", 1, ("0",), (bad,)))
        return joinall(out)
    if tr == "std::ops::FromResidual":
        v = D(0)
        return v
    if tr == "std::ops::Try" and n == "from_output":
        return I_.ok(D(0))
    if path.startswith(OPT + "::<") or path.startswith(RES + "::<") or path.startswith("std::option::Option") or path.startswith("std::result::Result"):
        r = optres(I_, n, args, st, fr, b, path, targs)
        if r is not NotImplemented:
            return r

    # ---- boxes / identity
    if path.startswith("std::boxed::Box") and n in ("new", "pin", "from"):
        return D(0)
    if path.startswith("std::boxed::Box") and n == "new_uninit":
        k = (fr.fid, "box%d" % b)
        st[k] = BOT
        return ptr(k[0], k[1], ())
    if n == "box_assume_init_into_vec_unsafe":
        return D(0)
    if tr == "std::convert::From" or tr == "std::convert::Into":
        if tr == "std::convert::Into" and len(targs) == 2:
            g = local_from(I_.p, targs[0], targs[1])
            if g is not None and fr.stack.count(g.id) < 2 and fr.depth < I_.maxdepth:
                r = I_.call(g, [args[0]], st, fr, b)
                return r if r is not None else BOT
        v = D(0)
        if v.k in ("c",) or slf in STRT or "string::String" in slf or (tr == "std::convert::Into") or slf.startswith("std::vec") or slf.startswith("std::boxed"):
            if is_c(v, "int") and "f64" in slf:
                return C("f64", float(cval(v)))
            return v
        if "collections" in slf:
            if v.k == "agg" and v.a[0] == "[]":
                kk = [m.a[4][0] if m.k == "agg" and m.a[0] == "()" else BOT for m in v.a[4]]
                vv = [m.a[4][1] if m.k == "agg" and m.a[0] == "()" else m for m in v.a[4]]
                return coll(joinall(kk), joinall(vv))
        return I_.E("call", path + ":" + slf, v)
    if n in ("deref", "deref_mut", "borrow", "borrow_mut", "as_ref", "as_mut") and tr:
        if args[0].k == "ptr" and n in ("deref_mut", "borrow_mut", "as_mut"):
            return args[0]
        return D(0)
    if n in ("to_owned", "clone", "must_use", "to_vec", "to_string_lossy", "as_slice", "into_boxed_slice", "identity", "into_owned", "as_mut_slice", "into_vec"):
        return args[0] if n == "as_mut_slice" else D(0)
    if path == "std::hint::must_use" or path == "std::convert::identity":
        return D(0)
    if n == "default" and tr == "std::default::Default":
        if slf in INTS:
            return I(0)
        if slf in ("f64", "f32"):
            return C("f64", 0.0)
        if slf == "bool":
            return B(False)
        if "string::String" in slf and not slf.startswith(OPT):
            return S("")
        if slf.startswith(OPT):
            return I_.NONE
        if "collections" in slf or slf.startswith("std::vec"):
            return coll(BOT, BOT)
        return I_.E("default", slf)

    # ---- collections
    if path.startswith("std::vec::Vec") or path.startswith("std::collections::") or "<impl [T]>" in path or path.startswith("std::vec::"):
        r = colls(I_, n, path, f, args, st, fr, b)
        if r is not NotImplemented:
            return r

    # ---- indexing
    if tr in ("std::ops::Index", "std::ops::IndexMut"):
        base = D(0)
        idx = D(1)
        r = range_bounds(idx)
        if r:
            if n == "index_mut" and args[0].k == "ptr":
                lo, hi = r
                if lo is None and hi is None:
                    return args[0]
                if lists.is_vec(base) and (lo is None or is_c(lo, "int")) and (hi is None or is_c(hi, "int")):
                    a, z = 0 if lo is None else cval(lo), len(base.a[4]) if hi is None else cval(hi)
                    if a > z or z > len(base.a[4]):
                        return None
                    return ptr(args[0].a[0], args[0].a[1], args[0].a[2] + (("R", a, z),))
                return ptr(*args[0].a)
            return slc(I_, base, *r)
        if n == "index_mut" and args[0].k == "ptr":
            return ptr(args[0].a[0], args[0].a[1], args[0].a[2] + (("I", idx),))
        if is_coll(base):
            return base.a[4][1]
        return I_.index(base, idx)
    if "RangeInclusive" in path and n == "new":
        return agg("std::ops::RangeInclusive", "", 0, ("start", "end"), (D(0), D(1)))
    if path.startswith("std::ops::Range") and n == "contains":
        return I_.map(lambda r, x: within(I_, r, x), D(0), D(1))

    # ---- iterators
    if tr in ("std::iter::Iterator", "std::iter::IntoIterator", "itertools::Itertools", "std::iter::DoubleEndedIterator", "std::iter::ExactSizeIterator", "std::iter::FromIterator") or path.startswith("std::iter::"):
        r = iters(I_, n, f, args, st, fr, b, loop)
        if r is not NotImplemented:
            return r

    # ---- arithmetic traits
    ops = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "neg": "Neg", "bitand": "BitAnd", "bitor": "BitOr"}
    if tr.startswith("std::ops::") and n in ops:
        if n == "neg":
            return I_.unop("Neg", D(0))
        if n == "add" and (slf == "std::string::String"):
            return cat(I_, D(0), D(1))
        return I_.map(lambda x, y: I_.bin1(ops[n], x, y), D(0), D(1))
    if tr.startswith("std::ops::") and n.endswith("_assign"):
        o = ops.get(n[:-7])
        if o and args[0].k == "ptr":
            old = D(0)
            if slf == "std::string::String":
                append(I_, args[0], D(1), st)
            else:
                I_.store(st, args[0], I_.map(lambda x, y: I_.bin1(o, x, y), old, D(1)))
            return UNIT
    if path.startswith("f64::") or path.startswith("core::f64::") or path.startswith("f32::") or "num::<impl" in path or path.startswith("std::f64") or path.startswith("core::num") or path.startswith("num_integer") or path.startswith("core::f32"):
        return num(I_, n, path, [D(i) for i in range(len(args))])
    if n == "replace" and path.startswith("std::mem") and args[0].k == "ptr":
        old = D(0)
        I_.store(st, args[0], D(1))
        return old
    if n == "take" and path.startswith("std::mem") and args[0].k == "ptr":
        old = D(0)
        I_.store(st, args[0], default_of(I_, targs[0] if targs else ""))
        return old
    if n == "discriminant_value" or path == "std::mem::discriminant":
        return I_.discr(D(0), "", st)
    if path.startswith("std::ops::Fn") or n in ("call", "call_mut", "call_once") and tr.startswith("std::ops::Fn"):
        a = D(1)
        al = list(a.a[4]) if a.k == "agg" and a.a[0] == "()" else ([] if a is UNIT else [a])
        return I_.apply(args[0], al, st, fr, b)
    if path.startswith("std::io::BufReader") or path.startswith("std::io::BufWriter"):
        if n in ("new", "with_capacity"):
            return I_.E("call", path, *[D(i) for i in range(len(args))])
    if path.startswith("gnss::"):
        r = gnss(I_, path, n, D(0))
        if r is not NotImplemented:
            return r
    if tr == "std::io::BufRead" and n == "lines":
        return mkiter(I_, "lines", I_.mkres(I_.E("ioline", None, D(0)), E("io_err", None)))
    if n == "read_line" and tr == "std::io::BufRead":
        if args[1].k == "ptr":
            I_.store(st, args[1], I_.E("ioline", None, E("reader", None)))
        return I_.mkres(I_.E("nread", None, E("reader", None)), E("io_err", None))
    return NotImplemented


def num(I_, n, path, a):
    import math

    def f(*xs):
        if all(is_c(x) for x in xs):
            v = [cval(x) for x in xs]
            try:
                if n in ("powi", "pow"):
                    return C("f64", float(v[0]) ** v[1]) if xs[0].a[0] == "f64" else I(v[0] ** v[1])
                if n == "powf":
                    return C("f64", v[0] ** v[1])
                if n == "sqrt":
                    return C("f64", math.sqrt(v[0]))
                if n == "to_radians":
                    return C("f64", math.radians(v[0]))
                if n == "to_degrees":
                    return C("f64", math.degrees(v[0]))
                if n == "round":
                    return C("f64", float(math.floor(abs(v[0]) + 0.5)) * (1 if v[0] >= 0 else -1))
                if n in ("trunc", "fract"):
                    return C("f64", float(math.trunc(v[0])) if n == "trunc" else v[0] - math.trunc(v[0]))
                if n in ("floor", "ceil"):
                    return C("f64", float(getattr(math, n)(v[0])))
                if n in ("is_nan", "is_finite", "is_infinite"):
                    return B({"is_nan": math.isnan, "is_finite": math.isfinite, "is_infinite": math.isinf}[n](v[0]))
                if n == "abs":
                    return C(xs[0].a[0], abs(v[0]))
                if n == "saturating_sub":
                    return I(max(0, v[0] - v[1]))
                if n == "div_ceil":
                    return I(-(-v[0] // v[1]))
                if n in ("rem_euclid", "div_euclid") and xs[0].a[0] == "int" and v[1]:
                    r = v[0] % abs(v[1])
                    return I(r if n == "rem_euclid" else (v[0] - r) // v[1])
                if n == "abs_diff":
                    return C(xs[0].a[0], abs(v[0] - v[1]))
                if n == "signum" and xs[0].a[0] == "int":
                    return I((v[0] > 0) - (v[0] < 0))
                if n in ("sin", "cos", "tan", "exp"):
                    return C("f64", getattr(math, n)(v[0]))
            except (ValueError, OverflowError):
                pass
        if n in ("max", "min"):
            if len(xs) == 2 and all(is_c(x) for x in xs) and xs[0].a[0] == xs[1].a[0] and xs[0].a[0] in ("int", "f64"):
                return C(xs[0].a[0], (max if n == "max" else min)(cval(xs[0]), cval(xs[1])))
            return I_.E(n, None, *xs)
        if n == "sin_cos":
            return tup(I_.E("sin", None, xs[0]), I_.E("cos", None, xs[0]))
        if n == "powi" and is_c(xs[1], "int"):
            return I_.E("powi", cval(xs[1]), xs[0])
        if n == "from_str_radix":
            return I_.mkres(I_.E("parse_radix", cval(xs[1]) if is_c(xs[1]) else "?", xs[0]), E("parse_err", "radix"))
        return I_.E(n, None, *xs)

    if n in ("checked_sub", "checked_add", "checked_mul", "checked_div"):
        o = {"s": "Sub", "a": "Add", "m": "Mul", "d": "Div"}[n[8]]
        return I_.mkopt(I_.map(lambda x, y: I_.bin1(o, x, y), a[0], a[1]))
    return I_.map(f, *a) if a else I_.E(n, None)


def optres(I_, n, args, st, fr, b, path, targs=()):
    isres = path.startswith(RES)
    v0 = args[0]
    if v0.k == "ptr" and n in ("as_mut", "as_deref_mut"):
        v = I_.deref(v0, st)
        out = []
        for g, p, m in I_.cases(v):
            if g:
                if m.k == "agg":
                    dc = ("dc", m.a[2], m.a[1])
                    pl = ptr(v0.a[0], v0.a[1], v0.a[2] + (dc, ("f", 0, "0", m.a[0])))
                else:
                    pl = ptr(v0.a[0], v0.a[1], v0.a[2] + (("dc", 0 if isres else 1, "Ok" if isres else "Some"), ("f", 0, "0", RES if isres else OPT)))
                out.append(I_.ok(pl) if isres else I_.some(pl))
            else:
                out.append(I_.err(p) if isres else I_.NONE)
        return joinall(out)
    v = I_.deref(v0, st)
    cs = I_.cases(v)
    D = lambda i: I_.deref(args[i], st)

    def A(i, xs):
        return I_.apply(args[i], xs, st, fr, b)

    if v is BOT:
        return BOT
    if n in ("unwrap", "expect", "unwrap_unchecked", "unwrap_or_log"):
        ps = [p for g, p, _ in cs if g]
        if not ps:
            return None
        return joinall(ps)
    if n in ("unwrap_err",):
        ps = [p for g, p, _ in cs if not g]
        return joinall(ps) if ps else None
    if n in ("is_some", "is_ok", "is_none", "is_err"):
        want = n in ("is_some", "is_ok")
        gs = {g for g, _, _ in cs}
        if len(gs) == 1:
            return B((gs == {True}) == want)
        if v.k == "e":
            return I_.E(n, None, v)
        return join(B(True), B(False)) if False else I_.E("is", want, E("choice", fr.fid, I(b)))
    if n in ("is_some_and", "is_ok_and", "is_none_or"):
        rs = []
        for g, p, _ in cs:
            rs.append(A(1, [p]) if g else B(n == "is_none_or"))
        return joinall([r for r in rs if r is not None])
    if n in ("as_ref", "as_deref", "cloned", "copied", "ok_or", "ok_or_else", "map_err", "ok", "err", "iter", "inspect", "inspect_err"):
        out = []
        for g, p, m in cs:
            if n in ("as_ref", "as_deref", "cloned", "copied", "inspect", "inspect_err"):
                out.append(m)
            elif n in ("ok_or", "ok_or_else"):
                if g:
                    out.append(I_.ok(p))
                else:
                    e = D(1) if n == "ok_or" else A(1, [])
                    out.append(I_.err(e if e is not None else TOP))
            elif n == "map_err":
                if g:
                    out.append(I_.ok(p))
                else:
                    e = A(1, [p])
                    out.append(I_.err(e if e is not None else TOP))
            elif n == "ok":
                out.append(I_.some(p) if g else I_.NONE)
            elif n == "err":
                out.append(I_.NONE if g else I_.some(p))
            elif n == "iter":
                return mkiter(I_, "opt", I_.payload(v))
        return joinall(out)
    if n in ("unwrap_or", "unwrap_or_else", "unwrap_or_default"):
        out = []
        for g, p, m in cs:
            if g:
                out.append(p)
            elif n == "unwrap_or":
                out.append(D(1))
            elif n == "unwrap_or_else":
                r = A(1, [p] if isres else [])
                if r is not None:
                    out.append(r)
            else:
                out.append(default_of(I_, targs[0] if targs else ""))
        return joinall(out) if out else None
    if n in ("map", "and_then", "filter", "map_or", "map_or_else"):
        out = []
        for g, p, m in cs:
            if n == "map":
                if g:
                    r = A(1, [p])
                    if r is not None:
                        out.append(I_.ok(r) if isres else I_.some(r))
                else:
                    out.append(I_.err(p) if isres else I_.NONE)
            elif n == "and_then":
                if g:
                    r = A(1, [p])
                    if r is not None:
                        out.append(r)
                else:
                    out.append(I_.err(p) if isres else I_.NONE)
            elif n == "filter":
                if g:
                    r = A(1, [p])
                    if r is not None and not (is_c(r, "bool") and not cval(r)):
                        out.append(I_.some(p))
                    if r is None or not (is_c(r, "bool") and cval(r)):
                        out.append(I_.NONE)
                else:
                    out.append(I_.NONE)
            elif n == "map_or":
                r = A(2, [p]) if g else D(1)
                if r is not None:
                    out.append(r)
            else:
                r = A(2, [p]) if g else A(1, [p] if isres else [])
                if r is not None:
                    out.append(r)
        return joinall(out)
    if n in ("or", "or_else", "and", "xor"):
        out = []
        for g, p, m in cs:
            if n == "and":
                out.append(D(1) if g else (I_.err(p) if isres else I_.NONE))
            elif g:
                out.append(m if m.k == "agg" else (I_.ok(p) if isres else I_.some(p)))
            else:
                r = D(1) if n != "or_else" else A(1, [p] if isres else [])
                if r is not None:
                    out.append(r)
        return joinall(out)
    if n in ("take", "replace") and v0.k == "ptr":
        I_.store(st, v0, I_.NONE if n == "take" else I_.some(D(1)))
        return v
    if n in ("insert", "get_or_insert", "get_or_insert_with") and v0.k == "ptr":
        if n == "insert":
            I_.store(st, v0, I_.some(D(1)))
        else:
            x = D(1) if n == "get_or_insert" else A(1, [])
            I_.store(st, v0, joinall([m if g else I_.some(x) for g, p, m in cs]))
        return ptr(v0.a[0], v0.a[1], v0.a[2] + (("dc", 1, "Some"), ("f", 0, "0", OPT)))
    if n == "zip":
        o = D(1)
        out = []
        for g, p, m in cs:
            for g2, p2, m2 in I_.cases(o):
                out.append(I_.some(tup(p, p2)) if g and g2 else I_.NONE)
        return joinall(out)
    if n == "flatten":
        return joinall([p if g else m for g, p, m in cs])
    if n == "transpose":
        return TOP
    return NotImplemented


def colls(I_, n, path, f, args, st, fr, b):
    D = lambda i: I_.deref(args[i], st)
    ismap = "Map" in path
    a0 = args[0] if args else None
    if n in ("new", "with_capacity", "with_hasher"):
        return coll(BOT, BOT)
    if n in ("push", "push_back", "push_front"):
        c = to_coll(I_, D(0))
        upd_coll(I_, a0, c, BOT, D(1), st)
        return UNIT
    if n == "insert":
        c = to_coll(I_, D(0))
        if len(args) == 3:
            upd_coll(I_, a0, c, D(1), D(2), st)
        else:
            upd_coll(I_, a0, c, BOT, D(1), st)
        return I_.mkopt(E("oldval", None)) if ismap else E("inserted", None)
    if n in ("extend_from_slice", "append", "extend"):
        c = to_coll(I_, D(0))
        upd_coll(I_, a0, c, BOT, elem_of(I_, D(1)), st)
        return UNIT
    if n in ("get", "get_mut", "first", "last", "first_mut", "last_mut", "remove", "pop", "first_key_value", "last_key_value"):
        v = D(0)
        if n in ("get",) and len(args) > 1:
            r = range_bounds(D(1))
            if r and not ismap:
                return I_.mkopt(slc(I_, v, *r))
        if ismap and n in ("get_mut", "remove") and len(args) > 1 and no_such_key(v, D(1)):
            return I_.NONE
        if n.endswith("_mut") and a0.k == "ptr":
            return I_.mkopt(ptr(a0.a[0], a0.a[1], a0.a[2] + (("I", D(1) if len(args) > 1 else E("k", n)),)))
        if ismap:
            if is_coll(v):
                x = v.a[4][1]
                if x is BOT:
                    return I_.NONE
                if len(args) > 1 and no_such_key(v, D(1)):
                    return I_.NONE
            else:
                x = I_.E("mapget", None, v, D(1)) if len(args) > 1 else elem_of(I_, v)
            if n.endswith("key_value"):
                x = elem_of(I_, v, True)
            return I_.mkopt(x)
        if len(args) > 1:
            x = I_.index(v, D(1))
        elif v.k == "agg" and v.a[0] == "[]":
            if not v.a[4]:
                return I_.NONE
            return I_.some(v.a[4][0 if n.startswith("first") else -1])
        else:
            x = elem_of(I_, v)
        if n == "remove":
            return x
        return I_.mkopt(x)
    if n == "entry":
        if a0.k == "ptr":
            return E("entry", (a0.a[0], a0.a[1], a0.a[2]), D(1))
        return E("entry", None, D(1))
    if n in ("or_insert", "or_default", "or_insert_with"):
        e = D(0)
        if e.k == "e" and e.op == "entry" and e.meta:
            p = ptr(*e.meta)
            c = to_coll(I_, I_.load(st, p))
            x = D(1) if n == "or_insert" else (I_.apply(args[1], [], st, fr, b) if n == "or_insert_with" else E("default", None))
            upd_coll(I_, p, c, e.args[0], x if x is not None else TOP, st)
            return ptr(p.a[0], p.a[1], p.a[2] + (("I", e.args[0]),))
        return TOP
    if n in ("iter", "into_iter", "iter_mut", "drain"):
        if n == "iter_mut" and a0.k == "ptr":
            el = ptr(a0.a[0], a0.a[1], a0.a[2] + (("I", E("k", None)),))
            v = D(0)
            if ismap:
                key = v.a[4][0] if is_coll(v) else I_.E("key", None, v)
                el = tup(key, el)
            return mkiter(I_, "iter_mut", el)
        return mkiter(I_, n, elem_of(I_, D(0), ismap))
    if n == "keys":
        v = D(0)
        return mkiter(I_, "keys", v.a[4][0] if is_coll(v) else I_.E("key", None, v))
    if n in ("values", "into_values"):
        return mkiter(I_, "values", elem_of(I_, D(0)))
    if n == "values_mut" and a0.k == "ptr":
        return mkiter(I_, "values", ptr(a0.a[0], a0.a[1], a0.a[2] + (("I", E("k", None)),)))
    if n == "len":
        return str_len(I_, D(0))
    if n == "is_empty":
        v = D(0)
        if v.k == "agg" and v.a[0] == "[]":
            return B(not v.a[4])
        if is_coll(v) and v.a[4][0] is BOT and v.a[4][1] is BOT:
            return B(True)
        return I_.E("is_empty", None, v)
    if n == "contains" or n == "contains_key":
        v, x = D(0), D(1)

        def g(c, y):
            if c.k == "agg" and c.a[0] == "[]":
                rs = [deepcmp(m, y) for m in c.a[4]]
                if any(r is True for r in rs):
                    return B(True)
                if all(r is False for r in rs):
                    return B(False)
            if is_coll(c) and c.a[4][0] is BOT and c.a[4][1] is BOT:
                return B(False)
            if ismap and no_such_key(c, y):
                return B(False)
            return I_.E("contains", None, c, y)

        return I_.map(g, v, x)
    if n == "clear" and a0.k == "ptr":
        I_.store(st, a0, coll(BOT, BOT))
        return UNIT
    if n in ("retain", "retain_mut"):
        v = D(0)
        el = elem_of(I_, v, ismap)
        xs = list(el.a[4]) if ismap and el.k == "agg" and el.a[0] == "()" else [el]
        cell = None
        if a0.k == "ptr" and (ismap or n == "retain_mut") and el is not BOT:
            # every element goes through the closure: it works on a cell of its own, read back afterwards
            I_.cells = getattr(I_, "cells", 0) + 1
            cell = (-7, "retain%d" % I_.cells)
            st[cell] = xs[-1]
            xs[-1] = ptr(cell[0], cell[1], ())
        keep = I_.apply(args[1], xs, st, fr, b)
        if cell:
            new = st.pop(cell, None)
            I_.cells -= 1
            if new is not None and is_coll(v):
                I_.store(st, a0, coll(v.a[4][0], new))
        if a0.k == "ptr" and keep is not None and is_c(keep) and not cval(keep):
            I_.store(st, a0, coll(BOT, BOT))
        return UNIT
    if n in ("sort", "sort_unstable", "dedup", "truncate", "reverse", "sort_by", "sort_by_key"):
        return UNIT
    if n in ("to_vec", "as_slice", "into_boxed_slice", "clone", "into_vec"):
        return D(0)
    if n in ("copy_from_slice", "clone_from_slice", "copy_within", "fill", "swap"):
        if a0.k == "ptr":
            old = D(0)
            if n in ("copy_from_slice", "clone_from_slice"):
                I_.store(st, a0, join(old, D(1)), False)
        return UNIT
    if n in ("split_at",):
        x, k = D(0), D(1)
        return tup(slc(I_, x, I(0), k), slc(I_, x, k, None))
    if n in ("starts_with", "ends_with"):
        return I_.E(n, None, D(0), D(1))
    if n in ("windows", "chunks", "chunks_exact"):
        return mkiter(I_, n, I_.E(n, None, elem_of(I_, D(0))))
    if n == "join" or n == "concat":
        return I_.E("joinstr", None, elem_of(I_, D(0)))
    return NotImplemented


def no_such_key(v, k):
    """the key differs from every key the map can hold"""
    if not is_coll(v) or v.a[4][0] is BOT:
        return False
    ks = v.a[4][0]
    return all(deepcmp(m, y) is False for m in (ks.a[0] if ks.k == "j" else [ks]) for y in (k.a[0] if k.k == "j" else [k]))


def upd_coll(I_, p, c, k, v, st):
    for m in members(p):
        if m.k == "ptr":
            if c is TOP:
                return
            for cc in members(c):
                if is_coll(cc):
                    kk, vv = cc.a[4]
                    I_.store(st, m, coll(join(kk, k), join(vv, v)))


LOSSY = {"skip", "take", "step_by", "skip_while", "take_while", "unique", "unique_by", "dedup"}


def iters(I_, n, f, args, st, fr, b, loop):
    """an iterator whose tag ends with `?` may leave elements of its source out"""
    r = iters_(I_, n, f, args, st, fr, b, loop)
    if r is not NotImplemented and r.k == "e" and r.op == "iter" and args:
        v = I_.deref(args[0], st)
        lossy = n in LOSSY or (v.k == "e" and v.op == "iter" and isinstance(v.meta, str) and v.meta.endswith("?"))
        if lossy and isinstance(r.meta, str) and not r.meta.endswith("?") and n not in ("next", "next_back"):
            r = E("iter", r.meta + "?", *r.args)
    return r


def iters_(I_, n, f, args, st, fr, b, loop):
    D = lambda i: I_.deref(args[i], st)
    slf = f.get("self") or ""
    targs = f.get("targs") or []
    ismap = ("Map<" in slf and "collections" in slf.split("<")[0] + slf) and "iter::Map<" not in slf.split("collections")[0]

    def A(i, xs):
        r = I_.apply(args[i], xs, st, fr, b)
        return r if r is not None else BOT

    if n == "into_iter":
        v = D(0)
        if v.k == "e" and v.op == "iter":
            return v
        if slf.startswith("&mut") and args[0].k == "ptr":
            p = args[0]
            el = ptr(p.a[0], p.a[1], p.a[2] + (("I", E("k", None)),))
            if ismap:
                el = tup(v.a[4][0] if is_coll(v) else I_.E("key", None, v), el)
            return mkiter(I_, "iter_mut", el)
        return mkiter(I_, "into_iter", elem_of(I_, v, ismap))
    if n == "next" or n == "next_back":
        v = D(0)
        if args[0].k == "ptr" and not loop:
            # straight-line stepping: remember the position
            if v.k == "e" and v.op == "iter" and v.meta in ("words", "split", "lines", "chars"):
                el = v.args[0]
                k = 0 if len(v.args) < 2 else cval(v.args[1])
                I_.store(st, args[0], E("iter", v.meta, el, I(k + 1)))
                return I_.mkopt(I_.E("nth", k, el))
        if v.k == "e" and v.op == "iter" and v.meta == "constchars" and len(v.args) > 1:
            s = cval(v.args[1])
            if args[0].k == "ptr" and not loop:
                I_.store(st, args[0], E("iter", "constchars", v.args[0], S(s[1:])))
                return I_.some(C("char", s[0])) if s else I_.NONE
            return I_.mkopt(v.args[0]) if s else I_.NONE
        el = elem_of(I_, v)
        if el is BOT:
            return I_.NONE
        return I_.mkopt(el)
    if not args:
        return NotImplemented
    v = D(0)
    el = elem_of(I_, v)
    if n in ("any", "all"):
        if v.k == "e" and v.op == "iter" and v.meta == "constchars" and len(v.args) > 1:
            rs = [A(1, [C("char", c)]) for c in cval(v.args[1])]
            if all(is_c(r, "bool") for r in rs):
                return B((any if n == "any" else all)(cval(r) for r in rs))
        r = A(1, [el]) if el is not BOT else BOT
        if r is BOT:
            return B(n == "all")
        if is_c(r, "bool"):
            if n == "any" and not cval(r):
                return r
            if n == "all" and cval(r):
                return r
        return I_.E(n, None, r)
    if n == "filter":
        r = A(1, [el])
        if is_c(r, "bool"):
            return mkiter(I_, "filter", el if cval(r) else BOT)
        return E("iter", "filter?", el)
    if n in ITER_SAME:
        for i in range(1, len(args)):
            a = I_.deref(args[i], st)
            if a.k == "agg" and a.a[0].startswith("closure:"):
                A(i, [el] if not n.startswith("sorted_by") or n == "sorted_by_key" else [el, el])
        return mkiter(I_, n, el)
    if n == "map":
        return mkiter(I_, "map", A(1, [el]) if el is not BOT else BOT)
    if n == "filter_map" or n == "map_while":
        r = A(1, [el]) if el is not BOT else BOT
        sure = all(m.k == "agg" and m.a[1] == "Some" for m in members(r))
        return mkiter(I_, "filter_map" if sure else "filter_map?", I_.payload(r) if r is not BOT else BOT)
    if n == "flat_map":
        r = A(1, [el]) if el is not BOT else BOT
        lossy = r.k == "e" and r.op == "iter" and isinstance(r.meta, str) and r.meta.endswith("?")
        return mkiter(I_, "flat_map?" if lossy else "flat_map", elem_of(I_, r))
    if n == "flatten":
        return mkiter(I_, "flatten", elem_of(I_, el))
    if n == "enumerate":
        return mkiter(I_, "enumerate", tup(E("index", None), el))
    if n == "zip":
        return mkiter(I_, "zip", tup(el, elem_of(I_, D(1))))
    if n == "chain":
        return mkiter(I_, "chain", join(el, elem_of(I_, D(1))))
    if n in ("for_each",):
        if el is not BOT:
            A(1, [el])
        return UNIT
    if n == "try_for_each":
        r = A(1, [el]) if el is not BOT else BOT
        return join(r, I_.ok(UNIT))
    if n == "collect" or n == "from_iter":
        ty = targs[-1] if targs else ""
        if ty.startswith(RES) or ty.startswith(OPT):
            return I_.mkres(coll(BOT, I_.payload(el))) if ty.startswith(RES) else I_.mkopt(coll(BOT, I_.payload(el)))
        if "string::String" in ty and "Vec" not in ty and "Map" not in ty:
            return I_.E("collectstr", None, el)
        if "Map" in ty.split("<")[0]:
            if el.k == "agg" and el.a[0] == "()":
                return coll(*el.a[4][:2])
            return coll(I_.E("f", "0", el), I_.E("f", "1", el)) if el is not BOT else coll(BOT, BOT)
        return coll(BOT, el)
    if n == "fold":
        init = D(1)
        r = A(2, [init, el]) if el is not BOT else init
        return join(init, r)
    if n == "reduce":
        if el is BOT:
            return I_.NONE
        return I_.mkopt(join(el, A(1, [el, el])))
    if n in ("find",):
        A(1, [el])
        return I_.mkopt(el) if el is not BOT else I_.NONE
    if n == "find_map":
        r = A(1, [el])
        return join(r, I_.NONE)
    if n in ("position",):
        A(1, [el])
        return I_.mkopt(E("index", None))
    if n in ("min_by_key", "max_by_key"):
        A(1, [el])
        return I_.mkopt(el)
    if n in ("min_by", "max_by"):
        A(1, [el, el])
        return I_.mkopt(el)
    if n in ("min", "max", "last"):
        return I_.mkopt(I_.E("it_" + n, None, el))
    if n in ("sum", "count", "product"):
        return I_.E("it_" + n, None, el)
    if n == "nth":
        if v.k == "e" and v.op == "iter" and v.meta == "constchars" and len(v.args) > 1 and is_c(D(1), "int"):
            s = cval(v.args[1])
            i = cval(D(1))
            return I_.some(C("char", s[i])) if i < len(s) else I_.NONE
        return I_.mkopt(I_.E("nth", cval(D(1)) if is_c(D(1)) else "?", el)) if el is not BOT else I_.NONE
    if n == "join":
        return I_.E("joinstr", cval(D(1)) if is_c(D(1)) else "?", el)
    if n == "peek":
        return I_.mkopt(el)
    if n == "size_hint" or n == "len":
        return I_.E("len", None, v)
    if n == "unzip":
        return tup(coll(BOT, I_.E("f", "0", el)), coll(BOT, I_.E("f", "1", el))) if not (el.k == "agg" and el.a[0] == "()") else tup(coll(BOT, el.a[4][0]), coll(BOT, el.a[4][1]))
    return NotImplemented


LETTER = {"GPS": "G", "Glonass": "R", "Galileo": "E", "BeiDou": "C", "QZSS": "J", "IRNSS": "I", "Mixed": "M"}
# exact names, then fragments, in the order the gnss crate (2.4) tries them
EXACT = {"gps": "GPS", "bds": "BeiDou", "gal": "Galileo", "glo": "Glonass", "qzss": "QZSS", "irnss": "IRNSS", "sbas": "SBAS", "mixed": "Mixed", "ausnz": "AusNZ", "s": "SBAS"}
EXACT.update({x.lower(): x for x in ("EGNOS", "WAAS", "KASS", "GAGAN", "ASBAS", "NSAS", "ASAL", "MSAS", "SPAN", "GBAS", "SDCM", "BDSBAS")})
NAMES = [("gps", "GPS"), ("glonass", "Glonass"), ("beidou", "BeiDou"), ("galileo", "Galileo"), ("qzss", "QZSS"), ("sbas", "SBAS"), ("geo", "SBAS"), ("irnss", "IRNSS"), ("navic", "IRNSS"), ("mix", "Mixed")]
GEOS = {22: "AusNZ", 23: "EGNOS", 25: "SDCM", 26: "EGNOS", 27: "GAGAN", 28: "GAGAN", 30: "BDSBAS", 34: "KASS", 36: "EGNOS", 38: "WAAS", 40: "SDCM", 41: "SDCM", 43: "BDSBAS", 44: "BDSBAS", 47: "NSAS", 48: "ASAL"}
TSTEXT = {"UTC": "UTC", "TT": "TT", "TAI": "TAI", "TDB": "TDB", "ET": "ET", "GPST": "GPST", "GPS": "GPST", "GST": "GST", "GAL": "GST", "BDT": "BDT", "BDS": "BDT", "QZSST": "QZSST", "QZSS": "QZSST"}
CONSTEL, SVT, TSC = "gnss::constellation::Constellation", "gnss::sv::SV", "hifitime::TimeScale"


def ext_variant(I_, ty, name):
    ad = I_.p.adts.get(ty)
    for i, x in enumerate(ad["variants"] if ad else ()):
        if x[0] == name:
            return agg(ty, name, i, (), ())
    return None


def constellation_of(text):
    t = text.strip().lower()
    for k, l in LETTER.items():
        if t == l.lower():
            return k
    if t in EXACT:
        return EXACT[t]
    for a, k in NAMES:
        if a in t:
            return k
    return None


def ext_parse(I_, ty, v):
    """text forms of the constellation, satellite and time scale types of the gnss and hifitime crates"""
    if ty == CONSTEL and is_str(v):
        k = constellation_of(cval(v))
        x = ext_variant(I_, ty, k) if k else None
        if x is not None:
            return I_.ok(x)
        return I_.err(E("parse_err", ty)) if k is None else None
    if ty == TSC and is_str(v):
        x = ext_variant(I_, ty, TSTEXT.get(cval(v).strip(), ""))
        return I_.ok(x) if x is not None else I_.err(E("parse_err", ty))
    if ty == "gnss::domes::DOMES" and is_str(v):
        m = re.fullmatch(r"(\d{3})(\d\d)([MS])(\d{3})", cval(v))
        if m is None:
            return I_.err(E("parse_err", ty))
        return I_.ok(agg(ty, "", 0, ("area", "site", "point", "sequential"), (I(int(m[1])), I(int(m[2])), E("domes_point", m[3]), I(int(m[4])))))
    if ty == "gnss::cospar::COSPAR" and is_str(v):
        m = re.fullmatch(r"(\d{4})-(\d{3})(\w*)", cval(v))
        if m is None:
            return I_.err(E("parse_err", ty))
        return I_.ok(agg(ty, "", 0, ("year", "launch", "code"), (I(int(m[1])), I(int(m[2])), S(m[3]))))
    if ty == SVT and (is_str(v) or lists.is_t(v)):
        head, tail = slc(I_, v, I(0), I(1)), slc(I_, v, I(1), None)
        if not is_str(head):
            return None
        k = constellation_of(cval(head))
        ad = I_.p.adts.get(SVT)
        if k is None:
            return I_.err(E("parse_err", ty))
        if ad is None:
            return None
        r = parse(I_, "u8", strop(I_, "trim", tail), None, None, 0)
        if k == "SBAS":
            if not (r.k == "agg" and r.a[1] == "Ok" and is_c(r.a[4][0], "int")):
                return None
            k = GEOS.get(cval(r.a[4][0]), "SBAS")
        c = ext_variant(I_, CONSTEL, k)
        if c is None or not (r.k == "agg"):
            return None
        if r.a[1] == "Err":
            return I_.err(E("parse_err", ty))
        names = [x[0] for x in ad["variants"][0][2]]
        return I_.ok(agg(SVT, "", 0, names, [{"prn": r.a[4][0], "constellation": c}.get(n, TOP) for n in names]))
    return None


def ext_fmt(I_, kind, t, v):
    if v.k == "agg" and v.a[0] == SVT and kind == "display":
        kind = "lower_hex"  # the same text
    if v.k != "agg" or kind != "lower_hex":
        if v.k == "agg" and v.a[0] == TSC and kind == "display":
            return S(v.a[1])
        if v.k == "agg" and v.a[0] == CONSTEL and kind in ("display", "upper_hex"):
            x = v.a[1]
            x = {"BeiDou": "BDS", "Mixed": "MIXED"}.get(x, x)
            if kind == "upper_hex":
                x = {"Glonass": "GLO", "Galileo": "GAL"}.get(x, x.upper())
            return S(x)
        return None
    if v.a[0] == CONSTEL:
        l = LETTER.get(v.a[1]) or ("S" if v.a[1] in SBASSYS else None)
        return S(l) if l else None
    if v.a[0] == TSC:
        return S({"GPST": "GPS", "GST": "GAL", "BDT": "BDS", "QZSST": "QZSS"}.get(v.a[1], v.a[1]))
    if v.a[0] == SVT:
        d = dict(zip(v.a[3], v.a[4]))
        l = ext_fmt(I_, kind, CONSTEL, d["constellation"])
        if l is None or l is S("S") and kind == "upper_hex":
            return None
        p = d["prn"]
        return cat(I_, l, S("%02d" % cval(p)) if is_c(p, "int") else I_.E("fa", ("display", "u8", (2, None, " ", "", True, False, False)), p))
    return None


SBASSYS = {"WAAS", "KASS", "BDSBAS", "EGNOS", "GAGAN", "SDCM", "ASBAS", "SPAN", "MSAS", "NSAS", "ASAL", "AusNZ", "SBAS"}
SYSTS = {"GPS": "GPST", "QZSS": "QZSST", "Galileo": "GST", "BeiDou": "BDT", "Glonass": "UTC"}


def gnss(I_, path, n, v):
    """the few predicates of the gnss crate the library relies on (their meaning is part of that crate's interface)"""
    sv = v.k == "agg" and v.a[0] == "gnss::sv::SV"
    c = v
    prn = None
    if sv:
        d = dict(zip(v.a[3], v.a[4]))
        c, prn = d["constellation"], d["prn"]
    if not (c.k == "agg" and c.a[0] == "gnss::constellation::Constellation"):
        return NotImplemented
    cn = c.a[1]
    if n == "is_sbas":
        return B(cn in SBASSYS)
    if n == "is_beidou_geo" and sv:
        if cn != "BeiDou":
            return B(False)
        if is_c(prn, "int"):
            return B(cval(prn) < 6 or cval(prn) > 58)
    if n == "timescale":
        ts = SYSTS.get(cn) or ("GPST" if cn in SBASSYS else None)
        if ts is None:
            return I_.mkopt(None) if False else agg("std::option::Option", "None", 0, (), ())
        for i, x in enumerate(I_.p.adts.get("hifitime::TimeScale", {"variants": []})["variants"]):
            if x[0] == ts:
                return I_.some(agg("hifitime::TimeScale", ts, i, (), ()))
    return NotImplemented


def ordering_of(v):
    """-1, 0, 1 for a known std::cmp::Ordering, else None"""
    if v.k == "agg" and v.a[0].endswith("cmp::Ordering"):
        return {"Less": -1, "Equal": 0, "Greater": 1}.get(v.a[1])
    if v.k == "agg" and v.a[0] == "std::option::Option" and v.a[1] == "Some":
        return ordering_of(v.a[4][0])
    if v.k == "e" and v.op == "cmp" and len(v.args) == 2:
        a, b = v.args
        if a.k == b.k == "c" and a.a[0] == b.a[0] and a.a[0] in ("int", "f64"):
            return (cval(a) > cval(b)) - (cval(a) < cval(b))
    return None

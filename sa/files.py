"""Whole files given as lists of lines (constants or templates): the file reader of the library is executed abstractly on them."""
from templ import *


def file_hook(header):
    """std::io::BufRead on a literal list of lines: the iterator form serves the header lines, read_line the record lines"""
    ls = lit([agg(RES, "Ok", 0, ("0",), (l,)) for l in header])

    def hook(I_, f, args, st, fr, b):
        if not (f.get("trait") or "").endswith("BufRead"):
            return NotImplemented
        n = f.get("name")
        if n == "lines":
            return ls
        if n == "read_line":
            v = I_.deref(args[0], st)
            if v.k == "j" or not lists.is_lit(v):
                return NotImplemented
            xs = list(v.a[4])
            if not xs:
                return agg(RES, "Ok", 0, ("0",), (I(0),))
            models.append(I_, args[1], xs[0], st)
            lists.setv(I_, args[0], lit(xs[1:]), st)
            n = tlen(xs[0]) if is_t(xs[0]) else len(cval(xs[0]))
            return agg(RES, "Ok", 0, ("0",), (I(n),))
        return NotImplemented

    return hook


def nl(t):
    return tmpl(t, "\n")


def parse_file(P, q, header, record, eof=True, hooks=(), **k):
    """what Rinex::parse returns for the file"""
    fn = meth(P, "Rinex", "parse")
    if fn is None:
        return None
    k.setdefault("maxsteps", 3000000)
    I_ = q.interp(hooks=hooks_of(*hooks, file_hook(header)), partition=True, maxdepth=16, **k)
    r = I_.entry(fn, {1: lit([nl(x) for x in record[:-1]] + [nl(x) if eof else x for x in record[-1:]])})
    q.done(I_)
    return r[0]


def ok_of(v):
    """the Ok value of a result; None when unknown"""
    if v is None:
        return None
    ms = [m.a[4][0] for m in members(v) if m.k == "agg" and m.a[0] == RES and m.a[1] == "Ok"]
    return ms[0] if len(ms) == 1 else None


def errs_of(v):
    return [m.a[4][0] for m in members(v) if m.k == "agg" and m.a[0] == RES and m.a[1] == "Err"] if v is not None else []


def entries(v):
    """(key, value) pairs of a literal map; None when its content is not known"""
    if v is None or not is_kv(v):
        return None
    return [(e.a[4][0], e.a[4][1]) for e in v.a[4]] if all(e.k == "agg" and len(e.a[4]) == 2 for e in v.a[4]) else None


# ------------------------------------------------------------------ writing
def split(t):
    """lines of a text value"""
    out, cur = [], []
    for s in t.args if is_t(t) else (t,):
        if is_c(s, "str"):
            for i, p in enumerate(cval(s).split("\n")):
                if i:
                    out.append(tmpl(*cur) if cur else S(""))
                    cur = []
                if p:
                    cur.append(S(p))
        else:
            cur.append(s)
    if cur:
        out.append(tmpl(*cur))
    return out


def write_file(P, q, v, reg=None, typ="Rinex", **k):
    """(lines, registry) of the text the writer produces for a value; None when not known"""
    fn = meth(P, typ, "format")
    if fn is None or v is None:
        return None
    reg = {} if reg is None else reg
    I_ = q.interp(hooks=hooks_of(writer_hook), partition=True, reg=reg, maxdepth=16, maxsteps=3000000, **k)
    r, out = I_.entry(fn, {1: v, 2: S("")})
    q.done(I_)
    ws = [x for n, x in (out or {}).items() if n != "self"]
    w = ws[0] if len(ws) == 1 else (out or {}).get("w", (out or {}).get("writer"))
    if w is None:
        return None
    t = w if is_t(w) or is_c(w, "str") else as_tmpl(w, reg)
    if t is None and w.k == "e" and w.op == "cat":  # the header may hold parts of unknown width: the record is what follows it
        for i, x in enumerate(w.args):
            if is_c(x, "str") and "END OF HEADER" in cval(x):
                t = as_tmpl(E("cat", None, *([S(cval(x)[cval(x).rindex("END OF HEADER"):].rjust(80))] + list(w.args[i + 1:]))), reg)
                break
            if is_t(x) and is_c(x.args[-1], "str") and "END OF HEADER" in cval(x.args[-1]):
                y = cval(x.args[-1])
                t = as_tmpl(E("cat", None, *([S(y[y.rindex("END OF HEADER"):].rjust(80))] + list(w.args[i + 1:]))), reg)
                break
    return (split(t), reg) if t is not None else None


def body_of(ls):
    for i, l in enumerate(ls):
        t = l.args[-1] if is_t(l) else l
        if is_c(t, "str") and cval(t).rstrip().endswith("END OF HEADER"):
            return ls[i + 1:]
    return None


def columns(l, reg=()):
    """what each column of a line holds: a character, or (source of the value, column of it); trailing blanks removed"""
    out = []
    for x in l.args if is_t(l) else (l,):
        if is_c(x):
            out += list(cval(x))
            continue
        n, a, b = x.meta[0], x.meta[1], x.meta[2]
        if n in reg:
            w = reg[n][1][2][0]
            src = sorted(cells(reg[n][0]))
            n = src[0] if len(src) == 1 else repr(src)
        out += [(n, i) for i in range(a, b)]
    while out and out[-1] == " ":
        out.pop()
    return tuple(out)


def draw(cs):
    """a line for a message"""
    out, last = "", None
    for x in cs:
        if isinstance(x, str):
            out += x
            last = None
        elif x[0] != last:
            last = x[0]
            out += "[%s:%d" % x
        else:
            pass
        if not isinstance(x, str) and (cs[cs.index(x) + 1:] or (" ",))[0] != (x[0], x[1] + 1):
            out += "-%d]" % x[1]
    return out.rstrip()


def judge_back(x, c, reg):
    """does x hold the number of cell c, possibly through the fields (reg) of a written text"""
    if not reg:
        return judge(x, N(c))
    for n, rng in cells(x).items():
        if n in reg:
            w = reg[n][1][2][0]
            if rng != {(0, w, w)}:
                return "bad", "only columns %s of the %d written are read" % (sorted(y[:2] for y in rng), w)
    y = unwritten(x, reg)
    return judge(y, N(c)) if y is not None else ("unk", show(x)[:160])


def unwritten(x, reg):
    """x with every number parsed from a written field replaced by the number that was written"""
    def go(v):
        if v.k == "e" and v.op in ("parse", "parse_int", "parse_f64", "ext_parse"):
            k = list(cells(v))
            if len(k) == 1 and k[0] in reg:
                return reg[k[0]][0]
        return v

    return rewrite(x, go)


def rewrite(v, go, memo=None):
    """v with go applied to every sub-term, top down"""
    memo = {} if memo is None else memo
    r = memo.get(id(v))
    if r is not None:
        return r
    w = go(v)
    if w is not v:
        memo[id(v)] = w
        return w
    if v.k == "e":
        a = [rewrite(x, go, memo) for x in v.args]
        w = v if all(x is y for x, y in zip(a, v.args)) else E(v.op, v.meta, *a)
    elif v.k == "agg":
        a = [rewrite(x, go, memo) for x in v.a[4]]
        w = v if all(x is y for x, y in zip(a, v.a[4])) else agg(*v.a[:4], a)
    elif v.k == "j":
        w = joinall([rewrite(x, go, memo) for x in v.a[0]])
    memo[id(v)] = w
    return w

"""Finite lists, keyed maps and column templates (opt-in layer, Interp(lists=True)).

  lit      agg("lit", ...)      an iterator whose remaining elements are known terms
  []       agg("[]", ...)       a vector / array of known terms
  kvmap    agg("kvmap", ...)    a map with known key terms
  tmpl     E("tmpl", trimmed, seg...)   text made of constant pieces and fixed width *cells*
           whose content stays opaque (`cell` = name, first column, last column, width, kind);
           kind f: fills its columns, r: right justified, l: left justified

Nothing is executed: elements and cells are opaque terms, only positions, lengths
and constants are decided.  Whatever is not supported is smashed to the summary
forms of models.py (one joined element)."""
import re
import dates
from val import *
import models as M

OPT, RES = "std::option::Option", "std::result::Result"
CAP = 160


def lit(xs):
    return agg("lit", "", 0, (), xs)


def is_lit(v):
    return v.k == "agg" and v.a[0] == "lit"


def is_vec(v):
    return v.k == "agg" and v.a[0] == "[]"


def kvmap(entries):
    ks = [k for k, _ in entries]
    return agg("kvmap", "", 0, tuple(show(k) for k in ks), [tup(k, v) for k, v in entries])


def is_kv(v):
    return v.k == "agg" and v.a[0] == "kvmap"


def kv(v):
    return [(p.a[4][0], p.a[4][1]) for p in v.a[4]]


ABSENT = E("absent", None)


def present(v):
    """(surely present, value without the absent marker)"""
    if v is ABSENT:
        return False, BOT
    if v.k == "j" and ABSENT in v.a[0]:
        return False, joinall([m for m in v.a[0] if m is not ABSENT])
    return True, v


def same(a, b):
    if a is b:
        return True
    return M.deepcmp(a, b)


def kv_find(v, k):
    """(exact entry index or None, indices of entries that may be equal)"""
    may = []
    for i, (x, _) in enumerate(kv(v)):
        r = same(x, k)
        if r is True:
            return i, []
        if r is None:
            may.append(i)
    return None, may


def kv_get(v, k):
    """value (may hold ABSENT), BOT when no such key"""
    i, may = kv_find(v, k)
    if i is not None:
        return kv(v)[i][1]
    if may:
        return joinall([kv(v)[j][1] for j in may] + [ABSENT])
    return BOT


def kv_set(v, k, x):
    es = kv(v)
    i, may = kv_find(v, k)
    if i is not None:
        es[i] = (es[i][0], x)
        return kvmap(es)
    if may or len(es) >= CAP:
        return M.coll(joinall([a for a, _ in es] + [k]), joinall([present(b)[1] for _, b in es] + [x]))
    return kvmap(es + [(k, x)])


def kv_join(a, b):
    es = kv(a)
    idx = {id(k): i for i, (k, _) in enumerate(es)}
    seen = set()
    for k, x in kv(b):
        i = idx.get(id(k))
        if i is None:
            es.append((k, join(x, ABSENT)))
        else:
            seen.add(i)
            es[i] = (k, join(es[i][1], x))
    na = len(a.a[4])
    for i in range(na):
        if i not in seen:
            es[i] = (es[i][0], join(es[i][1], ABSENT))
    return kvmap(es)


def smash(v):
    """summary form of a known list"""
    if is_kv(v):
        es = [(k, present(x)[1]) for k, x in kv(v)]
        return M.coll(joinall([k for k, _ in es]), joinall([x for _, x in es]))
    if is_lit(v):
        return E("iter", "lit?", joinall(v.a[4]))
    return v


def to_list(I_, v, ismap=False):
    """known elements of an iterable value, or None"""
    if is_lit(v) or is_vec(v):
        return list(v.a[4])
    if is_kv(v):
        es = [(k, present(x)) for k, x in kv(v)]
        if all(p for _, (p, _) in es):
            return [tup(k, x) for k, (_, x) in es] if ismap else [k for k, _ in es]
        return None
    if M.is_coll(v) and v.a[4][0] is BOT and v.a[4][1] is BOT:
        return []
    if v.k == "agg" and v.a[0] == OPT:
        return list(v.a[4])
    if v.k == "agg" and v.a[0].startswith("std::ops::Range"):
        r = M.range_bounds(v)
        if r and r[0] is not None and r[1] is not None and is_c(r[0], "int") and is_c(r[1], "int"):
            a, b = cval(r[0]), cval(r[1])
            if b - a <= CAP:
                return [I(i) for i in range(a, b)]
    return None


# ------------------------------------------------------------------ templates
LITERAL = [None]


def cell(name, width, kind="f"):
    """an unknown text that fills its columns (or, in literal mode, a text chosen for it)"""
    if LITERAL[0] is not None:
        t = LITERAL[0](name, width, kind)
        if t is not None:
            assert len(t) == width, (name, t, width)
            return S(t)
    return E("cell", (name, 0, width, width, kind))


def cw(c):
    return c.meta[2] - c.meta[1]


def is_t(v):
    return v.k == "e" and v.op == "tmpl"


def tmpl(*segs, trimmed=""):
    out = []
    for s in segs:
        if isinstance(s, str):
            s = S(s)
        if is_t(s):
            sub = s.args
        else:
            sub = (s,)
        for x in sub:
            if is_c(x, "char"):
                x = S(cval(x))
            if is_c(x, "str"):
                if cval(x) == "":
                    continue
                if out and is_c(out[-1], "str"):
                    out[-1] = S(cval(out[-1]) + cval(x))
                    continue
            elif out and out[-1].k == "e":
                p, q = out[-1].meta, x.meta
                if p[0] == q[0] and p[2] == q[1] and p[3:] == q[3:]:
                    out[-1] = E("cell", (p[0], p[1], q[2], p[3], p[4]))
                    continue
            out.append(x)
    if not out:
        return S("")
    if all(is_c(x, "str") for x in out):
        return S("".join(cval(x) for x in out))
    return E("tmpl", trimmed, *out)


COLS = {}


def columns(v):
    """the bytes of a text, one by one: None when its extent is not known"""
    if not (is_c(v, "str") or is_t(v) and not v.meta):
        return None
    r = COLS.get(v)
    if r is None:
        r = []
        for s in v.args if is_t(v) else (v,):
            if is_c(s):
                r += [I(c) for c in cval(s).encode()]
            else:
                m = s.meta
                r += [E("colbyte", None, E("cell", (m[0], m[1] + i, m[1] + i + 1, m[3], m[4]))) for i in range(cw(s))]
        COLS[v] = r
    return r


def text_of_columns(xs):
    out = []
    for x in xs:
        if is_c(x, "int") and 0 <= cval(x) < 128:
            out.append(S(chr(cval(x))))
        elif x.k == "e" and x.op == "colbyte":
            out.append(x.args[0])
        else:
            return None
    return tmpl(*out)


def seglen(s):
    return len(cval(s)) if is_c(s) else cw(s)


def tlen(v):
    return sum(seglen(s) for s in v.args)


DATE = re.compile(r"^(\d{4}|\x00)-(\d\d|\x00)-(\d\d|\x00)T(\d\d|\x00):(\d\d|\x00):(\d\d|\x00)\.(\d+|\x00|\d*\x00\d*) (UTC|TAI|GPST|BDT|GST|QZSST|TT|TDB|ET)$")


def well_formed_date(v):
    """a calendar date in the form hifitime reads, its fields constants or unknown numbers"""
    if is_c(v, "str"):
        t = cval(v)
    elif is_t(v):
        t = "".join(cval(x) if is_c(x) else "\x00" for x in v.args)
    elif v.k == "e" and v.op == "cat":
        t = "".join(cval(x) if is_c(x, "str") else "\x00" for x in v.args)
    else:
        return False
    m = DATE.match(t)
    if not m:
        return False
    lim = ((1, 12), (1, 31), (0, 23), (0, 59), (0, 60))
    return all("\x00" in g or a <= int(g) <= b for g, (a, b) in zip(m.groups()[1:6], lim))


def ordkey(I_, v):
    """a key comparing like the derived order of the value's type; None: not known"""
    if v.k == "c" and v.a[0] in ("int", "str", "bool", "char"):
        return (v.a[0], cval(v))
    if dates.is_epoch(v):
        return ("epoch " + v.meta[7], v.meta[:7])
    if v.k == "agg" and not v.a[0].startswith(("std::", "core::", "alloc::")) or v.k == "agg" and v.a[0] == OPT:
        if v.a[0] not in ("()", OPT) and not v.a[0].startswith("gnss::"):
            f = I_.p.trait_fn("std::cmp::Ord", v.a[0], "cmp") or I_.p.trait_fn("std::cmp::PartialOrd", v.a[0], "partial_cmp")
            if f is None or not f.get("derived"):
                return None
        ks = [ordkey(I_, x) for x in v.a[4]]
        if any(k is None for k in ks):
            return None
        return (v.a[0], (v.a[2] if v.a[0] != OPT else int(v.a[1] == "Some"),) + tuple(ks))
    return None


def tmin(v):
    """least length of a text whose edges may have lost blanks"""
    n = tlen(v)
    if "l" in v.meta and not is_c(v.args[0]):
        n -= cw(v.args[0]) - 1
    if "r" in v.meta and not is_c(v.args[-1]) and not (len(v.args) == 1 and "l" in v.meta):
        n -= cw(v.args[-1]) - 1
    return max(n, 1)


def t_slice(v, a, b):
    """None: not decidable"""
    tr = v.meta
    n = tlen(v)
    if "l" in tr and (a or b is not None):
        return None
    if "r" in tr and b is not None and b >= n:
        b = None if b == n else n
    if a > n or (b is not None and (b > n or b < a)):
        return BOT
    hi = n if b is None else b
    out = []
    p = 0
    for s in v.args:
        w = seglen(s)
        x, y = max(a, p) - p, min(hi, p + w) - p
        if x < y:
            if is_c(s):
                out.append(S(cval(s)[x:y]))
            else:
                m = s.meta
                out.append(E("cell", (m[0], m[1] + x, m[1] + y, m[3], m[4])))
        p += w
    return tmpl(*out, trimmed=("l" if "l" in tr and a == 0 else "") + ("r" if "r" in tr and hi == n else ""))


def t_slice_pos(v, lo, hi):
    """slices at positions found in the text: positions of a text whose leading blanks are gone are counted before that"""
    pos = [x for x in (lo, hi) if x is not None and x.k == "e" and x.op == "tpos"]
    if not pos:
        return None
    if lo.k == "e" and lo.op == "tpos":
        a = lo.meta
    elif is_c(lo, "int") and cval(lo) == 0:
        a = 0
    else:
        return None
    if hi is None:
        b = None
    elif hi.k == "e" and hi.op == "tpos":
        b = hi.meta
    else:
        return None
    left = "l" in v.meta and a == 0
    r = t_slice(E("tmpl", v.meta.replace("l", ""), *v.args), a, b)
    if r is not None and left and is_t(r):
        r = tmpl(r, trimmed="l" + r.meta)
    return r


def t_find(I_, v, p, st, fr, b):
    """first position of a constant, or of a character satisfying a predicate: Option<position> or None"""
    off = 0
    for s in v.args:
        if is_c(s):
            t = cval(s)
            if is_c(p):
                k = t.find(cval(p))
            else:
                k = -1
                for i, ch in enumerate(t):
                    r = I_.apply(p, [C("char", ch)], st, fr, b)
                    if r is None or not is_c(r, "bool"):
                        return None
                    if cval(r):
                        k = i
                        break
            if k >= 0:
                return I_.some(E("tpos", off + k) if "l" in v.meta else I(off + k))
        else:
            kind = s.meta[4]
            if is_c(p):
                if t_test("contains", E("tmpl", "", s), cval(p)) is not False and not (kind == "i" and not cval(p).isdigit()):
                    return None
            else:
                if kind == "l":
                    return None
                for ch in "0123456789 -+" + ("." if kind in "rd" else "") + ("D" if kind == "d" else ""):
                    r = I_.apply(p, [C("char", ch)], st, fr, b)
                    if r is None or not is_c(r, "bool") or cval(r):
                        return None
        off += seglen(s)
    return I_.NONE


def t_eq(x, y):
    """text with columns compared with a constant"""
    if is_t(y):
        x, y = y, x
    if not is_t(x) or not is_str(y):
        return None
    cs = [s for s in x.args if not is_c(s)]
    if not cs:
        return None
    t = cval(y)
    if not t.strip():
        return False
    if all(s.meta[4] != "l" for s in cs):
        return None if any(ch.isdigit() for ch in t) else False
    return False if len(t) >= 3 else None


def t_replace(v, p, q):
    if len(p) != len(q):
        return None
    out = []
    for s in v.args:
        if is_c(s):
            out.append(S(cval(s).replace(p, q)))
        else:
            k = s.meta[4]
            if k == "l" or not p.isalpha():
                return None
            out.append(E("cell", s.meta[:4] + ("r" if k == "d" and p == "D" and q in "Ee" else k,)))
    return tmpl(*out, trimmed=v.meta)


def dexp(v):
    """holds a number with a D exponent"""
    while v.k == "e" and v.op in ("trim", "trim_start", "trim_end", "lower", "slice") and v.args:
        v = v.args[0]
    return is_t(v) and any(s.k == "e" and s.meta[4] == "d" for s in v.args)


def t_trim(v, side):
    """side: l, r or lr"""
    segs = list(v.args)
    tr = set(v.meta)
    if "l" in side:
        while segs and is_c(segs[0]):
            s = cval(segs[0]).lstrip()
            if s:
                segs[0] = S(s)
                break
            segs.pop(0)
        if segs and not is_c(segs[0]) and segs[0].meta[4] in "rdi":
            tr.add("l")
    if "r" in side:
        while segs and is_c(segs[-1]):
            s = cval(segs[-1]).rstrip()
            if s:
                segs[-1] = S(s)
                break
            segs.pop()
        if segs and not is_c(segs[-1]) and segs[-1].meta[4] == "l":
            tr.add("r")
    return tmpl(*segs, trimmed="".join(sorted(tr)))


def t_cat(a, b):
    ta = a.meta if is_t(a) else ""
    tb = b.meta if is_t(b) else ""
    if "r" in ta or "l" in tb:
        return None
    return tmpl(a, b, trimmed=("l" if "l" in ta else "") + ("r" if "r" in tb else ""))


def t_test(name, v, p):
    """True / False / None for contains, starts_with, ends_with with a constant pattern"""
    segs = v.args
    if name == "contains":
        if any(is_c(s) and p in cval(s) for s in segs):
            return True
        if len(p) >= 3 or not (p.isalnum() or p in ".+-"):
            return False
        if p.isalpha() and p.upper() not in ("E", "D") and all(is_c(s) or s.meta[4] == "r" for s in segs):
            return False
        return None
    s = segs[0] if name == "starts_with" else segs[-1]
    if is_c(s):
        t = cval(s)
        if len(t) >= len(p):
            return t.startswith(p) if name == "starts_with" else t.endswith(p)
        return None if (p.startswith(t) if name == "starts_with" else p.endswith(t)) else False
    if not p.strip():
        return None
    if len(p) >= 3 or not p.isalnum():
        return False
    if p.isalpha() and s.meta[4] == "r":
        return False
    return None


def t_words(v):
    out = []
    cur = []
    for s in v.args:
        if is_c(s):
            t = cval(s)
            if not t:
                continue
            ws = t.split()
            if t[0].isspace() and cur:
                out.append(cur)
                cur = []
            for i, w in enumerate(ws):
                if i:
                    out.append(cur)
                    cur = []
                cur.append(S(w))
            if t[-1].isspace() and cur:
                out.append(cur)
                cur = []
        else:
            # a right justified cell starts a new word when something stands before it: only if it cannot touch it
            if cur and (s.meta[4] in "rdi" or (cur[-1].k == "e" and cur[-1].meta[4] == "l")):
                out.append(cur)
                cur = []
            cur.append(s)
    if cur:
        out.append(cur)
    return [tmpl(*w) for w in out]


def t_split(v, p):
    out = [[]]
    for s in v.args:
        if is_c(s):
            parts = cval(s).split(p)
            out[-1].append(S(parts[0]))
            for q in parts[1:]:
                out.append([S(q)])
        else:
            out[-1].append(s)
    return [tmpl(*w) for w in out]


def wf(v):
    """well formed opaque text (a template or a case / blank change of one)"""
    while v.k == "e" and v.op in ("trim", "trim_start", "trim_end", "upper", "lower", "replace", "slice") and v.args:
        v = v.args[0]
    return is_t(v) and any(s.k == "e" for s in v.args)


def cells(v):
    """name -> set of (lo, hi, width) of every cell a term depends on"""
    out = {}
    for x in walk(v):
        if x.k == "e" and x.op == "cell":
            out.setdefault(x.meta[0], set()).add((x.meta[1], x.meta[2], x.meta[3]))
    return out


# ------------------------------------------------------------------ model layer
def vec_like(path):
    return path.startswith("std::vec::") or "<impl [T]>" in path or path.startswith("std::collections::VecDeque") or "slice::<impl" in path


def map_like(path):
    return path.startswith("std::collections::") and ("Map" in path or "map::" in path) and "VecDeque" not in path


def set_like(path):
    return path.startswith("std::collections::") and "Set" in path


def empty_of(ty):
    h = ty.split("<")[0]
    if h.startswith("std::vec::Vec") or "VecDeque" in h or ("Set" in h and "collections" in h):
        return arrv(())
    if "Map" in h and "collections" in h:
        return kvmap([])
    return None


def setv(I_, p, v, st):
    for m in members(p):
        if m.k == "ptr":
            I_.store(st, m, v, weak=p.k == "j")


def pre(I_, f, args, st, fr, b):
    path = f.get("path") or ""
    n = f.get("name") or path.split("::")[-1]
    tr = f.get("trait") or ""
    slf = f.get("self") or ""
    targs = f.get("targs") or []
    D = lambda i: I_.deref(args[i], st)
    NI = NotImplemented

    if n == "default" and tr == "std::default::Default":
        e = empty_of(slf)
        return e if e is not None else NI
    if n in ("new", "with_capacity", "with_hasher", "with_capacity_and_hasher") and (path.startswith("std::vec::Vec") or path.startswith("std::collections::")):
        return kvmap([]) if map_like(path) else arrv(())
    if n == "from_elem" and path.startswith("std::vec"):
        k = D(1)
        if is_c(k, "int") and cval(k) <= CAP:
            return arrv([D(0)] * cval(k))
        return NI
    if tr in ("std::convert::From", "std::iter::FromIterator") and "collections" in slf and args and is_vec(D(0)):
        return collect(I_, slf, list(D(0).a[4]))
    if not args:
        return NI
    # an operation on a known string
    if n == "get" and len(args) == 2 and (is_vec(D(0)) or columns(D(0)) is not None) and M.range_bounds(D(1)):
        r = M.range_bounds(D(1))
        m = len(D(0).a[4]) if is_vec(D(0)) else len(columns(D(0)))
        if all(x is None or is_c(x, "int") for x in r):
            lo, hi = (0 if r[0] is None else cval(r[0])), (m if r[1] is None else cval(r[1]))
            if lo > hi or hi > m:
                return I_.NONE
            x = M.slc(I_, D(0), *r) if not is_vec(D(0)) else arrv(D(0).a[4][lo:hi])
            if x is not BOT and (is_c(x, "str") or is_t(x) or is_vec(x)):
                return I_.some(x)
    if n == "from_utf8" and "str" in path.lower() and is_vec(D(0)):
        t = text_of_columns(D(0).a[4])
        if t is not None:
            return I_.ok(t)
    if n in ("copy_from_slice", "clone_from_slice") and args[0].k == "ptr" and is_vec(D(0)):
        xs = columns(D(1)) if not is_vec(D(1)) else list(D(1).a[4])
        if xs is not None:
            if len(xs) != len(D(0).a[4]):
                return None
            setv(I_, args[0], arrv(xs), st)
            return UNIT
    if n == "copy_within" and args[0].k == "ptr" and is_vec(D(0)) and is_c(D(2), "int"):
        r = M.range_bounds(D(1))
        xs = list(D(0).a[4])
        lo = 0 if not r or r[0] is None else cval(r[0]) if is_c(r[0], "int") else None
        hi = len(xs) if r and r[1] is None else cval(r[1]) if r and is_c(r[1], "int") else None
        if lo is not None and hi is not None:
            d = cval(D(2))
            if lo > hi or hi > len(xs) or d + hi - lo > len(xs):
                return None
            xs[d : d + hi - lo] = xs[lo:hi]
            setv(I_, args[0], arrv(xs), st)
            return UNIT
    if n == "replace_range" and path.startswith("std::string::String") and args[0].k == "ptr":
        xs, ys, r = columns(D(0)), columns(D(2)), M.range_bounds(D(1))
        if xs is not None and ys is not None and r and all(x is None or is_c(x, "int") for x in r):
            lo = 0 if r[0] is None else cval(r[0])
            hi = len(xs) if r[1] is None else cval(r[1])
            if lo > hi or hi > len(xs):
                return None
            t = text_of_columns(xs[:lo] + ys + xs[hi:])
            if t is not None:
                setv(I_, args[0], t, st)
                return UNIT
    if n == "bytes" and "<impl str>" in path and columns(D(0)) is not None:
        return lit(columns(D(0)))
    if ("<impl str>" in path or path.startswith("std::string::String")) and n in ("chars", "char_indices", "bytes", "lines", "split", "split_whitespace", "split_ascii_whitespace", "split_terminator"):
        x = D(0)
        if is_c(x, "str"):
            s = cval(x)
            if n == "chars":
                return lit([C("char", c) for c in s])
            if n == "bytes":
                return lit([I(c) for c in s.encode()])
            if n == "char_indices":
                return lit([tup(I(i), C("char", c)) for i, c in enumerate(s)])
            if n == "lines":
                return lit([S(y) for y in s.split("\n")[: -1 if s.endswith("\n") else None]] if s else [])
            if "whitespace" in n:
                return lit([S(y) for y in s.split()])
            p = D(len(args) - 1)
            if is_c(p, "str") or is_c(p, "char"):
                ps = s.split(cval(p))
                if n == "split_terminator" and ps and ps[-1] == "":
                    ps = ps[:-1]
                return lit([S(y) for y in ps])
        if is_t(x):
            if n == "lines":
                r = t_split(x, "\n")
                if r and r[-1] is S(""):
                    r = r[:-1]
                return lit(r)
            if "whitespace" in n:
                return lit(t_words(x))
            p = D(len(args) - 1)
            if n == "split" and is_c(p) and isinstance(cval(p), str) and len(cval(p)) == 1 and not cval(p).isalnum():
                return lit(t_split(x, cval(p)))
            if n == "chars":
                out = []
                for s in x.args:
                    out += [C("char", c) for c in cval(s)] if is_c(s) else [E("char", None, E("tmpl", "", E("cell", (s.meta[0], s.meta[1] + i, s.meta[1] + i + 1) + s.meta[3:]))) for i in range(cw(s))]
                if not x.meta and len(out) <= 8 * CAP:
                    return lit(out)
        return NI
    if vec_like(path) or map_like(path) or set_like(path) or (path.startswith("std::collections") and "ntry" in path):
        r = coll_op(I_, n, path, f, args, st, fr, b)
        if r is not NI:
            return r
    if tr in ("std::ops::Index", "std::ops::IndexMut") and n == "index":
        v = D(0)
        if is_kv(v):
            x = present(kv_get(v, D(1)))[1]
            return x if x is not BOT else None
    if n in ("into_iter", "iter", "iter_mut", "next", "next_back") or tr in ("std::iter::Iterator", "itertools::Itertools", "std::iter::DoubleEndedIterator", "std::iter::ExactSizeIterator", "std::iter::FromIterator", "std::iter::Extend") or path.startswith("std::iter::") or path.startswith("std::iter::Peekable"):
        return iter_op(I_, n, f, args, st, fr, b)
    if "hifitime" in path or (args and tr == "std::cmp::PartialEq" or tr == "std::cmp::PartialOrd") and "hifitime::Epoch" in (f.get("self") or ""):
        r = dates.call(I_, path, n, [D(i) for i in range(len(args))])
        if r is not None:
            return r
    if "hifitime" in path or args and "hifitime::" in " ".join([f.get("self") or ""] + [str(x) for x in f.get("targs") or ()]):
        xs = [D(i) for i in range(len(args))]
        r = dates.duration(I_, path, n, xs)
        if r is None and n == "sub":
            r = dates.call(I_, path, n, xs)
        if r is not None:
            return r
    if n == "from_gregorian_str" and "hifitime" in path and args and well_formed_date(D(0)):
        return agg("std::result::Result", "Ok", 0, ("0",), (I_.E("call", path, D(0)),))
    if n in ("eq", "ne") and tr == "std::cmp::PartialEq":
        x, y = D(0), D(1)
        if x is y and x.k in ("agg", "e") and x.k != "j":
            return B(n == "eq")
    return NI


def collect(I_, ty, xs):
    h = ty.split("<")[0]
    if h == RES or h == OPT:
        inner = ty[len(h) + 1 : -1].split(",")[0] if "<" in ty else ""
        good, bad, out = True, [], []
        for x in xs:
            for g, p, m in I_.cases(x):
                if not g:
                    bad.append(m if m.k == "agg" else (I_.err(p) if h == RES else I_.NONE))
            p = I_.payload(x)
            out.append(p)
            if p is BOT:
                return joinall(bad)
        ok = collect(I_, ty[len(h) + 1 :], out)
        return joinall(bad + [I_.ok(ok) if h == RES else I_.some(ok)])
    if h.endswith("String"):
        r = S("")
        for x in xs:
            r = M.cat(I_, r, x)
        return r
    if "Map" in h:
        m = kvmap([])
        for x in xs:
            if not (x.k == "agg" and x.a[0] == "()" and len(x.a[4]) == 2):
                return M.coll(TOP, TOP)
            if is_kv(m):
                m = kv_set(m, *x.a[4])
            else:
                m = M.coll(join(m.a[4][0], x.a[4][0]), join(m.a[4][1], x.a[4][1]))
        return m
    if "Set" in h:
        return dedup(xs) or M.coll(BOT, joinall(xs))
    return arrv(xs)


def dedup(xs):
    out = []
    for x in xs:
        rs = [same(x, y) for y in out]
        if any(r is True for r in rs):
            continue
        if any(r is None for r in rs):
            return None
        out.append(x)
    return arrv(out)


def runs(xs, eq):
    """consecutive repetitions removed (None: undecided)"""
    out = []
    for x in xs:
        r = eq(out[-1], x) if out else False
        if r is None:
            return None
        if not r:
            out.append(x)
    return arrv(out)


def coll_op(I_, n, path, f, args, st, fr, b):
    NI = NotImplemented
    D = lambda i: I_.deref(args[i], st)
    a0 = args[0]
    targs = f.get("targs") or []
    if n in ("or_insert", "or_default", "or_insert_with", "or_insert_with_key", "and_modify"):
        e = D(0)
        if e.k == "e" and e.op == "entry" and e.meta:
            p = ptr(*e.meta)
            m = I_.load(st, p)
            k = e.args[0]
            if not is_kv(m):
                return NI
            sub = ptr(p.a[0], p.a[1], p.a[2] + (("I", k),))
            i, may = kv_find(m, k)
            if n == "and_modify":
                if i is not None:
                    I_.apply(args[1], [sub], st, fr, b)
                return e
            cur = present(kv(m)[i][1]) if i is not None else (False, BOT)
            if not cur[0]:
                if n == "or_insert":
                    x = D(1)
                elif n == "or_default":
                    x = None
                    for t in reversed(targs):
                        x = empty_of(t)
                        if x is not None:
                            break
                        if t in M.INTS:
                            x = I(0)
                            break
                    x = x if x is not None else E("default", None)
                else:
                    x = I_.apply(args[1], [], st, fr, b)
                I_.store(st, p, kv_set(m, k, join(cur[1], x if x is not None else TOP)))
            return sub
        return NI
    v = D(0)
    if vec_like(path) and n in ("iter", "iter_mut", "get", "get_mut") and columns(v) is not None and not map_like(path):
        v = arrv(columns(v))
    if map_like(path):
        if not is_kv(v):
            if v.k == "j" and any(is_kv(m) for m in v.a[0]) and n not in ("len", "is_empty"):
                v2 = joinall([smash(m) for m in v.a[0]])
                setv(I_, a0, v2, st)
            return NI
        if n == "insert":
            old = present(kv_get(v, D(1)))
            setv(I_, a0, kv_set(v, D(1), D(2)), st)
            if old[1] is BOT:
                return I_.NONE
            return I_.some(old[1]) if old[0] else I_.mkopt(old[1])
        if n in ("get", "get_mut", "remove", "get_key_value"):
            k = D(1)
            p, x = present(kv_get(v, k))
            if x is BOT:
                return I_.NONE
            if n == "remove":
                i, may = kv_find(v, k)
                if i is None:
                    return NI
                es = kv(v)
                es.pop(i)
                setv(I_, a0, kvmap(es), st)
            elif n == "get_mut" and a0.k == "ptr":
                i, may = kv_find(v, k)
                x = ptr(a0.a[0], a0.a[1], a0.a[2] + (("I", kv(v)[i][0] if i is not None else k),))
            elif n == "get_key_value":
                x = tup(k, x)
            return I_.some(x) if p else I_.mkopt(x)
        if n == "contains_key":
            p, x = present(kv_get(v, D(1)))
            if x is BOT:
                return B(False)
            return B(True) if p else I_.E("contains", None, v, D(1))
        if n == "entry" and a0.k == "ptr":
            return E("entry", (a0.a[0], a0.a[1], a0.a[2]), D(1))
        if n in ("iter", "into_iter", "drain"):
            xs = to_list(I_, v, True)
            return lit(xs) if xs is not None else NI
        if n in ("iter_mut", "values_mut") and a0.k == "ptr":
            es = kv(v)
            if all(present(x)[0] for _, x in es):
                ps = [(k, ptr(a0.a[0], a0.a[1], a0.a[2] + (("I", k),))) for k, _ in es]
                return lit([tup(k, p) if n == "iter_mut" else p for k, p in ps])
            return NI
        if n in ("keys", "into_keys"):
            es = kv(v)
            return lit([k for k, _ in es]) if all(present(x)[0] for _, x in es) else NI
        if n in ("values", "into_values"):
            es = kv(v)
            return lit([x for _, x in es]) if all(present(x)[0] for _, x in es) else NI
        if n in ("len", "is_empty"):
            es = kv(v)
            k = sum(present(x)[0] for _, x in es)
            if k == len(es):
                return I(k) if n == "len" else B(k == 0)
            return B(False) if n == "is_empty" and k else I_.E(n, None, v)
        if n == "clear":
            setv(I_, a0, kvmap([]), st)
            return UNIT
        if n in ("first_key_value", "last_key_value") and len(kv(v)) <= 1:
            if not kv(v):
                return I_.NONE
            k, x = kv(v)[0]
            p, x = present(x)
            return I_.some(tup(k, x)) if p else I_.mkopt(tup(k, x))
        if n in ("extend", "append"):
            xs = to_list(I_, D(1), True)
            if xs is not None and all(x.k == "agg" and x.a[0] == "()" for x in xs):
                m = v
                for x in xs:
                    if not is_kv(m):
                        return NI
                    m = kv_set(m, *x.a[4][:2])
                setv(I_, a0, m, st)
                return UNIT
            return NI
        if n == "retain" and a0.k == "ptr":
            keep, sure = [], True
            es = kv(v)
            cur = v
            for k, x in es:
                sub = ptr(a0.a[0], a0.a[1], a0.a[2] + (("I", k),))
                r = I_.apply(args[1], [k, sub], st, fr, b)
                if r is None or not is_c(r, "bool"):
                    keep.append((k, False))
                elif cval(r):
                    keep.append((k, True))
            now = I_.load(st, a0)
            if is_kv(now):
                d = {id(k): x for k, x in kv(now)}
                setv(I_, a0, kvmap([(k, d[id(k)] if s else join(d[id(k)], ABSENT)) for k, s in keep if id(k) in d]), st)
            return UNIT
        return NI
    # vectors, slices, sets
    if v.k == "j" and any(is_vec(m) for m in v.a[0]) and n in ("push", "push_back", "insert", "extend", "append") and a0.k == "ptr":
        if all(is_vec(m) for m in v.a[0]) and n in ("push", "push_back") and all(len(m.a[4]) < CAP for m in v.a[0]):
            x = D(1)
            setv(I_, a0, joinall([arrv(m.a[4] + (x,)) for m in v.a[0]]), st)
            return UNIT
        return NI
    if not is_vec(v):
        return NI
    xs = list(v.a[4])
    if set_like(path):
        if n == "insert":
            rs = [same(x, D(1)) for x in xs]
            if any(r is True for r in rs):
                return B(False)
            if all(r is False for r in rs):
                setv(I_, a0, arrv(xs + [D(1)]), st)
                return B(True)
            return NI
        if n == "contains":
            return NI
        if n in ("iter", "into_iter"):
            return lit(xs)
        if n == "len":
            return I(len(xs))
        return NI
    if n in ("push", "push_back", "push_front"):
        if len(xs) >= CAP:
            return NI
        setv(I_, a0, arrv(xs + [D(1)] if n != "push_front" else [D(1)] + xs), st)
        return UNIT
    if n in ("pop", "pop_back", "pop_front"):
        if not xs:
            return I_.NONE
        x = xs.pop(0 if n == "pop_front" else -1)
        setv(I_, a0, arrv(xs), st)
        return I_.some(x)
    if n == "insert" and is_c(D(1), "int") and cval(D(1)) <= len(xs):
        xs.insert(cval(D(1)), D(2))
        setv(I_, a0, arrv(xs), st)
        return UNIT
    if n in ("extend_from_slice", "append", "extend"):
        ys = to_list(I_, D(1))
        if ys is None:
            return NI
        setv(I_, a0, arrv(xs + ys), st)
        if n == "append":
            setv(I_, args[1], arrv(()), st)
        return UNIT
    if n == "len":
        return I(len(xs))
    if n == "is_empty":
        return B(not xs)
    if n == "clear":
        setv(I_, a0, arrv(()), st)
        return UNIT
    if n in ("get", "get_mut") and is_c(D(1), "int"):
        i = cval(D(1))
        if not 0 <= i < len(xs):
            return I_.NONE
        if n == "get_mut" and a0.k == "ptr":
            return I_.some(ptr(a0.a[0], a0.a[1], a0.a[2] + (("I", I(i)),)))
        return I_.some(xs[i])
    if n in ("first", "last", "first_mut", "last_mut"):
        if not xs:
            return I_.NONE
        i = 0 if n.startswith("first") else len(xs) - 1
        if n.endswith("mut") and a0.k == "ptr":
            return I_.some(ptr(a0.a[0], a0.a[1], a0.a[2] + (("I", I(i)),)))
        return I_.some(xs[i])
    if n in ("remove", "swap_remove") and is_c(D(1), "int"):
        i = cval(D(1))
        if i >= len(xs):
            return None
        x = xs.pop(i)
        setv(I_, a0, arrv(xs), st)
        return x
    if n == "truncate" and is_c(D(1), "int"):
        setv(I_, a0, arrv(xs[: cval(D(1))]), st)
        return UNIT
    if n == "resize" and is_c(D(1), "int") and cval(D(1)) <= CAP:
        k = cval(D(1))
        setv(I_, a0, arrv((xs + [D(2)] * max(0, k - len(xs)))[:k]), st)
        return UNIT
    if n == "reverse":
        setv(I_, a0, arrv(xs[::-1]), st)
        return UNIT
    if n == "swap" and is_c(D(1), "int") and is_c(D(2), "int"):
        i, j = cval(D(1)), cval(D(2))
        if max(i, j) < len(xs):
            xs[i], xs[j] = xs[j], xs[i]
            setv(I_, a0, arrv(xs), st)
        return UNIT
    if n in ("iter", "into_iter", "drain"):
        if n == "drain":
            r = M.range_bounds(D(1))
            if r != (None, None):
                return NI
            setv(I_, a0, arrv(()), st)
        return lit(xs)
    if n == "iter_mut" and a0.k == "ptr":
        return lit([ptr(a0.a[0], a0.a[1], a0.a[2] + (("I", I(i)),)) for i in range(len(xs))])
    if n in ("sort", "sort_unstable") and all(is_c(x, "int") or is_c(x, "str") for x in xs):
        setv(I_, a0, arrv(sorted(xs, key=cval)), st)
        return UNIT
    if n in ("sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key"):
        if len(xs) > 1:
            setv(I_, a0, M.coll(BOT, joinall(xs)), st)
        return UNIT
    if n == "dedup":
        if len(xs) > 1:
            setv(I_, a0, runs(xs, same) or M.coll(BOT, joinall(xs)), st)
        return UNIT
    if n in ("windows", "chunks", "chunks_exact") and is_c(D(1), "int") and cval(D(1)) > 0:
        k = cval(D(1))
        if n == "windows":
            return lit([arrv(xs[i : i + k]) for i in range(0, len(xs) - k + 1)])
        return lit([arrv(xs[i : i + k]) for i in range(0, len(xs), k) if n == "chunks" or i + k <= len(xs)])
    if n in ("concat", "join") and all(is_c(x, "str") or is_t(x) or (x.k == "e") for x in xs):
        r = S("")
        for i, x in enumerate(xs):
            if n == "join" and i:
                r = M.cat(I_, r, D(1))
            r = M.cat(I_, r, x)
        return r
    if n in ("retain", "retain_mut") and a0.k == "ptr":
        keep = []
        for i, x in enumerate(xs):
            r = I_.apply(args[1], [ptr(a0.a[0], a0.a[1], a0.a[2] + (("I", I(i)),)) if n == "retain_mut" else x], st, fr, b)
            if r is None or not is_c(r, "bool"):
                setv(I_, a0, M.coll(BOT, joinall(xs)), st)
                return UNIT
            if cval(r):
                keep.append(i)
        now = I_.load(st, a0)
        setv(I_, a0, arrv([now.a[4][i] for i in keep]), st)
        return UNIT
    return NI


def iter_op(I_, n, f, args, st, fr, b):
    NI = NotImplemented
    D = lambda i: I_.deref(args[i], st)
    slf = f.get("self") or ""
    targs = f.get("targs") or []

    def A(i, xs):
        return I_.apply(args[i], xs, st, fr, b)

    a0 = args[0]
    v = D(0)
    if n == "from_iter":
        xs = to_list(I_, v, True)
        return collect(I_, slf, xs) if xs is not None else NI
    if n == "extend":
        return coll_op(I_, "extend", "std::collections::HashMap" if is_kv(v) else "std::vec::Vec", f, args, st, fr, b) if is_kv(v) or is_vec(v) else NI
    if n in ("into_iter", "iter", "iter_mut"):
        if slf.startswith("&mut") and a0.k == "ptr" and (is_vec(v) or is_kv(v)):
            return coll_op(I_, "iter_mut", "std::collections::HashMap" if is_kv(v) else "std::vec::Vec", f, args, st, fr, b)
        if is_lit(v):
            return v
        xs = to_list(I_, v, True)
        return lit(xs) if xs is not None else NI
    if n in ("next", "next_back", "peek"):
        if v.k == "j" and any(is_lit(m) for m in v.a[0]):
            el = joinall([M.elem_of(I_, m) for m in v.a[0]])
            setv(I_, a0, E("iter", "lit?", el), st)
            return I_.mkopt(el)
        if not is_lit(v):
            # stepping a range directly
            xs = to_list(I_, v) if v.k == "agg" and v.a[0].startswith("std::ops::Range") else None
            if xs is None:
                return NI
            v = lit(xs)
        xs = list(v.a[4])
        if not xs:
            return I_.NONE
        if n == "peek":
            return I_.some(xs[0])
        x = xs.pop(0 if n == "next" else -1)
        if a0.k == "ptr":
            setv(I_, a0, lit(xs), st)
        elif a0.k == "j":
            setv(I_, a0, E("iter", "lit?", joinall(v.a[4])), st)
        return I_.some(x)
    xs = to_list(I_, v, True)
    if xs is None:
        return NI
    if n in ("cloned", "copied", "by_ref", "fuse", "peekable", "inspect"):
        if n == "by_ref" and a0.k == "ptr":
            return a0
        return lit([I_.deref(x, st) if n in ("cloned", "copied") else x for x in xs])
    if n in ("map", "filter_map", "for_each", "flat_map", "map_while", "inspect"):
        out = []
        for x in xs:
            r = A(1, [x])
            if r is None:
                return None if n == "for_each" else lit(out)
            if n == "filter_map" or n == "map_while":
                cs = I_.cases(r)
                if all(g for g, _, _ in cs):
                    out.append(I_.payload(r))
                elif any(g for g, _, _ in cs):
                    rest = [I_.payload(A(1, [y])) for y in xs]
                    return E("iter", "filter_map?", joinall(rest))
                elif n == "map_while":
                    break
            elif n == "flat_map":
                ys = to_list(I_, r, True)
                if ys is None:
                    return E("iter", "flat_map?", joinall([M.elem_of(I_, A(1, [y])) for y in xs]))
                out += ys
            else:
                out.append(r)
        return UNIT if n == "for_each" else lit(out)
    if n == "flatten":
        out = []
        for x in xs:
            ys = to_list(I_, x, True)
            if ys is None:
                return NI
            out += ys
        return lit(out)
    if n in ("filter", "take_while", "skip_while"):
        out = []
        skipping = n == "skip_while"
        for x in xs:
            if n == "skip_while" and not skipping:
                out.append(x)
                continue
            r = A(1, [x])
            if r is None or not is_c(r, "bool"):
                for y in xs:
                    A(1, [y])
                return E("iter", n + "?", joinall(xs))
            if n == "skip_while":
                if not cval(r):
                    skipping = False
                    out.append(x)
            elif cval(r):
                out.append(x)
            elif n == "take_while":
                break
        return lit(out)
    if n == "enumerate":
        return lit([tup(I(i), x) for i, x in enumerate(xs)])
    if n == "rev":
        return lit(xs[::-1])
    if n in ("skip", "take", "step_by") and is_c(D(1), "int"):
        k = cval(D(1))
        return lit(xs[k:] if n == "skip" else xs[:k] if n == "take" else xs[:: max(k, 1)])
    if n in ("zip", "chain"):
        ys = to_list(I_, D(1), True)
        if ys is None:
            return NI
        return lit([tup(x, y) for x, y in zip(xs, ys)] if n == "zip" else xs + ys)
    if n == "collect" or n == "collect_vec":
        return collect(I_, targs[-1] if targs and n == "collect" else "std::vec::Vec", xs)
    if n == "fold":
        acc = D(1)
        for x in xs:
            acc = A(2, [acc, x])
            if acc is None:
                return None
        return acc
    if n == "reduce":
        if not xs:
            return I_.NONE
        acc = xs[0]
        for x in xs[1:]:
            acc = A(1, [acc, x])
            if acc is None:
                return None
        return I_.some(acc)
    if n in ("any", "all", "position", "find"):
        if n == "find" and a0.k == "j":
            return NI
        for i, x in enumerate(xs):
            r = A(1, [x])
            if r is None or not is_c(r, "bool"):
                rs = [A(1, [y]) for y in xs[i + 1 :]]
                if n in ("any", "all"):
                    if any(q is not None and is_c(q, "bool") and cval(q) == (n == "any") for q in rs):
                        return B(n == "any")
                    return I_.E(n, None, *[q for q in [r] + rs if q is not None])
                return I_.mkopt(joinall(xs[i:]) if n == "find" else E("index", None))
            if n == "any" and cval(r):
                return B(True)
            if n == "all" and not cval(r):
                return B(False)
            if n in ("position", "find") and cval(r):
                if a0.k == "ptr":
                    setv(I_, a0, lit(xs[i + 1 :]), st)
                return I_.some(I(i) if n == "position" else x)
        return B(n == "all") if n in ("any", "all") else I_.NONE
    if n == "find_map":
        for i, x in enumerate(xs):
            r = A(1, [x])
            if r is None:
                return None
            cs = I_.cases(r)
            if all(g for g, _, _ in cs):
                return r
            if any(g for g, _, _ in cs):
                return joinall([A(1, [y]) for y in xs[i:]] + [I_.NONE])
        return I_.NONE
    if n == "count" or (n == "len" and is_lit(v)):
        return I(len(xs))
    if n in ("sum", "product"):
        if not xs:
            return NI
        acc = xs[0]
        for x in xs[1:]:
            acc = I_.binop("Add" if n == "sum" else "Mul", acc, I_.deref(x, st))
        return acc
    if n == "last":
        return I_.some(xs[-1]) if xs else I_.NONE
    if n in ("nth", "nth_back") and is_c(D(1), "int"):
        k = cval(D(1))
        if n == "nth_back":
            return I_.some(xs[-1 - k]) if k < len(xs) else I_.NONE
        if a0.k == "ptr":
            setv(I_, a0, lit(xs[k + 1 :]), st)
        return I_.some(xs[k]) if k < len(xs) else I_.NONE
    if n == "unzip":
        if all(x.k == "agg" and x.a[0] == "()" for x in xs):
            return tup(arrv([x.a[4][0] for x in xs]), arrv([x.a[4][1] for x in xs]))
        return NI
    if n == "join":
        r = S("")
        for i, x in enumerate(xs):
            if i:
                r = M.cat(I_, r, D(1))
            r = M.cat(I_, r, x)
        return r
    if n in ("unique", "dedup"):
        r = dedup(xs) if n == "unique" else runs(xs, same)
        return lit(r.a[4]) if r is not None else NI
    if n == "unique_by":
        ks = [A(1, [x]) for x in xs]
        out = []
        for k, x in zip(ks, xs):
            rs = [same(k, j) for j, _ in out]
            if any(y is None for y in rs) and not any(y is True for y in rs):
                return NI
            if not any(rs):
                out.append((k, x))
        return lit([x for _, x in out])
    if n in ("dedup_by", "dedup_by_key"):

        def eq(a, x):
            if n == "dedup_by_key":
                return same(A(1, [a]), A(1, [x]))
            v = A(1, [a, x])
            return bool(cval(v)) if is_c(v, "bool") else None

        r = runs(xs, eq)
        return lit(r.a[4]) if r is not None else NI
    if n in ("sorted", "sorted_unstable", "min", "max") and len(xs) > 1:
        ks = [ordkey(I_, x) for x in xs]
        if any(k is None for k in ks) and all(x.k == "agg" and x.a[0] == "()" and x.a[4] for x in xs):
            ks = [ordkey(I_, x.a[4][0]) for x in xs]  # decided by the first component when all differ
            if any(k is None for k in ks) or len(set(ks)) < len(ks):
                ks = [None]
        if all(k is not None for k in ks) and len({k[0] for k in ks}) == 1:
            ys = [x for _, x in sorted(zip(ks, xs), key=lambda p: p[0])]
            if n == "max":
                return I_.some(ys[-1])
            return I_.some(ys[0]) if n == "min" else lit(ys)
    if n in ("sorted", "sorted_unstable", "min", "max") and all(is_c(x, "int") or is_c(x, "str") for x in xs):
        ys = sorted(xs, key=cval)
        if n in ("min", "max"):
            return I_.some(ys[0 if n == "min" else -1]) if ys else I_.NONE
        return lit(ys)
    if n in ("tuple_windows",) and xs:
        return lit([tup(x, y) for x, y in zip(xs, xs[1:])])
    if n in ("min_by_key", "max_by_key", "min_by", "max_by", "min", "max", "sorted", "sorted_by", "sorted_by_key") and len(xs) <= 1:
        if n.startswith("sorted"):
            return lit(xs)
        return I_.some(xs[0]) if xs else I_.NONE
    if n in ("min_by_key", "max_by_key", "sorted_by_key") and len(args) == 2:
        ks = [ordkey(I_, A(1, [x])) for x in xs]
        if all(k is not None for k in ks) and len({k[0] for k in ks}) == 1:
            ys = [x for _, x in sorted(zip(ks, xs), key=lambda p: p[0])]
            if n == "sorted_by_key":
                return lit(ys)
            best = min(ks) if n == "min_by_key" else max(ks)
            same_ = [x for k, x in zip(ks, xs) if k == best]
            return I_.some(same_[0] if n == "min_by_key" else same_[-1])
    if n in ("min_by", "max_by") and len(args) == 2:
        best = xs[0]
        for x in xs[1:]:
            o = M.ordering_of(A(1, [best, x]))
            if o is None:
                return NI
            if n == "max_by" and o <= 0 or n == "min_by" and o > 0:
                best = x
        return I_.some(best)
    return NI

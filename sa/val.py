"""Abstract values: hash-consed terms.

  c   constant            (tag, value)      tag in int,f64,bool,char,str,bytes,unit,fn
  agg known constructor   adt, variant, vi, names, fields
  ptr mutable reference   frame, local, path
  e   opaque term         op, meta, args    (what is known of a run-time value: where it came from)
  j   join                frozenset of the above
  top / bot
"""


class V:
    __slots__ = ("k", "a", "h", "sz")

    def __init__(self, k, a, sz):
        self.k = k
        self.a = a
        self.sz = sz

    def __repr__(self):
        return show(self)

    # e accessors
    @property
    def op(self):
        return self.a[0]

    @property
    def meta(self):
        return self.a[1]

    @property
    def args(self):
        return self.a[2]


_tab = {}


def _mk(k, a, sz=1):
    key = (k, a)
    v = _tab.get(key)
    if v is None:
        v = V(k, a, sz)
        _tab[key] = v
    return v


TOP = _mk("top", ())
BOT = _mk("bot", ())


def C(tag, v):
    # keep 1 / 1.0 / True apart
    return _mk("c", (tag, repr(v) if tag == "f64" else v, type(v).__name__))


def cval(v):
    t = v.a[0]
    if t == "f64":
        return float(v.a[1])
    return v.a[1]


def I(n):
    return C("int", n)


def S(s):
    return C("str", s)


def B(b):
    return C("bool", bool(b))


UNIT = C("unit", 0)


def agg(adt, variant, vi, names, fields):
    fields = tuple(fields)
    return _mk("agg", (adt, variant, vi, tuple(names), fields), 1 + sum(f.sz for f in fields))


def tup(*fs):
    return agg("()", "", 0, tuple(str(i) for i in range(len(fs))), fs)


def arrv(fs):
    fs = tuple(fs)
    return agg("[]", "", 0, tuple(str(i) for i in range(len(fs))), fs)


MAXSZ = 4000


def E(op, meta, *args):
    sz = 1 + sum(x.sz for x in args)
    if sz > MAXSZ:
        return _mk("e", ("big", op, ()), 1)
    return _mk("e", (op, meta, tuple(args)), sz)


def ptr(fid, local, path):
    return _mk("ptr", (fid, local, tuple(path)))


JCAP = 48


def join(a, b):
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if a is TOP or b is TOP:
        return TOP
    if a.k == "agg" and b.k == "agg":
        if a.a[0] == "kvmap" and b.a[0] == "kvmap":
            import lists
            return lists.kv_join(a, b)
        if a.a[:4] == b.a[:4] and len(a.a[4]) == len(b.a[4]):
            return agg(*a.a[:4], [join(x, y) for x, y in zip(a.a[4], b.a[4])])
    m = []
    for v in (a, b):
        m.extend(v.a[0] if v.k == "j" else [v])
    return joinall(m)


def joinall(vs):
    aggs = {}
    rest = set()
    for v in vs:
        if v is BOT:
            continue
        if v is TOP:
            return TOP
        if v.k == "j":
            ms = v.a[0]
        else:
            ms = (v,)
        for x in ms:
            if x.k == "agg":
                key = (x.a[:4], len(x.a[4])) if x.a[0] != "kvmap" else "kvmap"
                if key == "kvmap" and key in aggs:
                    import lists
                    aggs[key] = lists.kv_join(aggs[key], x)
                elif key in aggs:
                    o = aggs[key]
                    aggs[key] = o if o is x else agg(*o.a[:4], [join(p, q) for p, q in zip(o.a[4], x.a[4])])
                else:
                    aggs[key] = x
            else:
                rest.add(x)
    fs = frozenset(rest | set(aggs.values()))
    if not fs:
        return BOT
    if len(fs) == 1:
        return next(iter(fs))
    if len(fs) > JCAP:
        return TOP
    return _mk("j", (fs,), 1 + sum(x.sz for x in fs))


def members(v):
    if v.k == "j":
        return sorted(v.a[0], key=show)
    if v is BOT:
        return []
    return [v]


def is_c(v, tag=None):
    return v.k == "c" and (tag is None or v.a[0] == tag)


def is_str(v):
    return is_c(v, "str")


def show(v, d=0):
    if d > 14:
        return "…"
    k = v.k
    if k == "c":
        if v.a[0] == "str":
            return '"%s"' % v.a[1]
        if v.a[0] == "fn":
            return "fn:" + str(v.a[1][0])
        return str(v.a[1])
    if k == "agg":
        adt, var, vi, names, fs = v.a
        nm = adt.split("::")[-1] + ("::" + var if var else "")
        if adt == "()":
            return "(" + ", ".join(show(f, d + 1) for f in fs) + ")"
        if adt == "[]":
            return "[" + ", ".join(show(f, d + 1) for f in fs) + "]"
        if not fs:
            return nm
        return nm + "{" + ", ".join("%s:%s" % (n, show(f, d + 1)) for n, f in zip(names, fs)) + "}"
    if k == "ptr":
        return "&mut%s" % (v.a,)
    if k == "e":
        op, meta, args = v.a
        m = "" if meta is None or meta == () else "<%s>" % (meta,)
        if not args:
            return op + m
        return op + m + "(" + ", ".join(show(x, d + 1) for x in args) + ")"
    if k == "j":
        return "{" + " | ".join(sorted(show(x, d + 1) for x in v.a[0])) + "}"
    return k


def walk(v, seen=None):
    """all sub-terms"""
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        if x.k == "agg":
            st.extend(x.a[4])
        elif x.k == "e":
            st.extend(x.a[2])
        elif x.k == "j":
            st.extend(x.a[0])

"""Context-seeded, interprocedural constant/provenance propagation over MIR.

One abstract state per control-flow point; joins at merge points; edges whose
switch operand is a known constant are the only ones followed (conditional
constant propagation); loops are iterated to a fixpoint with widening to an
opaque `phi` term.  Nothing is executed and no path is enumerated or handed to
a solver: values that are not constants stay opaque terms that remember which
input, column range, call or format template they come from.
"""
import math
import models
import lists
import dates
from val import *
from mir import term_succs

OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"


class Event:
    __slots__ = ("fn", "block", "callee", "args", "targs", "ret", "span", "stack", "raw")

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)

    def __repr__(self):
        return "%s@%s(%s)" % (self.callee, self.span, ", ".join(map(repr, self.args)))


class Frame:
    __slots__ = ("fn", "fid", "depth", "stack", "site", "sig")

    def __init__(self, fn, fid, depth, stack):
        self.fn = fn
        self.fid = fid
        self.depth = depth
        self.stack = stack
        self.site = 0
        self.sig = None


class Budget(Exception):
    pass


class Interp:
    def __init__(self, prog, opaque=(), hooks=None, facts=None, maxdepth=12, maxsteps=400000, record=True, eager=False, partition=False, reg=None, rec=0, cparams=None):
        self.p = prog
        self.opaque = opaque if callable(opaque) else (lambda fn, _o=set(opaque): fn.path in _o)
        self.hooks = hooks or {}
        self.facts = facts or {}
        self.maxdepth = maxdepth
        self.rec = rec
        self.cparams = cparams or {}  # values of const generic parameters
        self.events = {}
        self.stores = {}
        self.fids = {}
        self.phi = {}
        self.steps = 0
        self.maxsteps = maxsteps
        self.exhausted = False
        self.memo = {}
        self.record = record
        self.fns_seen = set()
        self.unmodelled = {}
        self._live = {}
        self._heads = {}
        self._inloop = {}
        self.reach = {}
        self.loglist = None
        self.eager = eager
        self.lists = partition
        self.reg = reg  # numbers written in a field of fixed width become columns of a template (name -> (term, spec))
        self.partition = partition
        self._passign = {}
        self._lassign = {}

    # ------------------------------------------------------------ terms
    def E(self, op, meta, *args):
        v = E(op, meta, *args)
        if self.facts:
            return self.facts.get(v, v)
        return v

    def some(self, v):
        return agg(OPT, "Some", 1, ("0",), (v,))

    NONE = agg(OPT, "None", 0, (), ())

    def ok(self, v):
        return agg(RES, "Ok", 0, ("0",), (v,))

    def err(self, v):
        return agg(RES, "Err", 1, ("0",), (v,))

    def mkopt(self, v):
        return join(self.some(v), self.NONE)

    def mkres(self, v, e=None):
        return join(self.ok(v), self.err(e if e is not None else E("anyerr", None)))

    def cases(self, v):
        """possible cases of an Option/Result/ControlFlow value: list of (good, payload, original)"""
        out = []
        for m in members(v):
            if m.k == "agg" and m.a[0] in (OPT, RES, CF):
                var = m.a[1]
                good = var in ("Some", "Ok", "Continue")
                out.append((good, m.a[4][0] if m.a[4] else UNIT, m))
            else:
                out.append((True, self.E("ok", None, m) if m is not TOP else TOP, m))
                out.append((False, self.E("err", None, m) if m is not TOP else TOP, m))
        return out

    def payload(self, v):
        return joinall([p for g, p, _ in self.cases(v) if g])

    def fid(self, parent, fn, block):
        k = (parent, fn.id, block)
        r = self.fids.get(k)
        if r is None:
            r = len(self.fids) + 1
            self.fids[k] = r
        return r

    # ------------------------------------------------------------ places
    def proj(self, v, pe, st, fr):
        k = pe[0]
        if v is BOT or v is TOP:
            return v
        if v.k == "j":
            return joinall([self.proj(m, pe, st, fr) for m in v.a[0]])
        if k == "*":
            if v.k == "ptr":
                return self.load(st, v)
            return v
        if v.k == "ptr":
            if k == "f" and len(pe) > 3 and pe[3].startswith(("std::boxed", "std::ptr", "std::mem")):
                return v
            v = self.load(st, v)
            return self.proj(v, pe, st, fr)
        if k == "f":
            if v.k == "agg":
                fs = v.a[4]
                if v.a[0] == "coll":
                    return self.E("f", pe[2] if len(pe) > 2 and pe[2] else str(pe[1]), v)
                if pe[1] < len(fs):
                    return fs[pe[1]]
                return BOT
            nm = pe[2] if len(pe) > 2 and pe[2] else str(pe[1])
            own = pe[3] if len(pe) > 3 else ""
            if own.startswith("std::boxed") or own.startswith("std::ptr") or own.startswith("core::"):
                return v
            if own in (OPT, RES, CF) and v.k == "e":
                # after a downcast
                if v.op == "dc":
                    return self.E("ok" if v.meta in ("Some", "Ok", "Continue") else "err", None, v.args[0])
            if v.k == "e" and v.op == "epoch":
                r = dates.field(self, v, nm)
                if r is not None:
                    return r
            return self.E("f", nm, v)
        if k == "dc":
            if v.k == "agg":
                return v if v.a[2] == pe[1] else BOT
            if v.k == "c":
                return BOT
            return self.E("dc", pe[2], v)
        if k == "ci":
            if v.k == "agg" and v.a[0] == "[]":
                i = pe[1]
                n = len(v.a[4])
                i = n - i if pe[2] else i
                return v.a[4][i] if 0 <= i < n else BOT
            return self.index(v, E("k", ("-" if pe[2] else "") + str(pe[1])) if pe[2] else I(pe[1]))
        if k == "i":
            return self.index(v, st.get((fr.fid, pe[1]), BOT))
        if k == "sub":
            return self.E("sub", (pe[1], pe[2]), v)
        return TOP

    def index(self, v, i):
        if v.k == "j":
            return joinall([self.index(m, i) for m in v.a[0]])
        if i.k == "j":
            return joinall([self.index(v, m) for m in i.a[0]])
        if v is TOP or v is BOT:
            return v
        if v.k == "agg" and v.a[0] == "[]":
            if is_c(i, "int"):
                n = i.a[1]
                return v.a[4][n] if 0 <= n < len(v.a[4]) else BOT
            return joinall(v.a[4]) if v.a[4] else BOT
        if v.k == "agg" and v.a[0] == "coll":
            return v.a[4][1]
        if lists.is_kv(v):
            return lists.present(lists.kv_get(v, i))[1]
        if is_c(i, "int") and lists.columns(v) is not None:
            xs = lists.columns(v)
            return xs[cval(i)] if 0 <= cval(i) < len(xs) else BOT
        return self.E("idx", None, v, i)

    def load(self, st, p):
        fid, local, path = p.a
        v = st.get((fid, local), BOT)
        for pe in path:
            if pe[0] == "I":
                v = self.index(v, pe[1])
            elif pe[0] == "elem":
                v = models.elem_of(self, v)
            elif pe[0] == "R":
                v = models.slc(self, v, I(pe[1]), None if pe[2] is None else I(pe[2]))
            else:
                v = self.proj(v, pe, st, None)
        return v

    def resolve(self, st, fr, place, rd=True):
        """place -> list of ptr-like (fid, local, path) or a value"""
        cur = [("loc", fr.fid, place["l"], ())]
        for pe in place["p"]:
            nxt = []
            for c in cur:
                if pe[0] == "*":
                    if c[0] == "val":
                        v = c[1]
                    else:
                        v = self.load(st, ptr(c[1], c[2], c[3]))
                    hit = False
                    ms = members(v) or [v]
                    for m in ms:
                        if m.k == "ptr":
                            nxt.append(("loc",) + m.a)
                        elif not hit:
                            hit = True
                            # transparent: shared reference or box
                            nxt.append(c)
                else:
                    if c[0] == "val":
                        nxt.append(("val", self.proj(c[1], pe, st, fr)))
                        continue
                    e = tuple(pe)
                    if pe[0] == "i":
                        e = ("I", st.get((fr.fid, pe[1]), BOT))
                    own = pe[3] if pe[0] == "f" and len(pe) > 3 else ""
                    if own.startswith("std::boxed") or own.startswith("std::ptr") or own.startswith("std::mem"):
                        nxt.append(c)
                        continue
                    nxt.append((c[0], c[1], c[2], c[3] + (e,)))
            cur = nxt
        return cur

    def read(self, st, fr, place):
        v = st.get((fr.fid, place["l"]), BOT)
        for pe in place["p"]:
            v = self.proj(v, pe, st, fr)
        return v

    def write(self, st, fr, place, val):
        locs = [c for c in self.resolve(st, fr, place) if c[0] == "loc"]
        for c in locs:
            self.store(st, ptr(c[1], c[2], c[3]), val, weak=len(locs) > 1)

    def store(self, st, p, val, weak=False):
        fid, local, path = p.a
        key = (fid, local)
        old = st.get(key, BOT)
        st[key] = self.upd(old, path, val, weak)

    def upd(self, old, path, val, weak):
        if not path:
            return join(old, val) if weak else val
        pe = path[0]
        rest = path[1:]
        if old.k == "ptr":
            return old
        if old.k == "j":
            if pe[0] == "dc":
                return joinall([self.upd(m, path, val, weak) if m.k != "agg" or m.a[2] == pe[1] else m for m in old.a[0]])
            return joinall([self.upd(m, path, val, weak) for m in old.a[0]])
        if pe[0] == "*":
            return self.upd(old, rest, val, weak)
        if pe[0] == "dc":
            return self.upd(old, rest, val, weak)
        if pe[0] == "f":
            own = pe[3] if len(pe) > 3 else ""
            if old.k == "agg" and old.a[0] != "coll" and pe[1] < len(old.a[4]):
                fs = list(old.a[4])
                fs[pe[1]] = self.upd(fs[pe[1]], rest, val, weak)
                return agg(*old.a[:4], fs)
            ad = self.p.adts.get(own)
            if ad and ad["kind"] == "struct" and old.k in ("e", "bot"):
                flds = ad["variants"][0][2]
                fs = [self.E("f", f[0], old) if old is not BOT else BOT for f in flds]
                if pe[1] < len(fs):
                    fs[pe[1]] = self.upd(fs[pe[1]], rest, val, weak)
                return agg(own, "", 0, [f[0] for f in flds], fs)
            if old is BOT or (old.k == "e" and not own):
                n = pe[1] + 1
                fs = [BOT if old is BOT else self.E("f", str(i), old) for i in range(n)]
                fs[pe[1]] = self.upd(fs[pe[1]], rest, val, weak)
                return tup(*fs)
            return TOP if old is TOP else join(old, E("upd", pe[2] if len(pe) > 2 else "", old, val))
        if pe[0] == "R":
            if old.k == "agg" and old.a[0] == "[]" and pe[1] <= len(old.a[4]):
                fs = list(old.a[4])
                hi = len(fs) if pe[2] is None else pe[2]
                new = self.upd(arrv(fs[pe[1] : hi]), rest, val, weak)
                xs = list(new.a[4]) if new.k == "agg" and new.a[0] == "[]" else lists.columns(new)
                if xs is not None and len(xs) == hi - pe[1] and hi <= len(fs):
                    return arrv(fs[: pe[1]] + xs + fs[hi:])
            return TOP
        if pe[0] in ("I", "ci", "elem"):
            idx = I(pe[1]) if pe[0] == "ci" and not pe[2] else (pe[1] if pe[0] == "I" else TOP)
            if old.k == "agg" and old.a[0] == "[]":
                fs = list(old.a[4])
                if idx.k == "c" and 0 <= idx.a[1] < len(fs):
                    fs[idx.a[1]] = self.upd(fs[idx.a[1]], rest, val, weak)
                else:
                    fs = [join(f, self.upd(f, rest, val, weak)) for f in fs]
                return arrv(fs)
            if old.k == "agg" and old.a[0] == "coll":
                k, x = old.a[4]
                return models.coll(k, join(x, self.upd(x, rest, val, weak)))
            if lists.is_kv(old) and pe[0] == "I":
                j, may = lists.kv_find(old, idx)
                es = lists.kv(old)
                if j is not None:  # an entry is reached through a pointer only when it is there
                    x = lists.present(es[j][1])[1] if rest else es[j][1]
                    es[j] = (es[j][0], self.upd(x, rest, val, weak))
                    return lists.kvmap(es)
                for q in may or range(len(es)):
                    es[q] = (es[q][0], join(es[q][1], self.upd(es[q][1], rest, val, weak)))
                return lists.kvmap(es)
            if is_c(idx, "int") and not rest and lists.columns(old) is not None:
                xs = list(lists.columns(old))
                if 0 <= cval(idx) < len(xs):
                    xs[cval(idx)] = join(xs[cval(idx)], val) if weak else val
                    t = lists.text_of_columns(xs)
                    return t if t is not None else TOP
            return old
        return old

    # ------------------------------------------------------------ operands
    def const(self, k, st, fr):
        if "promoted" in k:
            of = k["of"]
            fn = self.p.fns.get(of) or fr.fn
            pr = fn.get("promoted")
            if pr and k["promoted"] < len(pr):
                return self.eval_promoted(fn, k["promoted"])
            return TOP
        if "param" in k:
            n = self.cparams.get(k["param"])
            return I(n) if n is not None else E("const", k["param"])
        if k.get("named") and self.hooks.get("named"):
            r = self.hooks["named"](k["named"])
            if r is not None:
                return r
        return self.constv(k)

    def constv(self, k):
        if "str" in k:
            return S(k["str"])
        if "int" in k:
            return I(int(k["int"]))
        if "bool" in k:
            return B(k["bool"])
        if "char" in k:
            return C("char", k["char"])
        if "f64" in k:
            s = k["f64"]
            return C("f64", float(s.replace("NaN", "nan")))
        if "bytes" in k:
            return C("bytes", tuple(k["bytes"]))
        if "ref" in k:
            return self.constv(k["ref"])
        if "adt" in k:
            ad = self.p.adts.get(k["adt"])
            names = ()
            if ad:
                for v in ad["variants"]:
                    if ad["kind"] != "enum" or v[0] == k["variant"]:
                        names = [f[0] for f in v[2]]
            fs = [self.constv(x) for x in k["fields"]]
            return agg(k["adt"], k["variant"], k["vi"], names or [str(i) for i in range(len(fs))], fs)
        if "tuple" in k:
            fs = [self.constv(x) for x in k["tuple"]]
            return arrv(fs) if k.get("ty", "").lstrip("&").startswith("[") else tup(*fs)
        if "fn" in k:
            return C("fn", (k["fn"], k.get("id", ""), tuple(k.get("targs") or ())))
        if k.get("ty") == "()":
            return UNIT
        if k.get("named"):
            cst = self.p.consts.get(k["named"])
            if cst and cst.get("v"):
                return self.constv(cst["v"])
        return E("const", k.get("named") or k.get("ty") or "?")

    def eval_promoted(self, fn, i):
        key = ("prom", fn.id, i)
        if key in self.memo:
            return self.memo[key]
        d = dict(fn.get("promoted")[i])
        d["id"] = fn.id + "#p%d" % i
        d["path"] = fn.path
        d["span"] = fn.span
        from mir import Fn

        pf = Fn(d, self.p)
        ns = self.fns_seen
        self.fns_seen = set()
        ret, _ = self.run(pf, [], {}, self.fid(0, pf, 0), 0, ())
        self.fns_seen = ns
        self.memo[key] = ret if ret is not None else TOP
        return self.memo[key]

    def operand(self, o, st, fr):
        if "k" in o:
            return self.const(o["k"], st, fr)
        return self.read(st, fr, o.get("c") or o.get("m"))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, r, st, fr, dest):
        k = r[0]
        if k == "use":
            return self.operand(r[1], st, fr)
        if k == "ref":
            if r[2]:
                locs = [c for c in self.resolve(st, fr, r[1]) if c[0] == "loc"]
                if not locs:
                    return self.read(st, fr, r[1])
                return joinall([ptr(c[1], c[2], c[3]) for c in locs])
            return self.read(st, fr, r[1])
        if k == "cast":
            v = self.operand(r[1], st, fr)
            return self.cast(v, r[2], r[3])
        if k == "bin":
            return self.binop(r[1], self.operand(r[2], st, fr), self.operand(r[3], st, fr))
        if k == "un":
            return self.unop(r[1], self.operand(r[2], st, fr))
        if k == "discr":
            return self.discr(self.read(st, fr, r[1]), r[2], st)
        if k == "agg":
            d = r[1]
            fs = [self.operand(x, st, fr) for x in r[2]]
            kk = d["k"]
            if kk == "adt":
                return agg(d["adt"], d["variant"], d["vi"], d["names"], fs)
            if kk == "tuple":
                return tup(*fs) if fs else UNIT
            if kk == "array":
                return arrv(fs)
            if kk == "closure":
                return agg("closure:" + d["id"], "", 0, [str(i) for i in range(len(fs))], fs)
            return E("agg", None, *fs)
        if k == "repeat":
            v = self.operand(r[1], st, fr)
            try:
                n = int(str(r[2]).split("_")[0])
            except ValueError:
                n = self.cparams.get(str(r[2]), 0)
            if 0 < n <= (4096 if self.lists else 16):
                return arrv([v] * n)
            return E("repeat", str(r[2]), v)
        if k == "setdiscr":
            return TOP
        return TOP

    def map(self, f, *vs):
        """lift over joins (bounded)"""
        n = 1
        for v in vs:
            if v is BOT:
                return BOT
            if v is TOP:
                return TOP
            n *= len(v.a[0]) if v.k == "j" else 1
        if n == 1:
            return f(*vs)
        if n > 64:
            return TOP
        out = []
        import itertools

        for comb in itertools.product(*[members(v) for v in vs]):
            out.append(f(*comb))
        return joinall(out)

    def cast(self, v, ty, kind):
        def f(x):
            if x.k == "c":
                t = x.a[0]
                if ty in ("f64", "f32") and t in ("int", "f64"):
                    return C("f64", float(cval(x)))
                if ty in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "usize", "isize"):
                    if t == "f64":
                        c = cval(x)
                        return I(int(c)) if math.isfinite(c) else TOP
                    if t == "char":
                        return I(ord(cval(x)))
                    if t == "bool":
                        return I(int(cval(x)))
                    if t == "int":
                        bits = 64 if "size" in ty else int(ty[1:])
                        n = cval(x) & ((1 << bits) - 1)
                        if ty[0] == "i" and n >> (bits - 1):
                            n -= 1 << bits
                        return I(n)
                if ty == "char" and t == "int":
                    return C("char", chr(cval(x)))
                return x
            if x.k == "e" and kind in ("IntToInt", "IntToFloat", "FloatToInt", "FloatToFloat"):
                return self.E("cast", ty, x)
            return x

        return self.map(f, v)

    def unop(self, op, v):
        def f(x):
            if x.k == "c":
                if op == "Not":
                    return B(not cval(x)) if x.a[0] == "bool" else self.E("un", op, x)
                if op == "Neg":
                    return C(x.a[0], -cval(x))
            if op == "PtrMetadata":
                return models.str_len(self, x)
            if op == "Neg" and x.k == "e" and x.op == "un" and x.meta == "Neg":
                return x.args[0]
            if op == "Not" and x.k == "e" and x.op == "un" and x.meta == "Not":
                return x.args[0]
            return self.E("un", op, x)

        return self.map(f, v)

    def binop(self, op, a, b):
        wo = op.endswith("WithOverflow")
        o = op.replace("WithOverflow", "").replace("Unchecked", "")

        def f(x, y):
            r = self.bin1(o, x, y)
            return r

        r = self.map(f, a, b)
        if wo:
            return tup(r, B(False))
        return r

    def bin1(self, o, x, y):
        if x.k == "e" and x.op == "tpos" and is_c(y, "int") and o in ("Add", "Sub"):
            return E("tpos", x.meta + (cval(y) if o == "Add" else -cval(y)))
        if x.k == "e" and x.op == "len" and x.args[0].k == "e" and x.args[0].op == "tmpl" and is_c(y, "int") and o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            lo, hi, k = lists.tmin(x.args[0]), lists.tlen(x.args[0]), cval(y)
            r = {
                "Eq": False if not lo <= k <= hi else None,
                "Ne": True if not lo <= k <= hi else None,
                "Lt": True if hi < k else (False if lo >= k else None),
                "Le": True if hi <= k else (False if lo > k else None),
                "Gt": True if lo > k else (False if hi <= k else None),
                "Ge": True if lo >= k else (False if hi < k else None),
            }[o]
            if r is not None:
                return B(r)
        if x.k == "c" and y.k == "c" and x.a[0] in ("int", "f64", "bool", "char") and y.a[0] in ("int", "f64", "bool", "char"):
            a, b = cval(x), cval(y)
            fl = x.a[0] == "f64"
            mk = (lambda z: C("f64", float(z))) if fl else I
            try:
                if o == "Eq":
                    return B(a == b)
                if o == "Ne":
                    return B(a != b)
                if o == "Lt":
                    return B(a < b)
                if o == "Le":
                    return B(a <= b)
                if o == "Gt":
                    return B(a > b)
                if o == "Ge":
                    return B(a >= b)
                if o == "Cmp":
                    return I((a > b) - (a < b))
                if o == "Add":
                    return mk(a + b)
                if o == "Sub":
                    return mk(a - b)
                if o == "Mul":
                    return mk(a * b)
                if o == "Div":
                    if fl:
                        return mk(a / b)
                    q = abs(a) // abs(b)
                    return I(q if (a < 0) == (b < 0) else -q)
                if o == "Rem":
                    return mk(math.fmod(a, b)) if fl else I(int(math.fmod(a, b)))
                if o == "BitAnd":
                    return B(a and b) if x.a[0] == "bool" else I(a & b)
                if o == "BitOr":
                    return B(a or b) if x.a[0] == "bool" else I(a | b)
                if o == "BitXor":
                    return B(a != b) if x.a[0] == "bool" else I(a ^ b)
                if o == "Shl":
                    return I(a << b)
                if o == "Shr":
                    return I(a >> b)
            except (ZeroDivisionError, OverflowError, ValueError):
                return TOP
        if o in ("BitAnd", "BitOr"):
            for p, q in ((x, y), (y, x)):
                if is_c(p, "bool"):
                    if o == "BitAnd":
                        return q if cval(p) else p
                    return p if cval(p) else q
        return self.E("bin", o, x, y)

    def discr(self, v, adt, st):
        def f(x):
            if x.k == "agg":
                ad = self.p.adts.get(x.a[0])
                if ad and ad["kind"] == "enum":
                    return I(int(ad["variants"][x.a[2]][1]))
                return I(x.a[2])
            if x.k == "ptr":
                return self.discr(self.load(st, x), adt, st)
            return self.E("discr", adt, x)

        return self.map(f, v)

    # ------------------------------------------------------------ functions
    def live(self, fn):
        """live-in locals per block as int bitsets; mutably borrowed locals are always live"""
        r = self._live.get(fn.id)
        if r is not None:
            return r
        n = len(fn.blocks)
        always = 0
        use = [0] * n
        deff = [0] * n

        def op_use(o, u, d):
            pl = o.get("c") or o.get("m")
            if pl is not None:
                return pl_use(pl, u, d)
            return u

        def pl_use(pl, u, d):
            b = 1 << pl["l"]
            if not d & b:
                u |= b
            for pe in pl["p"]:
                if pe[0] == "i" and not d & (1 << pe[1]):
                    u |= 1 << pe[1]
            return u

        for i, (stm, t) in enumerate(fn.blocks):
            u = d = 0
            for s in stm:
                pl, rv = s[0], s[1]
                if rv[0] == "ref":
                    u = pl_use(rv[1], u, d)
                    if rv[2]:
                        always |= 1 << rv[1]["l"]
                elif rv[0] == "discr":
                    u = pl_use(rv[1], u, d)
                elif rv[0] == "agg":
                    for o in rv[2]:
                        u = op_use(o, u, d)
                else:
                    for o in rv[1:]:
                        if isinstance(o, dict) and ("c" in o or "m" in o):
                            u = op_use(o, u, d)
                if pl["p"]:
                    u = pl_use(pl, u, d)
                else:
                    d |= 1 << pl["l"]
            k = t["t"]
            if k == "switch":
                u = op_use(t["d"], u, d)
            elif k == "assert":
                u = op_use(t["c"], u, d)
            elif k == "call":
                for o in t["a"]:
                    u = op_use(o, u, d)
                f = t["f"]
                if "ptr" in f:
                    u = op_use(f["ptr"], u, d)
                if t["d"]["p"]:
                    u = pl_use(t["d"], u, d)
                else:
                    d |= 1 << t["d"]["l"]
            elif k == "return":
                if not d & 1:
                    u |= 1
            use[i] = u
            deff[i] = d
        lin = [0] * n
        ch = True
        order = fn.rpo[::-1]
        while ch:
            ch = False
            for b in order:
                o = 0
                for s in fn.succs(b):
                    o |= lin[s]
                x = use[b] | (o & ~deff[b])
                if x != lin[b]:
                    lin[b] = x
                    ch = True
        r = (lin, always)
        self._live[fn.id] = r
        return r

    def heads(self, fn):
        r = self._heads.get(fn.id)
        if r is None:
            ls = fn.loops()
            r = {h for h, _, _ in ls}
            inl = set()
            for _, b, _ in ls:
                inl |= b
            self._heads[fn.id] = r
            self._inloop[fn.id] = inl
        return r

    def lassign(self, fn, h):
        """numeric locals assigned inside the loop of head h"""
        key = (fn.id, h)
        r = self._lassign.get(key)
        if r is None:
            r = set()
            for hh, body, _ in fn.loops():
                if hh != h:
                    continue
                for b in body:
                    stm, t = fn.blocks[b]
                    for s in stm:
                        if not s[0]["p"]:
                            r.add(s[0]["l"])
                    if t["t"] == "call" and not t["d"]["p"]:
                        r.add(t["d"]["l"])
            r = {l for l in r if fn.locals[l][0] in ("f64", "f32", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize")}
            self._lassign[key] = r
        return r

    def call(self, fn, args, st, fr, block):
        """analyse local fn with abstract args, in caller state st; mutates st; returns V or None (diverges)"""
        roots = set()
        self.reach_roots(args, st, roots)
        outer = {k: st[k] for k in roots if k in st}
        fid = self.fid(fr.fid if fr else 0, fn, (block, fr.site, fr.sig) if fr else (block, 0))
        key = (fn.id, fid, tuple(args), tuple(sorted(((k, id(v)) for k, v in outer.items()), key=str)))
        m = self.memo.get(key)
        if m is None:
            depth = fr.depth + 1 if fr else 0
            stack = (fr.stack if fr else ()) + (fn.id,)
            ll, self.loglist = self.loglist, []
            ret, out = self.run(fn, args, outer, fid, depth, stack)
            mine, self.loglist = self.loglist, ll
            m = (ret, out, mine)
            self.memo[key] = m
        ret, out, log = m
        if self.record:
            for k2, ev in log:
                self.events[k2] = ev
        if self.loglist is not None:
            self.loglist.extend(log)
        if ret is None:
            return None
        for k in outer:
            if out is not None and k in out:
                st[k] = out[k]
        return ret

    def reach_roots(self, vals, st, roots):
        stv = list(vals)
        seen = set()
        while stv:
            v = stv.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if v.k == "ptr":
                k = (v.a[0], v.a[1])
                if k not in roots:
                    roots.add(k)
                    if k in st:
                        stv.append(st[k])
            elif v.k == "agg":
                stv.extend(v.a[4])
            elif v.k == "j":
                stv.extend(v.a[0])
            elif v.k == "e":
                stv.extend(v.a[2])

    def run(self, fn, args, outer, fid, depth, stack):
        self.fns_seen.add(fn.path)
        fr = Frame(fn, fid, depth, stack)
        st0 = dict(outer)
        for i, a in enumerate(args[: fn.argc]):
            st0[(fid, i + 1)] = a
        lin, always = self.live(fn)
        heads = self.heads(fn)
        rpon = {b: i for i, b in enumerate(fn.rpo)}
        preds = fn.preds
        ins = {(0, None): st0}
        visits = {}
        outstate = None
        retv = None
        import heapq

        wl = [(0, 0, 0, None)]
        inwl = {(0, None)}
        nsig = {}
        serial = 0
        part = self.passign(fn) if self.partition else {}
        okeys = set(outer)
        retstates = {}
        reach = self.reach.setdefault(fn.id, set())
        while wl:
            _, _, b, sig = heapq.heappop(wl)
            inwl.discard((b, sig))
            fr.sig = sig
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Budget(fn.path)
            reach.add(b)
            st = dict(ins[(b, sig)])
            succ = self.exec_block(b, st, fr)
            if succ == "ret":
                retstates[(b, sig)] = (st.get((fid, 0), UNIT), {k: st[k] for k in okeys if k in st})
                continue
            for s, st2 in succ:
                if s not in rpon:
                    continue
                live = lin[s] | always
                new = {}
                for k, v in st2.items():
                    if k[0] == fid and isinstance(k[1], int):
                        if not (live >> k[1]) & 1:
                            continue
                    new[k] = v
                sg = None
                if s in part:
                    sg = self.signature(part[s], new, fid)
                    known = nsig.setdefault(s, set())
                    if sg not in known:
                        if len(known) >= 250:
                            sg = None
                        else:
                            known.add(sg)
                key = (s, sg)
                old = ins.get(key)
                if self.eager and s in heads:
                    for l in self.lassign(fn, s):
                        k = (fid, l)
                        if k in new:
                            ph = E("phi", (fn.id, fid, s, k))
                            if new[k] is not ph:
                                self.phi.setdefault(ph, set()).add(new[k])
                                new[k] = ph
                if old is None:
                    ins[key] = new
                    changed = True
                else:
                    changed = False
                    vis = visits.get(key, 0)
                    if s in heads:
                        visits[key] = vis + 1
                    widen = s in heads and vis >= 4
                    for k, v in new.items():
                        o = old.get(k, BOT)
                        if o is v:
                            continue
                        j = join(o, v)
                        if j is not o:
                            if widen:
                                pk = (fn.id, fid, key, k)
                                ph = E("phi", pk)
                                self.phi.setdefault(ph, set()).update([o, v])
                                j = self.widen(o, j, pk)
                            if j is not o:
                                old[k] = j
                                changed = True
                if changed and key not in inwl:
                    inwl.add(key)
                    serial += 1
                    heapq.heappush(wl, (rpon[s], serial, s, sg))
        if not retstates:
            return None, None
        retv = joinall([r for r, _ in retstates.values()])
        out = {}
        for _, o in retstates.values():
            for k, v in o.items():
                out[k] = join(out[k], v) if k in out else v
        return retv, out

    def passign(self, fn):
        """block -> locals assigned in a loop around it (their constants and list positions tell iterations apart)"""
        r = self._passign.get(fn.id)
        if r is None:
            r = {}
            for h, body, _ in fn.loops():
                s = set()
                for b in body:
                    stm, t = fn.blocks[b]
                    for x in stm:
                        s.add(x[0]["l"])
                        if x[1][0] == "ref" and x[1][2]:
                            s.add(x[1][1]["l"])
                    if t["t"] == "call":
                        s.add(t["d"]["l"])
                for b in body:
                    r.setdefault(b, set()).update(s)
            for b in r:
                r[b] = sorted(r[b])
            self._passign[fn.id] = r
        return r

    def signature(self, locs, st, fid):
        sig = []
        for l in locs:
            v = st.get((fid, l))
            if v is None:
                continue
            if v.k == "c" and v.a[0] in ("int", "str"):
                sig.append((l, v.a))
            elif v.k == "agg":
                if v.a[0] == "lit":
                    sig.append((l, id(v)))
                elif v.a[0] == OPT and v.a[4] and v.a[4][0].k == "c" and v.a[4][0].a[0] in ("int", "str"):
                    sig.append((l, "some", v.a[4][0].a))
                elif v.a[0] == OPT and (not v.a[4] or (v.a[4][0].k == "agg" and not v.a[4][0].a[4])):
                    sig.append((l, v.a[1], id(v)))
                elif v.a[0].startswith("std::ops::Range"):
                    sig.append((l, id(v)))
                elif len(v.a[4]) == 2 and v.a[0] in ("()", "tuple") and v.a[4][1].k == "c" and v.a[4][1].a[0] == "bool" and v.a[4][0].k == "c":
                    sig.append((l, id(v)))  # the result of a checked operation
            elif v.k == "e" and v.op == "tmpl":
                sig.append((l, id(v)))
            elif v.k == "ptr" and not v.a[2] and v.a[0] != fid:  # what is left of a list given by reference
                w = st.get((v.a[0], v.a[1]))
                if w is not None and w.k == "agg" and w.a[0] == "lit":
                    sig.append((l, "at", id(w)))
        return tuple(sig)

    def widen(self, old, new, pk):
        if old is new:
            return old
        if old.k == "agg" and new.k == "agg" and old.a[:4] == new.a[:4] and len(old.a[4]) == len(new.a[4]):
            fs = []
            for i, (o, n) in enumerate(zip(old.a[4], new.a[4])):
                fs.append(self.widen(o, n, pk + (i,)))
            return agg(*old.a[:4], fs)
        ph = E("phi", pk)
        s = self.phi.setdefault(ph, set())
        for m in members(old) + members(new):
            if m is not ph:
                s.add(m)
        if old.k == "j" and ph in old.a[0]:
            return ph
        return ph

    def exec_block(self, b, st, fr):
        stm, t = fr.fn.blocks[b]
        for s in stm:
            pl, rv = s[0], s[1]
            if rv[0] == "setdiscr":
                continue
            v = self.rvalue(rv, st, fr, pl)
            if not pl["p"]:
                st[(fr.fid, pl["l"])] = v
            else:
                self.write(st, fr, pl, v)
        k = t["t"]
        if k in ("goto", "drop"):
            return [(t["to"], st)]
        if k == "assert":
            return [(t["to"], st)]
        if k == "return":
            return "ret"
        if k == "switch":
            v = self.operand(t["d"], st, fr)
            targets = []
            if v is BOT:
                # unmodelled: treat as unknown
                v = TOP
            ms = members(v)
            allc = all(m.k == "c" for m in ms)
            if allc:
                seen = []
                for m in ms:
                    c = cval(m)
                    c = int(c) if isinstance(c, (bool, int)) else (ord(c) if isinstance(c, str) and len(c) == 1 else None)
                    tgt = None
                    for val, bb in t["v"]:
                        if int(val) == c:
                            tgt = bb
                            break
                    if tgt is None:
                        tgt = t["o"]
                    if tgt not in seen:
                        seen.append(tgt)
                targets = seen
            else:
                targets = list(dict.fromkeys(term_succs(t)))
            if len(targets) == 1:
                return [(targets[0], st)]
            return [(x, st) for x in targets]
        if k == "call":
            r = self.do_call(t, b, st, fr)
            if r is None or t.get("to") is None:
                return []
            if r is BOT and (t["f"].get("path") or "") in ("std::ops::Index::index", "std::ops::IndexMut::index_mut") and BOT not in [self.deref(self.operand(a, st, fr), st) for a in t["a"]]:
                return []  # out of bounds, whatever the unknown values
            if not t["d"]["p"]:
                st[(fr.fid, t["d"]["l"])] = r
            else:
                self.write(st, fr, t["d"], r)
            return [(t["to"], st)]
        return []

    # ------------------------------------------------------------ calls
    def log(self, fr, block, callee, args, targs, ret, span, raw=None):
        if not self.record:
            return
        ev = Event(fn=fr.fn.path, block=block, callee=callee, args=args, targs=targs, ret=ret, span=span, stack=fr.stack, raw=raw)
        key = (fr.fid, block, fr.site, fr.sig, callee)
        self.events[key] = ev
        if self.loglist is not None:
            self.loglist.append((key, ev))

    def do_call(self, t, b, st, fr):
        f = t["f"]
        args = [self.operand(a, st, fr) for a in t["a"]]
        fr.site = 0
        if "ptr" in f:
            fv = self.operand(f["ptr"], st, fr)
            return self.apply(fv, args, st, fr, b)
        return self.invoke(f, args, st, fr, b, t.get("s"), loop=b in self._inloop.get(fr.fn.id, ()))

    def invoke(self, f, args, st, fr, b, span=None, loop=True):
        path = f.get("path") or ""
        # values before the call, pointers resolved, for the event log
        snap = [self.load(st, a) if a.k == "ptr" else a for a in args] if self.record else None
        h = self.hooks.get("call")
        r = NotImplemented
        if h:
            r = h(self, f, args, st, fr, b)
        callee = None
        if r is NotImplemented:
            callee = self.p.callee({"f": f})
            if callee is not None and len(args) == 2 and (f.get("trait") or path).startswith("std::ops::Fn"):  # closures receive their arguments as a tuple
                a = self.deref(args[1], st)
                args = [args[0]] + (list(a.a[4]) if a.k == "agg" and a.a[0] == "()" else [] if a is UNIT else [a])
            if callee is not None and callee.get("derived") and f.get("name") in ("clone",):
                r = self.deref(args[0], st)
            elif callee is not None and callee.get("derived") and f.get("name") in ("eq", "ne"):
                r = models.equality(self, self.deref(args[0], st), self.deref(args[1], st), f.get("name") == "ne")
            elif callee is not None and not self.opaque(callee) and fr.depth < self.maxdepth and fr.stack.count(callee.id) < 1 + self.rec and (self.rec or callee.id != fr.fn.id):
                r = self.call(callee, args, st, fr, b)
            elif callee is None:
                r = models.model(self, f, args, st, fr, b, loop)
        if r is NotImplemented:
            r = self.default(f, args, st, callee)
        self.log(fr, b, f.get("rpath") if callee is not None and f.get("rpath") else path, snap, f.get("targs"), r, span, args)
        return r

    def deref(self, v, st):
        n = 0
        while v.k == "ptr" and n < 5:
            v = self.load(st, v)
            n += 1
        if v.k == "j" and any(m.k == "ptr" for m in v.a[0]):
            v = joinall([self.deref(m, st) for m in v.a[0]])
        return v

    def default(self, f, args, st, callee):
        path = f.get("path") or "?"
        if callee is None:
            self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        vals = [self.deref(a, st) for a in args]
        r = self.E("call", path, *vals)
        for i, a in enumerate(args):
            for m in members(a):
                if m.k == "ptr":
                    old = self.load(st, m)
                    if old.k == "e" and old.op == "mut":
                        old = old.args[0]
                    if old.k == "e" and old.op == "phi":
                        self.store(st, m, old)
                    else:
                        self.store(st, m, self.E("mut", (path, i), old))
        return r

    def apply(self, fv, args, st, fr, b):
        """call a function value"""
        if fv.k == "ptr":
            fv = self.load(st, fv)
        if fv.k == "j":
            rs = []
            for m in members(fv):
                r = self.apply(m, args, st, fr, b)
                if r is not None:
                    rs.append(r)
            return joinall(rs) if rs else None
        fr.site += 1
        if fv.k == "agg" and fv.a[0].startswith("closure:"):
            fn = self.p.fns.get(fv.a[0][8:])
            if fn and fr.depth < self.maxdepth + 4 and fr.stack.count(fn.id) < 2:
                return self.call(fn, [fv] + list(args), st, fr, b)
            return TOP
        if is_c(fv, "fn"):
            path, fid, targs = cval(fv)
            fn = self.p.fns.get(fid)
            # constructor
            base, _, var = path.rpartition("::")
            for adtn in (base, path):
                ad = self.p.adts.get(adtn)
                if ad:
                    for i, v in enumerate(ad["variants"]):
                        if (ad["kind"] == "enum" and v[0] == var) or (ad["kind"] == "struct" and adtn == path):
                            return agg(adtn, v[0] if ad["kind"] == "enum" else "", i, [x[0] for x in v[2]], args)
            if path in ("std::prelude::v1::Some", "std::option::Option::Some"):
                return self.some(args[0])
            if path.endswith("::Ok"):
                return self.ok(args[0])
            if path.endswith("::Err"):
                return self.err(args[0])
            f = {"path": path, "id": fid, "targs": list(targs), "name": path.split("::")[-1]}
            if targs:
                f["self"] = targs[0]
            return self.invoke(f, list(args), st, fr, b)
        return self.E("call", "dyn", fv, *[self.deref(a, st) for a in args])

    # ------------------------------------------------------------ entry
    def entry(self, fn, args=None, names=None):
        """analyse fn as an entry point. args: dict local index/name -> V. &mut arguments become pointers."""
        fid = self.fid(0, fn, 0)
        st = {}
        av = []
        args = args or {}
        for i in range(1, fn.argc + 1):
            ty, nm = fn.locals[i]
            nm = nm or "a%d" % i
            v = args.get(i, args.get(nm))
            if v is None:
                v = E("arg", nm)
            if ty.startswith("&mut") or ty.startswith("&'_ mut"):
                k = (fid, "in:" + nm)
                st[k] = v
                v = ptr(fid, "in:" + nm, ())
            av.append(v)
        try:
            ret, out = self.run(fn, av, st, fid, 0, (fn.id,))
        except Budget:  # nothing is known
            self.exhausted = True
            return TOP, {k[1][3:]: TOP for k in st}
        return ret, {k[1][3:]: v for k, v in (out or {}).items() if isinstance(k[1], str) and k[1].startswith("in:")}

    def expand(self, v, depth=4):
        """replace phi terms by the join of what flowed in (bounded)"""
        if depth == 0:
            return v
        if v.k == "e" and v.op == "phi":
            return joinall([self.expand(m, depth - 1) for m in self.phi.get(v, ())]) if self.phi.get(v) else v
        if v.k == "j":
            return joinall([self.expand(m, depth) for m in v.a[0]])
        if v.k == "agg":
            return agg(*v.a[:4], [self.expand(x, depth) for x in v.a[4]])
        if v.k == "e":
            return E(v.op, v.meta, *[self.expand(x, depth) for x in v.args])
        return v

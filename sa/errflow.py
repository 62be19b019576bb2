"""Error flow: from a call that may fail, every path of the function that follows the failure.

A state maps the locals written since the failure to what is known of them:
  ("v", variant name, variant index, payload)   a value of an enum in a known variant
  ("c", int)                                    a constant (discriminants, booleans, flags)
  ("ref", place)                                a reference to a tracked place
  ("e",)                                        the error itself
  ("d", place)                                  the discriminant of a place not known yet
Everything else is unknown. Branches on what is known follow it, others follow both sides."""
import re

IDX = {"Ok": 0, "Err": 1, "None": 0, "Some": 1, "Continue": 0, "Break": 1}
LIMIT = 20000
E = ("e",)


def V(n, x=None):
    return ("v", n, IDX[n], x)


ERR = V("Err", E)


def has_error(v):
    if v is None:
        return False
    return v[0] == "e" or v[0] == "v" and has_error(v[3])


def place_key(p):
    return (p["l"], tuple(e[0] if e[0] != "f" else ("f", e[1]) for e in p["p"] if e[0] != "dc"))


class Paths:
    """all paths of fn from block `start` with an initial state; on_call/on_return observe them"""

    def __init__(self, fn):
        self.fn = fn
        self.truncated = False

    # ---------------------------------------------------------------- values
    def read(self, st, p):
        """value of a place"""
        k = p["l"]
        v = st.get((k, ()))
        acc = (k, ())
        for e in p["p"]:
            if e[0] == "*":
                if v is not None and v[0] == "ref":
                    acc = v[1]
                    v = st.get(acc)
                elif v is not None and v[0] != "ref":
                    pass                    # Box
                else:
                    return None
            elif e[0] == "dc":
                if v is not None and v[0] == "v" and v[2] != e[1]:
                    return None
            elif e[0] == "f":
                acc = (acc[0], acc[1] + (("f", e[1]),))
                if acc in st:
                    v = st[acc]
                elif v is not None and v[0] == "v" and e[1] == 0:
                    v = v[3]
                else:
                    v = None
            else:
                return None
        return v

    def target(self, st, p):
        """place written by an assignment: (local, fields) or None"""
        acc = (p["l"], ())
        for e in p["p"]:
            if e[0] == "*":
                v = st.get(acc)
                if v is not None and v[0] == "ref":
                    acc = v[1]
                else:
                    return None
            elif e[0] == "f":
                acc = (acc[0], acc[1] + (("f", e[1]),))
            elif e[0] == "dc":
                pass
            else:
                return None
        return acc

    def op(self, st, o):
        if "k" in o:
            k = o["k"]
            for n in ("bool", "int"):
                if n in k:
                    try:
                        return ("c", int(k[n]))
                    except (TypeError, ValueError):
                        return None
            return None
        return self.read(st, o.get("m") or o.get("c"))

    def put(self, st, p, v):
        t = self.target(st, p)
        if t is None:
            return has_error(v)             # stored somewhere else: escapes
        for k in [k for k in st if k[0] == t[0] and k[1][:len(t[1])] == t[1]]:
            del st[k]
        if v is not None:
            st[t] = v
        return False

    def rvalue(self, st, r):
        k = r[0]
        if k == "use":
            return self.op(st, r[1])
        if k == "discr":
            v = self.read(st, r[1])
            if v is not None and v[0] == "v":
                return ("c", v[2])
            t = self.target(st, r[1])
            return ("d", t) if t is not None else None
        if k == "ref":
            t = self.target(st, r[1])
            return ("ref", t) if t is not None else None
        if k == "agg":
            d = r[1]
            if d.get("k") == "adt" and d.get("variant") in IDX:
                return ("v", d["variant"], d["vi"], self.op(st, r[2][0]) if r[2] else None)
            for a in r[2]:
                if has_error(self.op(st, a)):
                    return E
            return None
        if k == "un" and r[1] == "Not":
            v = self.op(st, r[2])
            return ("c", 1 - v[1]) if v is not None and v[0] == "c" else None
        if k == "cast":
            return next((self.op(st, x) for x in r[1:] if isinstance(x, dict) and ("c" in x or "m" in x or "k" in x)), None)
        if k == "bin":
            xs = [self.op(st, x) for x in r[2:] if isinstance(x, dict)]
            if len(xs) == 2 and all(x is not None and x[0] == "c" for x in xs):
                a, b = xs[0][1], xs[1][1]
                f = {"Eq": a == b, "Ne": a != b, "BitOr": a | b, "BitAnd": a & b, "BitXor": a ^ b}.get(r[1])
                return ("c", int(f)) if f is not None else None
            if len(xs) == 2 and r[1] == "BitOr" and ("c", 1) in xs and self.boolean(r[2]):
                return ("c", 1)
            if len(xs) == 2 and r[1] == "BitAnd" and ("c", 0) in xs:
                return ("c", 0)
        return None

    def boolean(self, o):
        if "k" in o:
            return "bool" in o["k"]
        p = o.get("m") or o.get("c")
        return not p["p"] and self.fn.locals[p["l"]][0] == "bool" or "bool" == self.fn.locals[p["l"]][0]

    # ----------------------------------------------------------------- calls
    def call(self, st, t):
        """(result, escaped, aborts)"""
        f = t["f"]
        n = f.get("name") or ""
        path = f.get("path") or ""
        args = [self.op(st, a) for a in t["a"]]

        def deref(v):
            while v is not None and v[0] == "ref":
                v = st.get(v[1])
            return v
        a0 = args[0] if args else None
        d0 = deref(a0)
        self_ = f.get("self") or ""
        ty = self.fn.locals[t["d"]["l"]][0]
        if n == "branch" and a0 is not None and a0[0] == "v":
            if a0[1] in ("Ok", "Some"):
                return V("Continue", a0[3]), False, False
            return V("Break", V(a0[1], a0[3])), False, False
        if n == "from_residual":
            if re.match(r"(std|core)::result::Result", ty):
                return V("Err", a0[3] if a0 is not None and a0[0] == "v" else None), False, False
            if re.match(r"(std|core)::option::Option<(std|core)::result", ty) and a0 is not None and a0[1] == "Err":
                return V("Some", V("Err", a0[3])), False, False
            if re.match(r"(std|core)::option::Option", ty):
                return V("None"), False, False
            return None, False, False
        if a0 is not None and a0[0] == "v" or d0 is not None and d0[0] == "v":
            v = a0 if a0[0] == "v" else d0
            name = v[1]
            bad = name in ("Err", "None")
            res = re.search(r"(result::Result|option::Option)", path)
            if res:
                if n in ("unwrap", "expect"):
                    return v[3], False, bad
                if n in ("unwrap_err", "expect_err"):
                    return v[3], False, not bad
                if n in ("is_ok", "is_some"):
                    return ("c", int(not bad)), False, False
                if n in ("is_err", "is_none"):
                    return ("c", int(bad)), False, False
                if name == "Err":
                    if n in ("map_err",):
                        return ERR, False, False
                    if n in ("map", "and_then", "and", "copied", "cloned", "inspect", "inspect_err", "as_ref", "as_mut", "flatten"):
                        return v, False, False
                    if n == "ok":
                        return V("None"), False, False
                    if n == "err":
                        return V("Some", v[3]), False, False
                    if n == "transpose":
                        return V("Some", V("Err", v[3])), False, False
                if name == "Some":
                    if n == "transpose" and v[3] is not None and v[3][0] == "v":
                        w = v[3]
                        return (V("Err", w[3]) if w[1] == "Err" else V("Ok", V("Some", w[3]))), False, False
                    if n == "ok_or" or n == "ok_or_else":
                        return V("Ok", v[3]), False, False
                    if n in ("as_ref", "as_mut", "take", "copied", "cloned"):
                        return v, False, False
                if name == "None":
                    if n in ("map", "and_then", "filter", "as_ref", "take", "copied", "cloned"):
                        return v, False, False
                    if n in ("ok_or", "ok_or_else"):
                        return ERR, False, False
                if n == "unwrap_or" or n == "unwrap_or_else" or n == "unwrap_or_default" or n in ("or", "or_else", "map_or", "map_or_else", "is_ok_and", "is_some_and"):
                    return None, False, False
        if n in ("from", "into") and len(args) == 1:
            return a0 if has_error(a0) else None, False, False
        if n in ("clone",) and d0 is not None:
            return d0, False, False
        esc = any(has_error(a) for a in args) and not re.search(r"mem::drop|fmt::|panic|log::", path)
        if n in ("panic", "panic_fmt", "begin_panic", "panic_display", "unwrap_failed", "unreachable_display"):
            return None, False, True
        return (E if esc else None), esc, False

    # ----------------------------------------------------------------- paths
    def run(self, start, st0, observe=None, mark=None):
        """yields ("return", value of _0, mark, escaped, block) and ("abort", call, ...); mark: state of the observer"""
        seen = set()
        work = [(start, tuple(sorted(st0.items(), key=repr)), mark, False)]
        out = []
        while work:
            item = work.pop()
            if item in seen:
                continue
            seen.add(item)
            if len(seen) > LIMIT:
                self.truncated = True
                break
            b, stt, mk, esc = item
            st = dict(stt)
            stmts, t = self.fn.blocks[b]
            for s in stmts:
                v = self.rvalue(st, s[1])
                if v is not None and v[0] == "d" and False:
                    pass
                esc |= self.put(st, s[0], v)
            k = t["t"]
            nxt = []
            if k in ("goto", "drop", "assert"):
                nxt = [(t["to"], st)]
            elif k == "switch":
                v = self.op(st, t["d"])
                if v is not None and v[0] == "c":
                    to = next((bb for x, bb in t["v"] if int(x) == v[1]), t["o"])
                    nxt = [(to, st)]
                elif v is not None and v[0] == "d":
                    names = self.variants(v[1])
                    vals = set()
                    for x, bb in t["v"]:
                        s2 = dict(st)
                        vals.add(int(x))
                        if names and int(x) < len(names):
                            s2[v[1]] = ("v", names[int(x)], int(x), None)
                        nxt.append((bb, s2))
                    rest = [i for i in range(len(names or ()))if i not in vals]
                    if not names or rest:
                        s2 = dict(st)
                        if len(rest) == 1:
                            s2[v[1]] = ("v", names[rest[0]], rest[0], None)
                        nxt.append((t["o"], s2))
                else:
                    nxt = [(bb, st) for bb in {x for _, x in t["v"]} | {t["o"]}]
            elif k == "call":
                v, e2, ab = self.call(st, t)
                if observe:
                    mk, v2 = observe(b, t, st, mk, v)
                    v = v2
                if ab:
                    out.append(("abort", t, mk, esc, b))
                elif t.get("to") is not None:
                    e3 = self.put(st, t["d"], v)
                    nxt = [(t["to"], st)]
                    esc = esc or e2 or e3
            elif k == "return":
                out.append(("return", st.get((0, ())), mk, esc, b))
            for bb, s2 in nxt:
                work.append((bb, tuple(sorted(s2.items(), key=repr)), mk, esc))
        return out

    def variants(self, place):
        if place[1]:
            return None
        ty = self.fn.locals[place[0]][0]
        m = re.match(r"(?:std|core)::(?:result::(Result)|option::(Option)|ops::(ControlFlow))", ty)
        if not m:
            return None
        return ["Ok", "Err"] if m.group(1) else ["None", "Some"] if m.group(2) else ["Continue", "Break"]


def failing(ty):
    """abstract value of a failed result of this type, None when it cannot carry a failure"""
    if re.match(r"(std|core)::result::Result<", ty):
        return ERR
    if re.match(r"(std|core)::option::Option<(std|core)::result::Result<", ty):
        return V("Some", ERR)
    return None


def carries(v):
    """the value a function returns tells of a failure"""
    while v is not None and v[0] == "v" and v[1] in ("Some", "Break", "Ok") and v[3] is not None:
        v = v[3]
    return v is not None and (v[0] == "e" or v[0] == "v" and v[1] in ("Err", "Break"))


def after(fn, b):
    """what becomes of a failure of the call that ends block b: list of (kind, block) that lose it"""
    t = fn.blocks[b][1]
    p = Paths(fn)
    v = failing(fn.locals[t["d"]["l"]][0])
    st = {}
    if t.get("to") is None:
        return [], p
    p.put(st, t["d"], v)
    bad = []
    src = fn.blocks[b][1]

    def observe(bb, tt, s, mk, val):
        return mk, val
    for kind, x, mk, esc, bb in p.run(t["to"], st, observe):
        if kind == "abort":
            bad.append(("abort", bb, esc))
        elif not carries(x):
            bad.append(("lost", bb, esc))
    return bad, p

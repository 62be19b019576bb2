"""Loader and basic queries over the MIR dump of the rinex crate."""
import json, re
from functools import lru_cache


class Fn:
    __slots__ = ("d", "id", "path", "blocks", "locals", "argc", "span", "_preds", "_dom", "_rpo", "prog")

    def __init__(self, d, prog):
        self.d = d
        self.prog = prog
        self.id = d["id"]
        self.path = d["path"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = d["argc"]
        self.span = d.get("span")
        self._preds = self._dom = self._rpo = None

    def __repr__(self):
        return "<Fn %s>" % self.path

    @property
    def file(self):
        return norm_file(self.span[0]) if self.span else "?"

    def get(self, k, default=None):
        return self.d.get(k, default)

    def succs(self, b):
        return term_succs(self.blocks[b][1])

    @property
    def preds(self):
        if self._preds is None:
            p = [[] for _ in self.blocks]
            for i in range(len(self.blocks)):
                for s in self.succs(i):
                    p[s].append(i)
            self._preds = p
        return self._preds

    @property
    def rpo(self):
        if self._rpo is None:
            seen = set()
            order = []
            st = [(0, iter(self.succs(0)))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(b)
                    st.pop()
            self._rpo = order[::-1]
        return self._rpo

    @property
    def dom(self):
        """immediate dominators (Cooper-Harvey-Kennedy)"""
        if self._dom is None:
            rpo = self.rpo
            num = {b: i for i, b in enumerate(rpo)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    new = None
                    for p in self.preds[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                a, c = p, new
                                while a != c:
                                    while num[a] > num[c]:
                                        a = idom[a]
                                    while num[c] > num[a]:
                                        c = idom[c]
                                new = a
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        d = self.dom
        if b not in d:
            return False
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = d[b]

    def calls(self):
        for i, (st, t) in enumerate(self.blocks):
            if t["t"] == "call":
                yield i, t

    def loops(self):
        """natural loops: list of (header, set(blocks), back-edge sources)"""
        out = {}
        reach = set(self.rpo)
        for b in reach:
            for s in self.succs(b):
                if self.dominates(s, b):
                    out.setdefault(s, []).append(b)
        res = []
        for h, srcs in out.items():
            body = {h}
            st = list(srcs)
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(p for p in self.preds[x] if p in reach)
            res.append((h, body, srcs))
        return res


def norm_file(p):
    i = p.find("src/")
    return p[i:] if i >= 0 and not p.startswith("/root") else p


def term_succs(t):
    k = t["t"]
    if k in ("goto", "drop", "assert"):
        return [t["to"]]
    if k == "switch":
        return [b for _, b in t["v"]] + [t["o"]]
    if k == "call":
        return [t["to"]] if t.get("to") is not None else []
    return []


class Prog:
    def __init__(self, dump):
        self.raw = dump
        self.fns = {}
        self.bypath = {}
        for f in dump["fns"]:
            fn = Fn(f, self)
            self.fns[fn.id] = fn
            self.bypath.setdefault(fn.path, []).append(fn)
        self.adts = dump["adts"]
        self.consts = dump["consts"]
        self.impls = dump["impls"]
        self._traits = {}
        for fn in self.fns.values():
            if fn.get("trait") and fn.get("self"):
                self._traits.setdefault((fn.get("trait"), fn.get("self"), fn.get("name")), []).append(fn)

    def fn(self, path):
        r = self.bypath.get(path)
        return r[0] if r else None

    def trait_fn(self, trait, self_ty, name, all=False):
        """local impl of trait::name for the type (generic args ignored)"""
        r = self._traits.get((trait, self_ty, name))
        return (r if all else r[0]) if r else None

    def callee(self, c):
        """local Fn of a call terminator or None"""
        f = c["f"]
        for k in ("rid", "id"):
            if f.get(k) in self.fns:
                return self.fns[f[k]]
        return None


def load(path):
    with open(path) as fh:
        return Prog(json.load(fh))


# ---------------------------------------------------------------- printing
def pplace(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e[0] == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%s" % (e[2] if len(e) > 2 and e[2] else e[1])
        elif e[0] == "i":
            s += "[_%s]" % e[1]
        elif e[0] == "ci":
            s += "[%s%s]" % ("-" if e[2] else "", e[1])
        elif e[0] == "dc":
            s += " as %s" % (e[2])
        else:
            s += str(e)
    return s


def pop(o):
    if "c" in o:
        return pplace(o["c"])
    if "m" in o:
        return "move " + pplace(o["m"])
    return "const " + json.dumps(o["k"])[:120]


def prv(r):
    k = r[0]
    return "%s %s" % (k, ", ".join(pop(x) if isinstance(x, dict) and ("c" in x or "m" in x or "k" in x and len(x) == 1) else pplace(x) if isinstance(x, dict) and "l" in x else json.dumps(x)[:200] for x in r[1:]))


def dumpfn(fn):
    out = ["fn %s argc=%d %s" % (fn.path, fn.argc, fn.span)]
    for i, (t, n) in enumerate(fn.locals):
        out.append("  let _%d: %s %s" % (i, t, n or ""))
    for i, (st, t) in enumerate(fn.blocks):
        out.append(" bb%d:" % i)
        for s in st:
            out.append("   %s = %s" % (pplace(s[0]), prv(s[1])))
        if t["t"] == "call":
            c = t
            f = c["f"]
            nm = f.get("rpath") or f.get("path") or str(f)
            out.append("   %s = %s<%s>(%s) -> bb%s" % (pplace(c["d"]), nm, ",".join(f.get("targs") or []), ", ".join(pop(a) for a in c["a"]), c.get("to")))
        else:
            out.append("   " + json.dumps(t)[:300])
    return "\n".join(out)

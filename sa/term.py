"""Termination of loops and recursions (C19): every cycle of a function's control flow graph must make progress."""
import re

ENDLESS = re.compile(r"std::ops::RangeFrom<|std::iter::(Repeat|RepeatWith|Cycle|Successors|FromFn)<")
BOUNDED = re.compile(r"std::iter::(Take|TakeWhile|Zip|MapWhile|Scan)<")
CONSUME = {"collect", "count", "fold", "for_each", "last", "sum", "product", "max", "min", "max_by", "min_by", "max_by_key", "min_by_key", "partition", "unzip", "reduce", "sorted", "sorted_by", "extend", "try_for_each", "join"}
NEXT = {"next", "next_back", "nth", "nth_back", "next_if", "next_if_eq", "pop", "pop_front", "pop_back", "pop_first", "pop_last", "next_chunk"}
GROW = {"push", "push_back", "push_front", "insert", "extend", "append", "push_str"}
INT = re.compile(r"^[iu](8|16|32|64|128|size)$")
FLOAT = re.compile(r"^f(32|64)$")
OPS = {"Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b, "Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b}
SHRINK = {"split_at", "split_once", "strip_prefix", "strip_suffix", "split_first", "split_last", "split_at_checked", "trim_start_matches", "rsplit_once"}


def endless(ty):
    return bool(ENDLESS.search(ty)) and not BOUNDED.search(ty)


def mentioned(x):
    """locals read by operands, places and lists of them"""
    out = set()
    if isinstance(x, dict):
        if "l" in x and "p" in x:
            out.add(x["l"])
            for e in x["p"]:
                if e[0] == "i":
                    out.add(e[1])
        else:
            for y in x.values():
                out |= mentioned(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            out |= mentioned(y)
    return out


def op_place(o):
    return o.get("m") or o.get("c")


def sccs(g):
    """strongly connected components of {node: successors}, those with a cycle only"""
    num, low, out, st, on = {}, {}, [], [], set()
    for r in g:
        if r in num:
            continue
        work = [(r, iter(g[r]))]
        num[r] = low[r] = len(num)
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in num:
                    num[w] = low[w] = len(num)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    break
                if w in on:
                    low[v] = min(low[v], num[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == num[v]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in g.get(v, ()):
                        out.append(c)
    return out


def turns(g, h, limit=200):
    """simple cycles through h"""
    st = [(h, [h])]
    n = 0
    while st and n < limit:
        v, path = st.pop()
        for w in g[v]:
            if w == h:
                n += 1
                yield path
            elif w not in path:
                st.append((w, path + [w]))


class Loops:
    def __init__(self, P, f):
        self.P, self.f = P, f
        self.defs = {}
        for b, (st, t) in enumerate(f.blocks):
            for s in st:
                self.defs.setdefault(s[0]["l"], []).append((b, s[0]["p"], s[1]))
            if t["t"] == "call":
                self.defs.setdefault(t["d"]["l"], []).append((b, t["d"]["p"], ("call", t)))

    def graph(self, blocks, cut):
        return {b: [s for s in self.f.succs(b) if s in blocks and (b, s) not in cut] for b in blocks}

    def cycles(self, blocks, cut):
        return sccs(self.graph(blocks, cut))

    # ------------------------------------------------------------ verdicts
    def judge(self):
        """[(status, message, line)] one per loop nest"""
        blocks = set(self.f.rpo)
        out = []
        for S in self.cycles(blocks, set()):
            out += self.nest(S, set(), 0)
        return out

    def line(self, S):
        for b in sorted(S):
            st, t = self.f.blocks[b]
            if t.get("s"):
                return "%s:%s" % tuple(t["s"])
            for s in st:
                if len(s) > 2 and s[2]:
                    return "%s:%s" % tuple(s[2])
        return self.f.file

    def nest(self, S, cut, depth):
        cut2, gone = self.progress(S, cut)
        if not cut2 and not gone:
            return [self.verdict(S, cut) + (self.line(S),)]
        cut = cut | cut2
        out = []
        for T in self.cycles(S - gone, cut):
            out += self.nest(T, cut, depth + 1)
        if depth == 0 and not out:
            out.append(("ok", "", self.line(S)))
        return out

    # ------------------------------------------------------------ progress
    def assigned(self, l, S):
        """assignments in S of the local itself"""
        return [(b, p, rv) for b, p, rv in self.defs.get(l, ()) if b in S and not (p and p[0][0] == "*")]

    def root(self, l, seen=()):
        """the local a reference was taken of"""
        if l in seen:
            return l
        d = self.defs.get(l, ())
        if len(d) == 1 and not d[0][1]:
            rv = d[0][2]
            if rv[0] == "ref" and isinstance(rv[1], dict) and "l" in rv[1]:
                return self.root(rv[1]["l"], seen + (l,))
            if rv[0] == "use" and op_place(rv[1]) and not op_place(rv[1])["p"]:
                return self.root(op_place(rv[1])["l"], seen + (l,))
            if rv[0] == "call" and rv[1]["f"].get("name") in ("deref_mut", "by_ref", "as_mut", "borrow_mut", "get_mut") and rv[1]["a"] and op_place(rv[1]["a"][0]):
                return self.root(op_place(rv[1]["a"][0])["l"], seen + (l,))
        return l

    def progress(self, S, cut):
        f = self.f
        edges, gone = set(), set()
        for b in S:
            t = f.blocks[b][1]
            if t["t"] != "call" or not t["a"]:
                continue
            n = t["f"].get("name")
            p = op_place(t["a"][0])
            if n == "read_line" or n == "read_until":
                gone.add(b)
                continue
            if n not in NEXT or p is None:
                continue
            r = self.root(p["l"])
            if any(rv[0] != "ref" for _, _, rv in self.assigned(r, S)) or endless(f.locals[p["l"]][0]):
                continue
            if n.startswith("pop") and any(self.grows(x, r) for x in S):
                continue
            e = self.some_edge(b, t)
            if e is None:
                gone.add(b)
            elif e[0] in S and e[1] in S and e not in cut:
                edges.add(e)
        entry = [b for b in S if any(p not in S for p in f.preds[b])] or [min(S)]
        for l in sorted(self.live(S, entry[0])):
            ty = f.locals[l][0]
            if INT.match(ty):
                a = self.assigned(l, S)
                if not a:
                    continue
                steps = [self.step(l, b, rv) for b, p, rv in a]
                if None in steps or len({s > 0 for s in steps}) != 1 or 0 in steps:
                    continue
                if self.tested(l, S, cut, steps[0] > 0):
                    gone |= {b for b, _, _ in a}
            elif ty.replace("'_ ", "") in ("&str", "&[u8]") or ty.startswith("&'") and ty.endswith("str"):
                a = self.assigned(l, S)
                if a and all(self.shrinks(l, rv, S) for _, _, rv in a) and self.tested(l, S, cut, None):
                    gone |= {b for b, _, _ in a}
        return edges, gone & S

    def grows(self, b, r):
        t = self.f.blocks[b][1]
        return t["t"] == "call" and t["f"].get("name") in GROW and t["a"] and op_place(t["a"][0]) and self.root(op_place(t["a"][0])["l"]) == r

    def some_edge(self, b, t):
        to = t.get("to")
        if to is None or t["d"]["p"]:
            return None
        st, tt = self.f.blocks[to]
        if tt["t"] != "switch":
            return None
        dl = op_place(tt["d"])
        for s in st:
            if dl and s[0]["l"] == dl["l"] and s[1][0] in ("discr", "discriminant") and s[1][1].get("l") == t["d"]["l"]:
                for v, x in tt["v"]:
                    if v == 1:
                        return (to, x)
                return (to, tt["o"])
        return None

    def step(self, l, b, rv):
        """the constant by which an assignment changes the local, if it does so"""
        seen = 0
        while rv[0] == "use" and op_place(rv[1]) is not None and seen < 4:
            seen += 1
            p = op_place(rv[1])
            if p["p"] and not (len(p["p"]) == 1 and p["p"][0][0] == "f" and p["p"][0][1] == 0):
                return None
            d = self.defs.get(p["l"], ())
            if len(d) != 1:
                return None
            rv = d[0][2]
        if rv[0] == "call" and rv[1]["f"].get("name") in ("wrapping_add", "wrapping_sub"):
            return None
        if rv[0] == "call" and rv[1]["f"].get("name") in ("saturating_add", "saturating_sub") and len(rv[1]["a"]) == 2:
            rv = ["bin", "Add" if "add" in rv[1]["f"]["name"] else "Sub"] + rv[1]["a"]
        if rv[0] != "bin" or not rv[1].startswith(("Add", "Sub")):
            return None
        x, k = rv[2], rv[3]
        if rv[1].startswith("Add") and "k" in x:
            x, k = k, x
        if op_place(x) is None or "k" not in k or "int" not in k["k"] or self.same(op_place(x)) != l:
            return None
        n = int(k["k"]["int"])
        return n if rv[1].startswith("Add") else -n

    def same(self, p):
        """the local a copy stands for"""
        l = p["l"]
        for _ in range(4):
            if p["p"]:
                return None
            d = self.defs.get(l, ())
            if self.f.locals[l][1] or len(d) != 1 or d[0][2][0] != "use" or op_place(d[0][2][1]) is None:
                return l
            p = op_place(d[0][2][1])
            l = p["l"]
        return l

    def shrinks(self, l, rv, S):
        back = self.slice([x for x in mentioned(list(rv[1:]) if rv[0] != "call" else rv[1]["a"])], S)
        if rv[0] == "call":
            back[1].add(rv[1]["f"].get("name"))
        if l not in back[0]:
            return False
        return bool(back[1] & SHRINK) or "get" in back[1] or "index" in back[1]

    def slice(self, ls, inside=None):
        """locals and calls a set of locals is computed from (through temporaries)"""
        seen, calls = set(), set()
        todo = list(ls)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for b, p, rv in self.defs.get(x, ()):
                if inside is not None and b not in inside:
                    continue
                if rv[0] == "call":
                    calls.add(rv[1]["f"].get("name"))
                    todo += list(mentioned(rv[1]["a"]))
                else:
                    todo += list(mentioned(list(rv[1:])))
        return seen, calls

    def exits(self, S, cut):
        """(block, target, value of the discriminant or None for otherwise) of the switches that leave S"""
        for b in S:
            t = self.f.blocks[b][1]
            if t["t"] == "switch":
                for v, x in t["v"]:
                    if x not in S or (b, x) in cut:
                        yield b, x, v
                if t["o"] is not None and (t["o"] not in S or (b, t["o"]) in cut) and not self.dead(t["o"]):
                    yield b, t["o"], None
            elif t["t"] == "return":
                yield b, None, None

    def dead(self, b):
        return self.f.blocks[b][1]["t"] == "unreachable"

    def tested(self, l, S, cut, up):
        """a test of the local leaves S, in the direction it moves"""
        for b, x, v in self.exits(S, cut):
            t = self.f.blocks[b][1]
            if t["t"] != "switch":
                continue
            p = op_place(t["d"])
            if p is None:
                continue
            seen, _ = self.slice([p["l"]], S)
            if l not in seen and p["l"] != l:
                continue
            if up is None:
                return True
            d = [rv for bb, pp, rv in self.defs.get(p["l"], ()) if bb in S]
            if len(d) == 1 and d[0][0] == "bin" and d[0][1] in ("Lt", "Le", "Gt", "Ge"):
                sides = [op_place(o) is not None and self.same(op_place(o)) == l for o in d[0][2:4]]
                if sides in ([True, False], [False, True]):
                    big = (d[0][1] in ("Gt", "Ge")) == (v is None or v != 0)
                    if sides == [False, True]:
                        big = not big
                    if big != up:
                        continue
            return True
        return False

    # ------------------------------------------------------------ what is left
    def verdict(self, S, cut):
        f = self.f
        ex = list(self.exits(S, cut))
        if not ex and not any(f.blocks[b][1]["t"] == "call" and f.blocks[b][1].get("to") is None for b in S):
            return ("fail", "loops for ever: nothing leaves it")
        if all(self.nan(b, v) or self.never(b, v) for b, x, v in ex):
            return ("fail", "only stops once a floating point comparison holds, which it never does when the number is not a number or does not converge")
        loud = {b for b in S if self.effects(b, cut)}
        msg = "changes state" if loud else "correlated tests"
        todo = self.cycles(S - loud, cut)
        while todo:
            T = todo.pop()
            entry = [b for b in T if any(p not in T for p in f.preds[b])] or [min(T)]
            live = self.live(T, entry[0])
            moves = {b for b in T if {s[0]["l"] for s in f.blocks[b][0]} & live or f.blocks[b][1]["t"] == "call" and f.blocks[b][1]["d"]["l"] in live}
            if moves:
                if T == S and self.circles(S, cut, entry[0], live):
                    return ("fail", "comes back to a state it has been in")
                msg = "no measure found that every turn decreases"
                todo += self.cycles(T - moves, cut)
            elif self.stuck(T, cut, entry[0]):
                return ("fail", "a turn of the loop that changes nothing is repeated for ever")
        return ("unknown", msg)

    def circles(self, S, cut, h, live):
        """a loop over integers only: from some values, with every other test always answered alike, it returns to the same values"""
        f = self.f
        changed = {s[0]["l"] for b in S for s in f.blocks[b][0]} | {f.blocks[b][1]["d"]["l"] for b in S if f.blocks[b][1]["t"] == "call"}
        kept = sorted(live & changed)
        if not 1 <= len(kept) <= 2 or not all(INT.match(f.locals[l][0]) for l in kept) or any(self.effects(b, cut) for b in S):
            return False
        vals = {0, 1, 2, 3, 5, 10, 11}
        other = [b for b in S if f.blocks[b][1]["t"] == "switch"]
        for start in __import__("itertools").product(vals, repeat=len(kept)):
            for pick in (0, 1):
                st = dict(zip(kept, start))
                seen = set()
                b = h
                for _ in range(4000):
                    if b == h:
                        k = tuple(st.get(l) for l in kept)
                        if None in k:
                            break
                        if k in seen:
                            return True
                        seen.add(k)
                        st = dict(zip(kept, k))
                    b = self.turn(b, st, S, pick)
                    if b is None or b not in S:
                        break
        return False

    def turn(self, b, st, S, pick):
        f = self.f
        sts, t = f.blocks[b]

        def val(o):
            if "k" in o:
                n = o["k"].get("int")
                return int(n) if n is not None else None
            p = op_place(o)
            v = st.get(p["l"])
            if not p["p"]:
                return v if not isinstance(v, tuple) else None
            if isinstance(v, tuple) and len(p["p"]) == 1 and p["p"][0][0] == "f":
                return v[p["p"][0][1]]
            return None

        def put(p, v):
            if not p["p"]:
                st[p["l"]] = v
            else:
                st[p["l"]] = None

        for s in sts:
            rv = s[1]
            v = None
            if rv[0] in ("use", "cast"):
                o = next((x for x in rv[1:] if isinstance(x, dict) and ("m" in x or "c" in x or "k" in x)), None)
                v = val(o) if o else None
            elif rv[0] == "bin":
                x, y = val(rv[2]), val(rv[3])
                if x is not None and y is not None:
                    op = rv[1]
                    if op in OPS:
                        v = int(OPS[op](x, y))
                    elif op.startswith(("Add", "Sub", "Mul")):
                        v = {"A": x + y, "S": x - y, "M": x * y}[op[0]]
                        if op.endswith("WithOverflow"):
                            l = s[0]["l"]
                            m = INT.search(re.sub(r"[(,].*", "", f.locals[l][0].strip("(")))
                            bits = int(m.group(1)) if m and m.group(1) != "size" else 64
                            v = (v, int(not 0 <= v < 2 ** bits if f.locals[l][0].startswith("(u") else not -2 ** (bits - 1) <= v < 2 ** (bits - 1)))
            put(s[0], v)
        k = t["t"]
        if k in ("goto", "drop"):
            return t["to"]
        if k == "assert":
            c = val(t["c"])
            return None if c is not None and bool(c) != bool(t["e"]) else t["to"]
        if k == "call":
            a = [val(x) for x in t["a"]]
            n = t["f"].get("name")
            v = None
            if len(a) == 2 and None not in a:
                v = {"max": max(a), "min": min(a), "saturating_sub": max(a[0] - a[1], 0), "saturating_add": a[0] + a[1]}.get(n)
            put(t["d"], v)
            return t.get("to")
        if k == "switch":
            v = val(t["d"])
            if v is None:
                ins = [x for x in dict.fromkeys([x for _, x in t["v"]] + [t["o"]]) if x in S]
                return ins[pick % len(ins)] if ins else None
            return next((x for y, x in t["v"] if y == v), t["o"])
        return None

    def effects(self, b, cut):
        """the block changes something other than locals of the function"""
        st, t = self.f.blocks[b]
        if any(s[0]["p"] and s[0]["p"][0][0] == "*" for s in st):
            return True
        if t["t"] == "call":
            if t["f"].get("name") in NEXT and not t["f"].get("name").startswith("pop") and self.some_edge(b, t) in cut:
                return False
            for a in t["a"]:
                p = op_place(a)
                if p is not None and re.match(r"&(\S+ )?mut |\*mut |(std::cell|std::sync)::", self.f.locals[p["l"]][0]):
                    return True
        return False

    def never(self, b, v):
        """the test compares a local that only ever holds constants, none of which leaves the loop"""
        t = self.f.blocks[b][1]
        p = op_place(t["d"]) if t["t"] == "switch" else None
        d = self.defs.get(p["l"], ()) if p else ()
        if len(d) != 1 or d[0][2][0] != "bin" or d[0][2][1] not in OPS:
            return False
        sides = []
        for o in d[0][2][2:4]:
            if "k" in o:
                vals = [o["k"].get("int")]
            else:
                l = self.same(op_place(o))
                if l is None or 1 <= l <= self.f.argc:
                    return False
                vals = [rv[1]["k"].get("int") if rv[0] == "use" and "k" in rv[1] and not pp else None for _, pp, rv in self.defs.get(l, ())]
                if any(rv[0] == "ref" and rv[1].get("l") == l and rv[2] for ds in self.defs.values() for _, _, rv in ds):
                    return False
            if not vals or None in vals:
                return False
            sides.append([int(x) for x in vals])
        leaves = 1 if v is None else v
        return all(int(OPS[d[0][2][1]](x, y)) != leaves for x in sides[0] for y in sides[1])

    def nan(self, b, v):
        t = self.f.blocks[b][1]
        p = op_place(t["d"]) if t["t"] == "switch" else None
        if p is None or v == 0:
            return False
        d = self.defs.get(p["l"], ())
        if len(d) != 1 or d[0][2][0] != "bin" or d[0][2][1] not in ("Lt", "Le", "Gt", "Ge", "Eq"):
            return False
        ls = [op_place(o) for o in d[0][2][2:4]]
        fl = [x for x in ls if x is not None and FLOAT.match(self.f.locals[x["l"]][0])]
        if not fl:
            return False
        seen, calls = self.slice([x["l"] for x in fl])
        return bool(calls - {"abs", "sin", "cos", "sqrt", "powi", "fract", "is_finite"}) or any(1 <= x <= self.f.argc for x in seen)

    def live(self, S, h):
        f = self.f
        use, kill = {}, {}
        for b in S:
            st, t = f.blocks[b]
            u, k = set(), set()
            for s in st:
                u |= set(mentioned(list(s[1][1:]))) - k
                if s[0]["p"]:
                    u |= {s[0]["l"]} - k
                else:
                    k.add(s[0]["l"])
            u |= set(mentioned([t.get("d") if t["t"] == "switch" else None, t.get("a"), t.get("c") if t["t"] == "assert" else None])) - k
            if t["t"] == "call" and not t["d"]["p"]:
                k.add(t["d"]["l"])
            use[b], kill[b] = u, k
        li = {b: set() for b in S}
        grew = True
        while grew:
            grew = False
            for b in S:
                o = set().union(*[li[s] for s in f.succs(b) if s in S] or [set()])
                n = use[b] | (o - kill[b])
                if n != li[b]:
                    li[b] = n
                    grew = True
        return li[h]

    def stuck(self, S, cut, h):
        """some turn around S tests no two related things"""
        g = self.graph(S, cut)
        for c in turns(g, h):
            keys = []
            for i, b in enumerate(c):
                t = self.f.blocks[b][1]
                if t["t"] == "switch":
                    p = op_place(t["d"])
                    keys.append(self.about(p["l"], S) if p else frozenset())
            ok = all(not (a & b) for i, a in enumerate(keys) for b in keys[:i])
            if ok:
                return True
        return False


    def about(self, l, S):
        """what a test is about: the variables it reads; a text together with what is done to it first"""
        seen, calls = self.slice([l], S)
        how = frozenset(calls - {"len", "is_empty", "eq", "ne", "deref", "as_str", "as_bytes", "as_ref", "not"})
        out = set()
        for x in seen:
            if self.f.locals[x][1] or 1 <= x <= self.f.argc:
                out.add((x, how) if re.search(r"&(\S+ )?str$|^std::string::String$", self.f.locals[x][0]) else x)
        return frozenset(out)


def consumers(P, f):
    """calls that consume an iterator without end"""
    for b, t in f.calls():
        if t["f"].get("name") in CONSUME:
            for a in t["a"]:
                p = op_place(a)
                if p is not None and endless(f.locals[p["l"]][0]):
                    yield b, t


def always(P, f, inside):
    """blocks of calls to functions of the set that every run of f to its end passes: no return is reached without"""
    import reach
    stop = {b for b, t in f.calls() if reach.targets(P, t) & inside}
    if not stop:
        return []
    seen, todo = set(), [0]
    while todo:
        b = todo.pop()
        if b in seen or b in stop:
            continue
        seen.add(b)
        if f.blocks[b][1]["t"] == "return":
            return []
        todo += f.succs(b)
    return sorted(stop)


def unchanged(P, f):
    """calls of f to itself with the very arguments it got, none of which can have changed"""
    L = Loops(P, f)
    for b, t in f.calls():
        if P.callee(t) is not f or len(t["a"]) != f.argc or not f.argc:
            continue
        ok = True
        for i, a in enumerate(t["a"], 1):
            p = op_place(a)
            l = p["l"] if p is not None and not p["p"] else None
            while l is not None and l != i:
                d = L.defs.get(l, ())
                if len(d) != 1 or d[0][1]:
                    l = None
                    break
                rv = d[0][2]
                if rv[0] == "use" and op_place(rv[1]) is not None and not op_place(rv[1])["p"]:
                    l = op_place(rv[1])["l"]
                elif rv[0] == "ref" and rv[1]["p"] == [["*"]]:
                    l = rv[1]["l"]
                else:
                    l = None
            if l != i or "mut " in f.locals[i][0] or L.defs.get(i):
                ok = False
        if ok:
            yield b, t

"""Calls that may fail with an input or output error, and what becomes of the failure (C15, C16)."""
import re
import errflow

READ = {"read_line", "read", "read_to_string", "read_to_end", "read_exact", "read_until", "next", "open", "fill_buf", "lines", "bytes", "read_vectored", "next_back", "nth", "last", "stream_position", "seek", "metadata"}
NEUTRAL = {"branch", "from_residual", "map_err", "ok_or", "ok_or_else", "from_output", "clone", "map", "and_then", "and", "or", "or_else", "inspect", "inspect_err", "into", "from", "transpose", "copied", "cloned", "flatten", "take", "replace", "unwrap_or", "unwrap_or_else"}
IO = re.compile(r"std::io::Error|FormattingError")
CLOSERS = {"flush": "flush", "into_inner": "flush", "finish": "finish", "try_finish": "finish", "into_parts": "flush"}
ADAPTERS = ("Flatten", "FilterMap", "MapWhile", "FlatMap", "TakeWhile", "Filter")


def short(fn):
    return re.sub(r"::\{closure#\d+\}", "", re.sub(r"<impl ([\w:]+)>::", lambda m: m.group(1).split("::")[-1] + "::", fn.path))


def sources(P):
    """{function id: [(block, callee name, kind)]} with kind "read" or "write", through local callees"""
    out = {}
    kinds = {}
    calls = []
    for f in P.fns.values():
        for b, t in f.calls():
            ty = f.locals[t["d"]["l"]][0] if not t["d"]["p"] else ""
            g = P.callee(t)
            calls.append((f, b, t, ty, g))
            if g is not None:
                continue
            n = t["f"].get("name") or ""
            if n in NEUTRAL or not IO.search(ty) or errflow.failing(ty) is None:
                continue
            if not feeds(f, b, t):
                continue
            k = "write" if "FormattingError" in ty or n not in READ or "Write" in (t["f"].get("trait") or "") else "read"
            out.setdefault(f.id, []).append((b, n, k))
            kinds.setdefault(f.id, set()).add(k)
    parents = {}
    for f in P.fns.values():
        m = re.match(r"(.*?)(::\{closure#\d+\})+$", f.path)
        if m and P.fn(m.group(1)):
            parents[f.id] = P.fn(m.group(1)).id
    while True:
        grew = False
        for f, b, t, ty, g in calls:
            if g is None or g.id not in kinds or errflow.failing(ty) is None:
                continue
            for k in kinds[g.id]:
                e = (b, g.get("name") or t["f"].get("name") or "?", k)
                if e not in out.get(f.id, ()):
                    out.setdefault(f.id, []).append(e)
                    kinds.setdefault(f.id, set()).add(k)
                    grew = True
        if not grew:
            return out


def feeds(f, b, t):
    """a result built by an adapter whose own argument is a result is judged where that one comes from"""
    return True


def lost(P, kind):
    """[(key, where, message or None)] of every call of a kind; message when a failure does not reach the caller"""
    res = []
    for fid, xs in sorted(sources(P).items()):
        f = P.fns[fid]
        for b, n, k in xs:
            if k != kind:
                continue
            t = f.blocks[b][1]
            bad, p = errflow.after(f, b)
            key = "%s:%s" % (short(f), n)
            where = "%s:%s" % tuple(t["s"]) if t.get("s") else f.file
            if p.truncated and not bad:
                res.append((key, where, "unknown", "more than %d path states follow the call" % errflow.LIMIT))
                continue
            hard = [x for x in bad if not x[2]]
            if any(x[0] == "abort" for x in hard):
                res.append((key, where, "fail", "the failure of %s aborts the program instead of being returned" % n))
            elif hard:
                res.append((key, where, "fail", "after the failure of %s, %s can return normally: the failure is lost" % (n, f.path)))
            elif bad:
                res.append((key, where, "unknown", "the failure of %s is stored or handed over by value" % n))
            else:
                res.append((key, where, "ok", ""))
    return res


def adapters(P):
    """iterators over the lines of an input that drop the failures: [(key, where, status, message)]"""
    res = []
    for f in P.fns.values():
        for i, (ty, name) in enumerate(f.locals):
            for a in ADAPTERS:
                m = re.search(r"iter::%s<std::io::(Lines|Bytes|Split)<" % a, ty)
                if m and not ty.startswith("&"):
                    key = "%s:%s" % (short(f), a)
                    if a == "Flatten" or re.search(r"Result::<[^>]*>::ok\b|Result<T, E>::ok|::ok\}", ty):
                        res.append((key, f.file, "fail", "the %s of an input go through %s, which drops the failures" % (m.group(1).lower(), a)))
        # closures that receive the result of a read
        if "{closure" in f.path and f.argc == 2 and re.match(r"std::result::Result<.*std::io::Error>$", f.locals[2][0]):
            p = errflow.Paths(f)
            bad = []
            for kind, v, mk, esc, b in p.run(0, {(2, ()): errflow.ERR}):
                if kind == "abort":
                    bad.append("aborts")
                elif not errflow.carries(v) and not esc:
                    bad.append("drops it")
            key = "%s:closure" % short(f)
            res.append((key, f.file, "fail" if bad else "ok", "a closure that receives a failed read %s" % (bad[0] if bad else "")))
    return res


# ---------------------------------------------------------------- buffered writers
def writer_type(ty):
    return re.match(r"std::io::(BufWriter|LineWriter)<", ty) is not None or re.match(r"flate2::(gz::)?write::GzEncoder<|flate2::gz::write::GzEncoder<", ty) is not None


def unfinished(P):
    """buffered or compressing writers a function creates: [(key, where, status, message)]"""
    memo = {}
    res = []
    for f in P.fns.values():
        made = [(b, t) for b, t in f.calls() if not t["d"]["p"] and writer_type(f.locals[t["d"]["l"]][0]) and t.get("to") is not None and P.callee(t) is None
                and (t["f"].get("name") or "") in ("new", "with_capacity", "from")]
        if not made or writer_type(f.locals[0][0]) or "BufWriter" in f.locals[0][0] or "GzEncoder" in f.locals[0][0]:
            continue
        todo = {}
        for b, t in made:
            todo[b] = "finish" if "GzEncoder" in f.locals[t["d"]["l"]][0].split("<")[0] else "flush"
        bad, tr = pending(P, f, 0, {}, frozenset(), todo, memo)
        key = "close:%s" % short(f)
        if tr:
            res.append((key, f.file, "unknown", "too many paths"))
        elif bad:
            res.append((key, f.file, "fail", "can succeed without %s: what was still held back, and the failure to write it, are lost" % " and ".join("having flushed its buffered writer" if x == "flush" else "having finished its compressed stream" for x in sorted(bad))))
        else:
            res.append((key, f.file, "ok", ""))
    return res


def pending(P, f, start, st0, mark, todo, memo):
    """what is still to be closed when f returns without a failure"""
    p = errflow.Paths(f)

    def observe(b, t, st, mk, v):
        n = t["f"].get("name") or ""
        if b in todo:
            return mk | {todo[b]}, v
        tys = [f.locals[(a.get("m") or a.get("c"))["l"]][0] for a in t["a"] if "m" in a or "c" in a]
        touches = any("BufWriter" in x or "GzEncoder" in x or re.match(r"&mut (W|impl .*Write)$", x) for x in tys)
        if n in CLOSERS and touches or n in CLOSERS and n != "flush" and "Result" not in n and CLOSERS[n] in mk and touches:
            return mk - {CLOSERS[n]}, v
        if touches and tys and "&mut" in " ".join(tys):
            g = P.callee(t)
            if g is None:
                if n in ("by_ref", "get_ref", "get_mut", "borrow_mut", "as_mut", "deref_mut", "deref", "capacity", "buffer"):
                    return mk, v
                return mk | ({"flush"} if "flush" in todo.values() or not todo else frozenset()), v
            if flushes(P, g, memo):
                return mk - {"flush"}, v
            return mk | {"flush"}, v
        return mk, v

    left = set()
    for kind, v, mk, esc, b in p.run(start, st0, observe, mark):
        if kind == "return" and not errflow.carries(v):
            left |= mk
    return left, p.truncated


def flushes(P, g, memo):
    """every successful return of g leaves nothing in the writer it was given"""
    if g.id not in memo:
        memo[g.id] = False  # recursive: not shown
        left, tr = pending(P, g, 0, {}, frozenset({"flush"}), {}, memo)
        memo[g.id] = not tr and not left
    return memo[g.id]


def counts(P):
    """partial writes whose count is not looked at: [(key, where, status, message)]"""
    res = []
    for f in P.fns.values():
        if f.get("trait", "") and str(f.get("trait")).endswith("io::Write"):
            continue
        for b, t in f.calls():
            if t["f"].get("name") == "write" and (t["f"].get("trait") or "").endswith("io::Write"):
                used = used_payload(f, t["d"]["l"])
                key = "%s:write" % short(f)
                res.append((key, f.file, "ok" if used else "fail", "writes part of a buffer and does not look at how much was taken"))
    return res


def used_payload(f, l):
    """some integer taken out of local l is used"""
    derived = {l}
    grew = True
    while grew:
        grew = False
        for st, t in f.blocks:
            for s in st:
                if any(x in derived for x in mentioned(s[1])) and s[0]["l"] not in derived:
                    derived.add(s[0]["l"])
                    grew = True
            if t["t"] == "call" and any((a.get("m") or a.get("c") or {}).get("l") in derived for a in t["a"]) and t["d"]["l"] not in derived:
                derived.add(t["d"]["l"])
                grew = True
    for st, t in f.blocks:
        for s in st:
            if s[1][0] == "bin" and any(x in derived and f.locals[x][0] == "usize" for x in mentioned(s[1])):
                return True
        if t["t"] == "switch" and any(x in derived and f.locals[x][0] == "usize" for x in mentioned(["use", t["d"]])):
            return True
    return False


def mentioned(r):
    out = []
    for x in r[1:]:
        if isinstance(x, dict):
            p = x.get("m") or x.get("c") or (x if "l" in x else None)
            if p:
                out.append(p["l"])
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, dict):
                    p = y.get("m") or y.get("c")
                    if p:
                        out.append(p["l"])
    return out

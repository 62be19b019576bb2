"""Where the arbitrary order of a hash table shows (C18): what becomes of an iterator over one."""
import re
from ioflow import mentioned

HASHED = re.compile(r"(std::collections::(hash_map|hash_set|hash::map|hash::set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|Union|Intersection|Difference|SymmetricDifference)\b)")
SAME = {"into_iter", "iter", "iter_mut", "map", "filter", "filter_map", "cloned", "copied", "flat_map", "flatten", "chain", "inspect", "peekable", "by_ref", "unique", "unique_by", "fuse", "rev", "dedup", "dedup_by", "map_while", "sorted_iter"}
PLACE = {"enumerate", "skip", "take", "step_by", "zip", "scan", "take_while", "skip_while", "tuple_windows", "tuples", "chunks", "interleave", "intersperse", "join", "format", "last", "nth", "position", "fold", "try_fold", "partial_cmp", "cmp", "eq"}
FREE = {"count", "len", "any", "all", "is_empty", "contains", "min", "max", "min_by_key", "max_by_key", "min_by", "max_by", "sorted", "sorted_by", "sorted_by_key", "sorted_unstable", "sorted_unstable_by", "sorted_unstable_by_key", "size_hint", "drop", "clone", "all_unique", "counts", "all_equal"}
CHOICE = {"find", "find_map", "reduce", "next_back", "partition", "sum", "product", "rposition", "minmax", "group_by", "into_group_map", "try_for_each"}


def sites(P, f):
    """(block, call) that create an iterator over a hash table in f"""
    for b, t in f.calls():
        if t["d"]["p"]:
            continue
        ty = f.locals[t["d"]["l"]][0]
        src = [f.locals[(a.get("m") or a.get("c"))["l"]][0] for a in t["a"] if "m" in a or "c" in a]
        if HASHED.match(ty) and not (src and HASHED.match(src[0])):
            yield b, t


def judge(P, f, b0, t0):
    """(status, message): "ok" the order does not show, "fail" it does, "unknown" """
    worst = ("ok", "")
    todo = [(t0["d"]["l"], "iter")]
    seen = set()
    rank = {"ok": 0, "unknown": 1, "fail": 2}

    def note(s, m):
        nonlocal worst
        if rank[s] > rank[worst[0]]:
            worst = (s, m)

    while todo:
        l, what = todo.pop()
        if (l, what) in seen:
            continue
        seen.add((l, what))
        if l == 0:
            note("unknown", "the iterator is returned")
            continue
        for bi, (st, t) in enumerate(f.blocks):
            for s in st:
                if l in mentioned(s[1]) and s[0]["l"] != l:
                    if s[1][0] in ("use", "ref", "cast"):
                        todo.append((s[0]["l"], what))
                    elif s[1][0] == "agg" and s[1][1].get("k") != "closure":
                        note("unknown", "stored")
            if t["t"] != "call":
                continue
            at = [i for i, a in enumerate(t["a"]) if (a.get("m") or a.get("c") or {}).get("l") == l]
            if not at:
                continue
            n = t["f"].get("name") or "?"
            dty = f.locals[t["d"]["l"]][0] if not t["d"]["p"] else ""
            if what == "vec":
                if n.startswith("sort"):
                    continue
                if n in ("deref", "deref_mut", "as_mut_slice", "as_slice", "borrow", "as_ref", "as_mut"):
                    todo.append((t["d"]["l"], "vec"))
                elif n in ("len", "is_empty", "contains", "drop", "dedup", "clear"):
                    pass
                elif sorted_before(f, l, bi):
                    pass
                else:
                    note("fail", "a list in the order of a hash table is used (%s) without being sorted" % n)
                continue
            if n in FREE:
                continue
            if n in SAME:
                todo.append((t["d"]["l"], "iter"))
            elif n in PLACE:
                note("fail", "%s depends on the order of a hash table" % n)
            elif n in ("collect", "collect_vec", "from_iter", "extend", "into_group_map"):
                if re.match(r"(std|alloc)::(vec::Vec|string::String|collections::VecDeque|boxed::Box<\[)|std::result::Result<std::vec::Vec|std::option::Option<std::vec::Vec", dty):
                    todo.append((t["d"]["l"], "vec"))
                elif re.search(r"BTree|Hash", dty):
                    pass
                elif n == "extend":
                    tgt = f.locals[(t["a"][0].get("m") or t["a"][0].get("c") or {"l": 0})["l"]][0]
                    if not re.search(r"BTree|Hash", tgt):
                        note("fail", "a list is extended in the order of a hash table")
                else:
                    note("unknown", "collected in %s" % dty[:60])
            elif n == "next":
                note(*loop(P, f, bi))
            elif n == "for_each":
                note(*closure(P, f, t))
            elif n in CHOICE:
                if n in ("sum", "product") and re.match(r"[iu]\d+|[iu]size", dty):
                    continue
                note("unknown", "%s of the entries of a hash table" % n)
            elif P.callee(t) is not None:
                note("unknown", "handed to %s" % n)
            else:
                note("unknown", "used by %s" % n)
    return worst


def sorted_before(f, l, bi):
    """a sort of the list happens on every path to the block"""
    al = {l}
    grew = True
    while grew:
        grew = False
        for st, t in f.blocks:
            for s in st:
                if s[1][0] in ("use", "ref", "cast") and (s[0]["l"] in al) != bool(set(mentioned(s[1])) & al):
                    al |= {s[0]["l"]} | set(mentioned(s[1]))
                    grew = True
            if t["t"] == "call" and t["f"].get("name") in ("deref", "deref_mut", "as_mut_slice", "as_mut") and not t["d"]["p"]:
                ls = {(a.get("m") or a.get("c") or {}).get("l") for a in t["a"]}
                if ls & al and t["d"]["l"] not in al:
                    al.add(t["d"]["l"])
                    grew = True
    for i, (st, t) in enumerate(f.blocks):
        if t["t"] == "call" and (t["f"].get("name") or "").startswith("sort") and any((a.get("m") or a.get("c") or {}).get("l") in al for a in t["a"]):
            if i != bi and f.dominates(i, bi):
                return True
    return False


ORDERED = {"push", "push_str", "push_back", "push_front", "write_fmt", "write_str", "write_all", "write", "writeln", "append", "extend", "insert_str", "extend_from_slice", "write_char", "_print"}
APPEND = {"push", "push_back", "push_front", "append", "extend"}


def plain(f, t):
    """the list a value is appended to is a variable of the function that is never sorted, not the entry of some table"""
    l = (t["a"][0].get("m") or t["a"][0].get("c") or {}).get("l")
    for _ in range(4):
        d = [s for st, _ in f.blocks for s in st if s[0]["l"] == l and not s[0]["p"]]
        if len(d) != 1 or d[0][1][0] not in ("ref", "use"):
            break
        ls = mentioned(d[0][1])
        if len(ls) != 1:
            break
        l = ls[0]
    if any(tt["t"] == "call" and tt["d"]["l"] == l and tt["f"].get("name") not in ("new", "with_capacity", "default") for _, tt in f.blocks):
        return False
    return not any(tt["t"] == "call" and (tt["f"].get("name") or "").startswith("sort") for _, tt in f.blocks)


KEYED = {"insert", "entry", "get", "get_mut", "contains", "contains_key", "remove", "retain", "or_insert", "or_default", "or_insert_with"}


def effects(P, f, blocks, depth=0):
    """names of order sensitive effects in some blocks of f, through local callees that take a writer"""
    out = set()
    for b in blocks:
        t = f.blocks[b][1]
        if t["t"] != "call":
            continue
        n = t["f"].get("name") or ""
        if n in ORDERED and "fmt::" not in (t["f"].get("path") or ""):
            if n in APPEND and depth == 0 and not plain(f, t):
                continue
            out.add(n)
        g = P.callee(t)
        if g is not None and depth < 3 and any("&mut" in f.locals[(a.get("m") or a.get("c"))["l"]][0] for a in t["a"] if "m" in a or "c" in a):
            if effects(P, g, range(len(g.blocks)), depth + 1):
                out.add(n)
    return out


def loop(P, f, bi):
    ls = [(h, body) for h, body, _ in f.loops() if bi in body]
    if not ls:
        return "fail", "takes an arbitrary entry of a hash table (next)"
    h, body = min(ls, key=lambda x: len(x[1]))
    e = effects(P, f, body)
    if e:
        return "fail", "a loop over a hash table writes or appends in its order (%s)" % ", ".join(sorted(e))
    return "unknown", "a loop over a hash table"


def closure(P, f, t):
    ids = set()
    for a in t["a"]:
        l = (a.get("m") or a.get("c") or {}).get("l")
        m = re.search(r"\{closure", f.locals[l][0]) if l is not None else None
        if m:
            for st, tt in f.blocks:
                for s in st:
                    if s[0]["l"] == l and s[1][0] == "agg" and s[1][1].get("k") == "closure":
                        ids.add(s[1][1]["id"])
    e = set()
    for i in ids:
        if i in P.fns:
            e |= effects(P, P.fns[i], range(len(P.fns[i].blocks)))
    if e:
        return "fail", "entries of a hash table are written or appended in its order (%s)" % ", ".join(sorted(e))
    return "unknown", "for_each over a hash table"

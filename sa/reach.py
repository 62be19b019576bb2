"""Call graph: what an entry point may execute."""
import re



INDIRECT = {"new_display": "std::fmt::Display", "new_debug": "std::fmt::Debug", "new_lower_hex": "std::fmt::LowerHex", "new_upper_hex": "std::fmt::UpperHex", "to_string": "std::fmt::Display", "default": "std::default::Default",
            "parse": "std::str::FromStr"}


def callees(P, f):
    """local functions a function may call: resolved calls, implementations behind a type parameter, what library calls do with
    the local types they are given, functions and closures it names"""
    out = set()
    for b, t in f.calls():
        out |= targets(P, t)
    named(f.blocks, P, out)
    return out


def targets(P, t):
    """local functions one call may execute"""
    out = set()
    byname = traits(P)
    g = P.callee(t)
    c = t["f"]
    n = c.get("name") or ""
    if g is not None:
        return {g.id}
    tr = (c.get("trait") or "").split("<")[0]
    if tr and not c.get("rid") and re.match(r"^[A-Z]\w*$|^dyn |^impl ", c.get("self") or ""):
        out |= byname.get((tr, n), set())
    for k, tr_ in INDIRECT.items():
        if k in n:
            tys = (c.get("targs") or []) + [c.get("self") or ""]
            if k == "default":
                # an empty option or collection is not made of default elements
                tys = [x for x in tys if not re.match(r"std::(option::Option|vec::Vec|collections::|rc::Weak)", x)]
            for ty in local_types(P, tys):
                for fn in P._traits.get((tr_, ty, TRAITFN[tr_]), ()):
                    out.add(fn.id)
    if tr == "std::iter::Iterator" or tr == "std::iter::IntoIterator":
        for ty in local_types(P, (c.get("targs") or []) + [c.get("self") or ""]):
            for fn in P._traits.get(("std::iter::Iterator", ty, "next"), ()):
                out.add(fn.id)
    return out


TRAITFN = {"std::fmt::Display": "fmt", "std::fmt::Debug": "fmt", "std::fmt::LowerHex": "fmt", "std::fmt::UpperHex": "fmt", "std::default::Default": "default", "std::str::FromStr": "from_str"}


def local_types(P, tys):
    """local types mentioned in type arguments"""
    out = set()
    for t in tys:
        for m in re.findall(r"[A-Za-z_][\w:]*", t):
            if m in P.adts:
                out.add(m)
    return out


def traits(P):
    if not hasattr(P, "_bytrait"):
        d = {}
        for fn in P.fns.values():
            if fn.get("trait"):
                d.setdefault((fn.get("trait").split("<")[0], fn.get("name")), set()).add(fn.id)
        P._bytrait = d
    return P._bytrait


def named(x, P, out):
    if isinstance(x, dict):
        for k in ("fn", "closure", "id", "rid"):
            v = x.get(k)
            if isinstance(v, str) and v in P.fns:
                out.add(v)
        for v in x.values():
            if isinstance(v, (dict, list)):
                named(v, P, out)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                named(v, P, out)


def reach(P, roots):
    """{function id: id of the one that calls it} from the roots"""
    seen = {r.id: None for r in roots if r is not None}
    work = list(seen)
    while work:
        i = work.pop()
        f = P.fns[i]
        for j in callees(P, f):
            if j not in seen:
                seen[j] = i
                work.append(j)
    return seen


def chain(P, seen, i):
    out = []
    while i is not None:
        out.append(P.fns[i].path)
        i = seen[i]
    return " <- ".join(out[:6])

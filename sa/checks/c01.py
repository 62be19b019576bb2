"""C01: text forms of the crate's code enums are inverse of their parsers."""
from lib import *

RULE = ("for every enum of the crate with both a text form and a parser, the abstract result of parse(format(v)) over the "
        "compiled MIR is v itself for every variant, and no two variants share a text form")

# text forms that deliberately name the same physical signal; parse gives the first
MERGED = {
    "Carrier": {("G1a", "L1"), ("G2a", "L2"), ("E5a", "E5"), ("E5b", "E5"), ("E5a", "L5")},
}
# private enums whose parser/formatter pair is not a user visible code
SKIP = ("InternalBitFlags",)


def short(ty):
    return ty.split("::")[-1]


def payloads(P, ty):
    def f(name, fields):
        return []
    return f


def enums(c):
    P = c.P
    tys = sorted({f.get("self") for f in P.fns.values() if f.get("trait") == "std::str::FromStr"})
    for ty in tys:
        if ty.endswith(SKIP) or P.adts.get(ty, {}).get("kind") != "enum":
            continue
        yield ty


def run(c):
    P, q, r = c.P, c.q, c.r
    n = 0
    for ty in enums(c):
        st = short(ty)
        for trait in ("Display", "LowerHex"):
            if P.trait_fn("std::fmt::" + trait, ty, "fmt") is None:
                continue
            seen = {}
            for v in enum_values(P, ty):
                n += 1
                key = "%s:%s:%s" % (trait, st, vname(v))
                d = q.fmt(ty, v, "std::fmt::" + trait)
                if d is BOT:
                    r.fail(key, "%s of %s::%s never returns (unconditional recursion or abort)" % (trait, st, vname(v)))
                    continue
                if not is_str(d):
                    r.unknown(key, "text form is %s" % show(d))
                    continue
                s = cval(d)
                merged = MERGED.get(st, ())
                p = q.parse(ty, s)
                good = is_ok(p) and inner(p) is v
                if good or (is_ok(p) and (vname(v), s) in merged):
                    r.ok(key, "%s::%s <-> %r" % (st, vname(v), s))
                elif is_err(p) or (is_ok(p) and inner(p).k == "agg"):
                    r.fail(key, "%s::%s is written %r, which parses as %s" % (st, vname(v), s, show(p)))
                elif p is BOT:
                    r.fail(key, "parsing %r, the text form of %s::%s, aborts" % (s, st, vname(v)))
                else:
                    r.unknown(key, "%r parses as %s" % (s, show(p)))
                o = seen.setdefault(s, v)
                if o is not v and not {(vname(v), s), (vname(o), s)} & set(merged):
                    r.fail("inj:%s:%s" % (st, "/".join(sorted((vname(v), vname(o))))), "%s::%s and %s::%s are both written %r" % (st, vname(o), st, vname(v), s))
    r.floor("variant text forms", n, 90)

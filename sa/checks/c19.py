"""C19: every call comes to an end."""
import re
import term, reach
from ioflow import short

RULE = ("every cycle of every function's control flow graph is decomposed into nested loops: each turn must take an element of a finite iterator, read from the input, move an integer in one direction towards a test that leaves the loop, or shorten a text "
        "whose end leaves it; a cycle left over that changes no state, has no way out, or only stops on a floating point comparison is reported; no endless iterator is consumed whole; no recursion is unconditional or repeats its own arguments")


def run(ctx):
    P, R = ctx.P, ctx.r
    n = 0
    for f in sorted(P.fns.values(), key=lambda x: x.path):
        if re.search(r"_::_?serde|deserialize|::visit_", f.path):
            continue
        for k, (s, m, w) in enumerate(term.Loops(P, f).judge()):
            n += 1
            key = "loop:%s%s" % (short(f), ":%d" % k if k else "")
            if s == "ok":
                R.ok(key, sample=w)
            elif s == "fail":
                R.fail(key, m, w)
            else:
                R.unknown(key, m)
        for b, t in term.consumers(P, f):
            R.fail("endless:%s:%s" % (short(f), t["f"].get("name")), "consumes an iterator that has no end", "%s:%s" % tuple(t["s"]) if t.get("s") else f.file)
        for b, t in term.unchanged(P, f):
            R.fail("recursion:%s" % short(f), "calls itself with the arguments it got", "%s:%s" % tuple(t["s"]) if t.get("s") else f.file)
    g = {f.id: list(reach.callees(P, f)) for f in P.fns.values()}
    for s in term.sccs(g):
        names = sorted(short(P.fns[x]) for x in s)
        key = "recursion:" + names[0]
        stop = {x: term.always(P, P.fns[x], s) for x in s}
        if all(stop.values()):
            x = min(s, key=lambda y: P.fns[y].path)
            R.fail(key, "recursion without an end: every run of %s calls %s again" % (names[0], "itself" if len(s) == 1 else names[-1]), P.fns[x].file)
        else:
            R.unknown(key, "recursion")
    R.ok("call graph", sample="%d functions" % len(g))
    R.floor("loops", n, 60)
    R.floor("functions in the call graph", len(g), 400)
    R.assume.append("inputs and the collections built from them are finite; loops and closures inside the standard library and dependencies end when the iterators they are given do")

"""Queries shared by the rules."""
from absint import *
from models import fmt_piece, NOSPEC
from val import *


def enum_values(P, ty, payload=None):
    """every value of a field-less enum; variants with fields are built by payload(variant, fields) if given"""
    ad = P.adts[ty]
    out = []
    for i, (name, discr, fields) in enumerate(ad["variants"]):
        if fields:
            if payload:
                for fs in payload(name, fields):
                    out.append(agg(ty, name, i, [f[0] for f in fields], fs))
            continue
        out.append(agg(ty, name, i, (), ()))
    return out


def variant(P, ty, name, *fs):
    for i, v in enumerate(P.adts[ty]["variants"]):
        if v[0] == name:
            return agg(ty, name, i, [f[0] for f in v[2]], fs)
    return None


def struct(P, ty, base=None, **kw):
    """struct value with the named fields given and the rest opaque"""
    fl = P.adts[ty]["variants"][0][2]
    fs = []
    for n, t, _ in fl:
        fs.append(kw[n] if n in kw else E("f", n, base if base is not None else E("arg", ty.split("::")[-1])))
    return agg(ty, "", 0, [f[0] for f in fl], fs)


class Q:
    """a fresh analysis per query, sharing the program"""

    def __init__(self, P):
        self.P = P
        self.fns = set()
        self.queries = 0
        self.steps = 0

    def interp(self, **k):
        return Interp(self.P, **k)

    def done(self, I_):
        self.fns |= I_.fns_seen
        self.queries += 1
        self.steps += I_.steps

    def call(self, fn, *args, **k):
        """abstract result of fn for abstract arguments"""
        if isinstance(fn, str):
            fn = self.P.fn(fn)
        if fn is None:
            return None
        I_ = self.interp(**k)
        r, _ = I_.entry(fn, {i + 1: a for i, a in enumerate(args) if a is not None})
        self.done(I_)
        return r if r is not None else BOT

    def fmt(self, ty, v, trait="std::fmt::Display", spec=NOSPEC):
        fn = self.P.trait_fn(trait, ty, "fmt")
        if fn is None:
            return None
        I_ = self.interp()
        fid = I_.fid(0, fn, 0)
        k = (fid, "in:f")
        st = {k: agg("Formatter", "", 0, ("buf", "spec"), (S(""), C("spec", spec)))}
        r, out = I_.run(fn, [v, ptr(k[0], k[1], ())], st, fid, 0, (fn.id,))
        self.done(I_)
        if r is None:
            return BOT
        f = out[k]
        return f.a[4][0] if f.k == "agg" and f.a[0] == "Formatter" else TOP

    def parse(self, ty, s):
        fn = self.P.trait_fn("std::str::FromStr", ty, "from_str")
        if fn is None:
            return None
        return self.call(fn, S(s) if isinstance(s, str) else s)

    def info(self):
        return {"queries": self.queries, "functions_analysed": len(self.fns), "abstract_steps": self.steps}


def spread(ctx, items, f, workers=8):
    """f(ctx, item) of every item, in parallel processes; what they report is merged
    in the order of the items. Returns the results of f."""
    import gc, multiprocessing, report

    items = list(items)
    gc.collect()
    gc.freeze()

    def work(k):
        c = type(ctx)()
        c.__dict__.update(ctx.__dict__)
        c.q = Q(ctx.P)
        c.r = report.Report(ctx.r.prop, ctx.r.rule)
        x = f(c, items[k])
        return c.r.__dict__, (c.q.fns, c.q.queries, c.q.steps), x

    global _work
    _work = work
    with multiprocessing.get_context("fork").Pool(min(workers, len(items) or 1)) as pool:
        got = pool.map(_do, range(len(items)), chunksize=1)
    out = []
    for d, (fns, n, steps), x in got:
        r = report.Report(ctx.r.prop, ctx.r.rule)
        r.__dict__.update(d)
        ctx.r.merge(r)
        ctx.q.fns |= fns
        ctx.q.queries += n
        ctx.q.steps += steps
        out.append(x)
    return out


def _do(k):
    return _work(k)


def is_ok(v):
    return v is not None and v.k == "agg" and v.a[1] in ("Ok", "Some")


def is_err(v):
    return v is not None and v.k == "agg" and v.a[1] in ("Err", "None")


def inner(v):
    return v.a[4][0]


def vname(v):
    if v is None:
        return "None"
    if v.k == "agg" and v.a[1]:
        return v.a[1]
    return show(v)


def meth(P, ty, name):
    """inherent method of the (path-suffix) type, wherever its impl block is"""
    import re

    if not hasattr(P, "_meth"):
        P._meth = {}
        for p, fs in P.bypath.items():
            m = re.match(r"^(?:.*::)?<impl ([\w:]+)(?:<.*>)?>::(\w+)$", p)
            if m:
                P._meth.setdefault((m.group(1), m.group(2)), fs[0])
                continue
            m = re.match(r"^([\w:]+?)(?:::<.*>|<.*>)?::(\w+)$", p)
            if m:
                P._meth.setdefault((m.group(1), m.group(2)), fs[0])
    for (t, n), f in P._meth.items():
        if n == name and (t == ty or t.endswith("::" + ty)):
            return f
    return None


def strs(v):
    """string constants a term mentions"""
    return {cval(x) for x in walk(v) if is_str(x)}


def mentions(v, x):
    return any(y is x for y in walk(v))

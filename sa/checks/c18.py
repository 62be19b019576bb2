"""C18: the same bytes are always read the same, the same content always written the same."""
import re
import hashorder, reach
from ioflow import short
from lib import *

RULE = ("over every function that reading, writing or naming a file may execute (call graph from those entries): each iterator over a hash table is followed to its consumer, which must not depend on its order "
        "(sorted, keyed or order-free); no ambient value (clock, environment, random numbers, addresses, process or thread identity) is read")

ROOTS = [("Rinex", n) for n in ("parse", "format", "from_file", "to_file", "from_gzip_file", "to_gzip_file", "standard_filename", "guess_production_attributes")] + [("Record", "parse"), ("Record", "format"), ("Header", "parse"), ("Header", "format")]
AMBIENT = re.compile(r"^hifitime::.*Epoch>?::now$|^std::time::(SystemTime|Instant)::now|^std::env::|^rand::|getrandom|^std::process::id|^std::thread::(current|ThreadId)|^std::hash::(RandomState|DefaultHasher|BuildHasher::hash_one)|new_pointer$")


def run(ctx):
    P, R = ctx.P, ctx.r
    roots = [meth(P, a, b) for a, b in ROOTS]
    roots += [fn for (tr, ty, n), fs in P._traits.items() if tr in ("std::str::FromStr", "std::fmt::Display", "std::fmt::LowerHex") and n in ("from_str", "fmt") for fn in fs]
    seen = reach.reach(P, roots)
    n = 0
    for i in sorted(seen):
        f = P.fns[i]
        for b, t in hashorder.sites(P, f):
            n += 1
            status, msg = hashorder.judge(P, f, b, t)
            key = "order:%s:%s" % (short(f), t["f"].get("name"))
            where = "%s:%s" % tuple(t["s"]) if t.get("s") else f.file
            if status == "ok":
                R.ok(key, sample=where)
            elif status == "fail":
                R.fail(key, msg, where)
            else:
                R.unknown(key, msg)
        for b, t in f.calls():
            c = t["f"]
            for p in {c.get("path") or "", c.get("rpath") or ""}:
                if AMBIENT.search(p) and not ("RandomState" in p and c.get("name") == "new"):
                    R.fail("ambient:%s:%s" % (short(f), c.get("name")), "reads %s, on the way from %s" % (p, reach.chain(P, seen, i)), "%s:%s" % tuple(t["s"]) if t.get("s") else f.file)
        R.ok("function:" + f.path)
    R.floor("functions reading and writing may execute", len(seen), 250)
    R.floor("iterations over hash tables", n, 4)
    # a compact file that tells no date is not dated from the clock
    R.assume.append("the numbers written do not depend on the platform; a hash table is the only container of arbitrary order the crate uses")

"""C16: what cannot be read is reported to the caller, never taken for the end of the file."""
import ioflow

RULE = ("every call of the crate that can fail with an input error (opening a file, reading from it or a line of it, found through its type and the call graph) is followed, on every path of its function after the failure, "
        "to a return that carries the failure; no iterator adapter drops failed lines")

OUT = ("rtcm::", "binex::", "<rtcm::", "<binex::")   # unfinished converters, not readers of RINEX


def run(ctx):
    P, R = ctx.P, ctx.r
    xs = ioflow.lost(P, "read") + ioflow.adapters(P)
    n = 0
    seen = {}
    for key, where, status, msg in xs:
        if key.startswith(OUT):
            continue
        n += 1
        i = seen[key] = seen.get(key, 0) + 1
        if status == "ok":
            R.ok("path:%s#%d" % (key, i), sample=where)
        elif status == "fail":
            R.fail("path:" + key, msg, where)
        else:
            R.unknown("path:%s#%d" % (key, i), msg)
    R.floor("calls that may fail to read", n, 8)
    R.assume.append("std::io and flate2 return every failure of the underlying reader, an unexpected end of compressed data and text that is not UTF-8 as an error")

"""C15: what cannot be written is reported to the caller."""
import re
import ioflow
import dates
from files import *

RULE = ("every call of the crate that can fail with an output or formatting error (found through its type and the call graph) is followed, on every path of its function after the failure, to a return that "
        "carries the failure; every function that creates a buffering or compressing writer can only succeed after having flushed or finished it; every kind of record changes the output when it is written successfully")

KINDS = ("ObsRecord", "NavRecord", "MeteoRecord", "DorisRecord", "ClockRecord", "IonexRecord", "AntexRecord")


def frames(ctx, fn):
    """each kind of navigation message: written with its content, or refused"""
    P, R, q = ctx.P, ctx.r, ctx.q
    fr = [v for v in P.adts.get("navigation::frame::NavFrame", {"variants": []})["variants"]]
    for name, _, fields in fr:
        what = E("arg", "message content")
        key = struct(P, "navigation::NavKey", frmtype=variant(P, "navigation::frame::NavFrameType", {"EPH": "Ephemeris", "STO": "SystemTimeOffset", "EOP": "EarthOrientation", "ION": "IonosphereModel"}.get(name, name)) or TOP,
                     epoch=dates.epoch(2021, 1, 2, 0, 0, 0, 0, "GPST"), msgtype=variant(P, "navigation::message::NavMessageType", "LNAV") or TOP, sv=struct(P, "gnss::sv::SV", prn=I(7), constellation=variant(P, "gnss::constellation::Constellation", "GPS")))
        for major in (3, 4):
            I_ = q.interp(hooks=hooks_of(writer_hook), partition=True, maxdepth=12, maxsteps=400000)
            rec = variant(P, "record::Record", "NavRecord", lists.kvmap([(key, variant(P, "navigation::frame::NavFrame", name, what))]))
            hd = struct(P, "header::Header", version=struct(P, "version::Version", major=I(major), minor=I(0)))
            ret, out = I_.entry(fn, {1: rec, 2: S(""), 3: hd})
            q.done(I_)
            w = [x for n, x in (out or {}).items() if n in ("w", "writer")]
            k = "frame:%s:V%d" % (name, major)
            oks = [m for m in members(ret) if m.k == "agg" and m.a[1] == "Ok"]
            if not oks and ret.k != "top":
                R.ok(k, sample="refused")
            elif not w or any(x.k == "top" for x in walk(w[0])):
                R.unknown(k, "output not known")
            else:
                R.check(mentions(w[0], what), k, "writing succeeds without the content of the message: %s" % show(w[0])[:200], fn.file)


def run(ctx):
    P, R, q = ctx.P, ctx.r, ctx.q
    xs = ioflow.lost(P, "write") + ioflow.unfinished(P) + ioflow.counts(P)
    seen = {}
    for key, where, status, msg in xs:
        n = seen[key] = seen.get(key, 0) + 1
        if status == "ok":
            R.ok("path:%s#%d" % (key, n), sample=where)
        elif status == "fail":
            R.fail("path:" + key, msg, where)
        else:
            R.unknown("path:%s#%d" % (key, n), msg)
    R.floor("calls that may fail to write", len([x for x in xs if not x[0].startswith("close:")]), 120)
    R.floor("functions that create a writer", len([x for x in xs if x[0].startswith("close:")]), 2)
    fn = meth(P, "Record", "format")
    if fn is None:
        return R.unknown("kinds", "no record writer")
    for kind in KINDS:
        I_ = q.interp(hooks=hooks_of(writer_hook), partition=True, maxdepth=4, maxsteps=200000)
        rec = variant(P, "record::Record", kind, TOP)
        ret, out = I_.entry(fn, {1: rec, 2: S("")})
        q.done(I_)
        w = [x for n, x in (out or {}).items() if n in ("w", "writer")]
        oks = [m for m in members(ret) if m.k != "agg" or m.a[1] == "Ok"]
        if not w:
            R.unknown("kind:" + kind, "no output seen")
        else:
            R.check(not (oks and is_c(w[0], "str") and cval(w[0]) == ""), "kind:" + kind, "writing succeeds without having written any of the content", fn.file)
    frames(ctx, fn)
    R.assume.append("std::io and flate2 return every failure of the underlying writer from write, flush and finish; their destructors swallow it")

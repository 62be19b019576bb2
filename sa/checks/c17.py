"""C17: the library acts on nothing but what its caller hands it."""
import re
from ioflow import short, mentioned

RULE = ("effect analysis: every call of the crate to a function of the standard library or of a dependency is classified by its path; calls that touch files, processes, threads, the environment, the network, the console or mutable global state "
        "are only allowed in the methods that take a path, where the path opened must be the one given, for reading by readers and for writing by writers")

EFFECTS = [
    ("files", r"^std::fs::|^std::path::Path::(exists|is_file|is_dir|metadata|canonicalize|read_dir|read_link|try_exists)|^std::os::|^tempfile|^flate2::.*::open"),
    ("the console", r"^std::io::(_print|_eprint|stdout|stderr|stdin|print|eprint|stdio::)|^std::io::(Stdout|Stderr|Stdin)"),
    ("processes", r"^std::process::(?!Termination)|^std::intrinsics::abort$|^libc::"),
    ("the environment", r"^std::env::"),
    ("the network", r"^std::net::|^reqwest|^ureq|^hyper"),
    ("threads", r"^std::thread::(spawn|sleep|park|Builder|scope|yield_now)|^rayon"),
    ("randomness", r"^rand::|^getrandom|^fastrand|RandomState::new$"),
    ("panic hooks", r"^std::panic::(set_hook|take_hook|catch_unwind|resume_unwind)"),
]
RESULT = {"open": "read", "create": "write", "create_new": "write", "options": "any"}


def run(ctx):
    P, R = ctx.P, ctx.r
    sites = opens = 0
    for f in sorted(P.fns.values(), key=lambda x: x.path):
        for b, t in f.calls():
            if P.callee(t) is not None:
                continue
            sites += 1
            c = t["f"]
            paths = [x for x in (c.get("path"), c.get("rpath")) if x]
            hit = next((e for e, rx in EFFECTS if any(re.search(rx, x) for x in paths)), None)
            if hit is None:
                continue
            where = "%s:%s" % tuple(t["s"]) if t.get("s") else f.file
            n = c.get("name")
            key = "effect:%s:%s" % (short(f), n)
            if hit == "randomness" and n == "new" and "RandomState" in paths[0]:
                R.ok(key)
                continue
            if hit == "files" and paths[0].startswith("std::fs::File::") and n in ("open", "create"):
                opens += 1
                given(ctx, f, b, t, key, where, n)
                continue
            if hit == "files" and re.match(r"std::fs::File::(sync_all|sync_data|flush|metadata)$", paths[0]):
                R.ok(key)
                continue
            R.fail(key, "acts on %s (%s), which its caller did not ask for" % (hit, paths[0]), where)
    statics(ctx)
    R.count("calls out of the crate", sites)
    R.ok("scan", sample="%d calls out of the crate classified" % sites)
    R.floor("calls out of the crate classified", sites, 2500)
    R.floor("files opened", opens, 4)


def given(ctx, f, b, t, key, where, n):
    """the path opened derives from a parameter of a public path type only, and the direction suits the method"""
    R = ctx.r
    a = t["a"][0]
    root, odd = origin(f, a, set())
    par = {x for x in root if 1 <= x <= f.argc}
    name = f.get("name") or ""
    if odd:
        R.fail(key, "opens a file whose name is not (only) the one given by the caller: built by %s" % ", ".join(sorted(odd)), where)
    elif len(par) != 1 or par != root:
        R.fail(key, "opens a file whose name does not come from the caller", where)
    elif n == "create" and not (re.search(r"\bto_|write|save|dump", name)):
        R.fail(key, "%s creates (and empties) the file it is asked to read" % name, where)
    elif n == "open" and re.search(r"^to_", name):
        R.fail(key, "%s opens for reading the file it is asked to write" % name, where)
    else:
        R.ok(key, sample=where)


PASS = {"as_ref", "as_path", "to_path_buf", "into", "from", "clone", "borrow", "deref", "new", "to_owned", "as_os_str", "into_os_string", "to_str", "unwrap", "as_str"}


def origin(f, o, seen):
    """(parameters an operand derives from, calls that are not plain conversions on the way)"""
    if "k" in o:
        return set(), ({"a constant"} if "str" in o["k"] else set())
    l = (o.get("m") or o.get("c"))["l"]
    if l in seen:
        return set(), set()
    seen.add(l)
    if 1 <= l <= f.argc:
        return {l}, set()
    roots, odd = set(), set()
    for st, t in f.blocks:
        for s in st:
            if s[0]["l"] == l:
                for x in mentioned(s[1]):
                    r, d = origin(f, {"c": {"l": x, "p": []}}, seen)
                    roots |= r
                    odd |= d
                for x in s[1][1:]:
                    if isinstance(x, dict) and "k" in x and isinstance(x["k"], dict) and "str" in x["k"]:
                        odd.add("a constant")
        if t["t"] == "call" and t["d"]["l"] == l:
            n = t["f"].get("name") or "?"
            if n not in PASS:
                odd.add(n)
            for a in t["a"]:
                r, d = origin(f, a, seen)
                roots |= r
                odd |= d
    return roots, odd


MUTABLE = re.compile(r"\b(Mutex|RwLock|RefCell|Cell|UnsafeCell|Atomic\w+|OnceCell|OnceLock|LocalKey)\b")


def statics(ctx):
    """no global state that changes: lazily initialised tables only"""
    P, R = ctx.P, ctx.r
    n = 0
    for f in P.fns.values():
        for b, t in f.calls():
            p = t["f"].get("path") or ""
            if p.startswith(("lazy_static::lazy::Lazy", "once_cell::", "std::sync::LazyLock", "std::sync::OnceLock")) and t["f"].get("name") in ("get", "force", "deref", "get_or_init"):
                n += 1
                ty = f.locals[t["d"]["l"]][0]
                R.check(not MUTABLE.search(ty), "static:%s" % short(f), "global state that can change: %s" % ty, f.file)
            if p.startswith("std::thread::LocalKey"):
                R.fail("static:%s" % short(f), "uses state that outlives the call (thread local)", f.file)
            if re.match(r"std::sync::(Mutex|RwLock|atomic|OnceLock|Once)\b", p):
                R.fail("static:%s:%s" % (short(f), t["f"].get("name")), "uses shared mutable state (%s)" % p, f.file)
    for x in P.raw.get("statics", ()):
        n += 1
        R.check(not x["mut"] and not MUTABLE.search(x["ty"]), "static:%s" % re.sub(r"[<>]|<impl |::__stability", "", x["path"]), "global state that can change between two calls: %s" % x["ty"], None)
    R.count("global tables", n)


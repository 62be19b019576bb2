"""Builds the MIR dump of /repo's current working tree (cached on a content hash).

  driver   : /verif/driver/mirdump.rs, compiled with the nightly rustc
  package  : an overlay directory of links to /repo's entries, with the git-only
             dependencies left out of Cargo.toml (they cannot be fetched offline)
  features : every feature that resolves offline
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
FEATURES = "antex,clock,doris,flate2,ionex,meteo,nav,obs,serde,rtcm,ut1,log,geo,wkt"
LOCKFILE = "/opt/vp/Cargo.lock"


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e


def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode:
        sys.stderr.write("\n".join(l for l in r.stdout.splitlines() if l.startswith("error"))[-3000:])
        raise SystemExit("build step failed: %s" % " ".join(cmd))
    return r.stdout


def write(path, new):
    if not os.path.exists(path) or open(path).read() != new:
        with open(path, "w") as f:
            f.write(new)


def overlay():
    out = os.path.join(B, "ov")
    keep = {"Cargo.toml", "Cargo.lock"}
    skip = keep | {".git", "target"}
    text = open(f"{REPO}/Cargo.toml").read()
    for name in re.findall(r"^([\w-]+)\s*=\s*\{[^}\n]*\bgit\s*=[^\n]*\n", text, re.M):
        n = re.escape(name)
        text = re.sub(rf"^{n}\s*=\s*\{{[^\n]*\bgit\s*=[^\n]*\n", "", text, flags=re.M)
        text = re.sub(rf'"(dep:{n}|{n}\??/[^"\n]+)"\s*,?', "", text)
    os.makedirs(out, exist_ok=True)
    write(f"{out}/Cargo.toml", text)
    lock = LOCKFILE if os.path.exists(LOCKFILE) else f"{REPO}/Cargo.lock"
    if os.path.exists(lock):
        write(f"{out}/Cargo.lock", open(lock).read())
    want = {e for e in os.listdir(REPO) if e not in skip}
    for e in os.listdir(out):
        p = f"{out}/{e}"
        if os.path.islink(p) and (e not in want or os.readlink(p) != f"{REPO}/{e}"):
            os.unlink(p)
    for e in want:
        if not os.path.lexists(f"{out}/{e}"):
            os.symlink(f"{REPO}/{e}", f"{out}/{e}")
    return out


def tree_hash():
    h = hashlib.sha256()
    for root in ("src", "db", "build.rs", "Cargo.toml"):
        p = f"{REPO}/{root}"
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            h.update(open(f, "rb").read())
    h.update(open(f"{VERIF}/driver/mirdump.rs", "rb").read())
    return h.hexdigest()[:24]


def driver():
    src = f"{VERIF}/driver/mirdump.rs"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = f"{B}/mirdump-{h}"
    if not os.path.exists(out):
        run(["rustc", "--edition", "2021", "-O", src, "-o", out + ".tmp"], env=env(), cwd=B)
        os.rename(out + ".tmp", out)
    return out


def ensure():
    """returns (path of the dump, info)"""
    os.makedirs(B, exist_ok=True)
    with open(f"{B}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        h = tree_hash()
        dump = f"{B}/dump-{h}.json"
        info = {"tree_hash": h, "cached": os.path.exists(dump)}
        if not info["cached"]:
            drv = driver()
            ov = overlay()
            tgt = f"{B}/target"
            fp = f"{tgt}/debug/.fingerprint"
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("rinex-"):
                        shutil.rmtree(f"{fp}/{d}", ignore_errors=True)
            e = env()
            sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
            e["LD_LIBRARY_PATH"] = sysroot + "/lib"
            e["MIRDUMP_CRATE"] = "rinex"
            e["MIRDUMP_OUT"] = dump + ".tmp"
            e["RUSTC_WORKSPACE_WRAPPER"] = drv
            e["CARGO_TARGET_DIR"] = tgt
            if os.path.exists(dump + ".tmp"):
                os.unlink(dump + ".tmp")
            run(["cargo", "check", "--lib", "--offline", "--features", FEATURES], env=e, cwd=ov)
            if not os.path.exists(dump + ".tmp"):
                raise SystemExit("the driver wrote no dump")
            os.rename(dump + ".tmp", dump)
            # keep the cache small
            old = sorted((f for f in os.listdir(B) if f.startswith("dump-") and f.endswith(".json")), key=lambda f: os.path.getmtime(f"{B}/{f}"))
            for f in old[:-6]:
                os.unlink(f"{B}/{f}")
        info["build_s"] = round(time.time() - t0, 1)
        return dump, info


if __name__ == "__main__":
    p, i = ensure()
    print(p, json.dumps(i))

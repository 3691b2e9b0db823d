"""Extract facts (MIR of every function, types, items) from /repo's current sources with the rustc driver."""
import fcntl, hashlib, os, shutil, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, ".work")
FACTS = os.path.join(WORK, "facts")
DRIVER = os.path.join(WORK, "driver", "debug", "ht-facts")


class BuildError(Exception):
    pass


def files():
    out = []
    for top in (REPO + "/src", VERIF + "/driver/src", VERIF + "/witness/src"):
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    for f in (REPO + "/Cargo.toml", REPO + "/build.rs", REPO + "/README.md", VERIF + "/witness/Cargo.toml", VERIF + "/witness/Cargo.lock", VERIF + "/driver/Cargo.toml"):
        if os.path.exists(f):
            out.append(f)
    return out


def source_key():
    h = hashlib.sha256()
    for f in files():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    for k in ("RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def sh(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, "\n".join(r.stdout.splitlines()[-40:])))
    return r.stdout


def build_driver():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "driver")
    sh(["cargo", "build", "--offline"], os.path.join(VERIF, "driver"), e, "building the fact extractor")


def ensure():
    """Paths of the fact files for the current sources, (re)building what is needed."""
    os.makedirs(FACTS, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = source_key()
        stamp = os.path.join(FACTS, "KEY")
        lib, wit = os.path.join(FACTS, "http_types.json"), os.path.join(FACTS, "witness.json")
        if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(lib) and os.path.exists(wit):
            return lib, wit, key, False
        for f in (stamp, lib, wit):
            if os.path.exists(f):
                os.remove(f)
        build_driver()
        e = env()
        root = subprocess.run(["rustc", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = root + "/lib"
        e["HT_FACTS_CRATES"] = "http_types,witness"
        e["HT_FACTS_OUT"] = FACTS
        e["RUSTC_WRAPPER"] = DRIVER
        tgt = os.path.join(WORK, "target")
        e["CARGO_TARGET_DIR"] = tgt
        for pat in ("/debug/.fingerprint/http-types-*", "/debug/.fingerprint/witness-*", "/debug/build/http-types", "/debug/build/witness"):
            for p in glob.glob(tgt + pat):  # cargo's freshness cache would skip the extractor
                shutil.rmtree(p)
        sh(["cargo", "check", "--offline"], os.path.join(VERIF, "witness"), e, "analysing /repo")
        if not (os.path.exists(lib) and os.path.exists(wit)):
            raise BuildError("the fact extractor wrote no facts")
        with open(stamp, "w") as f:
            f.write(key)
        return lib, wit, key, True


if __name__ == "__main__":
    t = time.time()
    try:
        r = ensure()
        print("facts:", r[0], "rebuilt" if r[3] else "up to date", "%.1fs" % (time.time() - t))
    except BuildError as x:
        print(x)
        sys.exit(2)

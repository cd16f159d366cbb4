"""Produces the MIR dump of /repo's current working tree (fresh on every call)."""
import fcntl
import glob
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(HERE, "cache")
FEATURES = {
    "all": ["--all-features"],
    "common": ["--features", "serde,base64,miniscript"],
    "sp": ["--no-default-features", "--features", "serde,base64,silent-payments"],
    "nostd": ["--no-default-features"],
    "std": [],
}


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def driver():
    """build (if needed) the dumper; returns (path, libdir)"""
    e = env()
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
    e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver")
    r = subprocess.run(["cargo", "+nightly", "build", "--offline"], cwd=os.path.join(HERE, "driver"), env=e,
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("building the MIR dumper failed:\n" + r.stderr[-3000:])
    return os.path.join(CACHE, "driver", "debug", "mirdump"), os.path.join(root, "lib")


def dump(feat, out):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv, lib = driver()
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(REPO, "Cargo-recent.lock"), lock)
        e = env()
        tgt = os.path.join(CACHE, "target-" + feat)
        e["CARGO_TARGET_DIR"] = tgt
        e["LD_LIBRARY_PATH"] = lib + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRDUMP_CRATE"] = "psbt_v2"
        e["MIRDUMP_OUT"] = out
        for d in (glob.glob(os.path.join(tgt, "debug", ".fingerprint", "psbt-v2-*"))
                  + glob.glob(os.path.join(tgt, "debug", "build", "psbt-v2"))):
            shutil.rmtree(d)   # forces a fresh analysis of the crate (dependencies stay cached)
        if os.path.exists(out):
            os.remove(out)
        r = subprocess.run(["cargo", "+nightly", "check", "--lib", "--offline"] + FEATURES[feat], cwd=REPO, env=e,
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            raise BuildError("cargo check of %s (%s) failed:\n%s" % (REPO, feat, r.stderr[-4000:]))


def fresh(feat):
    from .program import Program
    fd, out = tempfile.mkstemp(suffix=".json", prefix="mir-")
    os.close(fd)
    try:
        t = time.time()
        dump(feat, out)
        t1 = time.time()
        p = Program(out)
        p.feat = feat
        p.t_build, p.t_load = round(t1 - t, 2), round(time.time() - t1, 2)
        return p
    finally:
        if os.path.exists(out):
            os.remove(out)


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        for f in FEATURES:
            t = time.time()
            fd, o = tempfile.mkstemp(suffix=".json", prefix="mir-")
            os.close(fd)
            dump(f, o)
            os.remove(o)
            print("setup: feature set %s analysed once in %.1f s" % (f, time.time() - t), flush=True)
    else:
        dump(sys.argv[1], sys.argv[2])

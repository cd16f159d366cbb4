"""Author and verify planted bugs.
  seed.py scratch                      (re)create the scratch copy /tmp/w/repo of /repo
  seed.py save ID Cxx                  diff of the scratch copy -> seeded/ID/patch.diff, verify, reset the scratch copy
                                       (reads seeded/ID/demo.rs, seeded/ID/meta.json must exist or -m needs -b breaks)
  seed.py run ID [Cxx ...]             run checks (default: the bug's property) with the bug applied in the scratch copy
"""
import json, os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/repo"
SETS = ["--all-features", "--features serde,base64,miniscript", "--no-default-features --features serde,base64,silent-payments"]


def sh(c, cwd=W, env=None, to=1200):
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
    e.update(env or {})
    r = subprocess.run(c, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=to)
    return r.returncode, r.stdout + r.stderr


def scratch():
    if not os.path.isdir(W):
        os.makedirs("/tmp/w", exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", W])
    subprocess.check_call(["git", "-C", W, "fetch", "-q", "/repo", "HEAD"])
    subprocess.check_call(["git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD"])


def tests():
    bad = []
    for s in SETS:
        rc, o = sh("cargo test --workspace --no-fail-fast --offline %s 2>&1" % s)
        f = re.findall(r"^test (.*) \.\.\. FAILED", o, re.M)
        if rc:
            bad.append((s, f or o[-1500:]))
    rc, o = sh("cargo build --offline --lib --no-default-features")
    if rc:
        bad.append(("nostd", o[-800:]))
    for e, f in (("v0", "std rand"), ("v2", "std"), ("v2-separate-creator-constructor", "std")):
        rc, o = sh('cargo run --offline --example %s --features "%s"' % (e, f))
        if rc:
            bad.append((e, o[-800:]))
    return bad


def demo(i):
    return sh("bash %s/seeded/%s/demo.sh" % (H, i))


def main():
    cmd = sys.argv[1]
    if cmd == "scratch":
        scratch()
        return
    i = sys.argv[2]
    d = os.path.join(H, "seeded", i)
    if cmd == "save":
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", W, "diff", "HEAD"], capture_output=True, text=True).stdout
        if not diff.strip():
            print("no change in scratch"); sys.exit(1)
        open(d + "/patch.diff", "w").write(diff)
        if not os.path.exists(d + "/demo.sh"):
            shutil.copy(H + "/tools/demo.sh", d + "/demo.sh")
        b = tests()
        rc1, o1 = demo(i)
        scratch()
        rc0, o0 = demo(i)
        print(i, "tests", b or "pass", "| demo unchanged", rc0, "patched", rc1)
        if rc0: print(o0[-1500:])
        print("   patched says:", ([l for l in o1.splitlines() if "panicked" in l or l.strip()][:2]))
        okk = not b and rc0 == 0 and rc1 not in (0, 3)
        print("   =>", "GOOD" if okk else "REJECT")
        sys.exit(0 if okk else 1)
    if cmd == "run":
        scratch()
        subprocess.check_call(["git", "-C", W, "apply", d + "/patch.diff"])
        ps = sys.argv[3:] or [json.load(open(d + "/meta.json"))["property"]]
        for p in ps:
            rc, o = sh("python3 -m engine.check %s" % p, cwd=H, env={"VERIF_REPO": W})
            print(i, p, "rc", rc, "CAUGHT" if rc == 1 and "VIOLATION property=%s" % p in o else "missed")
            print("\n".join(l[:260] for l in o.splitlines()[:6]))
        scratch()


main()

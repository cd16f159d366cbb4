"""plant.py SPEC.py [ID ...]: author planted bugs from a spec file (list BUGS of dicts id, property, edits, needs,
breaks, demo[, features]) in the scratch copy, verify each and keep the good ones under seeded/."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/repo"
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    if sys.argv[2:] and b["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(H, "seeded", b["id"])
    if os.path.exists(d + "/patch.diff") and not sys.argv[2:]:
        continue
    subprocess.check_call(["python3", H + "/tools/seed.py", "scratch"])
    for f, old, new in b["edits"]:
        p = os.path.join(W, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print(b["id"], "edit matches", n, "times in", f, repr(old[:60])); break
        open(p, "w").write(s.replace(old, new))
    else:
        os.makedirs(d, exist_ok=True)
        if b.get("features"):
            open(d + "/features", "w").write(b["features"])
        open(d + "/demo.rs", "w").write(ns.get("PRE", "") + b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if subprocess.call(["python3", H + "/tools/seed.py", "save", b["id"]]):
            subprocess.call(["mv", d, "/tmp/rejected-" + b["id"] + "-%d" % os.getpid()])
        else:
            subprocess.call(["python3", H + "/tools/seed.py", "run", b["id"]])
        continue
    subprocess.check_call(["python3", H + "/tools/seed.py", "scratch"])

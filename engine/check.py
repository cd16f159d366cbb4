"""Check runner: obligations, known findings, evidence, exit codes."""
import hashlib
import importlib
import json
import os
import pkgutil
import sys
import time
import traceback

from . import dump as dm
from .ai import Budget

HERE = dm.HERE
REG = {}


def prop(pid, feats=("all",), thorough=None):
    """register a check function f(ctx) for property pid; feats: feature sets analysed"""
    def d(f):
        REG[pid] = (f, feats, thorough or feats)
        return f
    return d


class Ctx:
    def __init__(self, pid, tier, prog, feat):
        self.pid, self.tier, self.prog, self.feat = pid, tier, prog, feat
        self.obl = []          # (status, key, rule, where, detail)
        self.stats = {}
        self.functions = set()
        self.samples = []

    # -- obligations
    def ok(self, key, rule, where="", detail=""):
        self.obl.append(("ok", key, rule, where, detail))

    def bad(self, key, rule, where, detail):
        self.obl.append(("bad", key, rule, where, detail))

    def und(self, key, rule, where, detail):
        self.obl.append(("und", key, rule, where, detail))

    def check(self, cond, key, rule, where="", detail=""):
        """cond: True proved / False violated / None undecided"""
        if cond is None:
            self.und(key, rule, where, detail)
        elif cond:
            self.ok(key, rule, where)
        else:
            self.bad(key, rule, where, detail)
        return cond

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def used(self, eng):
        self.functions |= eng.analysed
        self.count("abstract_steps", eng.steps)
        self.count("call_sites_interpreted", eng.callsites)


def known_findings():
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                d = dict(x.split("=", 1) for x in l[7:].split(" -- ")[0].split())
                out[(d["property"], d["key"])] = l.split(" -- ", 1)[1] if " -- " in l else ""
    return out


def run(pid, tier):
    t0 = time.time()
    sys.setrecursionlimit(30000)
    load_checks()
    f, feats, thor = REG[pid]
    fl = thor if tier == "thorough" else feats
    obl, fns, stats, samples = [], set(), {}, []
    build = {}
    progs = {}
    for feat in fl:
        try:
            pr = progs[feat] = dm.fresh(feat)
        except dm.BuildError as e:
            print(str(e))
            print("ERROR: could not analyse /repo")
            return 2
        build[feat] = {"bodies": len(pr.raw), "items": len(pr.items), "build_s": pr.t_build}
        c = Ctx(pid, tier, pr, feat)
        try:
            f(c)
        except Exception as e:  # an analysis failure is never an alarm
            c.und("internal", "analysis", "", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
        obl += [(o, feat) for o in c.obl]
        fns |= c.functions
        for k, v in c.stats.items():
            stats[k] = stats.get(k, 0) + v if isinstance(v, int) else v
        samples += c.samples
    known = known_findings()
    bad, kf = {}, {}
    for (st, key, rule, where, det), feat in obl:
        if st == "bad":
            tgt = kf if (pid, key) in known else bad
            tgt.setdefault(key, (rule, where, det, feat))
    und = [o for o, _ in obl if o[0] == "und"]
    okn = sum(1 for o, _ in obl if o[0] == "ok")
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": (f.__doc__ or "").strip() + "  Decided from the MIR of /repo's current tree (built fresh "
            "for this run with the listed feature sets); nothing is executed and no solver is used.",
            "feature_sets": build,
            "obligations": len(obl),
            "discharged": okn,
            "undecided": len(und),
            "undecided_list": [{"key": o[1], "rule": o[2], "where": o[3], "detail": str(o[4])[:1500]} for o in und][:40],
            "known_findings_seen": sorted(kf),
            "violations": [{"key": k, "rule": v[0], "where": v[1], "detail": v[2], "features": v[3]} for k, v in bad.items()],
            "functions_analysed": len(fns),
            "functions": sorted(x for x in fns if "psbt_v2" in x)[:400],
            "rules": sorted({o[2] for o, _ in obl}),
            "samples": (samples + [{"rule": o[2], "key": o[1], "where": o[3]} for o, _ in obl if o[0] == "ok"])[:25],
            **stats,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s [%s]: %d obligations, %d discharged, %d undecided, %d known findings, %d violations; %d functions, %.1f s"
          % (pid, tier, len(obl), okn, len(und), len(kf), len(bad), len(fns), time.time() - t0))
    for o in und[:10]:
        print("UNDECIDED: %s at %s: %s" % (o[1], o[3], str(o[4])[:1000]))
    for k in sorted(kf):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k, known[(pid, k)] or kf[k][2]))
    if not bad:
        return 0
    rd = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    for i, (k, (rule, where, det, feat)) in enumerate(sorted(bad.items())):
        rp = os.path.join(rd, "%s-%d.json" % (pid, i))
        with open(rp, "w") as fh:
            json.dump({"property": pid, "key": k, "rule": rule, "where": where, "detail": det, "features": feat,
                       "rerun": "cd /verif && python3 -m engine.check %s" % pid}, fh, indent=1, default=str)
        print("  %s\n    rule: %s\n    at:   %s\n    %s" % (k, rule, where, det))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


def load_checks():
    import checks
    for m in pkgutil.iter_modules(checks.__path__):
        importlib.import_module("checks." + m.name)


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "engine.check"] + sys.argv[1:])
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    sys.exit(run(pid, tier))


if __name__ == "__main__":
    # make `engine.check` and `__main__` the same module so that checks register in one place
    sys.modules["engine.check"] = sys.modules["__main__"]
    main()

"""C23 lock time determination."""
from engine.check import prop
from engine import terms as tm
from engine.ai import Engine
from engine.terms import fld, disc, mk
from .lib import *

DLT = "psbt_v2::v2::Psbt::determine_lock_time"


def unwrap_time(v):
    """('fallback',) | ('zero',) | ('max'|'min'|.., field, ok) | None"""
    FB = fld(fld(SELF, "global"), "fallback_lock_time")
    if v is fld(FB, "Some.0"):
        return ("fallback",)
    if tm.show(v) in ("Blocks(Height(0))",):
        return ("zero",)
    ag = tm.find(v, lambda x: x.op in ("maxof", "minof"))
    if len(ag) == 1:
        p = tm.seq_of(ag[0].a[0])[1]
        fs = set()
        for x in tm.find(ag[0], lambda x: x.op == "fld" and x.a[1] in ("min_time", "min_height")):
            fs.add(x.a[1])
        wr = [x for x in tm.find(v, lambda x: x.op in ("app", "agg"))]
        kinds = {("Height" in tm.show(x)[:0]) for x in wr}
        if len(fs) == 1:
            return (ag[0].op, fs.pop())
    return None


def whole(e, ag, field):
    """does the maximum cover every input with this field?  (True | False | None, why not)"""
    lst = fld(SELF, "inputs")
    sites = {ix.a[0] for ix in ag.ixs}
    if len(sites) != 1:
        return None, tm.show(ag)[:200]
    site = sites.pop()
    c = covers(lens_of(e, site), {length(lst)})
    if c is not True:
        return c, "over %s" % [tm.show(x)[:80] for x in lens_of(e, site)]
    x = fld(mk("at", lst, mk("ix", site)), field)
    best = True
    for inv, entry, backs in e.loops.get(site, ()):
        for b in backs:
            acc = ("A", site, "acc")
            added = inv.mem.get(acc) is not b.mem.get(acc)
            if added or e.known(b, disc(x)) == 0:
                continue
            if any(tm.has_top(t) for t in b.facts):
                best = None
                continue
            return False, "an input with the lock time may be left out: %s" % [
                tm.show(t)[:80] for t in b.facts if inv.facts.get(t) != b.facts[t]][:3]
    return best, "not certain that every input counts"


@prop("C23")
def c23(ctx):
    """determine_lock_time is interpreted for an arbitrary list of inputs.  Every return state bounds the set of
    (required time, required height) presence patterns the inputs can have; for every set of inhabited patterns the
    result kind must be the one BIP-370 prescribes (error / fallback or zero / maximum height / maximum time)."""
    if DLT not in ctx.prog.raw:
        ctx.und("anchor", "function present", DLT, "missing")
        return
    w = where(ctx.prog, DLT)
    e = Engine(ctx.prog, cap=60)
    r = e.run(DLT, args=[SELF])
    ctx.used(e)
    ctx.count("paths", len(r))
    C = Classes(e, fld(SELF, "inputs"), ("min_time", "min_height"))
    n = 0
    for s, v in r:
        for g in C.sets(s):
            n += 1
            tonly, honly = (1, 0) in g, (0, 1) in g
            if tonly and honly:
                want = "error"
            elif g <= {(0, 0)}:
                want = "fallback"
            elif not tonly:
                want = "min_height"
            else:
                want = "min_time"
            name = "+".join("%s" % {(0, 0): "none", (1, 0): "time", (0, 1): "height", (1, 1): "both"}[c] for c in sorted(g)) or "no-inputs"
            k = "pattern:%s" % name
            rule = "inputs {%s}: %s" % (name, {"error": "no lock time exists, an error is returned", "fallback":
                                               "the fallback lock time, or zero, is used"}.get(
                want, "the maximum of the %s lock times is used" % want))
            if is_err(v):
                ctx.check(want == "error", k, rule, w, "an error is returned")
                continue
            if not is_ok(v):
                ctx.und(k, rule, w, tm.show(v)[:200])
                continue
            u = unwrap_time(v.a[2][0])
            if u is None:
                if v.a[2][0].op == "phi":
                    us = [unwrap_time(x) for x in v.a[2][0].a[0]]
                    if all(us) and all(x[0] in ("fallback", "zero") for x in us):
                        ctx.check(want == "fallback", k, rule, w, tm.show(v)[:200])
                        continue
                ctx.und(k, rule, w, tm.show(v)[:200])
            elif u[0] in ("fallback", "zero"):
                fb = s.facts.get(disc(fld(fld(SELF, "global"), "fallback_lock_time")))
                ctx.check(want == "fallback" and (fb is None or fb == (u[0] == "fallback")), k, rule, w, tm.show(v)[:200])
            else:
                ctx.check(u == ("maxof", want), k, rule, w, "result is " + tm.show(v)[:200])
                for ag in tm.find(v, lambda x: x.op in ("maxof", "minof")):
                    c, d = whole(e, ag, want)
                    ctx.check(c, k + ":all", "the maximum is taken over every input that has the lock time", w, d)
    ctx.count("pattern_sets", n)
    for l in e.log:
        if l["kind"] != "panic":
            continue
        st = l["st"]
        hit = None
        for g in C.sets(st):
            if feasible(st, g):
                hit = g
                break
        ctx.check(hit is None, "panic:%s" % str(l["name"]).split("::")[-1], "determining the lock time never panics", l["where"],
                  "panic reachable with input patterns (time,height) %s" % sorted(hit or ()))


def feasible(st, g):
    """facts about the maximum of a field over all inputs against the inhabited patterns"""
    for t, v in st.facts.items():
        if t.op != "discr":
            continue
        x, inner = t.a[0], False
        if x.op == "fld" and x.a[1] == "Some.0" and x.a[0].op in ("maxof", "minof"):
            x, inner = x.a[0], True
        if x.op not in ("maxof", "minof"):
            continue
        fs = {y.a[1] for y in tm.find(x, lambda y: y.op == "fld" and y.a[1] in ("min_time", "min_height"))}
        if len(fs) != 1 or not isinstance(v, int):
            continue
        bit = ("min_time", "min_height").index(fs.pop())
        if not inner and bool(v) != bool(g):
            return False
        if inner and x.op == "maxof" and bool(v) != any(c[bit] for c in g):
            return False
    return True

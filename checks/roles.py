"""C12 lock time guard of the roles, C13 constructor gates and flags, C14 counts in step with the lists."""
from engine.check import prop
from engine import terms as tm
from engine.ai import Engine
from engine.terms import fld, disc, mk, length, K
from .lib import *

V = "psbt_v2::v2::"
PSBT = V + "Psbt"
ROLES = (V + "Updater", V + "Signer", V + "miniscript::finalize::Finalizer", V + "extract::Extractor")
DLT = "Psbt::determine_lock_time"


# ---- where a PSBT sits inside a type ----
def adt_fields(prog, d):
    out = []
    for it in prog.item.get(d, []):
        if it.get("variants") and it["kind"] == "Struct":
            for f in it["variants"][0]["f"]:
                out.append((f["n"], f.get("ty")))
    return out


def comps(prog, i, pred, depth=0, mut=False):
    """[(path, is it behind &mut, type index)] of the parts of type i whose adt satisfies pred; paths are term field names"""
    t = prog.types[i]
    if depth > 5:
        return []
    k = t.get("k")
    if k == "adt":
        d = t["def"]
        if pred(d):
            return [((), mut, i)]
        out = []
        if d in ("core::result::Result", "core::option::Option"):
            pre = "Ok.0" if d.endswith("Result") else "Some.0"
            for p, m, x in comps(prog, t["args"][0], pred, depth + 1, mut):
                out.append(((pre,) + p, m, x))
            if d.endswith("Result"):
                for p, m, x in comps(prog, t["args"][1], pred, depth + 1, mut):
                    out.append((("Err.0",) + p, m, x))
        elif d.startswith("psbt_v2"):
            for n, ty in adt_fields(prog, d):
                if ty is not None:
                    for p, m, x in comps(prog, ty, pred, depth + 1, mut):
                        out.append(((n,) + p, m, x))
        return out
    if k == "tuple":
        out = []
        for n, ty in enumerate(t["args"]):
            for p, m, x in comps(prog, ty, pred, depth + 1, mut):
                out.append(((str(n),) + p, m, x))
        return out
    if k == "ref" and depth == 0:
        return comps(prog, t["to"], pred, depth, True) if t.get("mut") else []
    return []


def get(v, path):
    """component of a value | None when the value has no such component (other variant)"""
    for s in path:
        if "." in s:
            var = s.split(".")[0]
            if v.op == "agg" and v.a[1] != var:
                return None
            if v.op in ("phi",):
                return None
        v = fld(v, s)
    return v


def api(prog):
    """bodies of the exported, hand-written functions of the v2 API"""
    for key, r in sorted(prog.raw.items()):
        path = r["path"]
        if " @" in key or "|" in key or not r.get("local", True) or "{closure" in key or "promoted[" in key:
            continue
        if not path.startswith(("psbt_v2::v2::", "<psbt_v2::v2::")) or path in prog.derived or "::_::" in path:
            continue
        its = prog.item.get(path, [])
        if its and not any(i.get("reach") for i in its):
            continue
        if any(o in key for o in ("serde::", "core::fmt::", "core::hash::")):
            continue
        yield key, r


def is_psbt(d):
    return d == PSBT


_RUN = []
OPQ = (DLT, "interpreter_check", "interpreter_check::<C>", "final_script_sig_and_witness", "Global::decode", "Input::decode",
       "Output::decode", "Global::combine", "Input::combine", "Output::combine")


class Run:
    """one API function that takes and/or yields PSBTs, interpreted for arbitrary arguments"""

    def __init__(self, prog, key, r, ins, outs):
        self.prog, self.key, self.r, self.ins, self.outs = prog, key, r, ins, outs
        b = prog.body(key)
        self.sym = {i: tm.S(b.argnames.get(i, "arg%d" % (i - 1))) for i in range(1, b.argc + 1)}
        self.e = Engine(prog, cap=40, opaque=opaque_names(*OPQ))
        self.err = None
        self.w = where(prog, key)
        try:
            self.states = self.e.run(key)
        except Exception as x:
            self.states, self.err = [], "%s: %s" % (type(x).__name__, x)

    def old(self):
        """content of the PSBT passed in (of the first one)"""
        return [get(self.sym[i], p) for i, p, m in self.ins]

    def results(self):
        """(state, path, type index, new PSBT value)"""
        for s, v in self.states:
            for p, _, ti in self.outs:
                x = get(v, p)
                if x is not None:
                    yield s, "result" + "".join("." + q for q in p), ti, x
            for i, p, m in self.ins:
                if m:
                    c = self.e.content(s, self.sym[i])
                    yield s, "arg%d" % i, None, get(c, p)


def runs(ctx):
    if not _RUN or _RUN[0] is not ctx.prog:
        out = []
        for key, r in api(ctx.prog):
            ins = [(i, p, m) for i in range(1, r["argc"] + 1) for p, m, _ in comps(ctx.prog, r["locals"][i], is_psbt)]
            outs = comps(ctx.prog, r["locals"][0], is_psbt)
            if outs or any(m for _, _, m in ins):
                out.append(Run(ctx.prog, key, r, ins, outs))
        _RUN[:] = [ctx.prog, out]
    for x in _RUN[1]:
        ctx.used(x.e)
        ctx.count("paths", len(x.states))
    return _RUN[1]


def holder(prog, ti, s=None):
    """path of the role type a function's result carries: [(path, type string)]"""
    return [(p, prog.types[i]["s"]) for p, _, i in comps(prog, ti, lambda d: d in ROLES or d == V + "Constructor" or d == V + "Creator")]


def feval(t, env):
    """integer/boolean value of a term when the atoms in env have the given values | None"""
    if t in env:
        return env[t]
    if t.op == "k":
        return int(t.a[0]) if isinstance(t.a[0], (int, bool)) else None
    if t.op in ("lt", "eq"):
        a, b = feval(t.a[0], env), feval(t.a[1], env)
        if a is None or b is None:
            return None
        return int(a < b) if t.op == "lt" else int(a == b)
    if t.op == "not":
        a = feval(t.a[0], env)
        return None if a is None else 1 - a
    if t.op in ("and", "or"):
        vs = [feval(x, env) for x in t.a]
        if any(v is None for v in vs):
            return None
        return int(all(vs)) if t.op == "and" else int(any(vs))
    if t.op == "cast":
        return feval(t.a[1], env)
    if t.op == "bnot":
        a = feval(t.a[0], env)
        return None if a is None else a ^ 0xFF
    if t.op in ("band", "bor", "bxor", "add", "sub", "shl", "shr"):
        a, b = feval(t.a[0], env), feval(t.a[1], env)
        if a is None or b is None:
            return None
        return {"band": a & b, "bor": a | b, "bxor": a ^ b, "add": a + b, "sub": a - b, "shl": a << b,
                "shr": a >> b}[t.op] & 0xFF
    return None


def feasible(s, env):
    """may the state be reached when env holds?"""
    for t, v in s.facts.items():
        x = feval(t, env)
        if x is None:
            continue
        if isinstance(v, frozenset):
            if x in v:
                return False
        elif x != v:
            return False
    return True


def flags_of(p):
    return fld(fld(p, "global"), "tx_modifiable_flags")


# ---------------------------------------------------------------- C12
def dlt_guarded(s, new):
    """is there a successful lock time determination for the inputs `new` holds?  True/False"""
    for t, v in s.facts.items():
        if t.op == "discr" and v == 0:
            for c in calls_of(t.a[0], "determine_lock_time"):
                if t.a[0] is c and len(c.a) > 1:
                    a = c.a[1]
                    if a is new or fld(a, "inputs") is fld(new, "inputs"):
                        return True
    return False


def lock_keep(e, old, new):
    """does `new` have the inputs of `old` as far as lock times are concerned?  True/False/None"""
    a, b = fld(old, "inputs"), fld(new, "inputs")
    if a is b:
        return True
    while b.op == "cset" and b.a[1][0] == "e":
        el, ix = b.a[2], b.a[1][1]
        o = mk("at", b.a[0], ix) if b.a[0].op != "seq" else None
        o = tm.at(b.a[0], ("e", ix)) if o is None else o
        for f in ("min_time", "min_height"):
            x, y = fld(el, f), fld(o, f)
            if x is not y:
                return False if not tm.has_top(x) and not lv_in(x) else None
        b = b.a[0]
    if a is b:
        return True
    r = elems(e, b)
    if r is None:
        return None
    xs, lens = r
    if covers(lens, {length(a)}) is not True:
        return None
    for x in xs:
        for f in ("min_time", "min_height"):
            if fld(x, f) is not fld(mk("at", a, IXC), f):
                return None
    return True


def lv_in(t):
    return bool(tm.find(t, lambda x: x.op in ("lv", "hv", "phi")))


@prop("C12")
def c12(ctx):
    """Every exported function of the version 2 API that yields an Updater, Signer, Finalizer or Extractor (or a PSBT
    out of a Constructor) is interpreted for arbitrary arguments: on each path that yields one, determine_lock_time
    must have succeeded for the inputs the result holds, unless the role already existed and its inputs' lock time
    requirements are untouched."""
    n = 0
    guarded = set()
    for r in runs(ctx):
        if r.err:
            ctx.und("run:" + r.key, "function interpreted", r.w, r.err)
            continue
        oty = r.r["locals"][0]
        hold = [(p, t) for p, t in holder(ctx.prog, oty)]
        roles = [p for p, t in hold if t in ROLES]
        inrole = any(t in ROLES for i in range(1, r.r["argc"] + 1) for _, t in
                     [(p, ctx.prog.types[x]["s"]) for p, _, x in comps(ctx.prog, r.r["locals"][i], lambda d: d in ROLES)])
        incons = any(ctx.prog.types[x]["def"] == V + "Constructor" for i in range(1, r.r["argc"] + 1)
                     for p, _, x in comps(ctx.prog, r.r["locals"][i], lambda d: d == V + "Constructor"))
        plain = incons and not hold
        mutrole = inrole and any(m for _, _, m in r.ins)
        if not roles and not plain and not mutrole:
            continue
        for s, at, ti, new in r.results():
            n += 1
            key = "%s:%s" % (r.key, at)
            if inrole:
                o = r.old()
                k = lock_keep(r.e, o[0], new) if o else None
                ctx.check(k, key + ":keep", "a role function leaves the inputs' lock time requirements alone", r.w,
                          tm.show(new)[:300])
            else:
                g = dlt_guarded(s, new)
                if not g:
                    g = inline_guard(ctx, r)
                ctx.check(g, key + ":guard", "the role is only obtained when the lock time can be determined", r.w,
                          tm.show(new)[:300])
            guarded.add(r.key)
    ctx.check(True if n else None, "coverage", "functions yielding roles found", "", "no role functions found")
    ctx.count("role_functions", len(guarded))


def inline_guard(ctx, r):
    """no call of determine_lock_time seems to guard the result: decide from the inputs the paths admit"""
    e = Engine(ctx.prog, cap=60, opaque=opaque_names(*[o for o in OPQ if o != DLT]))
    try:
        rr = e.run(r.key)
    except Exception:
        return None
    out = True
    for s, v in rr:
        for p, _, ti in r.outs:
            x = get(v, p)
            if x is None:
                continue
            C = Classes(e, fld(x, "inputs"), ("min_time", "min_height"))
            for g in C.sets(s):
                if (1, 0) in g and (0, 1) in g:
                    out = False
    return out


def rest_diff(old, new):
    """changes other than to the tx-modifiable flags"""
    if old is new:
        return []
    return [d for d in diffs(old, new) if d[0] != ("global", "tx_modifiable_flags")]


# ---------------------------------------------------------------- C13
MODS = {"Modifiable": 3, "InputsOnlyModifiable": 1, "OutputsOnlyModifiable": 2}
CR = V + "Creator::"
CO = V + "Constructor::<T>::"
# function -> (bits set, bits cleared)
EFFECT = {CR + "inputs_modifiable": (1, 0), CR + "outputs_modifiable": (2, 0), CR + "sighash_single": (4, 0),
          CR + "constructor_modifiable": (3, 0), CR + "constructor_inputs_only_modifiable": (1, 2),
          CR + "constructor_outputs_only_modifiable": (2, 1), CO + "no_more_inputs": (0, 1),
          CO + "no_more_outputs": (0, 2), CO + "updater": (0, 3)}
GATES = {V + "Constructor::<psbt_v2::v2::%s>::new" % m: b for m, b in MODS.items()}
SIGNING = (V + "Signer::sign", V + "Signer::ecdsa_clear_tx_modifiable", V + "Psbt::")


def cons_kind(ts):
    for m in MODS:
        if ts == V + "Constructor<" + V + m + ">":
            return m
    return None


@prop("C13")
def c13(ctx):
    """Every exported function that takes or yields a version 2 PSBT is interpreted for arbitrary arguments.  The flags
    of the result, a term over the old flags, are evaluated for all 256 values: they must be what the function is for
    (set/clear exactly its bits), and unchanged in all other non-signing functions.  A Constructor<X> must only come out of
    a function (other than Constructor<X>'s own) when the flags permit what X permits, otherwise an error is returned; only a Constructor
    permitting it has a function that adds inputs (outputs)."""
    seen = set()
    for r in runs(ctx):
        if r.err:
            ctx.und("run:" + r.key, "function interpreted", r.w, r.err)
            continue
        olds = r.old()
        base = r.key.split("::<C")[0]
        rt = dict(holder(ctx.prog, r.r["locals"][0]))
        selfk = None
        if r.r["argc"]:
            for p, _, x in comps(ctx.prog, r.r["locals"][1], lambda d: d == V + "Constructor"):
                selfk = cons_kind(ctx.prog.types[x]["s"])
        for s, at, ti, new in r.results():
            kinds = [cons_kind(t) for p, t in rt.items()]
            kinds = [k for k in kinds if k]
            if len(olds) == 1:
                old = olds[0]
                F = flags_of(old)
                if r.key in EFFECT or not base.startswith(SIGNING):
                    up, down = EFFECT.get(r.key, (0, 0))
                    seen.add(r.key)
                    bad = None
                    for f in range(256):
                        if not feasible(s, {F: f}):
                            continue
                        g = feval(flags_of(new), {F: f})
                        if g is None:
                            bad = (None, tm.show(flags_of(new))[:200])
                            break
                        if g != (f | up) & ~down & 0xFF:
                            bad = (False, "flags 0x%02x become 0x%02x, expected 0x%02x" % (f, g, (f | up) & ~down & 0xFF))
                            break
                    ctx.check(True if bad is None else bad[0], "%s:flags" % r.key,
                              "sets the bits 0x%02x and clears 0x%02x of the tx-modifiable flags, no others" % (up, down), r.w,
                              bad and bad[1] or "")
                if r.key in EFFECT or r.key in GATES:
                    d = rest_diff(old, new)
                    ctx.check(not d, "%s:rest" % r.key, "leaves the rest of the PSBT alone", r.w, str(d)[:200])
            for k in kinds:
                if k == selfk:
                    continue
                F = flags_of(olds[0]) if olds else None
                bad = None
                for f in (range(256) if F is not None else (0,)):
                    env = {F: f} if F is not None else {}
                    if not feasible(s, env):
                        continue
                    g = feval(flags_of(new), env)
                    if g is None:
                        bad = (None, tm.show(flags_of(new))[:200])
                        break
                    if g & MODS[k] != MODS[k]:
                        bad = (False, "flags 0x%02x -> 0x%02x" % (f, g))
                        break
                ctx.check(True if bad is None else bad[0], "%s:permits:%s" % (r.key, k),
                          "a Constructor<%s> is only obtained with flags that permit it" % k, r.w, bad and bad[1] or "")
            # who may grow the lists
            if len(olds) == 1 and "Creator" not in r.key:
                for f, bit in (("inputs", 1), ("outputs", 2)):
                    a, b = size(r.e, fld(olds[0], f)), size(r.e, fld(new, f))
                    if a is b:
                        continue
                    if a is None or b is None:
                        ctx.und("%s:grow:%s" % (r.key, f), "list length understood", r.w, tm.show(fld(new, f))[:200])
                        continue
                    may = selfk is not None and MODS[selfk] & bit
                    ctx.check(bool(may), "%s:grow:%s" % (r.key, f),
                              "only a Constructor permitting it changes the number of %s" % f, r.w, tm.show(b)[:200])
                    seen.add((f, r.key))
        if r.key in GATES:
            need = GATES[r.key]
            F = flags_of(olds[0])
            for f in range(8):
                res = {("ok" if is_ok(v) else "err" if is_err(v) else "?") for s, v in r.states if feasible(s, {F: f})}
                want = "ok" if f & need == need else "err"
                ctx.check(None if "?" in res or not res else res == {want}, "%s:gate:%d" % (r.key, f),
                          "flags 0x%02x: %s" % (f, "accepted" if want == "ok" else "refused"), r.w, str(res))
            seen.add(r.key)
    for k in list(EFFECT) + list(GATES):
        if k not in seen:
            ctx.und("anchor:" + k, "function present", k, "missing")


# ---------------------------------------------------------------- C14
def pushes(e, v, p):
    """number of entries a loop added, from what one iteration adds to the list v | None"""
    sites = {x.a[0][0] for y in p.a[0] for x in tm.find(y, lambda z: z.op == "lv") if x in e.lv} | \
        {ix.a[0] for y in p.a[0] for ix in y.ixs}
    n = set()
    own = set()
    for site in sites:
        for inv, entry, backs in e.loops.get(site, ()):
            for r, x in inv.mem.items():
                if x is not v:
                    continue
                own.add(site)
                for bs in backs:
                    w = bs.mem.get(r)
                    if w is None:
                        return None
                    n.add(len(tm.seq_of(w)[1]) - len(tm.seq_of(x)[1]) if w is not x else 0)
    if len(own) != 1:
        return None
    site = own.pop()
    if n == {1}:
        ls = deeplens(e, lens_of(e, site))
        return ls.pop() if len(ls) == 1 and not any(x.op == "partial" for x in ls) else None
    if 0 in n and 1 in n:
        return mk("partial", "some iterations add no entry")
    return None


def size(e, v, depth=0):
    """number of elements of a list value, as a term | None"""
    if depth > 6:
        return None
    if v.op == "seq":
        b, ps = v.a
        t = K(0) if b is None else size(e, b, depth + 1)
        for p in ps:
            if t is None:
                return None
            if p.op == "one":
                t = tm.arith("add", t, K(1))
            elif p.op == "rep":
                t = tm.arith("add", t, p.a[1])
            elif p.op == "all":
                x = size(e, p.a[0], depth + 1)
                t = None if x is None else tm.arith("add", t, x)
            elif p.op == "each" and p.a[0].op == "one":
                sites = {ix.a[0] for ix in p.a[0].ixs} or \
                    {x.a[0][0] for x in tm.find(p.a[0], lambda y: y.op == "lv") if x in e.lv}
                if len(sites) != 1:
                    return None
                ls = deeplens(e, lens_of(e, sites.pop()))
                if len(ls) != 1 or any(x.op == "partial" for x in ls):
                    return None
                t = tm.arith("add", t, ls.pop())
            elif p.op == "may":
                x = pushes(e, v, p)
                t = None if x is None else tm.arith("add", t, x)
            else:
                return None
        return t
    if v.op == "lv" and v in e.lv:
        # rewritten element by element: every value it is made of has the length of the one before the loop
        seen, todo, base = set(), [v], set()
        while todo:
            x = todo.pop()
            while x.op == "cset" and x.a[1][0] == "e":
                x = x.a[0]
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi":
                todo += list(x.a[0])
            elif x.op == "lv" and x in e.lv:
                todo += [e.lv[x]["init"]] + list(e.lv[x]["back"])
            else:
                base.add(x)
        return size(e, base.pop(), depth + 1) if len(base) == 1 else None
    if v.op == "cset" and v.a[1][0] == "e":
        return size(e, v.a[0], depth + 1)
    if v.op == "agg" and v.a[0] == "[]":
        return K(len(v.a[2]))
    if v.op == "inserted":
        return size(e, v.a[0], depth + 1)     # its new element is a part of the list that holds it
    if v.op in ("fld", "sym", "at", "app"):
        return length(v)
    return None


def lin(t, sub, e=None):
    """linear normal form {atom: coefficient}, constant under key None"""
    out = {}

    def go(x, m):
        if x.op == "k" and isinstance(x.a[0], int):
            out[None] = out.get(None, 0) + m * x.a[0]
        elif x.op == "add":
            go(x.a[0], m)
            go(x.a[1], m)
        elif x.op == "sub":
            go(x.a[0], m)
            go(x.a[1], -m)
        elif x.op in ("cast",):
            go(x.a[1], m)
        else:
            y = sub(x)
            if y is x and x.op == "len" and e is not None:
                y = size(e, x.a[0]) or x
            if y is not x:
                go(y, m)
            else:
                out[x] = out.get(x, 0) + m
    go(t, 1)
    return {k: v for k, v in out.items() if v}


def in_step(x):
    """rewrite the length of an incoming PSBT's list to its count; look through Global::combine (checked on its own)"""
    if x.op == "len" and x.a[0].op == "fld" and x.a[0].a[1] in ("inputs", "outputs"):
        return fld(fld(x.a[0].a[0], "global"), x.a[0].a[1][:-1] + "_count")
    if x.op == "fld" and x.a[1] in ("input_count", "output_count") and x.a[0].op == "hv" and \
            str(x.a[0].a[0]).endswith("Global::combine"):
        return fld(x.a[0].a[2 + x.a[0].a[1]], x.a[1])
    return x


@prop("C14")
def c14(ctx):
    """Every exported function that yields a version 2 PSBT (parsing included) is interpreted for arbitrary arguments
    whose own counts are in step: the length of each list of the result, as a linear term, must equal the result's
    count, and a function that adds an entry must add the one given and keep the others.  Global::combine, summarised for this, is interpreted on its own and must keep the counts."""
    n = 0
    gk = V + "map::global::Global::combine"
    if gk in ctx.prog.raw:
        e = Engine(ctx.prog, cap=40)
        try:
            rr = e.run(gk)
            ctx.used(e)
            for s, v in rr:
                new = e.content(s, SELF)
                for f in ("input_count", "output_count"):
                    ctx.check(True if fld(new, f) is fld(SELF, f) else (None if lv_in(fld(new, f)) else False), "combine:%s" % f,
                              "combining keeps the global count", where(ctx.prog, gk), tm.show(fld(new, f))[:200])
        except Exception as x:
            ctx.und("combine", "function interpreted", where(ctx.prog, gk), str(x))
    for r in runs(ctx):
        if r.err:
            ctx.und("run:" + r.key, "function interpreted", r.w, r.err)
            continue
        for s, at, ti, new in r.results():
            for f in ("inputs", "outputs"):
                n += 1
                c = fld(fld(new, "global"), f[:-1] + "_count")
                z = size(r.e, fld(new, f))
                key = "%s:%s:%s" % (r.key, at, f)
                rule = "%s_count equals the number of %s" % (f[:-1], f)
                if z is None:
                    ctx.und(key, rule, r.w, tm.show(fld(new, f))[:300])
                    continue
                a, b = lin(z, in_step, r.e), lin(c, in_step, r.e)
                k = True if a == b else (None if any(x is not None and (lv_in(x) or tm.has_top(x)) for x in list(a) + list(b))
                                         else False)
                l = fld(new, f)
                if len(r.ins) == 1 and l.op == "seq" and l is not fld(r.old()[0], f):
                    b0 = l.a[0].a[0] if l.a[0] is not None and l.a[0].op == "inserted" else l.a[0]
                    good = b0 is fld(r.old()[0], f) and all(x.op == "one" and x.a[0].op == "sym" for x in l.a[1])
                    ctx.check(True if good else None if lv_in(l) or tm.has_top(l) else False, key + ":added",
                              "the entry given is added as it is and the others are kept", r.w, tm.show(l)[:300])
                ctx.check(k, key, rule, r.w, "list: %s  count: %s" %
                          (tm.show(z)[:150], tm.show(c)[:150]))
    ctx.check(True if n else None, "coverage", "functions found", "", "none")

"""C37 builders and setters, C38 queries."""
import re
from engine.check import prop
from engine import terms as tm, models
from engine.ai import Engine, Budget
from engine.terms import fld, disc, mk, length, K
from .lib import *
from .table import Lit, eqs, decide, cstr, factdict
from .roles import comps, api, get, feval, PSBT, DLT

COMP = {PSBT: "psbt", TY["v2.Input"]: "v2.Input", TY["v2.Output"]: "v2.Output"}
NOISE = ("combine", "finalize", "interpreter_check", "sign", "extract", "update", "decode", "deserialize")


def parts(d):
    """paths of the parts of a component that are compared"""
    if d == PSBT:
        return [("global", f) for f in fields("v2.Global")] + [("inputs",), ("outputs",)]
    return [(f,) for f in fields(COMP[d])]


def sub(t, path):
    for n in path:
        t = fld(t, n)
    return t


def unclear(t):
    return tm.has_top(t) or bool(tm.find(t, lambda y: y.op in ("lv", "phi", "hv")))


def is_(text):
    """the part becomes the value with this text"""
    def f(e, s, new, old):
        if cstr(new) == text:
            return True
        return None if unclear(new) else False
    return f


def flags(fn):
    def f(e, s, new, old):
        vs = [feval(new, {old: x}) for x in range(256)]
        if None in vs:
            return None
        return all((v & 0xff) == fn(x) & 0xff for x, v in enumerate(vs))
    return f


def appended(e, s, new, old):
    """the list ends with the argument and is otherwise as before"""
    if new.op == "seq" and new.a[0] is old and len(new.a[1]) == 1 and new.a[1][0].op == "one":
        return new.a[1][0].a[0] is S("a1") or (None if unclear(new) else False)
    return None if unclear(new) else False if new.op == "seq" or new is old else None


def at_index(field, value):
    """only this field of the indexed element changes"""
    def f(e, s, new, old):
        if new.op == "cset" and new.a[0] is old and new.a[1][0] == "e":
            if new.a[1][1] is not S("a2"):
                return None if unclear(new) else False
            el, was = new.a[2], tm.at(old, new.a[1][1])
            bad = [g for g in fields("v2.Input") if fld(el, g) is not (fld(was, g))
                   and not (g == field and cstr(fld(el, g)) == value)]
            return not bad and cstr(fld(el, field)) == value
        return False if new is old else None
    return f


def any_(e, s, new, old):
    return True


V = r"psbt_v2::v2::"
G = lambda f: ("global", f)
TABLE = [   # function, what changes
    (V + r"Creator::fallback_lock_time$", {G("fallback_lock_time"): is_("Some(a1)")}),
    (V + r"Creator::transaction_version$", {G("tx_version"): is_("a1")}),
    (V + r"Creator::sighash_single$", {G("tx_modifiable_flags"): flags(lambda x: x | 4)}),
    (V + r"Creator::inputs_modifiable$", {G("tx_modifiable_flags"): flags(lambda x: x | 1)}),
    (V + r"Creator::outputs_modifiable$", {G("tx_modifiable_flags"): flags(lambda x: x | 2)}),
    (V + r"Creator::constructor_modifiable$", {G("tx_modifiable_flags"): flags(lambda x: x | 3)}),
    (V + r"Creator::constructor_inputs_only_modifiable$", {G("tx_modifiable_flags"): flags(lambda x: (x | 1) & ~2)}),
    (V + r"Creator::constructor_outputs_only_modifiable$", {G("tx_modifiable_flags"): flags(lambda x: (x | 2) & ~1)}),
    (V + r"Constructor::<\w+>::no_more_inputs$", {G("tx_modifiable_flags"): flags(lambda x: x & ~1)}),
    (V + r"Constructor::<\w+>::no_more_outputs$", {G("tx_modifiable_flags"): flags(lambda x: x & ~2)}),
    (V + r"Constructor::<[\w:]+>::input$", {G("input_count"): any_, ("inputs",): appended}),
    (V + r"Constructor::<[\w:]+>::output$", {G("output_count"): any_, ("outputs",): appended}),
    (V + r"Updater::set_sequence$", {("inputs",): at_index("sequence", "Some(a1)")}),
    (V + r"Signer::ecdsa_clear_tx_modifiable$", {G("tx_modifiable_flags"): any_}),
    (V + r"map::input::InputBuilder::minimum_required_time_based_lock_time$", {("min_time",): is_("Some(a1)")}),
    (V + r"map::input::InputBuilder::minimum_required_height_based_lock_time$", {("min_height",): is_("Some(a1)")}),
    (V + r"map::input::InputBuilder::segwit_fund$", {("witness_utxo",): is_("Some(a1)")}),
    (V + r"map::input::InputBuilder::legacy_fund$", {("non_witness_utxo",): is_("Some(a1)")}),
]
EMPTY = {"v2.Global": {"version": "Version(2)", "tx_version": "Version(2)", "tx_modifiable_flags": "0", "input_count": "0", "output_count": "0"},
         "v2.Input": {"previous_txid": "a0.txid", "spent_output_index": "a0.vout"},
         "v2.Output": {"amount": "a0.value", "script_pubkey": "a0.script_pubkey"}}


def blank(g):
    if g.op == "agg":
        return g.a[1] == "None"
    return True if g.op == "default" or cstr(g) == "⟨⟩" else None if unclear(g) or g.op == "app" else False


@prop("C37")
def c37(ctx):
    """Every exported function that takes one PSBT, input or output (possibly inside a role or builder) and hands one back is
    interpreted for an arbitrary one; all parts of the result are compared with the argument: only the parts its name
    announces may differ, and those must have exactly the announced value.  Fresh values must be empty."""
    p = ctx.prog
    hit = set()
    for key, r in api(p):
        w = where(p, key)
        name = re.sub(r"<.*?>", "", key.replace("psbt_v2::v2::", ""))
        short = key.split("::")[-1] if "::<" not in key.split(">::")[-1] else key
        last = r["path"].split("::")[-1]
        for d in COMP:
            ins = [(i, path, m) for i in range(1, r["argc"] + 1) for path, m, _ in comps(p, r["locals"][i], lambda x: x == d)]
            outs = [(path) for path, m, _ in comps(p, r["locals"][0], lambda x: x == d)]
            row = next((n for n, (rx, _) in enumerate(TABLE) if re.search(rx, key)), None)
            if row is None and any(last.startswith(x) for x in NOISE):
                continue
            if len(ins) > 1 and row is not None:
                ins = [x for x in ins if x[0] == 1]
            if len(ins) != 1:
                continue
            i, path, mut = ins[0]
            want = TABLE[row][1] if row is not None else {}
            if not all(q in parts(d) for q in want):
                continue
            if mut and outs or not mut and not outs:
                continue
            if mut and row is None:
                continue      # a mutating function whose effect another property describes
            e = Engine(p, cap=60, opaque=opaque_names(DLT, "interpreter_check", "interpreter_check::<C>"))
            args = [S("self" if n == 1 else "a%d" % (n - 1)) for n in range(1, r["argc"] + 1)]
            try:
                st = e.run(key, args=args)
            except Budget:
                ctx.check(None, name, "the function is interpreted", w, "too large")
                continue
            ctx.used(e)
            ctx.count("paths", len(st))
            if row is not None:
                hit.add(row)
            old = sub(S("self" if i == 1 else "a%d" % (i - 1)), path)
            for s, v in st:
                for op in ([()] if mut else outs):
                    if "Err.0" in op:
                        continue
                    new = e.content(s, S("self")) if mut else get(v, op)
                    if mut:
                        new = sub(new, path) if new is not None else None
                    if new is None:
                        continue
                    for q in parts(d):
                        a, b = sub(new, q), sub(old, q)
                        if q in want:
                            c = want[q](e, s, a, b)
                            rule = "%s sets it to exactly what it announces" % last
                        else:
                            c = True if a is b else None if unclear(a) else False
                            rule = "%s leaves every other part as it is" % last
                        ctx.check(c, "%s:%s" % (name, ".".join(q)), rule, w, "%s becomes %s" % (".".join(q), tm.show(a)[:200]))
    for n, (rx, _) in enumerate(TABLE):
        if n not in hit:
            ctx.check(None, rx.split("::")[-1].rstrip("$"), "the function is found", "", rx)
    # fresh values
    for key, m, path in ((V.replace("\\", "") + "Creator::new", "v2.Global", ("0", "global")),
                         (TY["v2.Input"] + "::new", "v2.Input", ()), (TY["v2.Output"] + "::new", "v2.Output", ()),
                         (TY["v2.Input"] + "Builder::new", "v2.Input", ("0",)), (TY["v2.Output"] + "Builder::new", "v2.Output", ("0",))):
        if key not in p.raw:
            ctx.check(None, key, "the function is found", "", key)
            continue
        w = where(p, key)
        e = Engine(p, cap=40)
        st = e.run(key, args=[S("a0")])
        ctx.used(e)
        for s, v in st:
            v2 = sub(v, path)
            name = key.replace("psbt_v2::v2::", "")
            for f in fields(m):
                x = fld(v2, f)
                t = EMPTY[m].get(f)
                c = blank(x) if t is None else True if cstr(x) == t else None if unclear(x) else False
                ctx.check(c, "%s:%s" % (name, f), "a new %s holds %s" % (m, t or "nothing here"), w, tm.show(x)[:200])
            if m == "v2.Global":
                for f in ("inputs", "outputs"):
                    ctx.check(blank(fld(fld(v, "0"), f)), "%s:%s" % (name, f), "a new PSBT has no maps", w, tm.show(v)[:200])


def hash_type(call, default):
    """expected result of a hash type query"""
    def present(s, v):
        c = cstr(v)
        if c == call:
            return True
        fd = factdict(s)
        d = fd.get("discr(%s)" % call)
        if d == 0:
            return (is_ok(v) and cstr(v.a[2][0]) == call + ".Ok.0") or (None if unclear(v) else False)
        if d == 1:
            return is_err(v) or (None if unclear(v) else False)
        return None if unclear(v) or not (is_ok(v) or is_err(v)) else False

    def absent(s, v):
        return True if cstr(v) == "Ok(%s)" % default else None if unclear(v) else False
    return present, absent


@prop("C38")
def c38(ctx):
    """The query functions of the input maps and output types are interpreted for an arbitrary value and compared, path by
    path, with their decision table."""
    p = ctx.prog
    n = 0
    for key in sorted(p.raw):
        if " @" in key or "|" in key or "{closure" in key:
            continue
        m = re.search(r"^psbt_v2::(v0|v2)\b.*::(ecdsa_hash_ty|taproot_hash_ty)$", key)
        if m and "Input" in key:
            fn = m.group(2)
            e = Engine(p, cap=40, opaque=opaque_names("PsbtSighashType::" + fn))
            st = e.run(key, args=[S("self")])
            ctx.used(e)
            n += 1
            st_, d = "self.sighash_type", "discr(self.sighash_type)"
            pr, ab = hash_type("%s(%s.Some.0)" % (fn, st_), "All" if fn.startswith("ecdsa") else "Default")
            decide(ctx, e, "%s.%s" % (m.group(1), fn), "the sighash type used is the input's, or the default", st,
                   [("present", [Lit(d, 1)], pr, "the input's sighash type is converted"),
                    ("absent", [Lit(d, 0)], ab, "the default is used when the input has none")], where(p, key))
        if re.search(r"v2::map::input::Input::is_finalized$", key):
            e = Engine(p, cap=40)
            st = e.run(key, args=[S("self")])
            ctx.used(e)
            n += 1
            F, W = disc(fld(S("self"), "final_script_sig")), disc(fld(S("self"), "final_script_witness"))
            for f in (0, 1):
                for w2 in (0, 1):
                    for s, v in st:
                        env = {F: f, W: w2}
                        if any(feval(t, env) is not None and not okv(feval(t, env), x) for t, x in s.facts.items()):
                            continue
                        r = feval(v, env)
                        ctx.check(None if r is None or any(feval(t, env) is None for t in s.facts) else bool(r) == (f + w2 == 2),
                                  "input.is_finalized", "an input is finalized exactly if it has both final fields", where(p, key),
                                  "%s with final_script_sig %s and final_script_witness %s" % (tm.show(v), f, w2))
        if re.search(r"v2::Psbt::is_finalized$", key):
            e = Engine(p, cap=40, opaque=opaque_names("Input::is_finalized"))
            st = e.run(key, args=[S("self")])
            ctx.used(e)
            n += 1
            lst = fld(S("self"), "inputs")
            w = where(p, key)

            def fin(s, x):
                return factdict(s).get("is_finalized(%s)" % cstr(x))
            for s, v in st:
                if v.op != "k":
                    ctx.check(None, "psbt.is_finalized", "the answer is decided on each path", w, tm.show(v)[:200])
                elif v.a[0]:
                    c = forall(e, s, lambda l: l is lst, lambda b, el, ix: True if fin(b, el) == 1 else None if e.joins else False)
                    ctx.check(c, "psbt.is_finalized:yes", "a PSBT is finalized only if every input is", w, "true although not every input was found finalized")
                else:
                    fd = factdict(s)
                    c = True if any(k.startswith("is_finalized(self.inputs[") and x == 0 for k, x in fd.items()) else None if e.joins or s.facts and any(
                        unclear(t) for t in s.facts) else False
                    ctx.check(c, "psbt.is_finalized:no", "a PSBT is not finalized only if some input is not", w, "false although no input was found unfinalized")
        m = re.search(r"^psbt_v2::(v0|v2)\b.*OutputType::signing_algorithm$", key)
        if m:
            e = Engine(p, cap=40)
            st = e.run(key, args=[S("self")])
            ctx.used(e)
            n += 1
            its = [it for d, x in p.item.items() if d.endswith("::OutputType") and m.group(1) in d for it in x if it.get("variants")]
            names = [v["n"] for v in its[0]["variants"]] if its else []
            for i, nm in enumerate(names):
                want = "Schnorr" if nm == "Tr" else "Ecdsa"
                for s, v in st:
                    if any(t is disc(S("self")) and not okv(i, x) for t, x in s.facts.items()):
                        continue
                    other = [t for t in s.facts if t is not disc(S("self"))]
                    ctx.check(None if unclear(v) or v.op != "agg" or other else v.a[1] == want, "%s.algorithm:%s" % (m.group(1), nm),
                              "taproot outputs take Schnorr signatures, all others ECDSA", where(p, key), "%s: %s" % (nm, tm.show(v)))
    ctx.check(n >= 8 or None, "functions", "the query functions are found", "", "only %d" % n)


def okv(r, x):
    return (r not in x) if isinstance(x, frozenset) else r == x

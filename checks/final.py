"""C18 partial signature sighash types at finalization, C22 finalization."""
from engine.check import prop
from engine import terms as tm
from engine.ai import Engine
from engine.terms import fld, disc, mk, length
from .lib import *
from .sign import ECDSA, has_vague, strip

GATES = [("v2", "psbt_v2::v2::miniscript::finalize::Finalizer::new"), ("v0.finalize", "psbt_v2::v0::miniscript::finalizer::finalize::<C>"),
         ("v0.finalize_mall", "psbt_v2::v0::miniscript::finalizer::finalize_mall::<C>"),
         ("v0.extract", "<psbt_v2::v0::bitcoin::Psbt as psbt_v2::v0::miniscript::PsbtExt>::extract::<C>")]
FNEW = "psbt_v2::v2::miniscript::finalize::Finalizer::new"
FFIN = "psbt_v2::v2::miniscript::finalize::Finalizer::finalize::<C>"


def only(cond, *ts):
    """True, or False when the terms are exact, else None"""
    return True if cond else (None if any(has_vague(t) for t in ts) else False)


@prop("C18")
def c18(ctx):
    """Finalizer::new (v2), finalize, finalize_mall and the miniscript extract (v0) are each interpreted for an arbitrary PSBT once for every pair of (sighash type an input asks for,
    sighash type of its partial signatures).  It may succeed only if, after a full pass over all inputs and all
    their partial signatures, no signature with a different type than the input's (ALL when absent) was passed over;
    a matching pair is never refused for its type."""
    n = 0
    for root, key in GATES:
        if key in ctx.prog.raw:
            n += 1
            gate18(ctx, root, key)
    if not n:
        ctx.und("anchor", "function present", FNEW, "missing")
    if FNEW not in ctx.prog.raw:
        return
    w = where(ctx.prog, FNEW)
    e = Engine(ctx.prog, cap=40, opaque=opaque_names("determine_lock_time"))
    r = e.run(FNEW, args=[SELF])
    ctx.used(e)
    for s, v in r:
        if is_ok(v):
            ctx.check(only(fld(v.a[2][0], "0") is SELF, v), "holds", "the Finalizer holds the PSBT it was given", w, tm.show(v)[:200])
    e = Engine(ctx.prog, cap=40, opaque=opaque_names("determine_lock_time", "::funding_utxo", "check_partial_sigs_sighash_type"))
    r = e.run(FNEW, args=[SELF])
    ctx.used(e)
    ins = fld(SELF, "inputs")
    for s, v in r:
        if is_ok(v):
            def has(b, el, ix):
                vs = [x for t, x in b.facts.items() if t.op == "discr" and t.a[0].op == "app" and fname(t.a[0]).endswith("funding_utxo")
                      and strip(e, t.a[0].a[1]) is el]
                return True if 0 in vs else None if any(tm.has_top(t) for t in b.facts) else False
            ctx.check(forall(e, s, lambda l: l is ins, has), "funding", "a Finalizer exists only if every input's funding output is known", w,
                      "an input may lack a funding output")


def gate18(ctx, root, key):
    w = where(ctx.prog, key)
    pre = "" if key == FNEW else root + ":"
    for req in [None] + list(ECDSA) + [0x04]:
        for sig in ECDSA:
            SH = {}

            def val(t):
                if t.op == "k" and isinstance(t.a[0], int):
                    return t.a[0]
                if t.op == "fld" and t.a[1] == "inner" and "sighash_type" in tm.show(t.a[0])[-24:]:
                    return req
                if t.op == "discr" and t.a[0].op == "fld" and t.a[0].a[1] == "sighash_type" and t.a[0].a[0].op == "mget":
                    return sig
                if t.op == "fld" and t.a[1] == "sighash_type" and t.a[0].op == "mget":
                    return sig
                if t.op == "cast":
                    return val(t.a[1])
                if t.op == "discr":
                    return val(t.a[0])
                if t.op == "fld" and t.a[1] == "Ok.0" and t.a[0].op == "app" and t.a[0].a[0].endswith("from_standard"):
                    return val(t.a[0].a[1])
                if t.op == "app" and t.a[0].endswith("to_u32"):
                    return val(t.a[1])
                if t.op == "agg" and not t.a[2] and "EcdsaSighashType" in str(t.a[0]):
                    return next((k for k, n in ECDSA.items() if n.replace("|ACP", "PlusAnyoneCanPay").lower() == str(t.a[1]).lower()), None)
                return None

            def orc(t):
                if t.op == "discr":
                    x = t.a[0]
                    if x.op == "fld" and x.a[1] == "sighash_type" and x.a[0].op == "at":
                        return int(req is not None)
                    if x.op == "app" and x.a[0].endswith("from_standard"):
                        v = val(x.a[1])
                        return None if v is None else int(v not in ECDSA)
                    return val(t)
                if t.op == "eq":
                    a, b = val(t.a[0]), val(t.a[1])
                    return int(a == b) if a is not None and b is not None else None
                return None
            e = Engine(ctx.prog, cap=40, oracle=orc, opaque=opaque_names(
                "determine_lock_time", "::funding_utxo", "::finalize_input", "::finalize_input::<C>", "::interpreter_check", "::interpreter_check::<C>"))
            r = e.run(key, args=[SELF])
            ctx.used(e)
            ctx.count("paths", len(r))
            tag = pre + "%s/%s" % ("absent" if req is None else ECDSA.get(req, "nonstandard"), ECDSA[sig])
            match = (req or 1) == sig
            ins = fld(SELF, "inputs")
            oks = [s for s, v in r if is_ok(v)]
            for s, v in r:
                if is_ok(v):
                    hit = []

                    def sigs(b, el, ix):
                        return forall(e, b, lambda l: l is fld(el, "partial_sigs"), lambda b2, el2, ix2: hit.append(1) or match)
                    c = forall(e, s, lambda l: l is ins, sigs)
                    ctx.check(c, "gate:" + tag, "success only if every partial signature's sighash type is the one its "
                              "input asks for", w, "an input asking for %s is accepted with a signature of type %s" % tuple(tag.split(":")[-1].split("/")))
                    if match and c:
                        ctx.check(True if hit else None, "accepts:" + tag, "a signature of the right type is accepted", w)
                elif is_err(v) and match and ("ighash" in tm.show(v)):
                    ctx.bad("accepts:" + tag, "a signature of the type its input asks for is not refused", w, tm.show(v)[:200])
                elif not is_err(v):
                    ctx.und("result:" + tag, "result of Finalizer::new", w, tm.show(v)[:200])
            ctx.check(True if oks else None, "reachable:" + tag, "some path succeeds", w)


# ---------------------------------------------------------------- C22
KEEP2 = ("previous_txid", "spent_output_index", "non_witness_utxo", "witness_utxo", "sequence", "min_time", "min_height",
         "proprietaries", "unknowns")
KEEP0 = ("non_witness_utxo", "witness_utxo", "proprietary", "unknown")


def is_blank(t):
    return (t.op == "agg" and t.a[1] == "None") or t is tm.mkseq(None, ()) or (t.op == "seq" and t.a == (None, ()))


def funding2(t, el):
    if t.op == "fld" and t.a[1] == "Ok.0" and t.a[0].op == "app" and t.a[0].a[0].endswith("funding_utxo") and t.a[0].a[1] is el:
        return True
    return t is fld(fld(el, "witness_utxo"), "Some.0") or \
        t is tm.at(fld(fld(fld(el, "non_witness_utxo"), "Some.0"), "output"), fld(el, "spent_output_index"))


def funding0(t, root, ix):
    el = tm.at(fld(root, "inputs"), ix)
    txin = tm.at(fld(fld(root, "unsigned_tx"), "input"), ix)
    return t is fld(fld(el, "witness_utxo"), "Some.0") or \
        t is tm.at(fld(fld(fld(el, "non_witness_utxo"), "Some.0"), "output"), fld(fld(txin, "previous_output"), "vout"))


def all_funding(e, po, good, lens):
    """po: Prevouts term; is it All(funding outputs of every input, in order)?"""
    if not (po.op == "agg" and po.a[1] in ("All", "One")):
        return None
    if po.a[1] != "All":
        return False
    r = elems(e, po.a[2][0])
    if r is None:
        return None
    es, ls = r
    c = covers({unlv(e, l) for l in ls}, lens)
    if c is not True:
        return c
    for x in es:
        if not good(unlv(e, x)):
            return None if has_vague(x) else False
    return True


def interp(ctx, e, b, ix, want, tag, w, u=lambda t: t):
    """on the way to b, did the script interpreter accept input ix?  reports; returns (script sig, witness) it saw | None"""
    rule = "input is accepted only if the script interpreter accepts it"
    cand = []
    for t, v in b.facts.items():
        if t.op == "discr" and v == 0 and t.a[0].op == "app" and t.a[0].a[0].endswith("from_txdata"):
            cand.append(t.a[0])
    if len(cand) != 1:
        ctx.check(None if cand or any(tm.has_top(t) for t in b.facts) else False, tag + ":interpreter", rule, w,
                  "no successful Interpreter::from_txdata on a path that accepts the input")
        return None
    I = cand[0]
    its = []

    def match(l):
        if l.op == "app" and l.a[0].split("::")[-1] in ("iter", "iter_assume_sigs", "iter_custom") and mentions_app(l, u(I)):
            its.append(l)
            return True
        return False
    c = forall(e, b, match, lambda b2, el, i2: any(
        b2.facts.get(t) == 0 for t in b2.facts if t.op == "discr" and u(t.a[0]) is el))
    ctx.check(c, tag + ":satisfied", rule, w, "the interpreter's results are not all required to be Ok")
    args = [u(x) for x in I.a[1:]]
    for nm, got in zip(("script_pubkey", "script_sig", "witness", "sequence", "lock_time"), args):
        f = want.get(nm)
        if f is not None:
            ctx.check(only(f(got), got), tag + ":" + nm, "the interpreter is given the input's %s" % nm, w, tm.show(got)[:200])
    for l in set(its[:1]):
        if not l.a[0].endswith("::iter"):
            ctx.bad(tag + ":iter", "the interpreter verifies the signatures", w, "uses " + l.a[0])
            continue
        a = [u(x) for x in l.a[1:]]
        tx, i2, po = a[2], a[3], a[4]
        ctx.check(only(want["tx"](tx), tx), tag + ":tx", "signatures are verified against the PSBT's transaction", w, tm.show(tx)[:200])
        ctx.check(only(i2 is ix, i2), tag + ":index", "signatures are verified for this input", w, tm.show(i2)[:200])
        ctx.check(want["prevouts"](l.a[5]), tag + ":prevouts", "signatures are verified against all inputs' funding outputs", w,
                  tm.show(po)[:200])
    return args[1], args[2]


def runs_interp(backs):
    return any(tm.find(t, lambda y: y.op == "app" and y.a[0].endswith("from_txdata")) for b in backs for t in b.facts)


def mentions_app(t, I):
    return tm.mentions(t, I)


def fields_rule(ctx, tag, w, new, old, keep, finals):
    """every field of a finalized input is kept, final or cleared"""
    ty = next((x for x in (new.a[0],)), None) if new.op == "agg" else None
    names = tm.FIELDS.get((new.a[0], new.a[1])) if ty else None
    if not names:
        ctx.und(tag + ":fields", "fields of a finalized input", w, tm.show(new)[:200])
        return
    for n in names:
        x = fld(new, n)
        if n in finals:
            continue
        if n in keep:
            ctx.check(only(x is fld(old, n), x), tag + ":keep:" + n, "finalization keeps %s" % n, w, tm.show(x)[:200])
        else:
            ctx.check(only(is_blank(x), x), tag + ":clear:" + n, "finalization clears %s" % n, w, tm.show(x)[:200])


def sat_parts(e, t):
    """the satisfaction a final script sig / witness comes from: (call term, part) """
    cs = calls_of(t, "get_satisfaction", "get_satisfaction_mall", "construct_tap_witness")
    return cs[0] if len(cs) == 1 else None


@prop("C22")
def c22(ctx):
    """Version 2: Finalizer::finalize, the interpreter check and the per-input satisfaction are interpreted for an
    arbitrary PSBT; version 0: every finalize entry point and the miniscript extract are, for all inputs of the loop at
    once.  Obligations: success only after the interpreter accepted every input with its own final scripts, sequence,
    lock time and all funding outputs; finalized inputs keep the UTXO, location, proprietary and unknown records, gain
    the final scripts and lose everything else; only the malleable entry points accept malleable satisfactions; a
    failing input is left untouched."""
    n = v2_finalize(ctx) + v2_interp(ctx) + v2_satisfy(ctx) + v0_finalize(ctx)
    if not n:
        ctx.und("anchor", "function present", FFIN, "no finalizer found")


def v2_finalize(ctx):
    if FFIN not in ctx.prog.raw:
        return 0
    w = where(ctx.prog, FFIN)
    root = fld(SELF, "0")
    e = Engine(ctx.prog, cap=40, opaque=opaque_names("interpreter_check", "interpreter_check::<C>", "final_script_sig_and_witness"))
    r = e.run(FFIN, args=[SELF, S("secp")])
    ctx.used(e)
    ctx.count("paths", len(r))
    oks = 0
    for s, v in r:
        if is_err(v):
            continue
        if not is_ok(v):
            ctx.und("v2:result", "result of finalize", w, tm.show(v)[:200])
            continue
        oks += 1
        P = v.a[2][0]
        checked = [t.a[0].a[1] for t, f in s.facts.items() if f == 0 and t.op == "discr" and t.a[0].op == "app" and
                   fname(t.a[0]).endswith("interpreter_check")]
        ctx.check(True if P in checked else (None if any(has_vague(t) for t in s.facts) else False), "v2:checked",
                  "the finalized PSBT is returned only if its interpreter check passed", w, "%d checks" % len(checked))
        for f in ("global", "outputs"):
            x = fld(P, f)
            good = x is fld(root, f)
            if not good and f == "outputs":
                q = elems(e, x)
                good = q is not None and q[0] == {tm.at(fld(root, f), IXC)} and covers(q[1], {length(fld(root, f))}) is True
            ctx.check(only(good, x), "v2:" + f, "finalization does not change the PSBT's %s" % f, w, tm.show(x)[:200])
        q = elems(e, fld(P, "inputs"))
        if q is None:
            ctx.und("v2:inputs", "finalized inputs", w, tm.show(fld(P, "inputs"))[:200])
            continue
        es, ls = q
        ctx.check(covers(ls, {length(fld(root, "inputs"))}), "v2:every-input", "every input is finalized, in order", w, "")
        old = tm.at(fld(root, "inputs"), IXC)
        for x in es:
            fields_rule(ctx, "v2", w, x, old, KEEP2, ("final_script_sig", "final_script_witness"))
            for f, k in (("final_script_sig", "0"), ("final_script_witness", "1")):
                y = fld(x, f)
                cs = calls_of(y, "final_script_sig_and_witness")
                good = y.op == "agg" and y.a[1] == "Some" and len(cs) == 1 and y.a[2][0] is fld(fld(cs[0], "Ok.0"), k) and \
                    cs[0].a[2] is old
                ctx.check(only(good, y) if cs else (None if has_vague(y) else False), "v2:" + f,
                          "the input gets the %s computed for it" % f, w, tm.show(y)[:200])
    ctx.check(True if oks else None, "v2:reachable", "some path finalizes", w)
    return 1


def v2_interp(ctx):
    key = next((k for k in sorted(ctx.prog.raw) if "v2::miniscript" in k and k.endswith("Psbt>::interpreter_check::<C>")), None)
    if key is None:
        return 0
    w = where(ctx.prog, key)
    ins = fld(SELF, "inputs")
    for sq in (0, 1):
        e = Engine(ctx.prog, cap=40, opaque=opaque_names("v2::Psbt::unsigned_tx", "::funding_utxo"), oracle=elem_oracle(("sequence", sq)))
        r = e.run(key, args=[SELF, S("secp")])
        ctx.used(e)
        ctx.count("paths", len(r))
        oks = 0
        for s, v in r:
            if is_err(v):
                continue
            if not is_ok(v):
                ctx.und("v2:interpreter:result", "result of the interpreter check", w, tm.show(v)[:200])
                continue
            oks += 1

            def istx(t):
                return t.op == "fld" and t.a[1] == "Ok.0" and t.a[0].op == "app" and t.a[0].a[0].endswith("unsigned_tx") and t.a[0].a[1] is SELF
            seen = []

            def body(b, el, ix):
                seen.append(1)
                want = {"script_pubkey": lambda t: t.op == "fld" and t.a[1] == "script_pubkey" and funding2(t.a[0], el),
                        "script_sig": lambda t: t is fld(fld(el, "final_script_sig"), "Some.0"),
                        "witness": lambda t: t is fld(fld(el, "final_script_witness"), "Some.0"),
                        "sequence": (lambda t: t is fld(fld(el, "sequence"), "Some.0")) if sq else
                        (lambda t: tm.show(t) in ("Sequence(4294967295)", "4294967295")),
                        "lock_time": lambda t: t.op == "fld" and t.a[1] == "lock_time" and istx(t.a[0]),
                        "tx": istx,
                        "prevouts": lambda p: all_funding(e, p, lambda x: funding2(x, tm.at(ins, IXC)), {length(ins)})}
                interp(ctx, e, b, ix, want, "v2:interpreter", w)
                return True
            c = forall(e, s, lambda l: l is ins, body, runs_interp)
            ctx.check(c, "v2:interpreter:every-input", "the interpreter is run on every input", w, "")
            if c:
                ctx.check(True if seen else False, "v2:interpreter:reachable", "an input can pass", w)
        ctx.check(True if oks else None, "v2:interpreter:ok", "some path accepts", w)
    return 1


def v2_satisfy(ctx):
    key = "psbt_v2::v2::miniscript::finalize::Finalizer::final_script_sig_and_witness"
    if key not in ctx.prog.raw:
        return 0
    w = where(ctx.prog, key)
    INP = S("input")
    for tr in (0, 1):
        def orc(t):
            if t.op == "app" and t.a[0].split("::")[-1] == "is_p2tr":
                return tr
        e = Engine(ctx.prog, cap=40, opaque=opaque_names("::funding_utxo", "get_descriptor", "construct_tap_witness"), oracle=orc)
        r = e.run(key, args=[SELF, INP, S("mall")])
        ctx.used(e)
        ctx.count("paths", len(r))
        oks = 0
        for s, v in r:
            if is_err(v):
                continue
            if not is_ok(v):
                ctx.und("v2:satisfy", "result", w, tm.show(v)[:200])
                continue
            oks += 1
            sg, wt = fld(v.a[2][0], "0"), fld(v.a[2][0], "1")
            rule = "the final scripts of a %s input come from its satisfaction" % ("taproot" if tr else "non-taproot")
            if tr:
                cs = calls_of(wt, "construct_tap_witness")
                good = len(cs) == 1 and cs[0].a[2].op == "agg" and fld(cs[0].a[2], "input") is INP and \
                    wt.op == "app" and wt.a[0].endswith("from_slice") and wt.a[1] is fld(cs[0], "Ok.0")
                ctx.check(only(good, wt) if cs else (None if has_vague(wt) else False), "v2:satisfy:tr:witness", rule, w, tm.show(wt)[:300])
                ctx.check(only(is_empty_script(sg), sg), "v2:satisfy:tr:script_sig", "a taproot input has an empty script sig", w,
                          tm.show(sg)[:200])
            else:
                for x, part, nm in ((wt, "0", "witness"), (sg, "1", "script_sig")):
                    cs = calls_of(x, "get_satisfaction", "get_satisfaction_mall")
                    y = x
                    if nm == "witness" and x.op == "app" and x.a[0].endswith("from_slice"):
                        y = x.a[1]
                    good = len(cs) == 1 and y is fld(fld(cs[0], "Ok.0"), part) and cs[0].a[2].op == "agg" and \
                        fld(cs[0].a[2], "input") is INP and calls_of(cs[0].a[1], "get_descriptor") and \
                        calls_of(cs[0].a[1], "get_descriptor")[0].a[2] is INP
                    ctx.check(only(good, x), "v2:satisfy:" + nm, rule, w, tm.show(x)[:300])
        ctx.check(True if oks else None, "v2:satisfy:ok", "some path satisfies", w)
    return 1


def is_empty_script(t):
    if t.op == "app" and fname(t).split("::")[-1] in ("new", "default") and "Script" in fname(t) and len(t.a) == 1:
        return True
    return t.op == "default" and "Script" in str(t.a[0]) or tm.show(t) in ("⟨⟩",)


# ---- version 0
V0E = "<psbt_v2::v0::bitcoin::Psbt as psbt_v2::v0::miniscript::PsbtExt>::"
V0F = "psbt_v2::v0::miniscript::finalizer::"
ENTRY0 = [  # (key, malleable allowed, scope, consumes self)
    (V0E + "finalize_inp_mut::<C>", 0, "one", 0), (V0E + "finalize_inp_mall_mut::<C>", 1, "one", 0),
    (V0E + "finalize_inp::<C>", 0, "one", 1), (V0E + "finalize_inp_mall::<C>", 1, "one", 1),
    (V0E + "finalize_mut::<C>", 0, "all", 0), (V0E + "finalize_mall_mut::<C>", 1, "all", 0),
    (V0E + "finalize::<C>", 0, "all", 1), (V0E + "finalize_mall::<C>", 1, "all", 1),
    (V0F + "finalize::<C>", 0, "all", 0), (V0F + "finalize_mall::<C>", 1, "all", 0),
    (V0F + "interpreter_check::<C>", None, "check", 0), (V0E + "extract::<C>", None, "check", 0)]


def v0_finalize(ctx):
    n = 0
    for key, mall, scope, own in ENTRY0:
        if key not in ctx.prog.raw:
            continue
        n += 1
        w = where(ctx.prog, key)
        for wu in (1, 0):
            for tr in ((0, 1) if mall is not None else (None,)):
                for fin in ((None,) if mall is not None else (3, 1, 2, 0)):
                    v0_case(ctx, key, mall, scope, own, w, wu, tr, fin)
    return n


def v0_case(ctx, key, mall, scope, own, w, wu, tr, fin):
    tag = "v0:" + key.split("::")[-2]
    if key.startswith(V0F):
        tag += "()"

    def orc(t):
        if t.op == "discr" and t.a[0].op == "fld":
            nm = t.a[0].a[1]
            if nm == "witness_utxo" and t.a[0].a[0].op == "at":
                return wu
            if nm == "non_witness_utxo" and t.a[0].a[0].op == "at":
                return 1 - wu
            if fin is not None and nm in ("final_script_sig", "final_script_witness") and t.a[0].a[0].op == "at":
                return int(bool(fin & (1 if nm == "final_script_sig" else 2)))
        if t.op == "app" and tr is not None and t.a[0].split("::")[-1] == "is_p2tr":
            return tr
        return None
    e = Engine(ctx.prog, cap=60, oracle=orc, opaque=opaque_names("construct_tap_witness", "finalizer::get_descriptor", "sanity_check"))
    # arguments: (self|psbt, secp, index) in the order the trait declares
    args = [SELF, S("secp")] + ([S("index")] if scope == "one" else [])
    r = e.run(key, args=args)
    ctx.used(e)
    ctx.count("paths", len(r))
    oks = 0
    root, ins = SELF, fld(SELF, "inputs")
    for s, v in r:
        if is_err(v):
            if not own and scope == "one":
                new = final_root(s, SELF)
                ctx.check(only(not [d for d in diffs(SELF, new)], new), tag + ":error-untouched", "a failing finalization leaves "
                          "the PSBT unchanged", w, tm.show(new)[:200])
            continue
        if not is_ok(v):
            ctx.und(tag, "result", w, tm.show(v)[:200])
            continue
        oks += 1
        if scope == "one":
            one_input(ctx, e, s, s, S("index"), v.a[2][0] if own else final_root(s, SELF), SELF, mall, tag, w)
            continue
        seen = []

        def body(b, el, ix):
            if scope == "check":
                want = want0(e, ix)
                # the script sig / witness the input stores; absent means empty
                got = interp(ctx, e, b, ix, want, tag, w, lambda t: unlv(e, t))
                seen.append(1)
                if got:
                    chk_finals(ctx, got, el, fin, tag, w)
                return True
            # an iteration either finalizes its input or records an error that keeps the result from being Ok
            if noted_error(e, s, b):
                return True
            seen.append(1)
            one_input(ctx, e, s, b, ix, final_root(b, SELF), SELF, mall, tag, w)
            return True
        c = forall(e, s, lambda l: l is ins, body, runs_interp)
        ctx.check(c, tag + ":every-input", "success means every input was processed", w, "")
        if c:
            ctx.check(True if seen else False, tag + ":reachable", "an input can pass", w)
    ctx.check(True if oks else None, tag + ":ok", "some path succeeds", w)


def noted_error(e, s, b):
    """b's iteration appended to a list whose emptiness the final state s requires"""
    roots = set()
    for t, v in s.facts.items():
        if t.op == "len" and (v == 0) and t.a[0].op == "seq":
            roots.add(t.a[0])
        if t.op == "app" and t.a[0].endswith("is_empty") and v == 1 and t.a[1].op == "seq":
            roots.add(t.a[1])
    for root, v in b.mem.items():
        if v.op == "seq" and v.a[1] and v.a[1][-1].op == "one" and v.a[1][-1].a[0].op == "agg" and \
                any(x.op == "one" and x is v.a[1][-1] or True for x in ()):
            return True
        if v.op == "seq" and v.a[1]:
            last = v.a[1][-1]
            for R in roots:
                for p in R.a[1]:
                    alts = p.a[0] if p.op == "may" else (p,)
                    if any((y.a[0] if y.op == "each" else y) is last for y in alts):
                        return True
    return False


def final_root(s, sym):
    v = s.mem.get(("D", sym))
    if v is None:
        # held by value
        c = {x for x in s.mem.values() if x.op == "upd" and x.a[0] is sym}
        v = c.pop() if len(c) == 1 else None
    return sym if v is None else v


def want0(e, ix):
    u = lambda t: unlv(e, t)
    utx = fld(SELF, "unsigned_tx")
    return {"script_pubkey": lambda t: t.op == "fld" and t.a[1] == "script_pubkey" and funding0(t.a[0], SELF, ix),
            "sequence": lambda t: t is fld(tm.at(fld(utx, "input"), ix), "sequence"),
            "lock_time": lambda t: t is fld(utx, "lock_time"),
            "tx": lambda t: t is utx,
            "prevouts": lambda p: all_funding(e, p, lambda x: funding0(x, SELF, IXC), {length(fld(SELF, "inputs")), length(fld(utx, "input"))})}


def one_input(ctx, e, s, b, ix, newroot, root, mall, tag, w):
    u = lambda t: unlv(e, t)
    got = interp(ctx, e, b, ix, want0(e, ix), tag, w, u)
    old = tm.at(fld(root, "inputs"), ix)
    for pth, kind, o, x in diffs(root, newroot):
        good = len(pth) >= 2 and pth[0] == "inputs" and pth[1] == ("at", ix)
        lv = x.op == "lv" or kind == "?"
        if not good and not lv:
            ctx.check(only(False, x), tag + ":other", "only this input changes", w, str(pth)[:200])
    new = fld(newroot, "inputs")
    if new.op == "phi":
        news = [y.a[2] for y in new.a[0] if y.op == "cset" and y.a[1][1] is ix]
        if len(news) != len(new.a[0]):
            news = []
    elif new.op == "cset" and new.a[1][0] == "e" and new.a[1][1] is ix:
        news = [new.a[2]]
    else:
        news = []
    if not news:
        ctx.und(tag + ":fields", "fields of a finalized input", w, tm.show(new)[:200])
        return
    for x in news:
        x = u(x)
        fields_rule(ctx, tag, w, x, old, KEEP0, ("final_script_sig", "final_script_witness"))
        if not got:
            continue
        for f, g in (("final_script_sig", got[0]), ("final_script_witness", got[1])):
            y = fld(x, f)
            ok_ = y.op == "agg" and (y.a[1] == "None" or y.a[2][0] is g)
            ctx.check(only(ok_, y), tag + ":" + f, "the input gets the %s the interpreter accepted" % f, w, tm.show(y)[:200])
            if y.op == "agg" and y.a[1] == "None":
                em = [v for t, v in b.facts.items() if t.op in ("app", "eq") and u(t) is not None and tm.mentions(u(t), g)
                      and "is_empty" in tm.show(t)[:60]]
                empty = is_empty_script(g) or 1 in em
                if len(news) == 1:
                    ctx.check(True if empty else only(False, *[g]), tag + ":" + f + ":absent", "%s is left out only if it is empty" % f, w,
                              tm.show(g)[:200])
    if got:
        wt = got[1]
        sat = calls_of(wt, "get_satisfaction", "get_satisfaction_mall", "construct_tap_witness")
        if len(sat) == 1:
            c = sat[0]
            nm = c.a[0].split("::")[-1]
            idx = [t for t in tm.find(c, lambda y: y.op == "agg" and "PsbtInputSatisfier" in str(y.a[0]))]
            for q in idx:
                ctx.check(only(fld(q, "index") is ix, fld(q, "index")), tag + ":satisfier", "the satisfaction is this input's", w, tm.show(q)[:200])
            if nm == "construct_tap_witness":
                m = c.a[-1]
                m = m.a[0] if m.op == "k" else None
                ctx.check(None if m is None else bool(m) == bool(mall), tag + ":malleable", "only the malleable variants accept malleable "
                          "satisfactions", w, tm.show(c.a[-1])[:80])
            else:
                ctx.check((nm == "get_satisfaction_mall") == bool(mall), tag + ":malleable", "only the malleable variants accept "
                          "malleable satisfactions", w, "uses " + nm)
        else:
            ctx.check(None if has_vague(wt) or sat else False, tag + ":satisfaction", "the witness is a satisfaction of the script", w,
                      tm.show(wt)[:200])


def chk_finals(ctx, got, el, fin, tag, w):
    for f, g, bit in (("final_script_sig", got[0], 1), ("final_script_witness", got[1], 2)):
        src = fld(fld(el, f), "Some.0")
        if fin & bit:
            c = g is src or (g.op == "app" and g.a[0].endswith("from_slice") and tm.mentions(g, src))
        else:
            c = not tm.mentions(g, fld(el, f)) and not has_vague(g) or is_empty_script(g) or g.op == "default"
        ctx.check(True if c else (False if g.op == "default" else None if has_vague(g) else False), tag + ":" + f, "the interpreter sees the input's stored %s" % f, w,
                  tm.show(g)[:200])

"""C19 fee, C20 extraction, C21 unsigned transaction and PSBT id."""
from engine.check import prop
from engine import terms as tm
from engine.ai import Engine
from engine.terms import fld, disc, mk, length
from .lib import *

P2 = "psbt_v2::v2::Psbt::"
OPQ = opaque_names("determine_lock_time", "::fee", "::interpreter_check", "::interpreter_check::<C>", "::sanity_check")
ROLE = ("0",)


def path(t, *names):
    for n in names:
        t = fld(t, n)
    return t


def is_empty(t):
    """an empty script / witness: True, False, None"""
    if t.op == "default":
        return True
    if t.op == "app" and len(t.a) >= 1 and t.a[0].split("::")[-1] in ("default", "new"):
        if not [x for x in t.a[1:] if isinstance(x, tm.T) and x.op not in ("ty",)]:
            return True
        if all(not tm.find(x, lambda y: y.op == "sym") for x in t.a[1:] if isinstance(x, tm.T)):
            return True
    if tm.find(t, lambda y: y is SELF):
        return False
    return None


def same(a, b):
    """True / False / None: equality of provenance"""
    if a is b:
        return True
    # a decided difference: both built from fields of the PSBT only
    if tm.has_top(a) or tm.find(a, lambda y: y.op in ("lv", "phi", "app")):
        return None
    return False


def tx_obligations(ctx, e, tx, psbt, tag, w, seq, sigs):
    """every component of Transaction term `tx` against the PSBT root `psbt`.
    seq: expected sequence of an element given hypothesis; sigs: (script_sig, witness) expected or None=empty"""
    g = fld(psbt, "global")
    el = mk("at", fld(psbt, "inputs"), IXC)
    ou = mk("at", fld(psbt, "outputs"), IXC)

    def ob(c, part, rule, t):
        ctx.check(c, "%s:%s" % (tag, part), rule, w, "found " + tm.show(t)[:300])
    v = fld(tx, "version")
    ob(same(v, fld(g, "tx_version")), "version", "the transaction version is the PSBT's tx_version", v)
    lt = fld(tx, "lock_time")
    cs = [x for x in calls_of(lt, "determine_lock_time")]
    if lt.op == "fld" and lt.a[1] == "Ok.0" and cs and lt.a[0] is cs[0] and cs[0].a[1] is psbt:
        c = True
    elif not cs and not tm.has_top(lt) and not tm.find(lt, lambda y: y.op in ("app", "lv", "phi", "maxof")):
        c = False
    else:
        c = None
    ob(c, "lock_time", "the lock time is the one determined from the inputs", lt)
    for part, lst, n in (("input", el, "inputs"), ("output", ou, "outputs")):
        L = fld(tx, part)
        r = elems(e, L)
        if r is None:
            ctx.und("%s:%s" % (tag, part), "one transaction %s per PSBT %s, in order" % (part, part), w, tm.show(L)[:300])
            continue
        es, lens = r
        ln = length(fld(psbt, n))
        ob(covers(lens, {ln}), part + ".count", "one transaction %s per PSBT %s, in order" % (part, part), L)
        for x in es:
            if part == "output":
                for f, m in (("value", "amount"), ("script_pubkey", "script_pubkey")):
                    ob(same(fld(x, f), fld(ou, m)), "output." + f, "output %s is the PSBT output's %s" % (f, m), fld(x, f))
                continue
            po = fld(x, "previous_output")
            ob(same(fld(po, "txid"), fld(el, "previous_txid")), "input.txid", "the outpoint's txid is the input's previous txid", po)
            ob(same(fld(po, "vout"), fld(el, "spent_output_index")), "input.vout", "the outpoint's index is the input's spent output index", po)
            sq = fld(x, "sequence")
            want, rule = seq
            ob(True if sq is want(el) else same(sq, want(el)), "input.sequence", rule, sq)
            for f, exp in zip(("script_sig", "witness"), sigs):
                y = fld(x, f)
                if exp is None:
                    ob(is_empty(y), "input." + f, "the unsigned transaction's %s is empty" % f, y)
                else:
                    ob(same(y, exp(el)) if not is_empty(y) else False, "input." + f,
                       "the extracted %s is the input's final %s" % (f, f), y)


MAXSEQ = "Sequence(4294967295)"


def cseq(n):
    return mk("agg", "bitcoin::blockdata::transaction::Sequence", "Sequence", (K(n),))


def seq_present(el):
    return fld(fld(el, "sequence"), "Some.0")


def run_hyp(ctx, key, args, hyp, opq=OPQ, **kw):
    e = Engine(ctx.prog, cap=60, opaque=opq, oracle=elem_oracle(*hyp), **kw)
    r = e.run(key, args=args)
    ctx.used(e)
    ctx.count("paths", len(r))
    return e, r


UNSIGNED = [  # root, steps from parameter to the Psbt
    ("psbt_v2::v2::Psbt::unsigned_tx", ()),
    ("psbt_v2::v2::Signer::unsigned_tx", ROLE),
]
IDS = [("psbt_v2::v2::Psbt::id", ()), ("psbt_v2::v2::Updater::id", ROLE), ("psbt_v2::v2::Signer::id", ROLE),
       ("psbt_v2::v2::extract::Extractor::id", ROLE), ("psbt_v2::v2::miniscript::finalize::Finalizer::id", ROLE)]


@prop("C21")
def c21(ctx):
    """Every public and internal producer of the v2 unsigned transaction and of the PSBT's unique id is interpreted for
    an arbitrary PSBT, once under the hypothesis that inputs carry a sequence record and once that they do not.  Each
    component of the produced transaction is compared with the PSBT field BIP-370 names; for the id the sequence must
    be zero and the id must be the txid of exactly that transaction."""
    n = 0
    for hyp in (0, 1):
        seq = (lambda el: cseq(0xFFFFFFFF), "an absent sequence record means the final sequence number") if hyp == 0 else \
            (seq_present, "the input's sequence record is used")
        for key, steps in UNSIGNED:
            if key not in ctx.prog.raw:
                continue
            n += 1
            root = path(SELF, *steps)
            e, r = run_hyp(ctx, key, [SELF], [("sequence", hyp)])
            for s, v in r:
                if is_err(v):
                    continue
                tx = v.a[2][0] if is_ok(v) else v
                tx_obligations(ctx, e, tx, root, key.split("psbt_v2::")[1], where(ctx.prog, key), seq, (None, None))
        for key, steps in IDS:
            if key not in ctx.prog.raw:
                continue
            n += 1
            root = path(SELF, *steps)
            e, r = run_hyp(ctx, key, [SELF], [("sequence", hyp)])
            tag = key.split("psbt_v2::")[1]
            w = where(ctx.prog, key)
            for s, v in r:
                if is_err(v):
                    continue
                v = v.a[2][0] if is_ok(v) else v
                cs = calls_of(v, "compute_txid", "compute_ntxid", "compute_wtxid")
                if v.op != "app" or not v.a[0].endswith("compute_txid"):
                    ctx.check(False if cs and cs[0] is v else None, tag + ":txid", "the id is the txid of the unsigned transaction", w, tm.show(v)[:300])
                    continue
                tx_obligations(ctx, e, v.a[1], root, tag, w,
                               (lambda el: cseq(0), "for the id the sequence is zero"), (None, None))
    if not n:
        ctx.und("anchor", "function present", "v2::Psbt::unsigned_tx", "no producer of the unsigned transaction found")


# ---------------------------------------------------------------- C19
FEES = [("psbt_v2::v2::Psbt::fee", 2), ("psbt_v2::v0::bitcoin::Psbt::fee", 0)]
TOSAT = "bitcoin_units::amount::Amount::to_sat"


def to_sat(t):
    return mk("app", TOSAT, t)


@prop("C19")
def c19(ctx):
    """fee() of both versions is interpreted for an arbitrary PSBT under the two hypotheses about where an input's funding
    output comes from.  The successful result must be the total of the funding values of every input minus the total of
    every output, both accumulated from zero over the whole list, guarded by no-overflow facts; overflow and negative
    results must be errors and no arithmetic assertion may be reachable."""
    n = 0
    for key, ver in FEES:
        if key not in ctx.prog.raw:
            continue
        n += 1
        w = where(ctx.prog, key)
        tag = "v%d" % ver
        for hyp, facts in (("witness", [("witness_utxo", 1)]), ("non-witness", [("witness_utxo", 0), ("non_witness_utxo", 1)])):
            e, r = run_hyp(ctx, key, [SELF], facts, opq=lambda p, k: False)
            el = mk("at", fld(SELF, "inputs"), IXC)
            if hyp == "witness":
                fund = path(el, "witness_utxo", "Some.0", "value")
            else:
                vout = fld(el, "spent_output_index") if ver == 2 else \
                    path(mk("at", path(SELF, "unsigned_tx", "input"), IXC), "previous_output", "vout")
                fund = fld(mk("at", path(el, "non_witness_utxo", "Some.0", "output"), vout), "value")
            if ver == 2:
                outv = fld(mk("at", fld(SELF, "outputs"), IXC), "amount")
                il, ol = {length(fld(SELF, "inputs"))}, {length(fld(SELF, "outputs"))}
            else:
                outv = fld(mk("at", path(SELF, "unsigned_tx", "output"), IXC), "value")
                il = {length(fld(SELF, "inputs")), length(path(SELF, "unsigned_tx", "input"))}
                ol = {length(path(SELF, "unsigned_tx", "output")), length(fld(SELF, "outputs"))}
            nok = 0
            for s, v in r:
                if is_err(v):
                    continue
                if not is_ok(v):
                    ctx.und(tag + ":result", "fee is total in minus total out", w, tm.show(v)[:200])
                    continue
                nok += 1
                x = v.a[2][0]
                sub = x.a[1] if x.op == "app" and x.a[0].endswith("from_sat") else x
                rule = "the fee is the total of all funding values minus the total of all outputs"
                if sub.op in ("sat", "wrap"):
                    ctx.bad(tag + ":negative", "a negative fee is an error", w, tm.show(sub)[:200])
                    sub = sub.a[0]
                if sub.op != "sub":
                    c = None if tm.has_top(sub) or tm.find(sub, lambda y: y.op in ("app", "phi")) else False
                    ctx.check(c, tag + ":fee", rule, w, tm.show(x)[:300])
                    continue
                ctx.check(True if s.facts.get(mk("ovf", "sub", *sub.a)) == 0 or v.op in ("sat", "wrap") else None, tag + ":negative",
                          "a negative fee is an error", w, tm.show(sub)[:200])
                for nm, t, want, lens in (("inputs", sub.a[0], fund, il), ("outputs", sub.a[1], outv, ol)):
                    k = "%s:%s.%s" % (tag, hyp, nm)
                    rl = "the total of the %s covers every %s exactly once (%s)" % (nm, nm[:-1], tm.show(want))
                    a = accum(e, t)
                    if a is None:
                        ctx.und(k, rl, w, tm.show(t)[:200])
                        continue
                    init, ds, ls = a
                    cov = covers(ls, lens)
                    good = init is K(0) and ds == {to_sat(want)} and cov
                    vague = any(tm.has_top(d) or tm.find(d, lambda y: y.op in ("lv", "phi", "default", "wrap", "sat")) for d in ds) \
                        or cov is None
                    if good:
                        ctx.ok(k, rl, w)
                    elif any(tm.find(d, lambda y: y.op in ("wrap", "sat")) for d in ds):
                        ctx.bad(k, "overflow of the total is an error", w, str([tm.show(d)[:120] for d in ds]))
                    else:
                        ctx.check(None if vague else False, k, rl, w, "starts at %s, adds %s over %s" % (
                            tm.show(init), [tm.show(d)[:150] for d in ds], [tm.show(l)[:60] for l in ls]))
            ctx.check(True if nok else None, tag + ":reaches-ok", "some path returns a fee", w)
            errs = {errname(v) for s, v in r if is_err(v)}
            for l in e.log:
                if l["kind"] == "panic" and "assert_failed" in str(l["name"]) and ver == 0:
                    continue    # documented precondition: one map per transaction input
                if l["kind"] in ("panic", "assert"):
                    t = l["args"][0] if l["args"] else None
                    ctx.check(False if l["kind"] == "assert" and str(l["name"]).startswith("overflow") else None,
                              tag + ":arith", "fee arithmetic never panics or wraps", l["where"],
                              "%s %s" % (l["name"], [tm.show(a)[:100] for a in l["args"] if isinstance(a, tm.T)]))
            ctx.count("error_kinds", len(errs))
    if not n:
        ctx.und("anchor", "function present", "Psbt::fee", "missing")


# ---------------------------------------------------------------- C20
X2 = "psbt_v2::v2::extract::Extractor::"
X0 = "psbt_v2::v0::bitcoin::Psbt::"
XM = "<psbt_v2::v0::bitcoin::Psbt as psbt_v2::v0::miniscript::PsbtExt>::extract::<C>"
EXTRACT = [  # key, version, limit: None unchecked, "arg" the parameter, "default" the constant
    (X2 + "extract_tx", 2, "default"), (X2 + "extract_tx_fee_rate_limit", 2, "default"),
    (X2 + "extract_tx_with_fee_rate_limit", 2, "arg"), (X2 + "extract_tx_unchecked_fee_rate", 2, None),
    (X0 + "extract_tx", 0, "default"), (X0 + "extract_tx_fee_rate_limit", 0, "default"),
    (X0 + "extract_tx_with_fee_rate_limit", 0, "arg"), (X0 + "extract_tx_unchecked_fee_rate", 0, None),
    (XM, 0, "final"),
]
LIMIT = S("limit")
DEFAULT_RATE = 25000 * 250      # 25 000 sat/vB in sat/kwu


def numeric(t, env):
    """value of an arithmetic term at a point | None"""
    if t in env:
        return env[t]
    if t.op == "k" and isinstance(t.a[0], int):
        return t.a[0]
    if t.op in ("sat", "wrap"):
        v = numeric(t.a[0], env)
        return None if v is None else (min(v, 2 ** 64 - 1) if t.op == "sat" else v % 2 ** 64)
    if t.op in ("add", "sub", "mul", "div", "min", "max"):
        a, b = numeric(t.a[0], env), numeric(t.a[1], env)
        if a is None or b is None or (t.op == "div" and b == 0):
            return None
        return {"add": a + b, "sub": a - b, "mul": a * b, "div": a // b if b else 0, "min": min(a, b), "max": max(a, b)}[t.op]
    return None


def rate_verdict(T, fee, tx):
    """is T the fee rate fee/weight(tx) in sat/kwu (rounded down)?"""
    if T.op == "app" and T.a[0].endswith("FeeRate::from_sat_per_kwu"):
        x = T.a[1]
    elif T.op == "agg" and T.a[1] == "FeeRate":
        x = T.a[2][0]
    elif T.op == "app" and T.a[0].split("::")[-1] in ("from_sat_per_vb_unchecked",):
        x = arith_("mul", T.a[1], 250)
    else:
        return None
    F = to_sat(fee)
    ws = [y for y in tm.find(x, lambda y: y.op == "app" and y.a[0].endswith("to_wu"))]
    if len(ws) != 1 or F not in tm.find(x, lambda y: y is F):
        if not tm.has_top(x) and not tm.find(x, lambda y: y.op in ("lv", "phi")) and x.op in ("k", "div", "mul", "sat"):
            return False
        return None
    W = ws[0]
    inner = W.a[1]
    if not (inner.op == "app" and inner.a[0].endswith("Transaction::weight")):
        return None
    if inner.a[1] is not tx:
        return None
    if x is mk("div", mk("sat", tm.arith("mul", F, K(1000))), W):
        return True
    for f, w in ((0, 400), (1, 401), (999, 561), (10 ** 6, 563), (12345678, 4001), (2 ** 63, 777), (2100 * 10 ** 12, 400)):
        v = numeric(x, {F: f, W: w})
        if v is None:
            return None
        if v != min(f * 1000, 2 ** 64 - 1) // w:
            return False
    return None


def arith_(op, a, n):
    return tm.arith(op, a, K(n))


def is_rate_const(t, n):
    x = t
    while x.op == "agg" and len(x.a[2]) == 1:
        x = x.a[2][0]
    if x.op == "k":
        return x.a[0] == n
    if t.op == "app" and t.a[1].op == "k":
        m = {"from_sat_per_vb_unchecked": 250, "from_sat_per_kwu": 1}.get(t.a[0].split("::")[-1])
        if m:
            return t.a[1].a[0] * m == n
    return None


@prop("C20")
def c20(ctx):
    """Every extraction entry point of both versions is interpreted for an arbitrary PSBT (and arbitrary limit), under all
    hypotheses about which of sequence / final script sig / final witness are present.  Obligations: each component of
    the returned transaction comes from the matching PSBT field; a limited extraction succeeds only when the fee rate
    of that very transaction is at most the limit, which is the parameter or 25 000 sat/vB, and fails only when it
    is above (or the fee is unknown); v2 extraction and the Extractor itself need every input finalized."""
    n = 0
    hyps2 = [[("sequence", a)] for a in (0, 1)]
    hyps0 = [[("final_script_sig", a), ("final_script_witness", b)] for a in (0, 1) for b in (0, 1)]
    for key, ver, lim in EXTRACT:
        if key not in ctx.prog.raw:
            continue
        n += 1
        w = where(ctx.prog, key)
        tag = key.split("psbt_v2::")[1] if lim != "final" else "v0::PsbtExt::extract"
        for hyp in (hyps2 if ver == 2 else hyps0):
            e, r = run_hyp(ctx, key, [SELF, LIMIT] if lim == "arg" else [SELF], hyp)
            root = fld(SELF, "0") if ver == 2 else SELF
            H = dict(hyp)
            oks = []
            for s, v in r:
                if is_err(v):
                    continue
                tx = v.a[2][0] if is_ok(v) else v
                oks.append((s, tx))
                if ver == 2:
                    seq = (lambda el: cseq(0xFFFFFFFF), "an absent sequence record means the final sequence number") \
                        if H["sequence"] == 0 else (seq_present, "the input's sequence record is used")
                    tx_obligations(ctx, e, tx, root, tag, w, seq,
                                   (lambda el: fld(fld(el, "final_script_sig"), "Some.0"),
                                    lambda el: fld(fld(el, "final_script_witness"), "Some.0")))
                    C = Classes(e, fld(root, "inputs"), ("final_script_sig", "final_script_witness"))
                    allow, _ = C.bound(s)
                    ctx.check(True if allow <= {(1, 1)} else False if vague_free(s) else None, tag + ":finalized",
                              "a transaction is returned only if every input is finalized", w, "input patterns %s" % sorted(allow))
                else:
                    v0_tx(ctx, e, tx, H, tag, w)
            if lim == "final" and H == {"final_script_sig": 0, "final_script_witness": 0}:
                e, r = run_hyp(ctx, key, [SELF], [])
                oks = [(s, v.a[2][0]) for s, v in r if is_ok(v)]
                C = Classes(e, fld(root, "inputs"), ("final_script_sig", "final_script_witness"))
                for s, tx in oks:
                    allow, _ = C.bound(s)
                    ctx.check(True if (0, 0) not in allow else False if vague_free(s) else None, tag + ":finalized",
                              "a transaction is returned only if every input has a final script sig or witness", w,
                              "input patterns %s" % sorted(allow))
            ctx.check(True if oks else None, tag + ":reaches-ok", "some path returns a transaction", w)
            if lim in (None, "final"):
                continue
            fee_rule(ctx, e, r, tag, w, root, lim)
        if ver == 2:
            for s, v in r:
                if is_err(v) and "nfinal" in errname(v):
                    C = Classes(e, fld(root, "inputs"), ("final_script_sig", "final_script_witness"))
                    _, ex = C.bound(s)
                    ctx.check(True if any((1, 1) not in x for x in ex) else None, tag + ":unfinalized-error",
                              "extraction reports an unfinalized PSBT only if some input is not finalized", w, tm.show(v))
    key = X2 + "new"
    if key in ctx.prog.raw:
        n += 1
        e, r = run_hyp(ctx, key, [SELF], [])
        w = where(ctx.prog, key)
        for s, v in r:
            C = Classes(e, fld(SELF, "inputs"), ("final_script_sig", "final_script_witness"))
            allow, ex = C.bound(s)
            if is_ok(v):
                ctx.check(True if allow <= {(1, 1)} else False if vague_free(s) else None, "Extractor::new:finalized",
                          "an Extractor exists only for a PSBT whose inputs are all finalized", w, "input patterns %s" % sorted(allow))
                ctx.check(same(fld(v.a[2][0], "0"), SELF), "Extractor::new:psbt", "the Extractor holds the PSBT it was given", w)
                ctx.check(dlt_ok(s, SELF), "Extractor::new:lock_time", "an Extractor exists only if the lock time can be determined", w)
            elif is_err(v) and "NotFinalized" in errname(v):
                ctx.check(True if any((1, 1) not in x for x in ex) else None, "Extractor::new:err",
                          "a finalized PSBT is not refused as unfinalized", w)
    if not n:
        ctx.und("anchor", "function present", "extract_tx", "no extraction entry point found")


def vague_free(s):
    return not any(tm.has_top(t) for t in s.facts)


def dlt_ok(s, root):
    for t, v in s.facts.items():
        if t.op == "discr" and t.a[0].op == "app" and t.a[0].a[0].endswith("determine_lock_time") and t.a[0].a[1] is root:
            return v == 0
    return False if vague_free(s) else None


def v0_tx(ctx, e, tx, H, tag, w):
    U = fld(SELF, "unsigned_tx")
    for f in ("version", "lock_time", "output"):
        x = fld(tx, f)
        ctx.check(same(x, fld(U, f)), "%s:%s" % (tag, f), "the %s of the unsigned transaction is kept" % f, w, tm.show(x)[:200])
    r = elems(e, fld(tx, "input"))
    if r is None:
        ctx.und(tag + ":input", "one transaction input per unsigned input", w, tm.show(fld(tx, "input"))[:200])
        return
    es, lens = r
    ln = {length(fld(U, "input")), length(fld(SELF, "inputs"))}
    ctx.check(covers(lens, ln), tag + ":input.count", "every input gets its signature data", w, str([tm.show(x) for x in lens])[:300])
    ui = mk("at", fld(U, "input"), IXC)
    el = mk("at", fld(SELF, "inputs"), IXC)
    for x in es:
        for f in ("previous_output", "sequence"):
            ctx.check(same(fld(x, f), fld(ui, f)), "%s:input.%s" % (tag, f), "the input's %s is kept" % f, w, tm.show(fld(x, f))[:200])
        for f, m in (("script_sig", "final_script_sig"), ("witness", "final_script_witness")):
            y = fld(x, f)
            rule = "the extracted %s is the input's %s, or empty without one" % (f, m)
            if H[m]:
                c = False if is_empty(y) else same(y, fld(fld(el, m), "Some.0"))
            else:
                c = True if y is fld(ui, f) else is_empty(y)     # an unsigned transaction has none (C07)
            ctx.check(c, "%s:input.%s" % (tag, f), rule, w, tm.show(y)[:200])


def fee_rule(ctx, e, r, tag, w, root, lim):
    for s, v in r:
        feeres = [t.a[0] for t in s.facts if t.op == "discr" and t.a[0].op == "app" and t.a[0].a[0].endswith("::fee")]
        fr = feeres[0] if feeres else None
        cmps = []
        for t, b in s.facts.items():
            if t.op == "lt" and isinstance(b, int):
                for i in (0, 1):
                    x, y = t.a[i], t.a[1 - i]
                    if tm.find(y, lambda z: z.op == "app" and z.a[0].endswith("::fee")):
                        cmps.append((x, y, i, b))
        rule = "success only if the fee rate of the returned transaction is at most the limit"
        if is_ok(v):
            tx = v.a[2][0]
            if fr is None:
                ctx.check(False if vague_free(s) and not cmps else None, tag + ":fee", "the fee is computed before a limited extraction succeeds", w)
                continue
            ctx.check(same(fr.a[1], root), tag + ":fee", "the fee is that of this PSBT", w, tm.show(fr)[:150])
            ctx.check(s.facts.get(disc(fr)) == 0, tag + ":fee-ok", "no success when the fee cannot be computed", w)
            if not cmps:
                ctx.check(False if vague_free(s) else None, tag + ":limit", rule, w, "no comparison of the fee rate with the limit on this path")
                continue
            for x, y, i, b in cmps:
                # i == 0: x < y (limit < rate) is b
                good = (i == 0 and b == 0) or (i == 1 and b == 1)
                if i == 1 and b == 1:
                    ctx.bad(tag + ":limit", "a fee rate equal to the limit is accepted", w, "success requires rate < limit")
                ctx.check(good, tag + ":limit", rule, w, "success although limit < rate" if not good else "")
                ctx.check(rate_verdict(y, fld(fr, "Ok.0"), tx), tag + ":rate",
                          "the fee rate is fee * 1000 / weight of the returned transaction", w, tm.show(y)[:300])
                if lim == "arg":
                    ctx.check(True if x is LIMIT else (None if tm.find(x, lambda z: z.op in ("app", "phi")) else False), tag + ":limit-value",
                              "the limit is the caller's", w, tm.show(x)[:100])
                else:
                    ctx.check(is_rate_const(x, DEFAULT_RATE), tag + ":limit-value", "the default limit is 25 000 sat/vB", w, tm.show(x)[:100])
        elif is_err(v):
            nm = errname(v)
            toohigh = "FeeTooHigh" in nm or ("AbsurdFeeRate" in nm)
            if toohigh and fr is not None and s.facts.get(disc(fr)) == 0:
                ctx.check(True if any((i == 0 and b == 1) for x, y, i, b in cmps) else (None if not cmps else False), tag + ":too-high",
                          "the fee rate is reported as too high only if it is above the limit", w, nm)
            elif fr is not None and s.facts.get(disc(fr)) == 0 and not any(
                    x in nm for x in ("nfinal", "LockTime")):
                ctx.und(tag + ":errors", "no other error when the fee is known", w, nm)

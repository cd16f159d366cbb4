"""C29 index arguments, C30 which output an input spends, C36 checks before signing a version 0 PSBT."""
from engine.check import prop
from engine import terms as tm, models
from engine.ai import Engine, Budget
from engine.terms import fld, disc, mk, length, K
from .lib import *
from .table import Lit, eqs, decide, cstr, factdict, related

V2P = "psbt_v2::v2::Psbt"
V0P = "psbt_v2::v0::bitcoin::Psbt"


def is_val(text):
    """the successful result is the value with this text"""
    def f(s, v):
        if not is_ok(v):
            return False if is_err(v) else None
        x = v.a[2][0]
        if x.op == "phi":
            return all(cstr(y) in text for y in x.a[0]) or None
        if tm.has_top(x):
            return None
        return cstr(x) in text
    return f


def fails(s, v):
    return True if is_err(v) else False if is_ok(v) else None


# ---------------------------------------------------------------- C30
def utxo_rows(inp, op, txid, suffix=""):
    """decision table for the output spent by input `inp` whose outpoint is `op`"""
    wu, nw = inp + ".witness_utxo", inp + ".non_witness_utxo"
    n = nw + ".Some.0"
    vout = op[1]
    W1, W0 = Lit("discr(%s)" % wu, 1), Lit("discr(%s)" % wu, 0)
    N1, N0 = Lit("discr(%s)" % nw, 1), Lit("discr(%s)" % nw, 0)
    same = eqs(("compute_txid(%s)" % n, op[0]))
    T1, T0 = Lit(same, 1, (n, op[0])), Lit(same, 0, (n, op[0]))
    lt = "lt(%s, len(%s.output))" % (vout, n)
    I1, I0 = Lit(lt, 1, (vout,)), Lit(lt, 0, (vout,))
    good = [W0, N1] + ([T1] if txid else [])
    rows = [
        ("witness-utxo", [W1], is_val([wu + ".Some.0" + suffix]), "a witness UTXO is present, so it is the spent output"),
        ("none", [W0, N0], fails, "no UTXO is present, so the lookup must fail"),
        ("out-of-range", good + [I0], fails, "the previous transaction has no such output, so the lookup must fail"),
        ("previous-output", good + [I1], is_val(["%s.output[%s]%s" % (n, vout, suffix)]),
         "the spent output is the one the outpoint names in the previous transaction"),
    ]
    if txid:
        rows.append(("txid", [W0, N1, T0], fails, "the previous transaction is not the one the input names, so the "
                     "lookup must fail"))
    return rows


@prop("C30")
def c30(ctx):
    """For every function that tells which output an input spends, every path is compared with the decision table of
    the property: witness UTXO if present, otherwise the output that the outpoint names in the previous transaction
    (version 2: only when its txid is the input's), otherwise an error."""
    p = ctx.prog
    # version 2
    cand = [("v2.Input::funding_utxo", V2P.replace("Psbt", "map::input::Input::funding_utxo"), None,
             ("self", ("self.previous_txid", "self.spent_output_index"), True, "")),
            ("v2.Psbt::iter_funding_utxos", V2P + "::iter_funding_utxos", "it",
             ("self.inputs[*]", ("self.inputs[*].previous_txid", "self.inputs[*].spent_output_index"), True, "")),
            ("v0.Psbt::spend_utxo", V0P + "::spend_utxo", None,
             ("self.inputs[input_index]", ("self.unsigned_tx.input[input_index].previous_output.txid",
                                           "self.unsigned_tx.input[input_index].previous_output.vout"), False, "")),
            ("v0.Psbt::iter_funding_utxos", V0P + "::iter_funding_utxos", "it",
             ("self.inputs[*]", ("self.unsigned_tx.input[*].previous_output.txid",
                                 "self.unsigned_tx.input[*].previous_output.vout"), False, "")),
            ("v0.finalizer::get_utxo", "psbt_v2::v0::miniscript::finalizer::get_utxo", None,
             ("psbt.inputs[index]", ("psbt.unsigned_tx.input[index].previous_output.txid",
                                     "psbt.unsigned_tx.input[index].previous_output.vout"), False, "")),
            ("v0.finalizer::get_scriptpubkey", "psbt_v2::v0::miniscript::finalizer::get_scriptpubkey", None,
             ("psbt.inputs[index]", ("psbt.unsigned_tx.input[index].previous_output.txid",
                                     "psbt.unsigned_tx.input[index].previous_output.vout"), False, ".script_pubkey"))]
    for name, key, how, (inp, op, txid, suf) in cand:
        if key not in p.raw:
            if "finalizer" not in name:
                ctx.check(None, name, "the function exists", "", "no body for " + key)
            continue
        e = Engine(p, cap=40)
        st = e.run(key)
        if how == "it":
            out = []
            for s, v in st:
                for s2, x in models.nxt(e, s, v, ("probe",)) if v.op == "it" else [(s, v)]:
                    if x is not None and x != "skip":
                        out.append((s2, e.snap(s2, x)))
                    elif x == "skip":
                        ctx.bad(name + ":skip", "every input yields an item", where(p, key), "an input yields no item")
            st = out
        ctx.used(e)
        ctx.count("paths", len(st))
        rows = utxo_rows(inp, op, txid, suf)
        # paths on which the index is refused are C29's
        st = [(s, v) for s, v in st if not any(t.op == "lt" and v2 == 0 and t.a[0].op == "sym" for t, v2 in s.facts.items()
                                               if cstr(t) != "lt(%s, len(%s.non_witness_utxo.Some.0.output))" % (op[1], inp))]
        for s, v in st:
            # an index made from the outpoint's 32-bit number by dropping bits names another output for some inputs
            narrow = tm.find(v, lambda x: x.op == "at" and x.a[1].op == "cast"
                             and str(x.a[1].a[0]) in ("u8", "u16", "i8", "i16") and cstr(x.a[1].a[1]) == op[1])
            if narrow:
                ctx.bad(name + ":index", "the output is looked up at the outpoint's own index", where(p, key),
                        "the output is looked up at %s" % cstr(narrow[0])[:200])
        decide(ctx, e, name, "the reported output is the one the input spends", st, rows, where(p, key))


# ---------------------------------------------------------------- C36
def bad_conditions():
    i = "self.inputs[*]"
    wu, nw, rs, ws = (i + "." + f for f in ("witness_utxo", "non_witness_utxo", "redeem_script", "witness_script"))
    spk = wu + ".Some.0.script_pubkey"
    r, w = rs + ".Some.0", ws + ".Some.0"
    txid = "self.unsigned_tx.input[*].previous_output.txid"

    def D(x, v):
        return Lit("discr(%s)" % x, v)
    same = eqs(("compute_txid(%s.Some.0)" % nw, txid))
    rsh = eqs(("new_p2sh(script_hash(%s))" % r, spk), ("to_p2sh(%s)" % r, spk))
    wwsh = eqs(("new_p2wsh(wscript_hash(%s))" % w, spk), ("to_p2wsh(%s)" % w, spk))
    wsh = eqs(("new_p2wsh(wscript_hash(%s))" % w, r), ("to_p2wsh(%s)" % w, r))
    P1, P0 = Lit("is_p2wsh(%s)" % spk, 1, (spk,)), Lit("is_p2wsh(%s)" % spk, 0, (spk,))
    H1 = Lit("is_p2sh(%s)" % spk, 1, (spk,))
    ot = "output_type(self, *)"
    return [
        ("txid", [D(nw, 1), Lit(same, 0, (nw + ".Some.0", txid))], "the non-witness UTXO is not the transaction the input names"),
        ("redeem-no-utxo", [D(rs, 1), D(wu, 0)], "a redeem script without a witness UTXO"),
        ("redeem-hash", [D(rs, 1), D(wu, 1), Lit(rsh, 0, (r, spk))], "the redeem script does not hash to the witness UTXO's script"),
        ("witness-no-utxo", [D(ws, 1), D(wu, 0)], "a witness script without a witness UTXO"),
        ("witness-hash", [D(ws, 1), D(wu, 1), P1, Lit(wwsh, 0, (w, spk))], "the witness script does not hash to the witness UTXO's script"),
        ("nested-hash", [D(ws, 1), D(wu, 1), P0, H1, D(rs, 1), Lit(wsh, 0, (w, r))], "the witness script does not hash to the redeem script"),
        ("legacy", [D(wu, 1), Lit("discr(%s)" % ot, 0, (ot,)), Lit("discr(%s.Ok.0)" % ot, (0, 5), (ot,))],
         "a witness UTXO for an input that takes a legacy signature"),
    ]


@prop("C36")
def c36(ctx):
    """signer_checks is interpreted for an arbitrary PSBT.  Every way through one arbitrary iteration of its loop over
    the inputs must contradict each of the conditions under which the property forbids signing, the loop must reach
    every input before success, and every refusal must be on a path on which one of the conditions holds."""
    p = ctx.prog
    key = next((k for k in p.raw if k.endswith("::signer_checks") and "v0" in k), None)
    if key is None:
        ctx.check(None, "signer_checks", "the function exists", "", "not found")
        return
    w = where(p, key)
    e = Engine(p, cap=80, opaque=opaque_names("Psbt::output_type"))
    st = e.run(key)
    ctx.used(e)
    ctx.count("paths", len(st))
    bads = bad_conditions()
    known = {a for _, ls, _ in bads for l in ls for a in l.alts}
    # which pairs of output kinds are legacy: read from the type, so that the numbers above are not assumed
    its = [it for d, x in p.item.items() if d.endswith("::OutputType") and "v0" in d for it in x if it.get("variants")]
    names = [v["n"] for v in its[0]["variants"]] if its else []
    if names and (names[0] != "Bare" or names[5] != "Sh"):
        legacy = {i for i, n in enumerate(names) if n in ("Bare", "Sh")}
        bads[-1][1][-1].vals = legacy
    lst = fld(S("self"), "inputs")
    for name, ls, text in bads:
        def contradicted(s, el, ix):
            fd = factdict(s)
            vs = [l.value(fd) for l in ls]
            if False in vs:
                return True
            if None in vs and (e.joins or related(s, fd, [l for l, x in zip(ls, vs) if x is None], known)):
                return None
            return False
        for s, v in st:
            if is_ok(v):
                r = forall(e, s, lambda l: l is lst, contradicted)
                ctx.check(r, "accept:" + name, "acceptance excludes this condition for every input", w,
                          "accepted although not excluded for every input: " + text)
            elif not is_err(v):
                ctx.check(None, "accept:" + name, "the result is Ok or Err", w, tm.show(v)[:200])
    for s, v in st:
        if not is_err(v):
            continue
        fd = factdict(s)
        best = False
        for name, ls, text in bads:
            vs = [l.value(fd) for l in ls]
            if all(x is True for x in vs):
                best = True
                break
            if False not in vs and (e.joins or related(s, fd, [l for l, x in zip(ls, vs) if x is None], known)):
                best = None
        ctx.check(best, "refuse:" + errname(v), "a refusal names a condition that holds", w,
                  "refused on a path where none of the forbidden conditions holds: " + tm.show(v)[:100])
    if not any(is_ok(v) for s, v in st):
        ctx.bad("accept", "some PSBT is accepted", w, "no path accepts")


# ---------------------------------------------------------------- C29
def psbt_param(prog, r):
    """[(argument number, path of the PSBT inside it, version)]"""
    from .roles import comps, is_psbt
    out = []
    for i in range(1, r["argc"] + 1):
        ti = r["locals"][i]
        t = prog.types[ti]
        if t.get("k") == "ref":
            ti = t["to"]
        for d, ver in ((V2P, "v2"), (V0P, "v0")):
            for path, _, _ in comps(prog, ti, lambda x: x == d):
                out.append((i, path, ver))
    return out


def index_functions(prog):
    for key, r in sorted(prog.raw.items()):
        if " @" in key or "|" in key or "{closure" in key or "promoted[" in key or not r.get("local", True):
            continue
        if not any(i.get("reach") for i in prog.item.get(r["path"], [])):
            continue
        if r["path"] in prog.derived or key.endswith("<&bitcoin::blockdata::transaction::Transaction>"):
            continue
        ix = [i for i in range(1, r["argc"] + 1) if prog.types[r["locals"][i]]["s"] == "usize"]
        ps = psbt_param(prog, r)
        if len(ix) == 1 and ps:
            yield key, r, ix[0], ps[0]


def index_error(v):
    import re
    return tm.find(v, lambda x: x.op == "agg" and re.search(r"(index|idx)outof", (str(x.a[0]) + str(x.a[1])).lower())) \
        if is_err(v) else []


@prop("C29")
def c29(ctx):
    """Every exported function that takes a PSBT and one index is interpreted twice: once for an arbitrary index outside
    the addressed list, where no path may panic, succeed or change the PSBT, and once for an index inside it, where no
    path may refuse the index and no list access by it may fail."""
    p = ctx.prog
    n = 0
    for key, r, ixn, (pn, path, ver) in index_functions(p):
        b = p.body(key)
        w = where(p, key)
        short = key.split("<T>")[0].rstrip(":")
        short = "::".join(x for x in (ver, short.split("::")[-2] if "::" in short else "", short.split("::")[-1].rstrip(">")) if x)
        ret = p.types[r["locals"][0]]
        if not ret["s"].startswith(("core::result::Result", "core::option::Option")):
            # the index is only stored; the documentation of PsbtInputSatisfier requires a valid one
            e = Engine(p, cap=40)
            rs = e.run(key)
            ctx.used(e)
            ctx.check(not [l for l in e.log if l["kind"] in ("assert", "panic", "unwrap")], "plain:" + short,
                      "a function that cannot report an error does not use the index to access a list", w, "it may panic")
            continue
        n += 1
        out = "output" in (b.argnames.get(ixn, "") + key.split("::")[-1])
        psbt = S(b.argnames.get(pn, "arg%d" % (pn - 1)))
        old = psbt
        for q in path:
            old = fld(old, q)
        lst = length(fld(old, "outputs" if out else "inputs"))
        ix = S(b.argnames.get(ixn, "arg%d" % (ixn - 1)))
        e = Engine(p, cap=40)
        rs = e.run(key, assume=[(mk("lt", ix, lst), 0)])
        ctx.used(e)
        ctx.count("paths", len(rs))
        bad = [l for l in e.log if l["kind"] in ("assert", "panic", "unwrap")]
        ctx.check(not bad, "panic:" + short, "an index outside the list does not panic", w,
                  "may panic at %s" % (bad[0]["loc"] if bad else ""))
        for s, v in rs:
            okv = True if is_err(v) or (v.op == "agg" and v.a[1] == "None") else False if v.op == "agg" else None
            ctx.check(okv, "refused:" + short, "an index outside the list is refused", w, "returns %s" % tm.show(v)[:200])
            if p.types[r["locals"][pn]].get("mut"):
                c = e.content(s, psbt)
                ctx.check(c is psbt, "changed:" + short, "a refused index changes nothing", w,
                          "the PSBT becomes %s" % tm.show(c)[:200])
        # index inside the list
        e = Engine(p, cap=40, opaque=opaque_names("finalize_input_helper", "finalize_input_helper::<C>", "sighash_taproot::<T>",
                                                  "interpreter_inp_check", "update_item_with_descriptor_helper"))
        asm = [(mk("lt", ix, lst), 1)]
        if ver == "v0":
            asm.append((mk("lt", ix, length(fld(fld(old, "unsigned_tx"), "output" if out else "input"))), 1))
        else:
            asm.append((mk("lt", ix, fld(fld(old, "global"), "output_count" if out else "input_count")), 1))
        try:
            rs = e.run(key, assume=asm)
        except Budget:
            ctx.check(None, "inside:" + short, "an index inside the list is not refused", w, "too large to interpret")
            continue
        ctx.used(e)
        ctx.count("paths", len(rs))
        ref = [v for s, v in rs if index_error(v)]
        ctx.check(not ref, "inside:" + short, "an index inside the list is not refused", w,
                  "returns %s" % (tm.show(ref[0])[:200] if ref else ""))
        bad = [l for l in e.log if l["kind"] == "assert" and l.get("name") == "bounds" and ix in (l["args"] or ())]
        ctx.check(not bad, "access:" + short, "an index inside the list accesses it without a panic", w,
                  "may panic at %s" % (bad[0]["loc"] if bad else ""))
    ctx.check(n >= 8 or None, "functions", "the exported functions with an index are found", "", "only %d found" % n)
    ctx.count("functions_with_index", n)

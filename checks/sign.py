"""C15 provenance of signatures, C16 sighash per output type, C17 tx-modifiable flags after signing."""
from engine.check import prop
from engine import terms as tm
from engine.ai import Engine
from engine.terms import fld, disc, mk, length
from .lib import *

V2P, V0P = "psbt_v2::v2::Psbt::", "psbt_v2::v0::bitcoin::Psbt::"


def bits(t, env):
    """value of a bit-manipulation term | None"""
    if t in env:
        return env[t]
    if t.op == "k" and isinstance(t.a[0], int):
        return t.a[0]
    if t.op == "cast":
        return bits(t.a[1], env)
    if t.op == "bnot":
        v = bits(t.a[0], env)
        return None if v is None else v ^ 0xFF
    if t.op in ("band", "bor", "bxor", "add", "sub", "mul", "shl", "shr"):
        a, b = bits(t.a[0], env), bits(t.a[1], env)
        if a is None or b is None:
            return None
        return {"band": a & b, "bor": a | b, "bxor": a ^ b, "add": a + b, "sub": a - b, "mul": a * b,
                "shl": a << b, "shr": a >> b}[t.op] & 0xFF
    return None


def want_flags(f, ty):
    if not ty & 0x80:
        f &= ~1
    if ty & 0x1F != 2:
        f &= ~2
    if ty & 0x1F == 3:
        f |= 4
    return f & 0xFF


ECDSA = {0x01: "ALL", 0x02: "NONE", 0x03: "SINGLE", 0x81: "ALL|ACP", 0x82: "NONE|ACP", 0x83: "SINGLE|ACP"}


def root_value(s, sym):
    v = s.mem.get(("D", sym))
    return sym if v is None else v


def flags_verdict(new, old, ty):
    """do the flags become what BIP-370 asks?  (True/False/None, detail)"""
    for f in range(256):
        v = bits(new, {old: f})
        if v is None:
            return None, tm.show(new)[:200]
        if v != want_flags(f, ty):
            return False, "flags 0x%02x become 0x%02x, expected 0x%02x" % (f, v, want_flags(f, ty))
    return True, ""


@prop("C17")
def c17(ctx):
    """The explicit flag update and the ECDSA signing of one input are interpreted for an arbitrary PSBT once per standard
    sighash type.  Whenever a signature was added, the resulting tx-modifiable flags, as a term over the old flags,
    are compared with BIP-370's rule for all 256 old values; when none was added they must be unchanged."""
    key = "psbt_v2::v2::Signer::ecdsa_clear_tx_modifiable"
    n = 0
    if key in ctx.prog.raw:
        w = where(ctx.prog, key)
        for ty, nm in ECDSA.items():
            TYS = S("ty")

            def orc(t, ty=ty):
                return ty if t.op == "discr" and t.a[0] is TYS else None
            e = Engine(ctx.prog, cap=60, oracle=orc)
            r = e.run(key, args=[SELF, TYS])
            ctx.used(e)
            ctx.count("paths", len(r))
            for s, v in r:
                n += 1
                new = root_value(s, SELF)
                old = fld(fld(SELF, "0"), "global")
                for pth, kind, o, x in diffs(SELF, new):
                    if pth[:2] == ("0", "global") and pth[2:] == ("tx_modifiable_flags",):
                        continue
                    ctx.check(None if kind == "?" else False, "explicit:%s:other" % nm, "only the modifiable flags change", w,
                              "%s changes" % (pth,))
                c, d = flags_verdict(fld(fld(fld(new, "0"), "global"), "tx_modifiable_flags"), fld(old, "tx_modifiable_flags"), ty)
                ctx.check(c, "explicit:%s" % nm, "flags after a %s signature follow BIP-370" % nm, w, d)
    key = V2P + "bip32_sign_ecdsa::<C, K, T>"
    if key in ctx.prog.raw:
        w = where(ctx.prog, key)
        ks = params(ctx.prog, key)
        for ty, nm in ECDSA.items():
            def orc(t, ty=ty):
                if t.op == "discr" and t.a[0].op == "fld" and tm.show(t.a[0].a[0]).startswith("sighash_ecdsa(") and \
                        t.a[0].a[1] in ("Ok.0.1", "1"):
                    return ty
                return None
            e = Engine(ctx.prog, cap=60, opaque=opaque_names("::sighash_ecdsa", "get_key"), oracle=orc)
            r = e.run(key)
            ctx.used(e)
            ctx.count("paths", len(r))
            fl = fld(fld(SELF, "global"), "tx_modifiable_flags")
            for s, v in r:
                n += 1
                new = fld(fld(root_value(s, SELF), "global"), "tx_modifiable_flags")
                if is_err(v):
                    ctx.check(True if new is fl else None, "sign:%s:error" % nm, "a failed signing leaves the flags alone", w, tm.show(new)[:200])
                    continue
                if not is_ok(v):
                    ctx.und("sign:%s" % nm, "result of signing", w, tm.show(v)[:200])
                    continue
                used = v.a[2][0]
                ln = length(used)
                f = s.facts.get(ln)
                empty = ln is K(0) or f == 0
                nonempty = not empty and (isinstance(f, (frozenset, set)) and 0 in f or (used.op == "seq" and f is None and
                                          s.facts.get(mk("lt", K(0), ln)) == 1))
                if empty:
                    ctx.check(True if new is fl else (False if bits(new, {fl: 0}) is not None else None), "sign:%s:unsigned" % nm,
                              "flags are unchanged when nothing was signed", w, tm.show(new)[:200])
                elif nonempty:
                    c, d = flags_verdict(new, fl, ty)
                    ctx.check(c, "sign:%s" % nm, "flags after a %s signature follow BIP-370" % nm, w, d)
                else:
                    # the path does not distinguish: some signature may have been added
                    if any(t.op == "lv" for t in s.facts):
                        ctx.und("sign:%s" % nm, "flags follow BIP-370", w, "whether something was signed is tracked by a loop-carried value")
                        continue
                    noop = all(want_flags(x, ty) == x for x in range(256))
                    if new is fl:
                        ctx.check(noop if used.op == "seq" and used.a[1] else None, "sign:%s" % nm,
                                  "flags after a %s signature follow BIP-370" % nm, w, "flags unchanged although keys were used")
                    else:
                        maybe = used.op == "seq" and used.a[0] is None and used.a[1] and all(x.op in ("may", "each") for x in used.a[1])
                        ctx.check(False if maybe and bits(new, {fl: 0}) is not None else None, "sign:%s:unsigned" % nm,
                                  "flags are unchanged when nothing was signed", w, tm.show(new)[:200])
    if not n:
        ctx.und("anchor", "function present", "clear_tx_modifiable", "no function updating the flags found")


def params(prog, key):
    return None


# ---------------------------------------------------------------- C16
IDX = S("input_index")
CACHE = S("cache")
LEAF = S("leaf_hash")
PRED = ("is_witness_program", "is_p2wpkh", "is_p2wsh", "is_p2sh", "is_p2tr", "is_p2pkh", "is_p2pk")
SPK = {"bare": (), "p2wpkh": ("is_witness_program", "is_p2wpkh"), "p2wsh": ("is_witness_program", "is_p2wsh"),
       "p2sh": ("is_p2sh",), "p2tr": ("is_witness_program", "is_p2tr"), "other-witness": ("is_witness_program",)}
RED = {"absent": None, "p2wpkh": ("is_witness_program", "is_p2wpkh"), "p2wsh": ("is_witness_program", "is_p2wsh"),
       "other": ()}


def has_vague(t):
    return tm.has_top(t) or bool(tm.find(t, lambda y: y.op in ("lv", "phi", "default")))


def ecdsa_cases():
    for spk in SPK:
        for red in (RED if spk == "p2sh" else ("absent",)):
            yield spk, red


@prop("C16")
def c16(ctx):
    """sighash_ecdsa of both versions is interpreted for an arbitrary PSBT and input index under every combination of
    funding record kind, script pubkey class, redeem script class, presence of a witness script and of a sighash
    type.  The message must be the hash consensus verification uses for that output type, computed for this input
    with the right script code, the funding output's value and the input's sighash type (ALL when absent).  The
    taproot hash of version 0 is interpreted for all seven sighash types, key and script path."""
    n = 0
    for key, ver in ((V2P + "sighash_ecdsa::<T>", 2), (V0P + "sighash_ecdsa::<T>", 0)):
        if key not in ctx.prog.raw:
            continue
        w = where(ctx.prog, key)
        inp = tm.at(fld(SELF, "inputs"), IDX)
        for wit in (1, 0):
            if wit:
                U = fld(fld(inp, "witness_utxo"), "Some.0")
            else:
                vout = fld(inp, "spent_output_index") if ver == 2 else \
                    fld(fld(tm.at(fld(fld(SELF, "unsigned_tx"), "input"), IDX), "previous_output"), "vout")
                U = tm.at(fld(fld(fld(inp, "non_witness_utxo"), "Some.0"), "output"), vout)
            spkt = fld(U, "script_pubkey")
            redt = fld(fld(inp, "redeem_script"), "Some.0")
            wst = fld(fld(inp, "witness_script"), "Some.0")
            for spk, red in ecdsa_cases():
                for ws in (0, 1):
                    for sh in (0, 1):
                        preds = {}
                        for p_ in PRED:
                            preds[p_, spkt] = int(p_ in SPK[spk])
                            if RED[red] is not None:
                                preds[p_, redt] = int(p_ in RED[red])
                        dd = {disc(fld(inp, "witness_utxo")): wit, disc(fld(inp, "non_witness_utxo")): 1 - wit,
                              disc(fld(inp, "redeem_script")): int(RED[red] is not None),
                              disc(fld(inp, "witness_script")): ws, disc(fld(inp, "sighash_type")): sh}

                        def orc(t):
                            if t in dd:
                                return dd[t]
                            if t.op == "app" and len(t.a) > 1 and isinstance(t.a[0], str):
                                return preds.get((t.a[0].split("::")[-1], t.a[1]))
                            return None
                        n += 1
                        sighash_case(ctx, key, ver, w, inp, U, (spk, red, ws, sh, wit), orc, redt, wst)
    for key in sorted(k for k in ctx.prog.raw if k.startswith(V0P + "sighash_taproot::<T>") and "closure" not in k and "promoted" not in k):
        n += taproot_cases(ctx, key)
    if not n:
        ctx.und("anchor", "function present", "sighash_ecdsa", "missing")


def hash_type_ok(t, present, raw):
    """is t the ECDSA sighash type the input asks for?  raw: the stored u32"""
    if not present:
        if t.op == "agg" and t.a[1] == "All":
            return True
        if t.op == "k":
            return t.a[0] == 1
        if t.op == "fld" and t.a[1] == "Ok.0" and t.a[0].op == "app" and t.a[0].a[1] is K(1):
            return True
        if t.op == "agg":
            return False
        return None
    cs = calls_of(t, "from_standard")
    if len(cs) == 1 and cs[0].a[1] is raw and t is fld(cs[0], "Ok.0"):
        return True
    if t.op == "agg" and not t.a[2]:
        return False
    if not has_vague(t) and not tm.find(t, lambda y: y is raw):
        return False
    return None


def sighash_case(ctx, key, ver, w, inp, U, case, orc, redt, wst):
    spk, red, ws, sh, wit = case
    kind = {"bare": "bare", "p2wpkh": "wpkh", "p2wsh": "wsh", "p2tr": None, "other-witness": None}.get(spk)
    if spk == "p2sh":
        kind = {"absent": None, "p2wpkh": "shwpkh", "p2wsh": "wsh", "other": "sh"}[red]
    if kind == "wsh" and not ws:
        kind = None
    fn, script = {"bare": ("legacy_signature_hash", fld(U, "script_pubkey")), "sh": ("legacy_signature_hash", redt),
                  "wpkh": ("p2wpkh_signature_hash", fld(U, "script_pubkey")), "shwpkh": ("p2wpkh_signature_hash", redt),
                  "wsh": ("p2wsh_signature_hash", wst), None: (None, None)}[kind]
    tag = "v%d:%s%s%s%s" % (ver, spk, "" if spk != "p2sh" else "/" + red, "/ws" if ws else "", "" if wit else "/nonwit")
    e = Engine(ctx.prog, cap=40, oracle=orc)
    r = e.run(key, args=[SELF, IDX, CACHE])
    ctx.used(e)
    ctx.count("paths", len(r))
    nok = 0
    raw = fld(fld(fld(inp, "sighash_type"), "Some.0"), "inner")
    for s, v in r:
        if is_err(v):
            continue
        rule = "a %s output is signed with %s" % (tag, fn or "nothing: no sighash exists")
        if not is_ok(v):
            ctx.und(tag, rule, w, tm.show(v)[:200])
            continue
        nok += 1
        if kind is None:
            ctx.bad(tag, rule, w, "returns " + tm.show(v)[:200])
            continue
        msg, ty = fld(v.a[2][0], "0"), fld(v.a[2][0], "1")
        calls = [c for c in tm.find(msg, lambda y: y.op == "app" and y.a[0].split("::")[-1].endswith("_signature_hash"))]
        if len(calls) != 1 or not tm.find(msg, lambda y: y is fld(calls[0], "Ok.0")):
            vague = has_vague(msg) or len(calls) > 1
            ctx.check(None if vague else False, tag, rule, w, tm.show(msg)[:300])
            continue
        c = calls[0]
        name = c.a[0].split("::")[-1]
        ctx.check(name == fn, tag + ":hash", rule, w, "uses " + name)
        if name != fn:
            continue
        args = c.a[1:]
        exp = [("input", args[1], IDX), ("script", args[2], script)]
        if fn != "legacy_signature_hash":
            exp.append(("value", args[3], fld(U, "value")))
        for nm, got, want in exp:
            ctx.check(True if got is want else (None if has_vague(got) else False), tag + ":" + nm,
                      "the hash of a %s output commits to %s" % (tag, {"input": "this input", "script": "its script code",
                                                                       "value": "the funding output's value"}[nm]), w,
                      "%s, expected %s" % (tm.show(got)[:200], tm.show(want)[:200]))
        ht = args[4] if len(args) > 4 else args[3]
        if fn == "legacy_signature_hash":
            if ht.op == "app" and ht.a[0].split("::")[-1] == "to_u32":
                ht = ht.a[1]
            elif ht.op == "cast" and ht.a[1].op == "discr":
                ht = ht.a[1].a[0]
        rl = "the sighash type is the input's, ALL when absent"
        for nm, t in (("hash", ht), ("returned", ty)):
            ctx.check(hash_type_ok(t, sh, raw), tag + ":type:" + nm, rl, w, tm.show(t)[:200])
    if kind is not None:
        ctx.check(True if nok else None, tag + ":reachable", "a sighash is produced for a %s output" % tag, w)


TAP = {0: "Default", 1: "All", 2: "None", 3: "Single", 0x81: "AllPlusAnyoneCanPay", 0x82: "NonePlusAnyoneCanPay",
       0x83: "SinglePlusAnyoneCanPay"}


def taproot_cases(ctx, key):
    w = where(ctx.prog, key)
    inp = tm.at(fld(SELF, "inputs"), IDX)
    n = 0
    for tyv, nm in TAP.items():
        for leaf in (0, 1):
            def orc(t):
                if t.op == "app":
                    last = t.a[0].split("::")[-1] if isinstance(t.a[0], str) else ""
                    if last in ("is_p2tr", "is_witness_program"):
                        return 1
                    if last in PRED:
                        return 0
                if t.op == "discr":
                    x = t.a[0]
                    if x is LEAF:
                        return leaf
                    if x is fld(inp, "sighash_type"):
                        return 1
                    if calls_of(x, "from_consensus_u8") and x.op == "fld":
                        return tyv
                    if x.op == "app" and x.a[0].endswith("spend_utxo"):
                        return 0
                    if x.op == "app" and x.a[0].endswith("from_consensus_u8"):
                        return 0
                return None
            e = Engine(ctx.prog, cap=40, oracle=orc, opaque=opaque_names("::spend_utxo"))
            r = e.run(key, args=[SELF, IDX, CACHE, LEAF])
            ctx.used(e)
            ctx.count("paths", len(r))
            n += 1
            tag = "v0:taproot:%s:%s" % (nm, "script" if leaf else "key")
            nok = 0
            for s, v in r:
                if is_err(v):
                    continue
                if not is_ok(v):
                    ctx.und(tag, "taproot sighash", w, tm.show(v)[:200])
                    continue
                nok += 1
                msg, ty = fld(v.a[2][0], "0"), fld(v.a[2][0], "1")
                calls = tm.find(msg, lambda y: y.op == "app" and y.a[0].split("::")[-1].endswith("_signature_hash"))
                fn = "taproot_script_spend_signature_hash" if leaf else "taproot_key_spend_signature_hash"
                if len(calls) != 1:
                    ctx.und(tag, "taproot sighash", w, tm.show(msg)[:200])
                    continue
                c = calls[0]
                name = c.a[0].split("::")[-1]
                ctx.check(True if name == fn else False, tag + ":hash", "a %s path is hashed with %s" % ("script" if leaf else "key", fn),
                          w, "uses " + name)
                if name != fn:
                    continue
                ctx.check(True if c.a[2] is IDX else (None if has_vague(c.a[2]) else False), tag + ":input",
                          "the hash commits to this input", w, tm.show(c.a[2])[:200])
                po = c.a[3]
                acp = bool(tyv & 0x80)
                rule = "prevouts are %s" % ("this input's funding output" if acp else "the funding outputs of all inputs in order")
                if po.op == "agg" and po.a[1] in ("One", "All"):
                    if (po.a[1] == "One") != acp:
                        ctx.bad(tag + ":prevouts", rule, w, tm.show(po)[:200])
                    elif acp:
                        ctx.check(prev_one(e, po), tag + ":prevouts", rule, w, tm.show(po)[:300])
                    else:
                        ctx.check(prev_all(e, po.a[2][0]), tag + ":prevouts", rule, w, tm.show(po)[:300])
                else:
                    ctx.und(tag + ":prevouts", rule, w, tm.show(po)[:200])
                if leaf:
                    lh = c.a[4]
                    ctx.check(True if lh is fld(LEAF, "Some.0") else (None if has_vague(lh) else False), tag + ":leaf",
                              "the script path hash commits to the leaf", w, tm.show(lh)[:200])
                ht = c.a[5] if leaf else c.a[4]
                for q, t in (("hash", ht), ("returned", ty)):
                    good = t.op == "fld" and t.a[1] == "Ok.0" and bool(calls_of(t, "from_consensus_u8")) and \
                        t.a[0].op == "app" and bool(tm.find(t, lambda y: y is fld(fld(inp, "sighash_type"), "Some.0")))
                    ctx.check(True if good else (False if t.op == "agg" and not t.a[2] else None), tag + ":type:" + q,
                              "the sighash type is the input's", w, tm.show(t)[:200])
            ctx.check(True if nok else None, tag + ":reachable", "a sighash is produced", w)
    return n


def utxo_of(t, ix):
    """is t the funding output of input ix?"""
    return t.op == "fld" and t.a[1] == "Ok.0" and t.a[0].op == "app" and t.a[0].a[0].endswith("spend_utxo") and \
        t.a[0].a[1] is SELF and t.a[0].a[2] is ix


def prev_one(e, po):
    ix, u = po.a[2]
    if ix is not IDX:
        return None if has_vague(ix) else False
    if utxo_of(u, IDX):
        return True
    # element IDX of the collected list of funding outputs
    if u.op == "fld" and u.a[1] == "Some.0":
        u = u.a[0]
    if u.op == "at":
        if u.a[1] is not IDX:
            return None if has_vague(u.a[1]) else False
        return prev_all(e, u.a[0], opt=True)
    return None


def prev_all(e, lst, opt=False):
    r = elems(e, lst)
    if r is None:
        return None
    es, lens = r
    cov = covers(lens, {length(fld(SELF, "inputs")), length(fld(fld(SELF, "unsigned_tx"), "input"))})
    if cov is not True:
        # a filtered copy of a complete list
        src = {t.a[0] for x in es for t in tm.find(x, lambda y: y.op == "at" and y.a[0].op == "seq")}
        if len(src) == 1 and lens == {length(next(iter(src)))}:
            return prev_all(e, next(iter(src)), opt)
        return cov
    for x in es:
        while x.op == "agg" and x.a[1] == "Some":
            x = x.a[2][0]
        if x.op == "fld" and x.a[1] == "Some.0":
            x = x.a[0]
        if x.op == "agg" and x.a[1] == "None":
            return None
        if utxo_of(x, IXC):
            continue
        return None if has_vague(x) else False
    return True


# ---------------------------------------------------------------- C15
def strip(e, t):
    return unlv(e, t)


def key_request(t):
    """(kind, source) of a private key term get_key(k, Bip32(..)/Pubkey(..), secp).Ok.0.Some.0 | None"""
    if t.op == "fld" and t.a[1] == "Some.0" and t.a[0].op == "fld" and t.a[0].a[1] == "Ok.0":
        c = t.a[0].a[0]
        if c.op == "app" and c.a[0].endswith("get_key") and len(c.a) > 2 and c.a[2].op == "agg":
            return c.a[2].a[1], c.a[2].a[2][0], c
    return None


SIGN = [  # (function, version, algorithm, name of the key-origin field)
    (V2P + "bip32_sign_ecdsa::<C, K, T>", 2, "ecdsa", "bip32_derivations"),
    (V0P + "bip32_sign_ecdsa::<C, K, T>", 0, "ecdsa", "bip32_derivation"),
    (V0P + "bip32_sign_schnorr::<C, K, T>", 0, "schnorr", "tap_key_origins"),
]
SIGFIELDS = ("partial_sigs", "tap_key_sig", "tap_script_sigs")


def sig_writes(e):
    """[(field, key|None, value, state, path)] every signature stored by one iteration of any loop"""
    seen = set()
    for site, inv, b in iterations(e):
        for root, v in b.mem.items():
            o = inv.mem.get(root)
            if o is None:
                if root[0] != "D":
                    continue
                o = root[1]
            for pth, kind, old, x in diffs(o, v):
                names = [p for p in pth if isinstance(p, str)]
                f = next((n for n in names if n in SIGFIELDS), None)
                if f is None:
                    continue
                for y in opened(x) if kind == "+" else [x]:
                    kk, vv = (y.a[0], y.a[1]) if y.op == "ent" else (None, y)
                    if vv.op == "agg" and vv.a[1] == "Some":
                        vv = vv.a[2][0]
                    key = (f, kk, vv, frozenset(b.facts.items()))
                    if key in seen:
                        continue
                    seen.add(key)
                    yield f, kk, vv, b, pth


def opened(p):
    if p.op == "may":
        return [y for x in p.a[0] for y in opened(x)]
    if p.op == "each":
        return opened(p.a[0])
    return [p]


@prop("C15")
def c15(ctx):
    """The per-input signing functions of both versions are interpreted for an arbitrary PSBT, key provider and message;
    one arbitrary iteration over the key origins is examined for every combination of answers of the key provider.
    Every signature written anywhere must be produced by the provider's key for an origin of this input over the
    sighash of this input, carry that sighash's type, and be filed under that key; every available key must be used;
    nothing but signatures and modifiable flags may change.  The signing loop must visit every input with a cache over
    the PSBT's own unsigned transaction and report errors."""
    n = 0
    for key, ver, alg, org in SIGN:
        if key not in ctx.prog.raw:
            continue
        n += 1
        one_signer(ctx, key, ver, alg, org)
    for key, ver in (("psbt_v2::v2::Signer::sign::<C, K>", 2), (V0P + "sign::<C, K>", 0)):
        if key in ctx.prog.raw:
            n += 1
            sign_loop(ctx, key, ver)
    if not n:
        ctx.und("anchor", "function present", "sign", "missing")


def one_signer(ctx, key, ver, alg, org):
    w = where(ctx.prog, key)
    shf = "sighash_ecdsa" if alg == "ecdsa" else "sighash_taproot"
    tag = "v%d.%s" % (ver, alg)
    e = Engine(ctx.prog, cap=80, opaque=opaque_names("::" + shf, "get_key", "clear_tx_modifiable"))
    r = e.run(key)
    ctx.used(e)
    ctx.count("paths", len(r))
    inp = tm.at(fld(SELF, "inputs"), IDX)
    O = fld(inp, org)

    def entry_ix(t):
        """index i when t is built from entry i of the key origin map only"""
        ixs = {y for y in tm.find(t, lambda y: y.op == "kat" and y.a[0] is O)}
        return ixs

    nw = 0
    for f, kk, vv, s, pth in sig_writes(e):
        nw += 1
        ctx.count("signature_writes")
        k = "%s:%s" % (tag, f)
        kk = strip(e, kk) if kk is not None else None
        vv = strip(e, vv)
        rule0 = "a signature record holds a signature made here"
        if vv.op != "agg" or len(vv.a[2]) < 2:
            ctx.check(None if has_vague(vv) or vv.op == "app" else False, k, rule0, w, tm.show(vv)[:200])
            continue
        sig, ty = fld(vv, "signature"), fld(vv, "sighash_type")
        if not (sig.op == "app" and "sign_" in sig.a[0].split("::")[-1]):
            ctx.und(k, rule0, w, tm.show(sig)[:200])
            continue
        # which input's map
        at = [p for p in pth if isinstance(p, tuple) and p[0] == "at"]
        if at:
            ctx.check(True if strip(e, at[-1][1]) is IDX else (None if has_vague(at[-1][1]) else False), k + ":input",
                      "the signature is stored in the input being signed", w, tm.show(at[-1][1])[:100])
        # message and type
        m = tm.find(vv, lambda y: y.op == "app" and y.a[0].endswith(shf))
        msg, kp = sig.a[2], sig.a[3]
        good = len(m) == 1 and msg is fld(fld(m[0], "Ok.0"), "0")
        ctx.check(True if good else (None if has_vague(msg) else False), k + ":message", "the message signed is the input's sighash", w,
                  tm.show(msg)[:200])
        if len(m) == 1:
            ctx.check(True if ty is fld(fld(m[0], "Ok.0"), "1") else (None if has_vague(ty) else False), k + ":type",
                      "the signature carries the sighash type that was hashed", w, tm.show(ty)[:200])
            ctx.check(True if m[0].a[1] is SELF and m[0].a[2] is IDX else None if has_vague(m[0].a[2]) else (False if m[0].a[2] is not IDX else None),
                      k + ":index", "the sighash is the one of the input being signed", w, tm.show(m[0])[:200])
        # private key
        sks = {y for y in tm.find(kp, lambda y: key_request(y) is not None)}
        if len(sks) != 1:
            ctx.check(None if has_vague(kp) or len(sks) > 1 else False, k + ":key", "the signing key is the one the provider returned", w, tm.show(kp)[:200])
            continue
        sk = sks.pop()
        kind, src, call = key_request(sk)
        inner = fld(sk, "inner")
        if alg == "ecdsa":
            okk = kp is inner
        else:
            tweak = calls_of(kp, "tap_tweak")
            base = calls_of(kp, "from_secret_key")
            okk = len(base) == 1 and base[0].a[2] is inner
            if f == "tap_key_sig":
                mr = fld(inp, "tap_merkle_root")
                tw = len(tweak) == 1 and mr in tweak[0].a
                ctx.check(True if tw else (None if has_vague(kp) else False), k + ":tweak",
                          "a key path signature uses the key tweaked with the input's merkle root", w, tm.show(kp)[:200])
            else:
                ctx.check(False if tweak else True, k + ":tweak", "a script path signature uses the untweaked key", w, tm.show(kp)[:200])
        ctx.check(True if okk else (None if has_vague(kp) else False), k + ":key", "the signing key is the one the provider returned", w, tm.show(kp)[:200])
        # the request comes from an entry of the input's own key origins
        ents = entry_ix(src)
        rl = "the key was requested for a key origin of this input"
        ctx.check(True if len(ents) == 1 else (None if has_vague(src) else False), k + ":request", rl, w, tm.show(src)[:200])
        # leaf / key under which it is filed
        if f == "partial_sigs":
            pk = kk.op == "app" and kk.a[0].endswith("public_key") and kk.a[1] is sk if kk is not None else False
            ctx.check(True if pk else (None if kk is None or has_vague(kk) else False), k + ":filed",
                      "the signature is filed under the signing key's public key", w, tm.show(kk)[:200] if kk is not None else "no key")
        elif f == "tap_script_sigs" and kk is not None:
            x, lh = fld(kk, "0"), fld(kk, "1")
            ents2 = entry_ix(x)
            ctx.check(True if ents2 == ents and x.op == "kat" else (None if has_vague(x) else False), k + ":filed",
                      "the signature is filed under the origin's own x-only key", w, tm.show(x)[:200])
            la = m[0].a[4] if len(m) == 1 and len(m[0].a) > 4 else None
            if la is not None:
                ctx.check(True if la.op == "agg" and la.a[1] == "Some" and la.a[2][0] is lh else (None if has_vague(la) else False),
                          k + ":leaf", "the leaf hashed is the leaf the signature is filed under", w, tm.show(la)[:200])
        elif f == "tap_key_sig" and len(m) == 1:
            la = m[0].a[4] if len(m[0].a) > 4 else None
            ctx.check(None if la is None or la.op != "agg" else la.a[1] == "None", k + ":leaf", "a key path signature hashes no leaf", w,
                      tm.show(la)[:100] if la is not None else "")
            ik = fld(fld(inp, "tap_internal_key"), "Some.0")
            eqs = [t for t, v in s.facts.items() if t.op == "eq" and v == 1 and ik in t.a]
            oth = [strip(e, (t.a[1] if t.a[0] is ik else t.a[0])) for t in eqs]
            ctx.check(True if any(o.op == "kat" and {o} == ents for o in oth) else (False if not oth else None), k + ":internal",
                      "a key path signature is made only for the internal key's origin", w, "no comparison with the internal key on this path")
    ctx.check(True if nw else None, tag + ":writes", "signatures are written", w)
    # nothing else changes
    allowed = {"partial_sigs", "tap_key_sig", "tap_script_sigs"}
    eff = [(pth, kind, x) for s, v in r for pth, kind, o, x in diffs(SELF, root_value(s, SELF))]
    for site, inv, b in iterations(e):
        o, v = root_value(inv, SELF), root_value(b, SELF)
        eff += [(pth, kind, x) for pth, kind, _, x in diffs(o, v)]
    for pth, kind, x in eff:
        names = [p for p in pth if isinstance(p, str)]
        if x in e.lv or kind == "?" or any(n in allowed for n in names) or "tx_modifiable_flags" in names:
            continue
        ctx.check(None if has_vague(x) else False, "%s:other" % tag, "signing changes nothing but signatures and modifiable flags", w,
                  "%s := %s" % ("/".join(str(p) for p in pth), tm.show(x)[:150]))
    # every available key is used
    nit = 0
    asks = lambda b: any(strip(e, y) is O for t in b.facts for c in calls_of(t, "get_key") for y in
                         tm.find(c, lambda z: z.op == "fld" and z.a[1] == org))
    visiting = {site for site, inv, b in iterations(e) if asks(b)}
    for site, inv, b in iterations(e):
        if alg == "ecdsa" and site in visiting and not asks(b):
            ctx.check(unasked(ctx, e, inv, b), tag + ":every", "every key origin of the input is put to the key provider", w,
                      "an iteration passes over an origin: %s" % [tm.show(t)[:80] for t, v in b.facts.items() if inv.facts.get(t) != v][:3])
        gk = {}
        for t, v in b.facts.items():
            if t.op == "discr" and t.a[0].op == "fld" and t.a[0].a[1] == "Ok.0" and t.a[0].a[0].op == "app" and \
                    t.a[0].a[0].a[0].endswith("get_key"):
                gk[t.a[0].a[0]] = v
            elif t.op == "discr" and t.a[0].op == "app" and t.a[0].a[0].endswith("get_key") and v == 1:
                gk.setdefault(t.a[0], "err")
        if not gk:
            continue
        if not any(strip(e, y) is O for c in gk for y in tm.find(c, lambda z: z.op == "fld" and z.a[1] == org)):
            continue
        nit += 1
        ctx.count("origin_iterations")
        kinds = {c.a[2].a[1] if c.a[2].op == "agg" else "?" for c in gk}
        avail = [c for c, v in gk.items() if v == 1]
        wrote = False
        for root, v in b.mem.items():
            o = inv.mem.get(root, root[1] if root[0] == "D" else None)
            if o is None:
                continue
            for pth, kind, _, x in diffs(o, v):
                if any(n in SIGFIELDS for n in pth if isinstance(n, str)):
                    wrote = True
        if alg == "ecdsa":
            if avail:
                ctx.check(True if wrote else False, tag + ":used", "every key the provider supplies for an origin is used to sign", w,
                          "key available (%s) but no signature stored" % tm.show(avail[0])[:120])
            else:
                need = {"Bip32", "Pubkey"}
                ctx.check(True if kinds >= need else (None if "?" in kinds else False), tag + ":asked",
                          "an origin is skipped only after asking by derivation and by public key", w, "only asked by %s" % sorted(kinds))
    ctx.check(True if nit else None, tag + ":origins", "the key origins are iterated", w)
    for site in sorted({site for site, inv, b in iterations(e) if asks(b) and not asks(inv)}, key=str):
        lens = {unlv(e, strip(e, l)) for l in lens_of(e, site)}
        ctx.check(covers(lens, {length(O)}), tag + ":all", "signing goes through all the key origins of the input", w,
                  "the loop runs over %s" % [tm.show(l)[:80] for l in lens])

    def midway(s):
        """the path still knows an index to lie within the origins: it left the loop from inside an iteration"""
        return any(t.op == "lt" and v == 1 and t.a[0].op == "ix" and unlv(e, strip(e, t.a[1])) is length(O) for t, v in s.facts.items())

    for s, v in r:
        if not is_ok(v):
            continue
        over = [f for f in finished(e, s) if any(strip(e, l) is O for l in f[2])]
        ctx.check(True if over else False if midway(s) else None, tag + ":end",
                  "signing stops with success only after the last key origin", w,
                  "a successful path leaves the loop early: %s" % [tm.show(t)[:80] for t in list(s.facts)[-6:]])
    if alg != "ecdsa":
        taproot_all(ctx, e, O, inp, tag, w)


def why(b):
    return ", ".join("%s=%s" % (tm.show(t)[:70], v if isinstance(v, int) else "!" + str(set(v))) for t, v in list(b.facts.items())[-8:])


def taproot_all(ctx, e, O, inp, tag, w):
    """every available key signs each of its leaves it has not signed, and the internal key the key path"""
    tss, tks, tik = fld(inp, "tap_script_sigs"), "tap_key_sig", fld(inp, "tap_internal_key")

    def leaves_in(t):
        return {y for y in tm.find(t, lambda y: y.op == "fld" and y.a[1] == "0" and y.a[0].op == "mget" and y.a[0].a[0] is O)}

    def wrote(inv, b, name=None):
        for root, v in b.mem.items():
            o = inv.mem.get(root, root[1] if root[0] == "D" else None)
            if o is not None and any(kind == "+" if name is None else name in pth for pth, kind, _, x in diffs(o, v)):
                return True
        return False

    def justified(b, K):
        for t, v in b.facts.items():
            if v != 1 or t.op not in ("has", "eq"):
                continue
            for x in t.a:
                own = x is K or fld(x, "0") is K if x.op in ("agg", "tup", "fld", "kat") else False
                if own and (t.op == "has" and x is not t.a[0] and t.a[0] is not O and x is not K or t.op == "eq" and any(tm.find(y, lambda z: z is tss or z.op == "lv") for y in t.a if y is not x)):
                    return True
        return False

    n = 0
    for site, inv, b in iterations(e):
        new = {t: v for t, v in b.facts.items() if inv.facts.get(t) != v}
        lt = [t for t, v in new.items() if t.op == "lt" and v == 1 and t.a[0].op == "ix"]
        ranged = {l for t in lt for l in leaves_in(t.a[1])}
        if ranged:
            # one leaf of an origin
            n += 1
            if wrote(inv, b):
                continue
            Ks = {y.a[1] for l in ranged for y in (l.a[0],)}
            vague = any(tm.has_top(t) or tm.find(t, lambda y: y.op == "app" and "get_key" not in str(y.a[0])) for t in new)
            ctx.check(True if any(justified(b, K) for K in Ks) else None if vague else False, tag + ":leaf:every",
                      "a leaf of an available key is passed over only when that key has signed it", w,
                      "passed over on %s" % [tm.show(t)[:160] for t in new][:4])
    signing = {site for site, inv, b in iterations(e) if wrote(inv, b, "tap_script_sigs")}
    for site, inv, b in iterations(e):
        av = [t for t, v in b.facts.items() if t.op == "discr" and v == 1 and t.a[0].op == "fld" and t.a[0].a[1] == "Ok.0" and
              t.a[0].a[0].op == "app" and t.a[0].a[0].a[0].endswith("get_key")]
        av = [t for t in av if inv.facts.get(t) != 1]
        K = {y for t in av for y in tm.find(t, lambda y: y.op == "kat" and y.a[0] is O)}
        if len(K) != 1:
            continue
        K = K.pop()
        if b.facts.get(mk("has", O, K)) == 0:
            continue        # K was taken from O
        L = fld(tm.mget(O, K), "0")
        ctx.count("available_origin_iterations")
        # the key path
        internal = [v for t, v in b.facts.items() if t.op == "eq" and fld(tik, "Some.0") in t.a and K in t.a]
        if 1 in internal and not wrote(inv, b, tks):
            ln = b.facts.get(length(L))
            signed = any(t.op == "discr" and v == 1 and tks in tm.show(t.a[0]).split("/")[-1].split(".")[-1] for t, v in b.facts.items())
            more = not (isinstance(ln, int) and ln == 0 or ln is None)
            ctx.check(True if signed or more else False, tag + ":internal:every", "an available internal key without leaves signs the key path", w,
                      "no key path signature on %s" % why(b))
        # the script path
        if b.facts.get(length(L)) == 0:
            continue
        fin = finished(e, b)
        over = {l for _, _, ls, part in fin for l in ls}
        parts = [part for _, _, ls, part in fin if part is not None and any(leaves_in(l) for l in ls)]
        done = [l for l in over if L in leaves_in(l)]
        rule = "every leaf of an available key is considered for signing"
        if parts:
            sure = all(len(p.a) < 2 or p.a[1].op == "k" for p in parts)
            ctx.check(False if sure else None, tag + ":leaves", rule, w, "some leaves are left out: %s" % tm.show(parts[0]))
            continue
        if not done:
            vague = any(tm.has_top(t) for t in b.facts) or wrote(inv, b, "tap_script_sigs")
            ctx.check(None if vague else False, tag + ":leaves", rule, w, "the leaves of an available key are not visited on %s" % why(b))
            continue
        signed = any(any(L in leaves_in(l) for l in ls) and any(st == site or st == base for st in signing) for site, base, ls, _ in fin)
        empty = any(t.op == "len" and v == 0 and t.a[0].op == "seq" and L in leaves_in(t.a[0]) for t, v in b.facts.items())
        left = not signed and not empty
        ctx.check(not left, tag + ":leaves", rule, w, "leaves were selected but not signed: %s" % why(b))
    ctx.check(True if n else None, tag + ":leaf:loop", "the leaves of an origin are iterated", w)


def unasked(ctx, e, inv, b, exempt=()):
    """may an iteration leave an element out without looking at it?  False (it does) / None (not certain)

    The iteration state b neither asked about the element nor acted on it."""
    new = [t for t, v in b.facts.items() if inv.facts.get(t) != v and t.op != "done"]
    if any(has_vague(strip(e, t)) or tm.find(t, lambda y: y.op == "fld" and y.a[1] in exempt) for t in new):
        return None
    return False


def sign_loop(ctx, key, ver):
    w = where(ctx.prog, key)
    tag = "v%d.sign" % ver
    e = Engine(ctx.prog, cap=60, opaque=opaque_names("::bip32_sign_ecdsa", "::bip32_sign_schnorr", "::signing_algorithm", "::unsigned_tx"))
    r = e.run(key)
    ctx.used(e)
    ctx.count("paths", len(r))
    root = fld(SELF, "0") if ver == 2 else SELF
    lens_ok = {length(fld(root, "inputs")), length(fld(fld(root, "unsigned_tx"), "input")) if ver == 0 else fld(fld(root, "global"), "input_count")}
    algs = ("ecdsa",) if ver == 2 else ("ecdsa", "schnorr")
    seen = set()
    asks = lambda b: any(t.op == "discr" and calls_of(t, "signing_algorithm") for t in b.facts)
    visiting = {site for site, inv, b in iterations(e) if asks(b)}
    for site, inv, b in iterations(e):
        if site in visiting and not asks(b):
            ctx.check(unasked(ctx, e, inv, b, ("bip32_derivations", "bip32_derivation", "tap_key_origins")), tag + ":every",
                      "every input is visited", w, "an iteration passes over an input: %s" % [
                          tm.show(t)[:80] for t, v in b.facts.items() if inv.facts.get(t) != v][:3])
        alg = None
        saf = [(t, v) for t, v in b.facts.items() if t.op == "discr" and calls_of(t, "signing_algorithm")]
        if not saf:
            continue
        for t, v in saf:
            if t.a[0].op == "fld" and v in (0, 1):
                alg = ("ecdsa", "schnorr")[v]
        calls = {c for t in b.facts for c in calls_of(t, "bip32_sign_ecdsa", "bip32_sign_schnorr")}
        adds = []
        for rt, v in b.mem.items():
            o = inv.mem.get(rt)
            if o is not None:
                adds += [x for p_, kd, _, x in diffs(o, v) if kd == "+" and not p_]
        calls |= {c for x in adds for c in calls_of(x, "bip32_sign_ecdsa", "bip32_sign_schnorr")}
        if alg in algs:
            seen.add(alg)
            mine = [c for c in calls if c.a[0].split("::<")[0].endswith("bip32_sign_" + alg)]
            ctx.check(True if mine else (False if not calls or len(calls) == len([c for c in calls if not c.a[0].endswith("bip32_sign_" + alg)]) else None),
                      tag + ":" + alg, "an input whose algorithm is %s is signed with it" % alg, w, "no call of bip32_sign_%s" % alg)
        for c in calls:
            nm = c.a[0].split("_")[-1]
            ix = c.a[3]
            skips = ix.op == "add" and any(y.op == "k" and y.a[0] > 0 for y in ix.a) and any(y.op == "ix" for y in ix.a)
            ctx.check(covers(lens_of(e, ix.a[0]), lens_ok) if ix.op == "ix" else False if skips else (None if has_vague(ix) or ix.ixs else False),
                      "%s:%s:inputs" % (tag, nm), "every input is visited", w, "index %s over %s" % (
                          tm.show(ix)[:80], [tm.show(l)[:60] for l in lens_of(e, ix.a[0])] if ix.op == "ix" else ""))
            ca = strip(e, c.a[4])
            tx = ca.a[1] if ca.op == "app" and ca.a[0].endswith("new") and len(ca.a) > 1 else None
            if tx is None:
                ctx.und("%s:%s:tx" % (tag, nm), "the sighash cache is over the PSBT's unsigned transaction", w, tm.show(ca)[:200])
            else:
                if ver == 0:
                    good = True if tx is fld(SELF, "unsigned_tx") else (None if has_vague(tx) or tx.op == "app" else False)
                else:
                    tx = fld_ok(tx)
                    good = True if tx.op == "app" and tx.a[0].endswith("unsigned_tx") and tx.a[1] in (SELF, root) else (
                        None if has_vague(tx) or tx.op == "app" else False)
                ctx.check(good, "%s:%s:tx" % (tag, nm), "the sighash cache is over the PSBT's unsigned transaction", w, tm.show(tx)[:200])
            res = b.facts.get(disc(c))
            if res in (0, 1) and all(x.op == "ent" for x in adds):
                exp = fld(c, "Ok.0" if res == 0 else "Err.0")
                hit = [x for x in adds if x.a[0] is ix and tm.find(x.a[1], lambda y: y is exp)]
                ctx.check(True if hit else (False if not adds else None), "%s:%s:%s" % (tag, nm, ("used", "error")[res]),
                          "the outcome of signing an input is reported under its index", w, "not reported")
    for a in algs:
        ctx.check(True if a in seen else None, tag + ":seen:" + a, "the loop signs %s inputs" % a, w)
    for s, v in r:
        if is_ok(v):
            em = [t for t, x in s.facts.items() if t.op == "len" and x == 0 and tm.find(t, lambda y: y.op == "fld" and y.a[1] == "Err.0")]
            allerr = [t for t in s.facts if t.op == "len" and tm.find(t, lambda y: y.op == "fld" and y.a[1] == "Err.0")]
            ctx.check(True if em else (False if any(isinstance(s.facts[t], frozenset) and 0 in s.facts[t] for t in allerr) else None if allerr or "done" in str(v) else False if any(b2 for b2 in e.loops) else None), tag + ":ok",
                      "success is reported only when no input failed", w, "no check that the error map is empty")


def fld_ok(t):
    while t.op == "fld" and t.a[1] == "Ok.0":
        t = t.a[0]
    return t

"""C07 unsigned transactions, C24 private key lookup, C31-C33 small public types."""
import re
from engine.check import prop
from engine import terms as tm, models
from engine.ai import Engine, Budget
from engine.terms import fld, disc, mk, length, K
from .lib import *
from .table import Lit, eqs, decide, cstr, factdict
from .roles import size

V0P = "psbt_v2::v0::bitcoin::Psbt"


# ---------------------------------------------------------------- C07
def islen(t, x):
    while t.op == "cast":
        t = t.a[-1]
    return t.op == "len" and t.a[0] is x or t.op == "app" and fname(t).split("::")[-1] == "len" and t.a[-1] is x


def emptiness(s, x):
    """is the script / witness x known to be empty on this path? True / False / None"""
    hit = None
    for t, v in s.facts.items():
        if not isinstance(v, int):
            if t.op == "len" and t.a[0] is x or t.op == "app" and fname(t).split("::")[-1] == "len" and len(t.a) == 2 and t.a[1] is x:
                if 0 in v:
                    return False
            continue
        neg = False
        y = t
        while y.op == "not":
            y, neg = y.a[0], not neg
        val = (v != 0) != neg
        if y.op == "app" and fname(y).split("::")[-1] == "is_empty" and y.a[-1] is x:
            return val
        if y.op == "len" and y.a[0] is x or y.op == "app" and fname(y).split("::")[-1] == "len" and y.a[-1] is x:
            return v == 0
        if y.op == "lt" and y.a[0] is K(0) and islen(y.a[1], x):
            return not val
        if y.op == "lt" and y.a[1] is K(1) and islen(y.a[0], x):
            return val
        if y.op == "eq" and x in y.a:
            o = y.a[0] if y.a[1] is x else y.a[1]
            from .tx import is_empty
            if is_empty(o):
                return val
        if tm.find(t, lambda z: z is x):
            hit = 1
    return "unclear" if hit else None


@prop("C07")
def c07(ctx):
    """The functions that build a version 0 PSBT from a transaction or from bytes are interpreted for an arbitrary
    argument.  Every successful path must have found script_sig and witness empty for every input of the transaction
    it stores; a refusal for a signature must be on a path on which one is not empty."""
    p = ctx.prog
    keys = [k for k in p.raw if re.search(r"v0::bitcoin::.*Psbt>?::(from_unsigned_tx|deserialize)$", k)]
    ctx.check(len(keys) == 2 or None, "functions", "the two constructors are found", "", str(keys)[:200])
    for key in keys:
        name = key.split("::")[-1]
        w = where(p, key)
        e = Engine(p, cap=60, opaque=opaque_names("Input::decode", "Output::decode", "decode_global::<&[u8]>", "Global::decode"))
        st = e.run(key, args=[S("tx")] if name == "from_unsigned_tx" else None)
        ctx.used(e)
        ctx.count("paths", len(st))
        ok = 0
        for s, v in st:
            if is_err(v):
                n = errname(v)
                if "UnsignedTxHas" not in n:
                    if name == "from_unsigned_tx":
                        ctx.check(None, name + ":" + n, "a refusal names a signature", w, tm.show(v)[:200])
                    continue
                f = "witness" if "Witness" in n else "script_sig"
                xs = set()
                for t in s.facts:
                    tm.walk(t, lambda y: xs.add(y) if y.op == "fld" and y.a[1] in ("script_sig", "witness") else None)
                em = [emptiness(s, x) for x in xs if x.a[1] == f]
                c = True if False in em else None if "unclear" in em or e.joins else False
                ctx.check(c, "%s:refuse:%s" % (name, f), "a transaction is refused for a signature only if it has one", w,
                          "refused on a path where no %s is known to be non-empty" % f)
                continue
            if not is_ok(v):
                ctx.check(None, name + ":result", "the result is Ok or Err", w, tm.show(v)[:200])
                continue
            ok += 1
            P = v.a[2][0]
            tx = fld(P, "unsigned_tx")
            if name == "from_unsigned_tx":
                ctx.check(True if tx is S("tx") else None if tm.has_top(tx) or tm.find(tx, lambda y: y.op in ("lv", "phi")) else False,
                          name + ":tx", "the PSBT holds the given transaction", w, tm.show(tx)[:200])
            lst = fld(tx, "input")
            for f in ("script_sig", "witness"):
                def pred(b, el, ix):
                    em = emptiness(b, fld(el, f))
                    if em is True:
                        return True
                    return None if em == "unclear" or e.joins or any(tm.has_top(t) for t in b.facts) else False
                c = forall(e, s, lambda l: l is lst, pred)
                ctx.check(c, "%s:%s" % (name, f), "success means this is empty for every input of the transaction", w,
                          "success although %s is not checked for every input" % f)
            for part in ("inputs", "outputs"):
                L = fld(P, part)
                r = elems(e, L)
                want = length(fld(tx, part[:-1]))
                n = size(e, L)
                c = None if n is None or tm.has_top(n) or tm.find(n, lambda y: y.op in ("lv", "phi", "partial")) else n is want
                els = [x.a[0] for x in L.a[1] if x.op in ("rep", "one")] if L.op == "seq" and L.a[0] is None else []
                if r is not None:
                    els, lens = r
                    c = covers(lens, {want}) if n is None else c
                ctx.check(c, "%s:%s" % (name, part), "the PSBT has one %s map per transaction %s" % (part[:-1], part[:-1]), w, tm.show(L)[:300])
                if name == "from_unsigned_tx":
                    for x in els:
                        full = [g for g in (x.a[2] if x.op == "agg" else [x]) if not blank(g)]
                        ctx.check(not full if x.op == "agg" else True if x.op == "default" else None, "%s:%s:empty" % (name, part),
                                  "the maps of a new PSBT are empty", w, tm.show(x)[:300])
        ctx.check(ok > 0, name + ":some", "some argument is accepted", w, "no path succeeds")


def blank(g):
    """an absent field or an empty map"""
    if g.op == "agg":
        return g.a[1] == "None"
    if g.op == "default":
        return True
    return cstr(g) in ("⟨⟩", "default()", "None")


# ---------------------------------------------------------------- C24
def refused(s, v):
    return True if is_err(v) and errname(v).endswith("NotSupported") else False if is_err(v) or is_ok(v) else None


def gives(*texts):
    def f(s, v):
        if not is_ok(v):
            return False if is_err(v) else None
        x = v.a[2][0]
        if tm.has_top(x):
            return None
        c = cstr(x)
        return True if c in texts else False
    return f


def passes_error(call):
    def f(s, v):
        if not is_err(v):
            return False if is_ok(v) else None
        return True if call + ".Err.0" in cstr(v) else False
    return f


@prop("C24", feats=("all",), thorough=("all", "common", "nostd"))
def c24(ctx):
    """Every GetKey implementation is interpreted for an arbitrary request.  Single key and maps: every path is compared with the
    decision table.  Sets: a key is returned only from an element whose fingerprint was found equal, by deriving the whole
    requested path from that element, and None only after every element was found different."""
    p = ctx.prog
    args = [S("self"), S("req"), S("secp")]
    B = "req.Bip32.0."
    n = 0
    for key in sorted(k for k in p.raw if re.search(r"^<.*GetKey>::get_key(::<\w+>)?$", k) and "{closure" not in k and " @" not in k):
        ty = key[1:].split(" as ")[0]
        ver = "v2" if "v2::GetKey" in key else "v0"
        w = where(p, key)
        e = Engine(p, cap=40)
        st = e.run(key, args=args)
        ctx.used(e)
        ctx.count("paths", len(st))
        n += 1
        pk, bip = Lit("discr(req)", 0), Lit("discr(req)", 1)
        short = "%s.%s" % (ver, re.sub(r"<.*", "", ty).split("::")[-1])
        el = "self" if ty.endswith("Xpriv") else "self[*]"
        der = "derive_priv(%s, secp, %s1)" % (el, B)
        fp = eqs(("fingerprint(%s, secp)" % el, B + "0"))
        FA = ("fingerprint(%s, secp)" % el, B + "0")
        rows = []
        if "PrivateKey" in ty:
            m = "has(self, req.Pubkey.0)"
            rows = [("bip32", [bip], refused, "a path request cannot be answered from a key map"),
                    ("found", [pk, Lit(m, 1)], gives("Some(mget(self, req.Pubkey.0))"), "the key filed under the requested public key"),
                    ("missing", [pk, Lit(m, 0)], gives("None"), "no key is filed under the requested public key")]
        elif ty.endswith("Xpriv"):
            rows = [("pubkey", [pk], refused, "a public key request cannot be answered from an extended key"),
                    ("foreign", [bip, Lit(fp, 0, FA)], gives("None"), "the fingerprint is another key's"),
                    ("derived", [bip, Lit(fp, 1, FA), Lit("discr(%s)" % der, 0)], gives("Some(to_priv(%s.Ok.0))" % der, "Some(%s.Ok.0.private_key)" % der,
                     ), "the fingerprint is this key's, so the key at the requested path is returned"),
                    ("derive-error", [bip, Lit(fp, 1, FA), Lit("discr(%s)" % der, 1)], passes_error(der), "a failed derivation is reported")]
        elif "Xpriv>" in ty:
            rows = [("pubkey", [pk], refused, "a public key request cannot be answered from extended keys")]
        else:
            continue
        decide(ctx, e, short, "the key asked for is returned, or none", st, rows, w)
        if "Xpriv>" not in ty:
            continue
        some = False
        for s, v in st:
            fd = factdict(s)
            if bip.value(fd) is not True:
                continue
            if is_err(v):
                if "NotSupported" in errname(v):
                    ctx.check(False, short + ":refused", "a path request is answered", w, "a path request is refused")
                    continue
                c = None if e.joins else Lit(fp, 1).value(fd) is True and Lit("discr(%s)" % der, 1).value(fd) is True
                ctx.check(c, short + ":error", "an error is a failed derivation from a key with the requested fingerprint", w, tm.show(v)[:200])
            elif is_ok(v) and gives("None")(s, v):
                def differs(b, x, ix):
                    r = Lit(fp, 0).value(factdict(b))
                    return True if r else None if r is None and (e.joins or any("fingerprint" in cstr(t) for t in b.facts)) else False
                c = forall(e, s, lambda l: l is S("self"), differs)
                ctx.check(c, short + ":none", "None means no key has the requested fingerprint", w, "None although not every key's fingerprint was compared")
            elif is_ok(v):
                some = True
                x = cstr(v.a[2][0])
                good = x in ("Some(to_priv(%s.Ok.0))" % der, "Some(%s.Ok.0.private_key)" % der)
                c = True if good and Lit(fp, 1).value(fd) is True else None if e.joins or tm.has_top(v) or "phi" in x or "lv#" in x else False
                ctx.check(c, short + ":some", "a returned key is derived along the whole path from the key with the requested fingerprint", w, tm.show(v)[:250])
        ctx.check(some or None, short + ":answers", "a key can be returned", w, "no path returns a key")
    ctx.check(n >= (10 if ctx.feat == "all" else 4) or None, "impls", "the implementations are found", "", "only %d found" % n)


# ---------------------------------------------------------------- C31
B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def pieces(t):
    """what a formatting call writes: [text | (kind, value, alternate)] | None"""
    if t.op == "app" and fname(t).split("::")[-1] in ("write_str", "write_char", "pad") and len(t.a) >= 3:
        x = t.a[2]
        return [x.a[0]] if x.op == "k" and isinstance(x.a[0], str) else [("display", x, False)]
    if t.op == "app" and fname(t).split("::")[-1] == "fmt" and len(t.a) >= 3:
        return [("display", t.a[1], False)]
    if t.op != "app" or fname(t).split("::")[-1] not in ("write_fmt", "format") or len(t.a) < 2:
        return None
    x = t.a[-1]
    if x.op == "app" and len(x.a) == 3 and x.a[1].op == "k" and isinstance(x.a[1].a[0], bytes):
        b, args = x.a[1].a[0], x.a[2]
        args = list(args.a[2]) if args.op == "agg" else None
    else:
        return None
    if args is None:
        return None
    out, i, n = [], 0, 0
    while i < len(b) and b[i] != 0:
        c = b[i]
        if c < 0x80:
            out.append(b[i + 1:i + 1 + c].decode("utf8", "replace"))
            i += 1 + c
        elif c in (0xc0, 0xc1):
            alt = False
            if c == 0xc1:
                fl = int.from_bytes(b[i + 1:i + 5], "little")
                alt = bool(fl & (1 << 23))
                i += 4
            i += 1
            if n >= len(args) or args[n].op != "app":
                return None
            out.append((fname(args[n]).split("::")[-1].replace("new_", ""), args[n].a[1], alt))
            n += 1
        else:
            return None
    return out


def b64engine(t):
    """is t the standard base64 engine?  True / False / None"""
    if t.op != "agg" or not t.a[0].endswith("GeneralPurpose"):
        return None
    en, cf = fld(t, "encode_table"), fld(t, "config")
    bits = [fld(cf, "encode_padding"), fld(cf, "decode_allow_trailing_bits")]
    if en.op != "k" or any(x.op != "k" for x in bits):
        return None
    return en.a[0] == B64 and [x.a[0] for x in bits] == [1, 0] and "RequireCanonical" in cstr(fld(cf, "decode_padding_mode"))


def is_call(t, last, *args):
    return t.op == "app" and fname(t).split("::")[-1] == last and list(t.a[1:]) == list(args)


@prop("C31")
def c31(ctx):
    """Display, FromStr and serialize_hex of both PSBT types are interpreted: what is written is the standard base64 (lower case
    hex) encoding of the serialization and nothing else; parsing succeeds exactly when the string is standard base64 of
    bytes that deserialize, with that value."""
    p = ctx.prog
    OP = opaque_names("Psbt::serialize", "Psbt::deserialize", "Psbt>::serialize", "Psbt>::deserialize")
    me = S("self")
    seen = []
    for key in sorted(p.raw):
        m = re.search(r"(?:impl core::(?:fmt::Display|str::traits::FromStr) for psbt_v2::(v\d).*Psbt>::(fmt|from_str)|"
                      r"psbt_v2::(v\d)\b.*Psbt>?::(serialize_hex))$", key)
        if not m or " @" in key or "{closure" in key:
            continue
        ver, fn = m.group(1) or m.group(3), m.group(2) or m.group(4)
        w = where(p, key)
        e = Engine(p, cap=40, opaque=OP)
        st = e.run(key, args=[me if fn != "from_str" else S("s"), S("f")])
        ctx.used(e)
        ctx.count("paths", len(st))
        seen.append((ver, fn))
        tag = "%s.%s" % (ver, fn)
        for s, v in st:
            if fn == "serialize_hex":
                c = None
                if v.op == "app" and len(v.a) == 2:
                    src = v.a[1]
                    c = fname(v).split("::")[-1] == "to_lower_hex_string" and is_call(src, "serialize", me)
                    ps = pieces(v)
                if ps is not None and len(ps) == 1 and not isinstance(ps[0], str) and cstr(ps[0][1]) in ("as_hex(serialize(self))",):
                    c = ps[0][0] in ("lower_hex", "display") and not ps[0][2]
                c = c or (False if ps is not None and c is False else None if tm.has_top(v) or src.op != "app" or fname(src).split("::")[-1] not in ("serialize",) and
                              tm.find(src, lambda y: y is me) and "upper" not in fname(v) else False)
                ctx.check(c, tag, "the hex form is the lower case hex of the serialization", w, tm.show(v)[:300])
            elif fn == "fmt":
                after = e.content(s, S("f"))
                ps = pieces(v)
                one = after.op == "hv" and not tm.find(after.a[1:], lambda y: y.op == "hv")
                if ps is None or not one:
                    ctx.check(None, tag, "one write is understood", w, tm.show(v)[:300])
                    continue
                c = None
                if len(ps) == 1 and not isinstance(ps[0], str):
                    kind, x, _ = ps[0]
                    if kind == "display" and x.op == "app" and len(x.a) >= 3 and fname(x).split("::")[-1] in ("new", "encode"):
                        d, en = (x.a[1], x.a[2]) if fname(x).split("::")[-1] == "new" else (x.a[2], x.a[1])
                        a, b = b64engine(en), is_call(d, "serialize", me)
                        c = True if a and b else False if a is False or (b is False and d.op == "app" and fname(d).split("::")[-1] == "serialize") else None
                elif len(ps) > 1 and any(isinstance(x, str) and x for x in ps):
                    c = False
                ctx.check(c, tag, "what is displayed is the standard base64 of the serialization", w, tm.show(v)[:300])
            else:
                # every result is determined by: decode(engine, s), then deserialize of what was decoded
                dec = [t.a[0] for t in s.facts if t.op == "discr" and t.a[0].op == "app" and fname(t.a[0]).split("::")[-1] == "decode"]
                c = None
                if len(dec) == 1 and len(dec[0].a) == 3:
                    D = dec[0]
                    dv = s.facts.get(disc(D))
                    des = [t.a[0] for t in s.facts if t.op == "discr" and t.a[0].op == "app" and fname(t.a[0]).split("::")[-1] == "deserialize"]
                    g = b64engine(D.a[1])
                    if g is False:
                        c = False
                    elif D.a[2] is not S("s"):
                        c = False if not tm.has_top(D) else None
                    elif g and dv == 1:
                        c = is_err(v) or (False if is_ok(v) else None)
                    elif g and dv == 0 and len(des) == 1:
                        x = des[0]
                        full = x.a[1] is fld(D, "Ok.0")
                        rv = s.facts.get(disc(x))
                        if not full:
                            c = None if tm.has_top(x) else False
                        elif rv == 1:
                            c = is_err(v) or (False if is_ok(v) else None)
                        elif rv == 0:
                            c = (v.a[2][0] is fld(x, "Ok.0")) if is_ok(v) else False if is_err(v) else None
                            others = [t for t in s.facts if t not in (disc(D), disc(x))]
                            if c is False and others:
                                c = False if is_err(v) else None
                elif not dec and is_err(v):
                    # refused without decoding: a string of some length that could be a PSBT
                    from .robust import envs, atoms
                    ln = length(S("s"))
                    if s.facts and all(set(atoms(t)) == {ln} for t in s.facts):
                        c = False if any(env[ln] >= 60 and env[ln] % 4 == 0 for env in envs(s.facts, [ln])) else True
                ctx.check(c, tag, "the string parses exactly if it is standard base64 of bytes that deserialize", w,
                          "%s under %s" % (tm.show(v)[:200], "; ".join("%s=%s" % (cstr(t)[-60:], x) for t, x in s.facts.items())[:200]))
    want = {("v0", "fmt"), ("v2", "fmt"), ("v0", "from_str"), ("v2", "from_str"), ("v0", "serialize_hex"), ("v2", "serialize_hex")}
    ctx.check(set(seen) >= want or None, "functions", "the six functions are found", "", str(sorted(want - set(seen))))


# ---------------------------------------------------------------- C32
def exactly(*texts):
    def f(s, v):
        if v is None or tm.has_top(v):
            return None
        c = cstr(v)
        if c in texts:
            return True
        return False if v.op in ("agg", "k") or tm.find(v, lambda y: y.op == "sym") else None
    return f


PST = r"psbt_v2::sighash_type::PsbtSighashType"


@prop("C32")
def c32(ctx):
    """Every conversion of PsbtSighashType is interpreted and compared with its decision table; the format templates of
    Display are decoded, so that what it prints is what FromStr reads back."""
    p = ctx.prog

    def run(key, args):
        k = [x for x in p.raw if x == key]
        if not k:
            ctx.check(None, key.split("::")[-1], "the function exists", "", key)
            return None, [], ""
        e = Engine(p, cap=40)
        st = e.run(key, args=args)
        ctx.used(e)
        ctx.count("paths", len(st))
        return e, st, where(p, key)
    me, n = S("self"), S("n")
    V = "PsbtSighashType{inner: %s}"
    from .robust import num
    for key, arg, texts, rule in (
            (PST + "::from_u32", n, [V % "n"], "from_u32 keeps the number"),
            (PST + "::to_u32", me, ["self.inner"], "to_u32 is the number"),
            ("<%s as core::convert::From<bitcoin::crypto::sighash::EcdsaSighashType>>::from" % PST, n,
             [V % "cast(u32, discr(n))", V % "to_u32(n)"], "the number of an ECDSA type is kept"),
            ("<%s as core::convert::From<bitcoin::crypto::sighash::TapSighashType>>::from" % PST, n,
             [V % "cast(u32, discr(n))", V % "cast(u32, cast(u8, discr(n)))"], "the number of a taproot type is kept")):
        e, st, w = run(key, [arg])
        for s, v in st:
            ctx.check(exactly(*texts)(s, v), key.split("::")[-1] + ":" + rule.split()[-3], rule, w, tm.show(v)[:200])
    # to ECDSA
    e, st, w = run(PST + "::ecdsa_hash_ty", [me])
    for s, v in st:
        c = True if cstr(v) == "from_standard(self.inner)" else None
        if c is None and v.op == "app" and fname(v).split("::")[-1] == "from_standard" and not tm.has_top(v):
            vals = [num(v.a[-1], {fld(me, "inner"): x}) for x in (1, 2, 3, 0x81, 0x83, 0x101, 0x40, 257, 65537)]
            c = False if None not in vals and vals != [1, 2, 3, 0x81, 0x83, 0x101, 0x40, 257, 65537] else None
        fs = "from_standard(self.inner)"
        if c is None and is_ok(v):
            c = cstr(v.a[2][0]) == fs + ".Ok.0" or (None if tm.has_top(v) else False)
        elif c is None and is_err(v):
            fd = factdict(s)
            c = True if fd.get("discr(%s)" % fs) == 1 else None if e.joins else False
        elif c is None and not tm.has_top(v) and v.op == "app" and "from_consensus" in fname(v):
            c = False
        ctx.check(c, "ecdsa", "an ECDSA type is returned exactly for its own number", w, tm.show(v)[:200])
    # to taproot
    e, st, w = run(PST + "::taproot_hash_ty", [me])
    if e:
        fc = [d for s, v in st for d in [t.a[0] for t in s.facts if t.op == "discr"] if d.op == "app" and fname(d).endswith("from_consensus_u8")]
        for s, v in st:
            inner = fld(me, "inner")
            # the numbers this path is for
            vals = [x for x in list(range(0, 300)) + [0x1ff, 0x200, 0x281, 0x301, 65535, 65536, 65537, 2 ** 31, 2 ** 32 - 255, 2 ** 32 - 1]
                    if all(okval(t, f, inner, x) for t, f in s.facts.items())]
            big = [x for x in vals if x > 255]
            small = [x for x in vals if x <= 255]
            c = None
            call = [t for t in s.facts if t.op == "discr" and t.a[0] in fc]
            byte = bool(call) and all(is_byte(t.a[0].a[-1], inner) for t in call)
            if big:
                c = False if is_ok(v) else True if is_err(v) else None
                ctx.check(c, "taproot:big", "no taproot type above 0xff", w, "%s for %d" % (tm.show(v)[:150], big[0]))
            if small:
                if call and byte:
                    f = s.facts[call[0]]
                    c = (is_ok(v) and v.a[2][0] is fld(call[0].a[0], "Ok.0")) if f == 0 else is_err(v)
                elif call or tm.has_top(v):
                    c = None
                else:
                    c = False if len(small) == 256 or is_err(v) else None
                ctx.check(c, "taproot:small", "up to 0xff the taproot type is the one with this number, if any", w,
                          "%s for %d" % (tm.show(v)[:150], small[0]))
    # text
    e, st, w = run("<%s as core::fmt::Display>::fmt" % PST, [me, S("f")])
    for s, v in st:
        ps = pieces(v)
        fd = factdict(s)
        tap = any("from_consensus_u8" in k and x == 0 for k, x in fd.items())
        after = e.content(s, S("f"))
        if ps is None or after.op != "hv" or tm.find(after.a[1:], lambda y: y.op == "hv"):
            ctx.check(None, "display", "one write is understood", w, tm.show(v)[:200])
            continue
        val = [x for x in ps if not isinstance(x, str)]
        lit = "".join(x for x in ps if isinstance(x, str))
        if len(val) != 1:
            ctx.check(None, "display", "one value is written", w, tm.show(v)[:200])
            continue
        kind, x, alt = val[0]
        c = None
        if kind == "display" and "from_consensus_u8" in cstr(x) and cstr(x).endswith(".Ok.0"):
            c = lit == ""
        elif kind in ("lower_hex", "upper_hex") and cstr(x) == "self.inner":
            c = (lit == "" and alt) or (lit == "0x" and not alt)
            c = c and not tap
        elif cstr(x) == "self.inner":
            c = False
        ctx.check(c, "display:" + ("name" if kind == "display" else "hex"), "a taproot type is printed by name, any other number as 0x hex", w, tm.show(v)[:200])
    e, st, w = run("<%s as core::str::traits::FromStr>::from_str" % PST, [S("s")])
    T = "from_str(s)"
    H = "from_str_radix(trim_start_matches(s, '0x'), 16)"
    H2 = "from_str_radix(strip_prefix(s, '0x').Some.0, 16)"
    rows = [("name", [Lit("discr(%s)" % T, 0), Lit(["discr(%s)" % H, "discr(%s)" % H2], 1)], good(V % ("cast(u32, discr(%s.Ok.0))" % T), V % ("cast(u32, cast(u8, discr(%s.Ok.0)))" % T)),
             "the name of a taproot type means its number"),
            ("hex", [Lit("discr(%s)" % T, 1), Lit(["discr(%s)" % H, "discr(%s)" % H2], 0)], good(V % (H + ".Ok.0"), V % (H2 + ".Ok.0")),
             "0x hex means this number"),
            ("neither", [Lit("discr(%s)" % T, 1), Lit("discr(%s)" % H, 1)], lambda s, v: True if is_err(v) else False if is_ok(v) else None,
             "anything else is refused")]
    if e:
        if any("strip_prefix" in k for s, v in st for k in factdict(s)):
            rows = rows[:1]
        decide(ctx, e, "parse", "the text form is read back as the same number", st, rows, w)


def good(*texts):
    def f(s, v):
        if not is_ok(v):
            return False if is_err(v) else None
        x = v.a[2][0]
        return None if tm.has_top(x) else cstr(x) in texts
    return f


def okval(t, f, x, val):
    """may the fact t = f hold when x = val?"""
    from .robust import num
    r = num(t, {x: val})
    if r is None:
        return True
    return (r not in f) if isinstance(f, frozenset) else r == f


def is_byte(t, inner):
    while t.op == "cast":
        t = t.a[-1]
    return t is inner


# ---------------------------------------------------------------- C33
@prop("C33")
def c33(ctx):
    """TryFrom<u32>, Deserialize, Serialize and the conversions to u32 of Version are interpreted for every number."""
    p = ctx.prog
    VT = "psbt_v2::version::Version"
    n = S("n")
    keys = {"try_from": "<%s as core::convert::TryFrom<u32>>::try_from" % VT, "to_u32": VT + "::to_u32",
            "into": next((k for k in p.raw if k.endswith("From<%s> for u32>::from" % VT)), ""),
            "serialize": "<%s as psbt_v2::serialize::Serialize>::serialize" % VT,
            "deserialize": "<%s as psbt_v2::serialize::Deserialize>::deserialize" % VT}
    for name, key in keys.items():
        if key not in p.raw:
            ctx.check(None, name, "the function exists", "", key)
            continue
        e = Engine(p, cap=40)
        st = e.run(key, args=[n])
        ctx.used(e)
        ctx.count("paths", len(st))
        w = where(p, key)
        if name in ("to_u32", "into"):
            for s, v in st:
                ctx.check(exactly("n.0")(s, v), name, "the number of a version is its own", w, tm.show(v)[:100])
            continue
        if name == "serialize":
            for s, v in st:
                c = v.op == "app" and fname(v).split("::")[-1] == "serialize" and cstr(v.a[-1]) == "n.0" or \
                    v.op == "to_le_bytes" and cstr(v.a[-1]) == "n.0" and v.a[0] == "u32"
                ctx.check(True if c else None if v.op not in ("app", "to_be_bytes", "to_le_bytes") or tm.has_top(v) else False, name, "a version is written as its number, 32 bit little endian", w, tm.show(v)[:200])
            continue
        x = n
        sts = []
        for s, v in st:
            if name == "deserialize":
                ds = [t.a[0] for t in s.facts if t.op == "discr" and t.a[0].op == "app" and fname(t.a[0]).split("::")[-1] == "deserialize"]
                if len(ds) != 1 or ds[0].a[-1] is not n:
                    part = [t for t in s.facts if t.op == "discr" and t.a[0].op == "app" and
                            fname(t.a[0]).split("::")[-1] in ("deserialize_partial", "consensus_decode")]
                    lens = [t for t in s.facts if tm.find(t, lambda y: y is length(n) or y.op == "fld" and y.a[1] == "1")]
                    ctx.check(False if part and is_ok(v) and not lens and not e.joins and not tm.has_top(v) else None, name, "the number is read with the consensus decoder", w, tm.show(v)[:200])
                    continue
                if s.facts[disc(ds[0])] == 1:
                    ctx.check(is_err(v) or (False if is_ok(v) else None), name + ":bytes", "bytes that are no number are refused", w, tm.show(v)[:200])
                    continue
                x = fld(ds[0], "Ok.0")
            sts.append((s, v, x))
        for val in [0, 1, 2, 3, 4, 127, 128, 255, 256, 258, 512, 65535, 65536, 65538, 2 ** 31, 2 ** 31 + 2, 2 ** 32 - 2, 2 ** 32 - 1]:
            hit = 0
            for s, v, x in sts:
                if not all(okval(t, f, x, val) for t, f in s.facts.items()):
                    continue
                hit = 1
                if val in (0, 2):
                    c = False if is_err(v) else None
                    if is_ok(v):
                        y = fld(v.a[2][0], "0")
                        y = K(val) if y is x else y
                        c = y.a[0] == val if y.op == "k" else None
                    r = "versions 0 and 2 are accepted as themselves"
                else:
                    c = True if is_err(v) else False if is_ok(v) else None
                    r = "no other version is accepted"
                if c is False and any(num_unknown(t, x) for t in s.facts):
                    c = None
                ctx.check(c, "%s:%s" % (name, val if val < 4 else "other"), r, w, "%s for %d" % (tm.show(v)[:150], val))
            if not hit:
                ctx.check(None, "%s:%d" % (name, val), "every number is handled", w, "no path for %d" % val)


def num_unknown(t, x):
    from .robust import num
    return num(t, {x: 0}) is None and bool(tm.find(t, lambda y: y is x)) and t.op != "discr"

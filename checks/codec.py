"""C34 the byte layout of a PSBT, its maps and its records, C35 the encodings of the values."""
import re
from engine.check import prop
from engine import terms as tm
from engine.ai import Engine
from engine.models import EMPTY
from engine.terms import fld, disc, mk, length, K, S
from .lib import *
from .roles import size

VEC = 4_000_000     # bitcoin::consensus::encode::MAX_VEC_SIZE, the longest byte string the consensus encoding carries
CS = "bitcoin::consensus::encode::serialize"
# functions whose result is understood; anything else leaves a comparison undecided
VOCAB = {
    CS, "bitcoin::consensus::encode::deserialize", "bitcoin::consensus::encode::deserialize_partial",
    "bitcoin::consensus::encode::Decodable::consensus_decode", "bitcoin::consensus::encode::ReadExt::read_u8",
    "bitcoin::consensus::encode::ReadExt::read_to_limit", "bitcoin_io::Read::read_to_limit",
    "bitcoin::bip32::Fingerprint::to_bytes", "bitcoin::blockdata::script::borrowed::Script::as_bytes",
    "bitcoin::blockdata::script::borrowed::Script::to_bytes", "bitcoin::blockdata::script::borrowed::Script::len",
    "bitcoin::crypto::ecdsa::Signature::from_slice", "bitcoin::crypto::ecdsa::Signature::to_vec",
    "bitcoin::crypto::key::PublicKey::from_slice", "bitcoin::crypto::key::PublicKey::write_into",
    "bitcoin::crypto::taproot::Signature::from_slice", "bitcoin::crypto::taproot::Signature::to_vec",
    "bitcoin::taproot::ControlBlock::decode", "bitcoin::taproot::ControlBlock::serialize",
    "bitcoin::taproot::LeafVersion::from_consensus", "bitcoin::taproot::LeafVersion::to_consensus",
    "bitcoin::taproot::TapTree::script_leaves", "bitcoin::taproot::TaprootBuilder::add_leaf_with_ver",
    "bitcoin::taproot::merkle_branch::TaprootMerkleBranch::len",
    "bitcoin_units::locktime::absolute::Height::from_consensus", "bitcoin_units::locktime::absolute::Height::to_consensus_u32",
    "bitcoin_units::locktime::absolute::Time::from_consensus", "bitcoin_units::locktime::absolute::Time::to_consensus_u32",
    "secp256k1::key::PublicKey::from_slice", "secp256k1::key::PublicKey::serialize", "secp256k1::key::PublicKey::serialize_uncompressed",
    "secp256k1::key::XOnlyPublicKey::from_slice", "secp256k1::key::XOnlyPublicKey::serialize",
}
VTAIL = ("as Decodable>::consensus_decode", "::as_byte_array", "::from_slice", "::try_from", "::from", "::into", "::to_byte_array",
         "::from_byte_array", "Decodable>::consensus_decode", "serialize_map", "::get_pairs", "::serialize", "::decode", "decode_global",
         "::serialize_der", "::serialize_compact", "::merkle_branch", "::script", "::version", "::as_slice", "::to_vec", "::to_bytes", "::as_ref", "::into_inner")


def word(x):
    n = fname(x)
    return n in VOCAB or n.endswith(VTAIL)


def plain(*ts):
    """every part of the terms is understood"""
    return not any(tm.has_top(t) or tm.find(t, lambda y: y.op in ("phi", "partial") or y.op == "app" and not word(y)
                                            or y.op == "hv" and not (str(y.a[0]) in VOCAB or str(y.a[0]).endswith(VTAIL))) for t in ts)


def same(got, want, *extra):
    """got is want: True; a different understood value: False; else None"""
    if got == want:
        return True
    ts = []

    def walk(x):
        if tm.isx(x):
            ts.append(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
    walk(got)
    return False if plain(*ts) and plain(*extra) else None


# ---------------------------------------------------------------- written bytes
def strip(x):
    """the value behind conversions that keep the encoding: u32 newtypes, byte views"""
    while True:
        if x.op == "fld" and x.a[1] in ("0", "u0", "inner"):
            x = x.a[0]
        elif x.op == "app" and len(x.a) == 2 and (fname(x).endswith(("::to_consensus_u32", "::to_u32", "::to_sat")) or "ChildNumber> for u32>::from" in fname(x)):
            x = x.a[1]
        else:
            return x


def views(x):
    """the value whose bytes x are (slices of a script, vector or array)"""
    while x.op == "app" and len(x.a) == 2 and fname(x).split("::")[-1] in (
            "as_bytes", "to_bytes", "as_byte_array", "to_byte_array", "to_vec", "serialize", "as_slice", "as_ref", "into_inner", "into_bytes") and fname(x) != CS:
        x = x.a[1]
    return x


def amount(n):
    """a length as (constant, sorted other terms), whatever order it was added up in"""
    c, ts = 0, []

    def go(x):
        nonlocal c
        if x.op == "add":
            go(x.a[0]), go(x.a[1])
        elif x.op == "k" and isinstance(x.a[0], int):
            c += x.a[0]
        elif x.op == "sub" and x.a[1].op == "k":
            go(x.a[0])
            c -= x.a[1].a[0]
        elif x.op == "cast" and str(x.a[0]) in ("u64", "usize"):
            go(x.a[-1])
        else:
            ts.append(x)
    go(n)
    return c, tuple(sorted(ts, key=lambda y: y.id))


def varint(x):
    """the number a VarInt value holds"""
    if x.op == "app" and len(x.a) == 2 and "VarInt" in fname(x) and fname(x).endswith("::from"):
        return amount(x.a[1])
    if x.op == "agg" and str(x.a[0]).endswith("VarInt"):
        return amount(x.a[2][0])
    return None


def enc(x, e=None):
    """atoms written by the consensus encoding of x"""
    v = varint(x)
    if v is not None:
        return [("varint",) + v]
    if x.op == "fld" and x.a[1] in ("value", "prefix"):          # Vec<u8>
        return [("varint",) + amount(length(x)), ("raw", x)]
    return [("enc", strip(x))]


def atoms(t):
    """what a byte string consists of: ints, ("raw", value), ("enc", value), ("varint", n), ("byte", value), ("each", site, atoms)"""
    out = []

    def whole(x):
        if x.op == "k" and isinstance(x.a[0], (bytes, str)):
            out.extend(x.a[0] if isinstance(x.a[0], bytes) else x.a[0].encode("latin1"))
        elif x.op == "seq" or x.op == "agg" and x.a[0] == "[]":
            seq(x)
        elif x.op == "app" and fname(x) == CS:
            out.extend(enc(x.a[-1]))
        elif x.op == "to_le_bytes":
            out.append(("enc", strip(x.a[-1])))
        elif x.op == "hv" and str(x.a[0]).endswith("PublicKey::write_into") and tm.seq_of(x.a[-1]) == (None, ()):
            out.append(("raw", x.a[2]))
        elif x.op == "app" and fname(x).endswith("::serialize_map"):
            out.append(("map", x.a[1]))
        elif x.op == "app" and re.search(r"Pair.*::serialize$", fname(x)):
            out.append(("pair", x.a[1]))
        else:
            out.append(("raw", views(x)))

    def part(p):
        if p.op == "one":
            x = p.a[0]
            out.append(x.a[0] if x.op == "k" and isinstance(x.a[0], int) else ("byte", x))
        elif p.op == "all":
            whole(p.a[0])
        elif p.op == "each":
            nonlocal_out = atoms(mk("seq", None, (p.a[0],)))
            sites = tuple(sorted({str(i.a[0]) for i in p.ixs})) or ("?",)
            if out and isinstance(out[-1], tuple) and out[-1][0] == "each" and out[-1][1] == sites:
                out[-1] = ("each", sites, out[-1][2] + tuple(nonlocal_out), out[-1][3])
            else:
                out.append(("each", sites, tuple(nonlocal_out), frozenset(i.a[0] for i in p.ixs)))
        elif p.op == "may" and len(p.a[0]) == 1:
            out.append(("may", next(iter(p.a[0]))))
        else:
            out.append(("?", p))

    def seq(x):
        b, ps = tm.seq_of(x)
        if b is not None:
            whole(b)
        for p in ps:
            part(p)
    whole(t)
    return out


def show(a):
    def f(x):
        if isinstance(x, int):
            return "%#x" % x
        if x[0] == "may":
            return "sometimes(%s)" % tm.show(x[1])
        if x[0] == "each":
            return "each(%s)" % " ".join(f(y) for y in x[2])
        return x[0] + "(" + ", ".join(tm.show(y) if tm.isx(y) else "+".join(tm.show(z) for z in y) if isinstance(y, tuple) else str(y) for y in x[1:]) + ")"
    return " ".join(f(x) for x in a)[:400]


def inner(a, want):
    """the loops an `each` atom runs in, without those the list itself depends on"""
    return sorted(a[3] - {i.a[0] for i in tm.find(want, lambda y: y.op == "ix")}, key=str)


def over(e, a, want):
    """does the `each` atom run over every element of list `want`, first to last?"""
    sites = inner(a, want)
    if len(sites) != 1:
        return None
    site = sites[0]
    if is_rev(e, site):
        return False
    lens = {unlv(e, l) for l in lens_of(e, site)}
    return covers(lens, {length(want)})


def omitted(e, g):
    """is g written by a loop that certainly passes over some elements without writing?"""
    if not (isinstance(g, tuple) and g[0] in ("may", "?") and tm.isx(g[1])):
        return False
    return any(ix.a[0] in e.omits and len(e.omits[ix.a[0]].a) == 1 for ix in g[1].ixs)


def layout(ctx, e, got, want, key, rule, w, joins=None):
    """compare atoms; `each` atoms of want are ("each", list, f) with f(index term) -> atoms"""
    joins = e.joins if joins is None else joins
    det = "writes " + show(got)
    if len(got) != len(want):
        ts = [x for a in got if isinstance(a, tuple) for x in a[1:] if tm.isx(x)]
        return ctx.check(False if plain(*ts) and not any(isinstance(a, tuple) and a[0] == "?" for a in got) and not joins else None, key, rule, w, det)
    res = True
    for g, x in zip(got, want):
        if isinstance(x, tuple) and x[0] == "each":
            if not (isinstance(g, tuple) and g[0] == "each"):
                if not joins and omitted(e, g):
                    return ctx.bad(key, rule, w, "an element may be left out: " + det)
                if isinstance(g, tuple) and g[0] == "raw" and x[2] == "bytes" and g[1] is x[1]:
                    continue
                r = same(g, x)
            else:
                r = over(e, g, x[1])
                sites = inner(g, x[1])
                if len(sites) == 1:
                    ix = mk("ix", sites[0])
                    r2 = same(tuple(g[2]), tuple(x[2](mk("at", x[1], ix))))
                    r = False if r is False or r2 is False else None if r is None or r2 is None else True
                else:
                    r = None
        else:
            r = same(g, x)
        if r is False or isinstance(g, tuple) and g[0] == "?":
            res = None if isinstance(g, tuple) and g[0] == "?" else False
            break
        if r is None:
            res = None
    if res is False and joins:
        res = None
    return ctx.check(res, key, rule, w, det)


# ---------------------------------------------------------------- read positions
def reads(e, t, depth=0):
    """(source, [functions that read from it in turn]); ("loop", {reads of one pass}) for a loop"""
    if depth > 12:
        return None
    if t.op == "hv":
        src = t.a[2 if len(t.a) > 2 else -1]
        r = reads(e, src, depth + 1)
        return None if r is None else (r[0], r[1] + (reader(str(t.a[0]), t),))
    if t in e.lv:
        d = e.lv[t]
        r = reads(e, d["init"], depth + 1)
        if r is None:
            return None
        body = set()
        for b in d["back"]:
            if b is t:
                continue
            steps = []
            while b is not t and b is not d["init"]:
                if b.op == "hv":
                    steps.append(reader(str(b.a[0]), b))
                    b = b.a[2]
                else:
                    return None
            if b is t:
                body.add(tuple(reversed(steps)))
        return (r[0], r[1] + (("loop", frozenset(body)),))
    return (t, ())


def reader(n, t):
    m = re.match(r"<(.*) as .*Decodable>::consensus_decode", n)
    if m:
        return m.group(1).split("::")[-1]
    if n.endswith("ReadExt::read_u8"):
        return "u8"
    if n.endswith("Decodable::consensus_decode"):
        return "T"
    m = re.search(r"(Global|Input|Output)::decode$|(decode_global)$|(Pair|Key)::decode$", n)
    if m:
        return (m.group(1) or m.group(2) or m.group(3)).replace("decode_global", "Global")
    return n.split("::")[-1]


def token(e, t):
    """what t = f(reader).Ok.0 reads and from where: (kind, source, steps) | None"""
    if t.op != "fld" or t.a[1] != "Ok.0" or t.a[0].op != "app":
        return None
    x = t.a[0]
    r = reads(e, x.a[1])
    return None if r is None else (reader(str(x.a[0]), x), r[0], r[1])


LR = mk("ref", ("L", 0, 99), ())


def io_run(ctx, key, init, args, **kw):
    """run a function that takes a reader or writer, with the reader / writer starting as `init`"""
    e = Engine(ctx.prog, cap=40, **kw)
    r = e.run(key, args=args, pre=lambda e, s: s.mem.__setitem__(("L", 0, 99), init))
    ctx.used(e)
    ctx.count("paths", len(r))
    return e, r


def after(e, s):
    return e.snap(s, s.mem[("L", 0, 99)])


def bodies(p, rx):
    return sorted(k for k in p.raw if re.search(rx, k) and " @" not in k and "|" not in k and "{closure" not in k and "promoted[" not in k)


def reasons(s, oks):
    """facts of a refusing path that no accepting path shares: [(term, value, value on the accepting paths)]"""
    out = []
    for t, v in s.facts.items():
        for o in oks:
            if t in o.facts and not agree(v, o.facts[t]):
                out.append((t, v, o.facts[t]))
                break
    return out


def agree(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        return a not in b
    if isinstance(b, int):
        return b not in a
    return True


# ---------------------------------------------------------------- C34
@prop("C34")
def c34(ctx):
    """Serializers are interpreted for an arbitrary value and the byte string they build is compared, atom by atom,
    with the layout of BIP-174.  Parsers are interpreted with a symbolic reader: every value they return is traced to
    the reads that precede it."""
    p = ctx.prog
    out_psbt(ctx, p)
    out_map(ctx, p)
    out_pair(ctx, p)
    in_pair(ctx, p)
    prop_key(ctx, p)
    in_psbt(ctx, p)


def out_psbt(ctx, p):
    ks = bodies(p, r"Psbt>?::serialize$")
    ctx.check(len(ks) == 2 or None, "serialize", "both PSBT versions have a serializer", "", str(ks)[:200])
    for k in ks:
        w = where(p, k)
        e = Engine(p, cap=40, opaque=opaque_names("serialize_map"))
        st = e.run(k, args=[SELF])
        ctx.used(e)
        v2 = "::v2::" in k
        ver = "v2" if v2 else "v0"
        for s, v in st:
            g = fld(SELF, "global") if v2 else SELF
            each = lambda x: [("map", x)]
            layout(ctx, e, atoms(v), [*b"psbt", 0xff, ("map", g), ("each", fld(SELF, "inputs"), each), ("each", fld(SELF, "outputs"), each)],
                   "psbt:" + ver, "a PSBT is its magic, the global map, every input map and every output map, in order", w)


def out_map(ctx, p):
    ks = bodies(p, r" as psbt_v2::.*Map>::serialize_map$")
    ks = [k for k in ks if not k.startswith("<Self")]
    ctx.check(len(ks) >= 6 or None, "serialize_map", "all maps have a serializer", "", str(ks)[:300])
    for k in ks:
        w = where(p, k)
        e = Engine(p, cap=40, opaque=lambda path, key: bool(re.search(r"raw::Pair as .*::serialize$|::get_pairs$", str(path) + "\n" + str(key), re.M)))
        st = e.run(k, args=[SELF])
        ctx.used(e)
        n = re.sub(r".*::(v\d)::.*?(\w+) as .*", r"\1.\2", k)
        for s, v in st:
            a = atoms(v)
            src = None
            for x in a:
                if isinstance(x, tuple) and x[0] == "each":
                    f = tm.find(x[2][0][1], lambda y: y.op == "app" and fname(y).endswith("::get_pairs")) if len(x[2]) == 1 else None
                    src = f
            if src is None:
                ctx.check(False if any(omitted(e, x) for x in a) else None if plain(v) is False or len(a) != 1 else False, "map:" + n, "a map is its records followed by a zero byte", w, "writes " + show(a))
                continue
            if isinstance(src, (list, set, tuple)):
                src = list(src)[0]
            layout(ctx, e, a, [("each", src, lambda x: [("pair", x)]), 0], "map:" + n, "a map is its records followed by a zero byte", w)


def out_pair(ctx, p):
    for k in bodies(p, r"raw::(Pair|Key) as .*Serialize>::serialize$"):
        w = where(p, k)
        e = Engine(p, cap=40)
        st = e.run(k, args=[SELF])
        ctx.used(e)
        ver = "v0" if "::v0::" in k else "v2"
        key = fld(SELF, "key") if "::Pair as" in k else SELF
        kd = fld(key, "key")
        want = [("varint", 1, (length(kd),)), ("byte", fld(key, "type_value")), ("raw", kd)]
        if key is not SELF:
            want += enc(fld(SELF, "value"))
        for s, v in st:
            layout(ctx, e, atoms(v), want, "%s:%s:write" % (ver, "pair" if key is not SELF else "key"),
                   "a record is the length of type and key data, the type, the key data, and the value behind its length", w)
    for k in bodies(p, r"raw::ProprietaryKey.*Encodable>::consensus_encode::<W>$"):
        w = where(p, k)
        e, st = io_run(ctx, k, EMPTY, [SELF, LR])
        ver = "v0" if "::v0::" in k else "v2"
        okk = 0
        for s, v in st:
            if not is_ok(v):
                ctx.check(None if not is_err(v) else True, ver + ":proprietary:ok", "a write error is passed on", w, tm.show(v)[:200])
                continue
            okk += 1
            kd = fld(SELF, "key")
            a = atoms(after(e, s))
            a = [("byte", b[1].a[-1]) if isinstance(b, tuple) and b[0] == "byte" and b[1].op == "app" and fname(b[1]).startswith("into<") else b for b in a]
            a = [("byte", conv(b[1])) if isinstance(b, tuple) and b[0] == "byte" else b for b in a]
            layout(ctx, e, a, enc(fld(SELF, "prefix")) + [("byte", fld(SELF, "subtype")), ("raw", kd)], ver + ":proprietary:write",
                   "a proprietary key is its prefix behind its length, the subtype byte and the key data", w)
            n = amount(v.a[2][0])
            pl = [t for t in n[1] if t.op == "app" and t.a[0] == "enclen" and t.a[1] is fld(SELF, "prefix")]
            rest = tuple(t for t in n[1] if t not in pl)
            c = len(pl) == 1 and n[0] == 1 and rest == (length(kd),)
            ctx.check(True if c else False if plain(*[t for t in rest]) and len(pl) == 1 else None, ver + ":proprietary:length",
                      "the number of bytes reported is the number written", w, tm.show(v)[:200])
        ctx.check(okk > 0 or None, ver + ":proprietary:some", "some key can be written", w)


def conv(x):
    """the value behind From / Into between the subtype and u8"""
    while x.op == "app" and len(x.a) == 2 and re.search(r"(^|::)(into|from)(<|$)", str(x.a[0])):
        x = x.a[1]
    return x


def in_pair(ctx, p):
    for k in bodies(p, r"raw::(Pair|Key)::decode::<&\[u8\]>$"):
        w = where(p, k)
        e, st = io_run(ctx, k, S("bytes"), [LR])
        ver = "v0" if "::v0::" in k else "v2"
        pair = "::Pair::" in k
        n = "%s:%s:" % (ver, "pair" if pair else "key")
        oks = [s for s, v in st if is_ok(v)]
        ctx.check(len(oks) > 0, n + "some", "some record is accepted", w, "no path succeeds")
        num = None
        for s, v in st:
            if not is_ok(v):
                continue
            P = v.a[2][0]
            key = fld(P, "key") if pair else P
            tv, kd = fld(key, "type_value"), fld(key, "key")
            t = token(e, tv)
            c = None if t is None or t[1] is not S("bytes") else t[0] == "u8" and t[2] == ("VarInt",)
            ctx.check(c, n + "type", "the type is the byte behind the key length", w, tm.show(tv)[:300])
            x = each1(kd)
            c = None
            if kd.op == "reversed" and each1(kd.a[0]) is not None:
                c = False
            if x is not None:
                t = token(e, x)
                if t is not None and t[1] is S("bytes"):
                    c = t[0] == "u8" and t[2] == ("VarInt", "u8", ("loop", frozenset({("u8",)})))
                num = next((y for y in keylens(e, st)), None)
                N = size(e, kd)
                cc = None
                if num is not None and N is not None:
                    a = amount(N) if N.op != "sub" or N.a[1].op != "k" else (amount(N.a[0])[0] - N.a[1].a[0], amount(N.a[0])[1])
                    cc = True if a == (-1, (num,)) else same(a, None, N)
                ctx.check(cc, n + "count", "the key data is as many bytes as the length says, less the type", w, N and tm.show(N)[:200])
            ctx.check(c, n + "data", "the key data is the bytes behind the type, in order", w, tm.show(kd)[:300])
            pos = reads(e, after(e, s))
            base = ("VarInt", "u8", ("loop", frozenset({("u8",)})))
            if pair:
                val = fld(P, "value")
                t = token(e, val)
                ctx.check(None if t is None or t[1] is not S("bytes") or t[0] not in ("T", "Vec<u8>", "u8", "VarInt") else t[0] in ("T", "Vec<u8>") and t[2] == base,
                          n + "value", "the value is the byte string behind the key", w, tm.show(val)[:300])
                base += ("T",)
            ctx.check(None if pos is None else pos[0] is S("bytes") and pos[1] == base, n + "consumed", "exactly the record is consumed", w, str(pos)[:300])
        for s, v in st:
            if not is_err(v):
                continue
            why = reasons(s, oks)
            name = errname(v)
            good = None
            if any(t.op == "discr" and x == 1 and t.a[0].op == "app" and token(e, fld(t.a[0], "Ok.0")) for t, x in s.facts.items()):
                good = True
            for t, x, o in why:
                if good is not None:
                    break
                if t.op == "discr" and t.a[0].op == "app" and word(t.a[0]):
                    good = True
                elif isnum(t) and x == 0:
                    good = True if name == "NoMorePairs" else False
                else:
                    m = overcap(t, x)
                    if m is not None:
                        good = m
            if good is None and plain(*s.facts) and not e.joins:
                good = False
            ctx.check(good, n + "refuse:" + name, "a record is refused only where the bytes end, the length is zero or above the consensus limit", w,
                      "%s if %s" % (name, [(tm.show(t)[:120], x) for t, x, o in why][:3]))
    for k in bodies(p, r"raw::Pair as .*Deserialize>::deserialize$"):
        w = where(p, k)
        ver = "v0" if "::v0::" in k else "v2"
        e = Engine(p, cap=40, opaque=lambda path, key: bool(re.search(r"raw::Pair::decode|raw::Pair as .*::decode$", str(path) + str(key))))
        st = e.run(k, args=[S("bytes")])
        ctx.used(e)
        for s, v in st:
            if is_ok(v):
                t = token(e, v.a[2][0])
                ctx.check(None if t is None else t[0] == "Pair" and t[1] is S("bytes") and not t[2], ver + ":pair:bytes", "a record is parsed from the first byte on", w, tm.show(v)[:200])


def each1(v):
    """the element of a list that is pushed once per pass of one loop"""
    b, ps = tm.seq_of(v)
    if b is None and len(ps) == 1 and ps[0].op == "each" and ps[0].a[0].op == "one":
        return ps[0].a[0].a[0]
    return None


def isnum(t):
    """the number read as key length"""
    return t.op == "fld" and tm.find(t, lambda y: y.op == "app" and "VarInt" in str(y.a[0])) and not tm.find(t, lambda y: y.op in ("sub", "add", "lt"))


def keylens(e, st):
    out = []
    for s, v in st:
        for t in s.facts:
            if isnum(t) and t not in out:
                out.append(t)
    return out


def overcap(t, x):
    """is fact `t = x` that a length exceeds a limit (True: the limit is the consensus one or above; False: below)"""
    if t.op == "lt" and x in (0, 1):
        a, b = t.a
        if x == 1 and a.op == "k":
            lim, v = a.a[0] + 1, b
        elif x == 0 and b.op == "k":
            lim, v = b.a[0], a
        else:
            return None
        off = 0
        if v.op == "sub" and v.a[1].op == "k":
            off, v = v.a[1].a[0], v.a[0]
        elif v.op == "add" and v.a[0].op == "k":
            off, v = -v.a[0].a[0], v.a[1]
        if isnum(v):
            return lim + off - 1 > VEC      # smallest refused key data length
    return None


def prop_key(ctx, p):
    for k in bodies(p, r"raw::ProprietaryKey.*Decodable>::consensus_decode::<R>$"):
        w = where(p, k)
        e, st = io_run(ctx, k, S("bytes"), [LR])
        ver = "v0" if "::v0::" in k else "v2"
        n = ver + ":proprietary:"
        for s, v in st:
            if not is_ok(v):
                continue
            P = v.a[2][0]
            t = token(e, fld(P, "prefix"))
            ctx.check(None if t is None else t[0] in ("T", "Vec<u8>") and t[2] == (), n + "prefix", "the prefix is the first byte string", w, tm.show(P)[:300])
            t = token(e, conv(fld(P, "subtype")))
            ctx.check(None if t is None else t[0] == "u8" and t[2] in (("T",), ("Vec<u8>",)), n + "subtype", "the subtype is the byte behind the prefix", w, tm.show(fld(P, "subtype"))[:300])
            kd = fld(P, "key")
            c = lim = None
            if kd.op == "hv" and str(kd.a[0]).endswith("read_to_limit") and kd.a[1] in (1, K(1)):
                r = reads(e, kd.a[2])
                c = None if r is None else r[1] in (("T", "u8"), ("Vec<u8>", "u8")) and tm.seq_of(kd.a[3]) == (None, ())
                L = kd.a[4]
                while L.op == "cast":
                    L = L.a[-1]
                lim = None if L.op != "k" else L.a[0] >= 1024
                ctx.check(lim, n + "limit", "at least the documented 1024 bytes of key data are read", w, "reading stops with an error after %s bytes" % tm.show(L))
            ctx.check(c, n + "data", "the key data is everything behind the subtype", w, tm.show(kd)[:300])
    for k in bodies(p, r"raw::ProprietaryKey(<Subtype>)?>?::to_key$|raw::ProprietaryKey<Subtype>::to_key$"):
        w = where(p, k)
        e = Engine(p, cap=40)
        st = e.run(k, args=[SELF])
        ctx.used(e)
        ver = "v0" if "::v0::" in k else "v2"
        for s, v in st:
            tv = fld(v, "type_value")
            ctx.check(True if tv is K(0xFC) else False if tv.op == "k" else None, ver + ":proprietary:type", "a proprietary key has type 0xFC", w, tm.show(tv)[:100])
            kd = fld(v, "key")
            ctx.check(True if kd.op == "app" and fname(kd) == CS and kd.a[1] is SELF else None, ver + ":proprietary:key", "its key data is its own encoding", w, tm.show(kd)[:200])
    for k in bodies(p, r"raw::ProprietaryKey<Subtype> as core::convert::TryFrom<psbt_v2::.*Key>>::try_from$"):
        w = where(p, k)
        ver = "v0" if "::v0::" in k else "v2"
        for val in range(256):
            e = Engine(p, cap=40)
            tv = fld(S("key"), "type_value")
            st = e.run(k, args=[S("key")], assume=[(tv, val)])
            if val in (0, 0xFC, 255):
                ctx.used(e)
            for s, v in st:
                if val != 0xFC:
                    ctx.check(is_err(v) or (False if is_ok(v) else None), ver + ":proprietary:tryfrom:type", "only type 0xFC is a proprietary key", w, "type %#x: %s" % (val, tm.show(v)[:100]))
                elif is_ok(v):
                    x = v.a[2][0]
                    src = x.a[0].a[1] if x.op == "fld" and x.a[1] == "Ok.0" and x.a[0].op == "app" and fname(x.a[0]).endswith("encode::deserialize") else None
                    ctx.check(None if src is None else src is fld(S("key"), "key"), ver + ":proprietary:tryfrom", "it is parsed from the whole key data", w, tm.show(v)[:200])
                elif is_err(v):
                    ctx.check(True if any(t.op == "discr" and t.a[0].op == "app" and fname(t.a[0]).endswith("encode::deserialize") and x == 1 for t, x in s.facts.items())
                              else False if plain(*s.facts) else None, ver + ":proprietary:tryfrom:refuse", "type 0xFC is refused only for its key data", w, tm.show(v)[:200])


def in_psbt(ctx, p):
    ks = bodies(p, r"Psbt>?::deserialize$")
    ctx.check(len(ks) == 2 or None, "deserialize", "both PSBT versions have a parser", "", str(ks)[:200])
    for k in ks:
        w = where(p, k)
        ver = "v2" if "::v2::" in k else "v0"
        e = Engine(p, cap=60, opaque=lambda path, key: bool(re.search(r"(Global|Input|Output)::decode(::<.*>)?$|decode_global(::<.*>)?$", str(path))))
        st = e.run(k, args=[S("bytes")])
        ctx.used(e)
        B = S("bytes")
        for s, v in st:
            if is_err(v):
                name = errname(v)
                if "UnsignedTxHas" in name:
                    continue
                good = False
                for t, x in s.facts.items():
                    if t.op == "discr" and x == 1 and t.a[0].op == "app" and token(e, fld(t.a[0], "Ok.0")):
                        good = True
                    elif tm.find(t, lambda y: y is B) and not tm.find(t, lambda y: y.op == "app") and t.op in ("inrange", "eq", "lt", "at", "len"):
                        pos = [o.facts[t] for o, r in st if is_ok(r) and t in o.facts]
                        if pos and not any(agree(x, y) for y in pos):
                            good = True
                ctx.check(True if good else None if not plain(*s.facts) or e.joins else False, ver + ":refuse:" + name,
                          "bytes are refused for their header or what a map parser says about them", w, tm.show(v)[:200])
                continue
            P = v.a[2][0]
            magic(ctx, s, ver, w)
            for part, steps in (("inputs", ("Global", ("loop", frozenset({("Input",)})))),
                                ("outputs", ("Global", ("loop", frozenset({("Input",)})), ("loop", frozenset({("Output",)}))))):
                x = each1(fld(P, part))
                c = None
                if x is not None:
                    t = token(e, x)
                    if t is not None:
                        c = t[0] == part[:-1].capitalize() and start(t[1]) and t[2] == steps
                ctx.check(c, "%s:read:%s" % (ver, part), "the %s maps are the maps that follow the %s, in order" % (part[:-1], "global map" if part == "inputs" else "input maps"),
                          w, tm.show(fld(P, part))[:200])
            g = fld(P, "global") if ver == "v2" else P
            while g.op == "upd":
                g = g.a[0]
            t = token(e, g)
            ctx.check(None if t is None else t[0] == "Global" and start(t[1]) and t[2] == (), ver + ":read:global", "the global map follows the magic", w, tm.show(g)[:200])


def start(t):
    return t is tm.mk("slice", S("bytes"), K(5), tm.mk("k", None)) or tm.show(t) == "slice(bytes, 5, None)"


def magic(ctx, s, ver, w):
    """on success the first five bytes are known"""
    got = {}
    for t, v in s.facts.items():
        if t.op == "eq" and v == 1:
            a, b = t.a
            for x, y in ((a, b), (b, a)):
                if y.op == "k" and isinstance(y.a[0], (bytes, str)) and tm.show(x).startswith("slice(bytes, 0, "):
                    bs = y.a[0] if isinstance(y.a[0], bytes) else y.a[0].encode("latin1")
                    got.update(enumerate(bs))
        if t.op == "at" and t.a[0] is S("bytes") and t.a[1].op == "k" and isinstance(v, int):
            got[t.a[1].a[0]] = v
    want = dict(enumerate(b"psbt\xff"))
    c = True if {i: got.get(i) for i in want} == want else None
    if c is None and plain(*s.facts):
        c = False
    ctx.check(c, ver + ":magic", "what is accepted starts with the magic bytes", w, str(sorted(got.items())))


# ---------------------------------------------------------------- C35
# field -> (form of the key data, form of the value); everything else is its own bytes
ENCD = "enc"
FORM = {
    "non_witness_utxo": (None, "enc"), "witness_utxo": (None, "enc"), "final_script_witness": (None, "enc"),
    "sighash_type": (None, "enc"), "spent_output_index": (None, "enc"), "sequence": (None, "enc"), "min_time": (None, "enc"),
    "min_height": (None, "enc"), "tx_version": (None, "enc"), "fallback_lock_time": (None, "enc"), "amount": (None, "enc"),
    "sp_v0_label": (None, "enc"), "version": (None, "enc"), "input_count": (None, "count"), "output_count": (None, "count"),
    "tx_modifiable_flags": (None, "byte"), "unsigned_tx": (None, "tx"), "tap_tree": (None, "tree"),
    "xpubs": ("xpub", "source"), "xpub": ("xpub", "source"), "bip32_derivations": ("raw", "source"), "bip32_derivation": ("raw", "source"),
    "tap_key_origins": ("raw", "origin"), "tap_scripts": ("raw", "leaf"), "tap_script_sigs": ("keyleaf", "raw"),
    "proprietaries": ("enc", "raw"), "proprietary": ("enc", "raw"), "sp_dleq_proofs": ("raw", "proof"),
}
WHAT = {
    "raw": "its own bytes", "enc": "its consensus encoding", "count": "a compact size integer", "byte": "one byte",
    "tx": "version, inputs, outputs and lock time, without witness data", "tree": "depth, leaf version and script of every leaf",
    "source": "the fingerprint followed by every child number", "origin": "the leaf hashes behind their number, then the key source",
    "leaf": "the script followed by the leaf version", "keyleaf": "the x-only key followed by the leaf hash",
    "proof": "its own bytes", "xpub": "its 78 byte encoding", None: "empty",
}


def written(x, form):
    """atoms of value x in the given form"""
    if form is None:
        return []
    if form == "enc":
        return [("enc", strip(x))]
    if form == "count":
        return [("varint",) + amount(x)]
    if form == "byte":
        return [("byte", x)]
    if form == "proof":
        return [("raw", views(fld(x, "0")))]
    if form == "xpub":
        return [("raw", mk("app", "bitcoin::bip32::Xpub::encode", x))]
    if form == "tx":
        return [("enc", strip(fld(x, n))) for n in ("version", "input", "output", "lock_time")]
    if form == "source":
        return [("raw", views(fld(x, "0"))), ("each", fld(x, "1"), lambda c: [("enc", strip(c))])]
    if form == "origin":
        return [("enc", strip(fld(x, "0")))] + written(fld(x, "1"), "source")
    if form == "leaf":
        return [("raw", views(fld(x, "0"))), ("byte", mk("app", "bitcoin::taproot::LeafVersion::to_consensus", fld(x, "1")))]
    if form == "keyleaf":
        return [("raw", views(fld(x, "0"))), ("raw", views(fld(x, "1")))]
    if form == "tree":
        L = mk("app", "bitcoin::taproot::TapTree::script_leaves", x)
        P = "bitcoin::taproot::ScriptLeaf::<'leaf>::"

        def leaf(l):
            return [("byte", mk("cast", "u8", mk("app", "bitcoin::taproot::merkle_branch::TaprootMerkleBranch::len", mk("app", P + "merkle_branch", l)))),
                    ("byte", mk("app", "bitcoin::taproot::LeafVersion::to_consensus", mk("app", P + "version", l))),
                    ("enc", mk("app", P + "script", l))]
        return [("each", L, leaf)]
    return [("raw", views(x))]


@prop("C35")
def c35(ctx):
    """Every record a map serializer pushes is compared, key data and value, with the encoding BIP-174, 370, 371 and 375
    give for that field; every value a map parser stores is traced to the bytes of the record it is made from."""
    for m in ENC:
        write_side(ctx, m)
        read_side(ctx, m)
    tree_read(ctx)
    value_refusals(ctx)


def write_side(ctx, m):
    p = ctx.prog
    sp = spec(m, p)
    e, r = enc_run(ctx, m)
    w = where(p, ENC[m])
    done = set()
    for s, v in r:
        for part, must, each in leaves(v):
            if part.op != "one":
                continue
            x = part.a[0]
            key, val = fld(x, "key"), fld(x, "value")
            tv, kd = fld(key, "type_value"), fld(key, "key")
            if tv.op != "k":
                ents = tm.find(x, lambda y: y.op == "kat")
                k = list(ents)[0] if len(set(ents)) == 1 else None
                if k is None:
                    ctx.check(None, m + ":write:unknown", "an unknown record is written back as it was", w, tm.show(x)[:200])
                    continue
                mine = tv is fld(k, "type_value") and kd is fld(k, "key") and val is mget_of(k)
                ctx.check(True if mine else same(1, 0, tv, kd, val), m + ":write:unknown", "an unknown record is written back as it was", w, tm.show(x)[:300])
                continue
            if tv.a[0] not in sp:
                continue
            f, kind = sp[tv.a[0]]
            kf, vf = FORM.get(f, ("raw" if kind == "map" else None, "raw"))
            F = fld(SELF, f)
            n = "%s:write:%s" % (m, f)
            if kind == "map":
                ks = {y for y in tm.find(x, lambda y: y.op == "kat" and y.a[0] is F)}
                if len(ks) != 1:
                    ctx.check(None, n + ":entry", "a record describes one entry", w, tm.show(x)[:200])
                    continue
                k = ks.pop()
                X = mget_of(k)
            else:
                k, X = None, F if kind != "opt" else fld(F, "Some.0")
            done.add(f)
            layout(ctx, e, norm(atoms(kd)), written(k, kf), n + ":key", "the key data of %s is %s" % (f, WHAT[kf]), w, 0)
            layout(ctx, e, norm(atoms(val)), written(X, vf), n, "the value of %s is %s" % (f, WHAT[vf]), w, 0)
    for f, kind in sp.values():
        ctx.check(True if f in done else None, "%s:write:%s:seen" % (m, f), "the field has a record", w)


def mget_of(k):
    return tm.mget(k.a[0], k)


def norm(a):
    """the same atoms, with the views that depend on a value's type removed"""
    out = []
    for x in a:
        if isinstance(x, tuple) and x[0] == "raw" and x[1].op == "app" and fname(x[1]) == "bitcoin::bip32::Xpub::encode":
            out.append(x)
        elif isinstance(x, tuple) and x[0] == "enc" and varint(x[1]) is not None:
            out.append(("varint",) + varint(x[1]))
        else:
            out.append(x)
    return out


# ---- read side: what a stored value is, in terms of the record's key data and value
def rng(t):
    """(bytes, lo, hi) of a part of a byte string; hi None: to the end"""
    if t.op == "slice":
        r = rng(t.a[0])
        if r is None:
            return None
        b, lo, hi = r
        a = amount(t.a[1]) if t.a[1] is not None else (0, ())
        lo2 = (lo[0] + a[0], tuple(sorted(lo[1] + a[1], key=lambda y: y.id)))
        if t.a[2] is None or t.a[2].op == "k" and t.a[2].a[0] is None or tm.show(t.a[2]) == "None":
            return b, lo2, hi
        h = amount(t.a[2])
        return b, lo2, (lo[0] + h[0], tuple(sorted(lo[1] + h[1], key=lambda y: y.id)))
    if t in (fld(PAIR, "value"), fld(fld(PAIR, "key"), "key")):
        return t, (0, ()), None
    return None


def source_of(t):
    """reader over a byte range -> range"""
    while t.op == "app" and len(t.a) == 2 and fname(t).split("::")[-1] in ("new", "as_slice", "from"):
        t = t.a[1]
    return rng(t)


def uncast(t):
    """the value behind constructors that keep the encoded number: u32 newtypes, checked or not"""
    while True:
        if t.op == "agg" and len(t.a[2]) == 1 and not tm.ISENUM.get(t.a[0]):
            t = t.a[2][0]
        elif t.op == "fld" and t.a[1] in ("0", "u0", "inner"):
            t = t.a[0]
        elif t.op == "fld" and t.a[1] == "Ok.0" and t.a[0].op == "app" and len(t.a[0].a) == 2 and fname(t.a[0]).endswith("::from_consensus"):
            t = t.a[0].a[1]
        elif t.op == "app" and len(t.a) == 2 and fname(t).split("::")[-1] in ("from_consensus", "from_sat"):
            t = t.a[1]
        else:
            return t


def stored(e, s, t):
    """canonical description of a stored value: nested tuples over ranges of the record's bytes"""
    if t.op == "agg" and t.a[0] == "()":
        return ("tuple",) + tuple(stored(e, s, x) for x in t.a[2])
    apps = [y for y in tm.find(t, lambda y: y.op == "app") if fname(y).endswith("deserialize_partial")]
    if apps and t is fld(fld(apps[0], "Ok.0"), "0"):
        r = rng(apps[0].a[1])
        return ("?", t) if r is None else ("first",) + r
    r = rng(t)
    if r is not None:
        return ("raw",) + r
    u = uncast(t)
    if u.op == "from_le_bytes" or u.op == "app" and str(u.a[0]).endswith("from_le_bytes"):
        x = u.a[-1]
        n = {"u32": 4, "u64": 8}.get(str(u.a[0]) if u.op == "from_le_bytes" else "", 0)
        el = x.a[2] if x.op == "agg" and x.a[0] == "[]" else ()
        if n and len(el) == n and all(y.op == "at" and y.a[1] is K(i) and y.a[0] is el[0].a[0] for i, y in enumerate(el)):
            r = rng(el[0].a[0])
            if r is not None:
                return ("enc",) + r
        r = rng(x)
        if r is not None:
            return ("enc",) + r
        return ("?", t)
    if u.op == "fld" and u.a[1] == "Ok.0" and u.a[0].op == "app":
        f = fname(u.a[0])
        if f == "bitcoin::consensus::encode::deserialize" or f.endswith("Decodable::consensus_decode") or f.endswith("Decodable>::consensus_decode"):
            r = source_of(u.a[0].a[1])
            if r is not None:
                return ("enc",) + r
            x = reads(e, u.a[0].a[1])
            r = None if x is None else source_of(x[0])
            return ("?", t) if r is None else ("enc", r, x[1])
    if u.op == "at":
        r = rng(u.a[0])
        if r is not None:
            return ("byte", r[0], (r[1][0] + amount(u.a[1])[0], r[1][1] + amount(u.a[1])[1]))
    if u.op in ("band", "bor", "bxor", "add", "sub", "mul", "shl", "shr", "div", "rem") and sum(y.op == "k" for y in u.a) == 1:
        y, = (y for y in u.a if y.op != "k")
        c, = (y.a[0] for y in u.a if y.op == "k")
        g = stored(e, s, y)
        if g[0] in ("enc", "byte") and not (u.op == "band" and c >= 2 ** 32 - 1) and not (u.op in ("mul", "div") and c == 1) and not \
                (u.op == "band" and c >= 255 and g[0] == "byte"):
            return ("changed", u.op, c) + g
    # made from exactly these bytes
    x = t
    while True:
        y = x
        if x.op == "fld" and x.a[1] == "Ok.0":
            x = x.a[0]
        if x.op == "app" and len(x.a) == 2 and fname(x).split("::")[-1] in ("from", "from_slice", "try_from", "decode", "from_consensus", "from_bytes", "into", "try_into"):
            x = x.a[1]
        elif x.op == "agg" and len(x.a[2]) == 1 and not tm.ISENUM.get(x.a[0]):
            x = x.a[2][0]
        if x is y:
            break
        r = rng(x)
        if r is not None:
            return ("raw",) + r
        if x.op == "at":
            r = rng(x.a[0])
            if r is not None:
                return ("byte", r[0], (r[1][0] + amount(x.a[1])[0], r[1][1] + amount(x.a[1])[1]))
        if x.op == "hv" and str(x.a[0]).endswith("Read::read_exact") and x.a[1] in (1, K(1)):
            r = reads(e, x.a[2])
            b = x.a[3]
            q = None if r is None else source_of(r[0])
            if q is not None and b.op == "k" and isinstance(b.a[0], (bytes, str)) and not r[1] and q[2] is None:
                return ("raw", q[0], q[1], (q[1][0] + len(b.a[0]), q[1][1]))
        b, ps = tm.seq_of(x) if x.op == "seq" else (1, ())
        if b is None and ps and all(q.op == "one" for q in ps):
            tk = []
            for q in ps:
                z = q.a[0]
                while z.op == "app" and len(z.a) == 2 and fname(z).split("::")[-1] in ("from", "into"):
                    z = z.a[1]
                tk.append(token(e, z))
            r = source_of(tk[0][1]) if all(tk) else None
            if r is None or any(q is None for q in tk):
                return ("?", t)
            if any(ended(e, s, q) for q in s_reads(s)):
                return ("?", t)
            return ("only", len(ps)) + r
        z = each1(x)
        if z is not None:
            while z.op == "app" and len(z.a) == 2 and fname(z).split("::")[-1] in ("from", "into"):
                z = z.a[1]
            t2 = token(e, z)
            if t2 is None:
                return ("?", t)
            r = source_of(t2[1])
            if r is None:
                return ("?", t)
            st = t2[2]
            skip = 0
            if st and st[0] == "read_exact":
                skip, st = 4, st[1:]
            if st and st[-1] == ("loop", frozenset({("u32",)})) and t2[0] == "u32" and len(st) == 1:
                end = ended(e, s, z.a[0].a[1])
                return ("numbers", r[0], (r[1][0] + skip, r[1][1]), r[2], end)
            return ("numbers?", r[0], (r[1][0] + skip, r[1][1]), r[2], t2[0], st)
    return ("?", t)


def s_reads(s):
    """readers some fact of the path is about"""
    return {y for t in s.facts for y in tm.find(t, lambda y: y.op in ("hv", "lv"))}


def ended(e, s, lv):
    """is the loop over these reads known to go on until the bytes are used up?"""
    pos = {lv} | ({e.lv[lv]["init"]} if lv in e.lv else set())
    for t, v in s.facts.items():
        for x in pos:
            if t.op == "len" and t.a[0] is x and v == 0:
                return True
            if t.op == "app" and fname(t).endswith("is_empty") and t.a[-1] is x and v == 1:
                return True
            if t.op == "discr" and v == 1 and t.a[0].op == "app" and "consensus_decode" in str(t.a[0].a[0]) and t.a[0].a[1] is x:
                return True
    return None


def expect(form, B, t):
    Z = (0, ())
    if form == "raw" or form == "proof" or form == "xpub":
        return [("raw", B, Z, None)]
    if form in ("enc", "count"):
        return [("enc", B, Z, None)]
    if form == "byte":
        return [("enc", B, Z, None), ("byte", B, Z)]
    if form == "source":
        return [("tuple", ("raw", B, Z, (4, ())), ("numbers", B, (4, ()), None, True))]
    if form == "leaf":
        e = (-1, (length(B),))
        return [("tuple", ("raw", B, Z, e), ("byte", B, e))]
    if form == "keyleaf":
        return [("tuple", ("raw", B, Z, (32, ())), ("raw", B, (32, ()), None))]
    if form == "origin":
        n = [y for y in tm.find(t, lambda y: y.op == "app") if fname(y).endswith("deserialize_partial")]
        n = fld(fld(n[0] if n else B, "Ok.0"), "1")
        return [("tuple", ("first", B, Z, None), ("tuple", ("raw", B, (0, (n,)), (4, (n,))), ("numbers", B, (4, (n,)), None, True)))]
    return None


def read_side(ctx, m):
    p = ctx.prog
    sp = spec(m, p)
    d = Dec(ctx, m)
    e = d.e
    KD, V = fld(fld(PAIR, "key"), "key"), fld(PAIR, "value")
    if not d.backs:
        ctx.check(None, m + ":read", "the record loop is recognised", d.where)
        return
    for t, ss in d.types().items():
        for s in ss:
            for (sym, f0), v in d.changed(s).items():
                if t is None or t not in sp:
                    if v.op == "seq" and len(v.a[1]) == 1 and v.a[1][0].op == "ent" and t is None:
                        k, x = v.a[1][0].a
                        ctx.check(True if k is fld(PAIR, "key") and x is V else same(1, 0, k, x), m + ":read:unknown",
                                  "an unknown record is kept as it is", d.where, tm.show(v)[:200])
                    continue
                f, kind = sp[t]
                kf, vf = FORM.get(f, ("raw" if kind == "map" else None, "raw"))
                n = "%s:read:%s" % (m, f)
                if kind == "map":
                    if not (v.op == "seq" and len(v.a[1]) == 1 and v.a[1][0].op == "ent"):
                        ctx.check(None, n, "the record adds one entry", d.where, tm.show(v)[:200])
                        continue
                    k, x = v.a[1][0].a
                    got(ctx, e, s, k, kf, KD, n + ":key", "the key of %s is made from %s" % (f, "the whole key data" if kf != "keyleaf" else "32 bytes of key data and the rest"), d.where)
                else:
                    if v.op == "agg" and v.a[1] == "Some":
                        x = v.a[2][0]
                    else:
                        ctx.check(None, n, "the record sets the field", d.where, tm.show(v)[:200])
                        continue
                if vf == "tree" or f == "version" and not tm.find(x, lambda y: y is V):
                    continue
                if vf == "tx":
                    parts = [("version", ()), ("input", ("Version",)), ("output", ("Version", "T")), ("lock_time", ("Version", "T", "T"))]
                    for fn, steps in parts:
                        tk = token(e, fld(x, fn))
                        c = None
                        if tk is not None and source_of(tk[1]) == (V, (0, ()), None):
                            want = tuple(steps)
                            c = tuple(y if y in ("T", "Version") or y.startswith("Vec") else y for y in tk[2]) in (want, tuple(y.replace("T", "Vec") for y in want))
                        ctx.check(c, "%s:%s" % (n, fn), "the transaction is version, inputs, outputs and lock time in turn", d.where, tm.show(fld(x, fn))[:300])
                    continue
                got(ctx, e, s, x, vf, V, n, "the value of %s is read from %s" % (f, WHAT[vf]), d.where)


def got(ctx, e, s, t, form, B, key, rule, w):
    want = expect(form, B, t)
    g = stored(e, s, t)
    if want is None:
        return
    det = tm.show(t)[:300]
    if g in want:
        return ctx.check(True, key, rule, w, det)
    if "?" in str(flat(g)) or e.joins:
        return ctx.check(None, key, rule, w, det)
    if any(close(g, x) for x in want):      # only how a loop ends is not settled
        return ctx.check(None, key, rule, w, det)
    return ctx.check(False if plain(t) else None, key, rule, w, "%s gives %s" % (det, g))


def flat(g):
    return [y for x in g for y in (flat(x) if isinstance(x, tuple) else [x] if isinstance(x, str) else [])]


def close(g, x):
    if isinstance(g, tuple) and isinstance(x, tuple) and len(g) == len(x):
        return all(close(a, b) for a, b in zip(g, x))
    return g == x or g is None and x is True


NEXT = "core::iter::traits::iterator::Iterator::next"
LEAFADD = "bitcoin::taproot::TaprootBuilder::add_leaf_with_ver"


def spot(t, B, cur):
    """where in the bytes a byte string or number starts, as an amount over the cursor symbol"""
    if t is B:
        return (0, ())
    if t in cur:
        return (0, (t,))
    if t.op == "slice":
        r = spot(t.a[0], B, cur)
        if r is None or t.a[2] is not None and not (t.a[2].op == "k" and t.a[2].a[0] is None):
            return None
        a = amount(t.a[1]) if t.a[1] is not None else (0, ())
        return (r[0] + a[0], tuple(sorted(r[1] + a[1], key=lambda y: y.id)))
    return None


def tree_read(ctx):
    p = ctx.prog
    ks = bodies(p, r"TapTree as .*Deserialize>::deserialize$")
    ctx.check(len(ks) == 2 or None, "tree", "both PSBT versions parse a tap tree", "", str(ks)[:200])
    for k in ks:
        w = where(p, k)
        ver = "v0" if "::v0::" in k else "v2"
        B = S("bytes")
        e = Engine(p, cap=60, watch=lambda path, f: "leaf" if str(path) == LEAFADD else None)
        e.loopcut = lambda b, h: True

        def cursor(e, st, a):
            """(root, position) of an iterator over the bytes"""
            if a.op != "ref" or a.a[1] not in ((), None):
                return None
            v = st.mem.get(a.a[0])
            if v is None:
                return None
            v = st.mem.get(a.a[0])
            if v is None:
                return None
            if v.op == "it" and v.a[:2] == ("seq", B):
                return a.a[0], K(0)
            if v.op in ("sym", "add", "k"):
                return a.a[0], v
            return None

        def step(e, st, f, args, site, loc):
            c = cursor(e, st, args[0])
            if c is None:
                return None
            e.cutcalls += 1
            out = []
            for s, x in e.fork(st, mk("lt", c[1], length(B))):
                if x:
                    s.mem[c[0]] = tm.arith("add", c[1], K(1))
                    out.append((s, tm.some(tm.at(B, c[1]))))
                else:
                    out.append((s, tm.NONE))
            return out

        def skip(e, st, f, args, site, loc):
            c = cursor(e, st, args[0])
            if c is None:
                return None
            st.mem[c[0]] = tm.arith("add", tm.arith("add", c[1], args[1]), K(1))
            return [(st, tm.TOP)]

        def rest(e, st, f, args, site, loc):
            c = cursor(e, st, args[0])
            return None if c is None else [(st, mk("slice", B, c[1], None))]

        def bump(e, st, f, args, site, loc):
            e.cutcalls += 1
        for pre in (NEXT, "<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next"):
            e.hooks[pre] = step
            e.hooks[pre.replace("::next", "::nth")] = skip
        e.hooks["core::slice::iter::Iter::<'a, T>::as_slice"] = rest
        e.hooks[LEAFADD] = bump
        r = e.run(k, args=[B])
        ctx.used(e)
        if len(e.cuts) != 1 or not e.cuts[0]["backs"]:
            ctx.check(None, ver + ":tree", "the leaf loop is recognised", w, "%d" % len(e.cuts))
            continue
        cut = e.cuts[0]
        adds = [x for x in e.log if x["name"] == "leaf"]
        sites = {x["loc"] for x in adds}
        ctx.check(len(sites) == 1 or None, ver + ":tree:add", "one call adds the leaves", w, str(sites))
        for x in adds:
            b, d, sc, lv = x["args"]
            n = ver + ":tree:"
            cur = {y for y in cut["syms"].values() if y is not b}
            dd = d.op == "at" and (spot(d.a[0], B, cur) is not None)
            at0 = loc_of(d, B, cur)
            C = at0[1] if at0 else None
            root = [r0 for r0, y in cut["syms"].items() if at0 and at0[1] == (y,)]
            if not dd or len(root) != 1:
                ctx.check(None, n + "depth", "the depth of a leaf is its first byte", x["where"], tm.show(d)[:200])
                continue
            init = cut["init"].mem.get(root[0])
            zero = init is K(0) or init is B or init.op == "it" and init.a[:2] == ("seq", B)
            ctx.check(True if at0[0] == 0 and zero else None if not zero else False, n + "depth", "the depth of a leaf is its first byte", x["where"], tm.show(d)[:200])
            y = lv.a[0].a[1] if lv.op == "fld" and lv.a[1] == "Ok.0" and lv.a[0].op == "app" and fname(lv.a[0]).endswith("LeafVersion::from_consensus") else None
            at1 = None if y is None else loc_of(y, B, cur)
            ctx.check(None if at1 is None else at1 == (1, C), n + "version", "the leaf version is its second byte", x["where"], tm.show(lv)[:200])
            ap = sc.a[0].a[0] if sc.op == "fld" and sc.a[1] == "0" and sc.a[0].op == "fld" and sc.a[0].a[1] == "Ok.0" else None
            at2 = spot(ap.a[1], B, cur) if ap is not None and ap.op == "app" and fname(ap).endswith("deserialize_partial") else None
            ctx.check(None if at2 is None else at2 == (2, C), n + "script", "the script is the byte string behind them", x["where"], tm.show(sc)[:200])
            used = fld(fld(ap, "Ok.0"), "1") if at2 else None
            for s in cut["backs"]:
                v = s.mem.get(root[0])
                nx = amount(v) if v is not None and v.op in ("add", "sub", "sym") else spot(v, B, cur) if v is not None else None
                if nx is None or used is None:
                    ctx.check(None, n + "next", "the next leaf follows the script", w, v is not None and tm.show(v)[:200])
                    continue
                want = (2, tuple(sorted(C + (used,), key=lambda z: z.id)))
                none = s.facts.get(used) == 0 or s.facts.get(mk("lt", K(0), used)) == 0      # nothing was consumed
                ctx.check(True if nx == want or none and nx == (2, C) else False if plain(v) else None, n + "next", "the next leaf follows the script", w, tm.show(v)[:200])
                bl = [z for r0, z in cut["syms"].items() if z is b]
                after_ = [s.mem.get(r0) for r0, z in cut["syms"].items() if z is b]
                good = len(bl) == 1 and after_[0] is not None and after_[0].op == "fld" and after_[0].a[0].op == "app" and \
                    fname(after_[0].a[0]) == LEAFADD and after_[0].a[0].a[1:] == x["args"]
                bad = len(bl) == 1 and after_[0] is bl[0] and not e.joins
                ctx.check(True if good else False if bad else None, n + "builder", "every leaf is added to the tree", w, str([tm.show(z)[:100] for z in after_ if z is not None]))
        for s, v in r:
            if is_ok(v):
                end = any(t.op == "lt" and z == 0 and t.a[1] is length(B) or t.op == "len" and z == 0 for t, z in s.facts.items())
                ctx.check(True if end else None, ver + ":tree:end", "leaves are read until the bytes end", w)
                z = v.a[2][0]
                good = z.op == "fld" and z.a[0].op == "app" and fname(z.a[0]).endswith("try_from") and z.a[0].a[1] in cut["syms"].values()
                ctx.check(True if good else None, ver + ":tree:result", "the tree is made from all leaves", w, tm.show(v)[:200])
            elif is_err(v):
                good = any(t.op == "discr" and z == 1 and t.a[0].op == "app" for t, z in s.facts.items()) or \
                    any(t.op in ("lt", "inrange", "len", "eq", "discr") and tm.find(t, lambda y: y is B or y in cut["syms"].values()) for t in s.facts)
                ctx.check(True if good else False if plain(*s.facts) else None, ver + ":tree:refuse", "bytes are refused only where one of the decoders refuses them", w, tm.show(v)[:200])


# shortest encodings of the values that have no fixed size; (shortest, None: no longest)
SHORTEST = ((r"^<\(bitcoin::bip32::Fingerprint, ", 4), (r"^<\(bitcoin::blockdata::script::owned::ScriptBuf, bitcoin::taproot::LeafVersion", 1),
            (r"^<\(secp256k1::key::XOnlyPublicKey, bitcoin::taproot::TapLeafHash", 64), (r"^<\(alloc::vec::Vec<bitcoin::taproot::TapLeafHash>, ", 5),
            (r"^<alloc::vec::Vec<u8>", 0), (r"^<bitcoin::blockdata::script::owned::ScriptBuf ", 0))


def value_refusals(ctx):
    p = ctx.prog
    for k in bodies(p, r" as psbt_v2::.*serialize::Deserialize>::deserialize$"):
        if "TapTree as" in k or re.search(r"Psbt>? as|raw::(Pair|Key) as|::map::|version::Version", k):
            continue
        w = where(p, k)
        n = ("v0" if "::v0::" in k else "v2") + ":value:" + re.sub(r"[a-z0-9_]+::", "", k[1:k.rindex(" as ")])
        e = Engine(p, cap=40)
        r = e.run(k, args=[S("bytes")])
        ctx.used(e)
        B = S("bytes")
        least = next((m for rx, m in SHORTEST if re.search(rx, k)), None)
        ctx.check(any(is_ok(v) for s, v in r) or None, n + ":some", "some bytes are accepted", w)
        for s, v in r:
            if not is_err(v):
                continue
            good = True if any(t.op == "discr" and x == 1 and t.a[0].op == "app" and word(t.a[0]) for t, x in s.facts.items()) else None
            why = ""
            if good is None and "DleqProof" in k:        # 64 bytes
                x = s.facts.get(length(B))
                good = None if x is None else 64 in x if isinstance(x, frozenset) else x != 64
            if good is None:
                for t, x in s.facts.items():
                    lim = below(t, x)
                    if lim is None:
                        continue
                    part, hi = lim
                    why = "refused when %s is shorter than %d bytes" % (tm.show(part), hi)
                    m = least if part is B else 4 if part.op == "slice" and "Vec<" in k and "Fingerprint" in k else None
                    if m is None:
                        continue
                    if hi <= m:
                        good = True
                        break
                    good = False if plain(part) and not e.joins else None
                if good is None and not why and plain(*s.facts) and not e.joins and least is not None and \
                        not any(y.op == "lv" for t in s.facts for y in tm.find(t, lambda z: True)) and not e.loops:
                    good = False
            ctx.check(good, n + ":refuse:" + errname(v), "a value is refused only where one of its decoders refuses it or it is shorter than any encoding", w, why or tm.show(v)[:200])


def below(t, x):
    """fact t = x says a byte string is shorter than: (byte string, bound)"""
    if t.op == "len" and x == 0:
        return t.a[0], 1
    if t.op == "lt" and x == 1 and t.a[0].op == "len" and t.a[1].op == "k":
        return t.a[0].a[0], t.a[1].a[0]
    if t.op == "lt" and x == 0 and t.a[1].op == "len" and t.a[0].op == "k":
        return t.a[1].a[0], t.a[0].a[0] + 1
    return None


def loc_of(t, B, cur):
    """location of one byte"""
    if t.op != "at":
        return None
    r = spot(t.a[0], B, cur)
    if r is None:
        return None
    a = amount(t.a[1])
    return r[0] + a[0], tuple(sorted(r[1] + a[1], key=lambda y: y.id))

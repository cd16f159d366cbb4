"""Shared anchors and runs: public types, trait methods and constants of the crate under analysis."""
from engine import terms as tm
from engine.ai import Engine, Budget
from engine.terms import S, K, fld, disc, length, mk, ok, err

V2 = "psbt_v2::v2::map::"
V0 = "psbt_v2::v0::bitcoin::map::"
ENC = {
    "v2.Global": "<psbt_v2::v2::map::global::Global as psbt_v2::v2::map::Map>::get_pairs",
    "v2.Input": "<psbt_v2::v2::map::input::Input as psbt_v2::v2::map::Map>::get_pairs",
    "v2.Output": "<psbt_v2::v2::map::output::Output as psbt_v2::v2::map::Map>::get_pairs",
    "v0.Global": "psbt_v2::v0::bitcoin::map::global::<impl psbt_v2::v0::bitcoin::map::Map for psbt_v2::v0::bitcoin::Psbt>::get_pairs",
    "v0.Input": "<psbt_v2::v0::bitcoin::map::input::Input as psbt_v2::v0::bitcoin::map::Map>::get_pairs",
    "v0.Output": "<psbt_v2::v0::bitcoin::map::output::Output as psbt_v2::v0::bitcoin::map::Map>::get_pairs",
}
DEC = {
    "v2.Global": "psbt_v2::v2::map::global::Global::decode::<&[u8]>",
    "v2.Input": "psbt_v2::v2::map::input::Input::decode::<&[u8]>",
    "v2.Output": "psbt_v2::v2::map::output::Output::decode::<&[u8]>",
    "v0.Global": "psbt_v2::v0::bitcoin::map::global::<impl psbt_v2::v0::bitcoin::Psbt>::decode_global::<&[u8]>",
    "v0.Input": "psbt_v2::v0::bitcoin::map::input::Input::decode::<&[u8]>",
    "v0.Output": "psbt_v2::v0::bitcoin::map::output::Output::decode::<&[u8]>",
}
TY = {
    "v2.Global": "psbt_v2::v2::map::global::Global", "v2.Input": "psbt_v2::v2::map::input::Input",
    "v2.Output": "psbt_v2::v2::map::output::Output", "v0.Global": "psbt_v2::v0::bitcoin::Psbt",
    "v0.Input": "psbt_v2::v0::bitcoin::map::input::Input", "v0.Output": "psbt_v2::v0::bitcoin::map::output::Output",
}
PAIRDEC = ("psbt_v2::raw::Pair::decode", "psbt_v2::v0::bitcoin::raw::Pair::decode",
           "<psbt_v2::v0::bitcoin::raw::Pair as psbt_v2::v0::bitcoin::serialize::Deserialize>::decode")
SELF = S("self")
PAIR = S("pair")

# (map type -> key type value -> (field, kind)); kind: must = always present, opt = Option, map = one
# record per entry.  BIP-174, BIP-370, BIP-371, BIP-375 as implemented by the two PSBT versions.
SPEC = {
    "v2.Global": {0x01: ("xpubs", "map"), 0x02: ("tx_version", "must"), 0x03: ("fallback_lock_time", "opt"),
                  0x04: ("input_count", "must"), 0x05: ("output_count", "must"),
                  0x06: ("tx_modifiable_flags", "must"), 0x07: ("sp_ecdh_shares", "map"),
                  0x08: ("sp_dleq_proofs", "map"), 0xFB: ("version", "must"), 0xFC: ("proprietaries", "map")},
    "v2.Input": {0x00: ("non_witness_utxo", "opt"), 0x01: ("witness_utxo", "opt"), 0x02: ("partial_sigs", "map"),
                 0x03: ("sighash_type", "opt"), 0x04: ("redeem_script", "opt"), 0x05: ("witness_script", "opt"),
                 0x06: ("bip32_derivations", "map"), 0x07: ("final_script_sig", "opt"),
                 0x08: ("final_script_witness", "opt"), 0x0A: ("ripemd160_preimages", "map"),
                 0x0B: ("sha256_preimages", "map"), 0x0C: ("hash160_preimages", "map"),
                 0x0D: ("hash256_preimages", "map"), 0x0E: ("previous_txid", "must"),
                 0x0F: ("spent_output_index", "must"), 0x10: ("sequence", "opt"), 0x11: ("min_time", "opt"),
                 0x12: ("min_height", "opt"), 0x13: ("tap_key_sig", "opt"), 0x14: ("tap_script_sigs", "map"),
                 0x15: ("tap_scripts", "map"), 0x16: ("tap_key_origins", "map"), 0x17: ("tap_internal_key", "opt"),
                 0x18: ("tap_merkle_root", "opt"), 0x1D: ("sp_ecdh_shares", "map"), 0x1E: ("sp_dleq_proofs", "map"),
                 0xFC: ("proprietaries", "map")},
    "v2.Output": {0x00: ("redeem_script", "opt"), 0x01: ("witness_script", "opt"), 0x02: ("bip32_derivations", "map"),
                  0x03: ("amount", "must"), 0x04: ("script_pubkey", "must"), 0x05: ("tap_internal_key", "opt"),
                  0x06: ("tap_tree", "opt"), 0x07: ("tap_key_origins", "map"), 0x09: ("sp_v0_info", "opt"),
                  0x0A: ("sp_v0_label", "opt"), 0xFC: ("proprietaries", "map")},
    "v0.Global": {0x00: ("unsigned_tx", "must"), 0x01: ("xpub", "map"), 0xFB: ("version", "version"),
                  0xFC: ("proprietary", "map")},
    "v0.Input": {0x00: ("non_witness_utxo", "opt"), 0x01: ("witness_utxo", "opt"), 0x02: ("partial_sigs", "map"),
                 0x03: ("sighash_type", "opt"), 0x04: ("redeem_script", "opt"), 0x05: ("witness_script", "opt"),
                 0x06: ("bip32_derivation", "map"), 0x07: ("final_script_sig", "opt"),
                 0x08: ("final_script_witness", "opt"), 0x0A: ("ripemd160_preimages", "map"),
                 0x0B: ("sha256_preimages", "map"), 0x0C: ("hash160_preimages", "map"),
                 0x0D: ("hash256_preimages", "map"), 0x13: ("tap_key_sig", "opt"), 0x14: ("tap_script_sigs", "map"),
                 0x15: ("tap_scripts", "map"), 0x16: ("tap_key_origins", "map"), 0x17: ("tap_internal_key", "opt"),
                 0x18: ("tap_merkle_root", "opt"), 0xFC: ("proprietary", "map")},
    "v0.Output": {0x00: ("redeem_script", "opt"), 0x01: ("witness_script", "opt"), 0x02: ("bip32_derivation", "map"),
                  0x05: ("tap_internal_key", "opt"), 0x06: ("tap_tree", "opt"), 0x07: ("tap_key_origins", "map"),
                  0xFC: ("proprietary", "map")},
}
UNKNOWN = {"v2": "unknowns", "v0": "unknown"}
# key types that must not occur in this version's map
EXCLUDED = {"v2.Global": [0x00], "v0.Global": [0x02, 0x03, 0x04, 0x05, 0x06], "v2.Input": [], "v2.Output": [],
            "v0.Input": [], "v0.Output": []}


def spec(m, prog):
    """spec rows whose field exists with the analysed feature set"""
    fs = set(tm.FIELDS.get((TY[m], TY[m].split("::")[-1]), ()))
    out = {}
    for n, (f, k) in SPEC[m].items():
        if f.startswith("sp_") and f not in fs:
            continue
        out[n] = (f, k)
    return out


def fields(m):
    return tm.FIELDS.get((TY[m], TY[m].split("::")[-1]), [])


def where(prog, key):
    r = prog.raw.get(key)
    return r["span"] if r else key


def selffields(t, root=SELF):
    """names of root's fields that t depends on; None when root is used as a whole"""
    out = set()
    whole = []

    def f(x):
        if x.op == "fld" and x.a[0] is root:
            out.add(x.a[1])
            return True
        if x is root:
            whole.append(1)
        return False
    tm.walk(t, f)
    return None if whole else out


def leaves(v):
    """[(part, must, in_each)] of a sequence value, `may`/`each` opened"""
    out = []

    def go(p, must, each):
        if p.op == "may":
            for x in sorted(p.a[0], key=lambda y: y.id):
                go(x, False, each)
        elif p.op == "each":
            go(p.a[0], must, each + 1)
        elif p.op == "all" and p.a[0].op == "seq":
            b, ps = p.a[0].a
            if b is not None:
                out.append((mk("all", b), must, each))
            for x in ps:
                go(x, must, each)
        else:
            out.append((p, must, each))
    b, ps = tm.seq_of(v)
    if b is not None:
        out.append((mk("all", b), True, 0))
    for p in ps:
        go(p, True, 0)
    return out


def is_ok(v):
    return v.op == "agg" and v.a[0] == "core::result::Result" and v.a[1] == "Ok"


def is_err(v):
    return v.op == "agg" and v.a[0] == "core::result::Result" and v.a[1] == "Err"


def errname(v):
    """variant path of an Err value, e.g. InsertPair/DuplicateKey"""
    out = []

    def go(x):
        if x.op == "agg" and tm.ISENUM.get(x.a[0]):
            out.append(x.a[1])
            for y in x.a[2]:
                go(y)
        elif x.op == "agg" and x.a[0] not in ("()", "[]"):
            for y in x.a[2]:
                if y.op == "agg":
                    go(y)
    if v.op == "agg" and v.a[1] == "Err":
        go(v.a[2][0])
    return "/".join(out)


def enc_run(ctx, m, assume=(), **kw):
    e = Engine(ctx.prog, cap=4)
    r = e.run(ENC[m], args=[SELF], assume=assume)
    ctx.used(e)
    ctx.count("paths", len(r))
    return e, r


def fact(st, t):
    return st.facts.get(t)


def tv_of(s):
    return s.facts.get(fld(fld(PAIR, "key"), "type_value"))


class Dec:
    """decoder of one map, analysed as one arbitrary iteration of its record loop"""

    def __init__(self, ctx, m, assume=()):
        self.m = m
        key = DEC[m]
        e = Engine(ctx.prog, cap=300, budget=600000)
        e.loopcut = lambda b, h: True

        def hook(e, st, f, args, site, loc):
            e.cutcalls += 1
            return [(st.copy(), ok(PAIR)), (st, err(S("readerr")))]
        for p in PAIRDEC:
            e.hooks[p] = hook
        self.e = e
        self.r = e.run(key, assume=assume)
        ctx.used(e)
        self.where = where(ctx.prog, key)
        self.cut = e.cuts[-1] if e.cuts else None
        self.okrets = [(s, v.a[2][0]) for s, v in self.r if is_ok(v)]
        self.errs = [(s, v) for s, v in self.r if not is_ok(v)]
        self.backs = self.cut["backs"] if self.cut else []
        self.syms = self.cut["syms"] if self.cut else {}
        ctx.count("paths", len(self.r) + len(self.backs))

    def after(self, s):
        """{acc symbol: value at the end of the iteration}"""
        return {sym: s.mem.get(root, sym) for root, sym in self.syms.items()}

    def changed(self, s):
        """{(acc symbol, field|None): new value} changed by this iteration"""
        out = {}
        for sym, v in self.after(s).items():
            if v is sym or v.op == "uninit":
                continue
            if v.op == "upd" and v.a[0] is sym:
                for n, x in v.a[1]:
                    out[(sym, n)] = x
            else:
                out[(sym, None)] = v
        return out

    def types(self):
        """{type value | None: [states]} ; None collects the 'any other type' partition"""
        out = {}
        for s in self.backs:
            v = tv_of(s)
            out.setdefault(v if isinstance(v, int) else None, []).append(s)
        return out

    def slot_of(self, fname):
        """acc slots the returned struct's field comes from: set of (sym, field|None)"""
        out = set()
        for s, v in self.okrets:
            x = fld(v, fname)

            def f(y):
                if y.op == "fld" and y.a[0] in self.syms.values():
                    out.add((y.a[0], y.a[1]))
                    return True
                if y in self.syms.values():
                    out.add((y, None))
                return False
            tm.walk(x, f)
        return out


# ---------------------------------------------------------------- element classes of a list
class Classes:
    """Which presence patterns (over `fs`, optional fields) the elements of list `lst` may have in a state.

    A finished search loop over the list bounds every element (the disjunction of what its iterations may look
    like); a search that stopped at an element gives an existential constraint.  Both are exact for the patterns
    over `fs`, so a rule over all pattern sets (2^|fs| patterns, any number of elements) can be decided."""

    def __init__(self, e, lst, fs):
        import itertools
        self.e, self.lst, self.fs = e, lst, fs
        self.all = [tuple(x) for x in itertools.product((0, 1), repeat=len(fs))]

    def fits(self, conj, ix, c):
        el = tm.at(self.lst, ix)
        for f, b in zip(self.fs, c):
            d = disc(fld(el, f))
            v = conj.get(d)
            if v is None:
                continue
            if isinstance(v, int):
                if v != b:
                    return False
            elif b in v:
                return False
        return True

    def bound(self, s):
        """(patterns every element may have, [existential pattern sets])"""
        e = self.e
        ln = length(self.lst)
        allow = set(self.all)
        exists = []
        sites = {}
        for t, v in s.facts.items():
            for ix in t.ixs:
                sites.setdefault(ix.a[0], ix)
            if t.op == "done" and v == 1:
                sites.setdefault(t.a[0], mk("ix", t.a[0]))
        for site, ix in sites.items():
            done = s.facts.get(mk("done", site)) == 1
            over = s.facts.get(mk("lt", ix, ln))
            if done:
                if is_partial(e, site):
                    continue
                if ln not in e.doneb.get(site, ()) and not any(
                        t is mk("lt", ix, ln) for cj in e.iters.get(site, ()) for t, _ in cj):
                    continue
                cjs = [dict(c) for c in e.iters.get(site, ())]
                if not cjs:
                    allow &= set()
                    continue
                allow &= {c for c in self.all if any(self.fits(cj, ix, c) for cj in cjs)}
            elif over == 1:
                exists.append({c for c in self.all if self.fits(s.facts, ix, c)})
        return allow, exists

    def sets(self, s):
        """every set of inhabited patterns the state allows"""
        import itertools
        allow, exists = self.bound(s)
        allow = sorted(allow)
        for n in range(len(allow) + 1):
            for g in itertools.combinations(allow, n):
                g = set(g)
                if all(g & x for x in exists):
                    yield g


# ---------------------------------------------------------------- lists built or rewritten element by element
IXC = mk("ix", "*")


def is_partial(e, site):
    while True:
        if site in e.partial:
            return e.partial[site]
        if not isinstance(site, tuple) or not site:
            return None
        site = site[0]


def base_of(e, site):
    """the loop an index belongs to"""
    while site not in e.loops and isinstance(site, tuple) and site and isinstance(site[0], tuple):
        site = site[0]
    return site


def is_rev(e, site):
    n = 0
    while True:
        n += site in e.reversed
        if not isinstance(site, tuple) or not site:
            return n % 2 == 1
        site = site[0]


def lens_of(e, site):
    """lengths of the lists a finished loop ran over; contains a `partial` term when it may have left elements out"""
    p = is_partial(e, site)
    return set(e.doneb.get(site, ())) | ({p} if p is not None else set())


def deeplens(e, lens, depth=0):
    """the length of a list collected one element per iteration is the length that loop ran over"""
    out = set()
    for l in lens:
        x = l.a[0] if l.op == "len" else None
        if x is not None and x.op == "seq" and x.a[0] is None and len(x.a[1]) == 1 and x.a[1][0].op == "each" and \
                x.a[1][0].a[0].op == "one" and depth < 4:
            sites = {ix.a[0] for ix in x.a[1][0].ixs}
            if len(sites) == 1:
                out |= deeplens(e, lens_of(e, sites.pop()), depth + 1)
                continue
        out.add(l)
    return out


def canon(t):
    return tm.subst_ix(t, IXC)


def elems(e, v, depth=0):
    """(set of possible element terms with canonical index, set of lengths the index runs over) | None

    Recognises a list collected from one pass over a source and a list rewritten in place, one element per
    iteration."""
    if depth > 4:
        return None
    if v.op == "seq":
        b, ps = v.a
        if b is not None or len(ps) != 1:
            return None
        p = ps[0]
        if p.op == "each":
            xs = [p.a[0]]
        elif p.op == "may":
            xs = [x.a[0] if x.op == "each" else x for x in p.a[0]]
        else:
            return None
        if not all(x.op == "one" for x in xs):
            return None
        sites = {ix.a[0] for x in xs for ix in x.ixs}
        if len(sites) != 1:
            return None
        site = sites.pop()
        lens = deeplens(e, lens_of(e, site))
        if p.op == "may" and base_of(e, site) in e.omits:
            lens = lens | {e.omits[base_of(e, site)]}
        if is_rev(e, site):
            lens = lens | {mk("partial", "rev")}
        return {canon(x.a[0]) for x in xs}, lens
    if v.op == "lv" and v in e.lv:
        d = e.lv[v]
        base = elems(e, d["init"], depth + 1)
        if base is None:
            base = ({mk("at", d["init"], IXC)}, {length(d["init"])})
        out, lens = set(), set()
        seen = False
        for b in d["back"]:
            if b.op == "cset" and b.a[0] is v and b.a[1][0] == "e" and b.a[1][1].op == "ix":
                seen = True
                ix = b.a[1][1]
                lens |= lens_of(e, ix.a[0])
                cv = canon(b.a[2])
                for x in base[0]:
                    out.add(tm.replace(cv, {mk("at", v, IXC): x}))
            elif b is v:
                out |= base[0]
            elif b.op == "cset" and b.a[0] is d["init"]:
                continue      # first iteration, an instance of the general one
            else:
                return None
        if not seen:
            return None
        own = {length(v), length(d["init"])}
        lens = {tm.replace(l, {v: d["init"]}) for l in lens if l not in own}
        return out, base[1] | {l for l in lens if l not in own}
    return {mk("at", v, IXC)}, {length(v)}


def elem_oracle(*facts):
    """hypothesis: option fields `name` (of anything indexed) are present (1) or absent (0)"""
    d = dict(facts)

    def f(t):
        if t.op == "discr" and t.a[0].op == "fld" and t.a[0].a[1] in d and t.a[0].a[0].op == "at":
            return d[t.a[0].a[1]]
        return None
    return f


def fname(x):
    """path of an opaque application without trailing generic arguments"""
    n = x.a[0]
    if not isinstance(n, str):
        return ""
    while n.endswith(">"):
        d = 0
        for i in range(len(n) - 1, -1, -1):
            d += {">": 1, "<": -1}.get(n[i], 0)
            if d == 0:
                break
        if i == 0 or not n[:i].endswith("::"):
            break
        n = n[:i - 2]
    return n


def calls_of(t, *suffix):
    """opaque applications inside t whose function name ends with one of suffix"""
    return tm.find(t, lambda x: x.op == "app" and any(fname(x).endswith(s) for s in suffix))


def opaque_names(*names):
    return lambda path, key: any(str(path).endswith(n) or str(key).endswith(n) for n in names)


def accum(e, t):
    """(initial value, {terms added per iteration, canonical index}, {list lengths}) of a running total | None"""
    if t.op != "lv" or t not in e.lv:
        return None
    d = e.lv[t]
    out, lens = set(), set()
    for b in d["back"]:
        if b.op in ("wrap", "sat") and b.a[0].op == "add":
            out.add(mk(b.op, canon(b.a[0])))
            continue
        if b.op == "add" and t in b.a:
            x = b.a[1] if b.a[0] is t else b.a[0]
            for ix in x.ixs:
                lens |= lens_of(e, ix.a[0])
            out.add(canon(x))
        elif b is t:
            out.add(K(0))
        elif d["init"] is K(0):
            out.add(canon(b))     # 0 + x, the first iteration
        elif b.op == "add" and d["init"] in b.a:
            out.add(canon(b.a[1] if b.a[0] is d["init"] else b.a[0]))
        else:
            return None
    return d["init"], out, lens


def covers(lens, allowed):
    """does a loop over lists of these lengths visit every element?  True / False / None"""
    if not lens:
        return None
    if lens <= allowed:
        return True
    for l in lens - allowed:
        if l.op == "partial":
            if len(l.a) > 1 and l.a[1].op != "k":
                return None
        elif tm.has_top(l) or tm.find(l, lambda y: y.op in ("lv", "app", "phi", "default")):
            return None
    return False


# ---------------------------------------------------------------- what a path or an iteration changed
def diffs(old, new, pre=()):
    """leaf-level changes from `old` to `new`: [(path, kind, old, new)]; path items: field names or ('at', index)
    kinds: '=' replaced, '+' parts appended to a list/map, '?' unknown effect"""
    if new is old:
        return []
    if new.op == "upd":
        base = new.a[0]
        if base is old or (old.op == "upd" and old.a[0] is base):
            ns = {n for n, _ in new.a[1]} | ({n for n, _ in old.a[1]} if old.op == "upd" else set())
            out = []
            for n in sorted(ns):
                out += diffs(fld(old, n), fld(new, n), pre + (n,))
            return out
    if new.op == "cset":
        base = new.a[0]
        out = [] if base is old else diffs(old, base, pre)
        k = new.a[1]
        if k[0] == "e":
            cur = tm.at(base, k[1])
            return out + diffs(cur, new.a[2], pre + (("at", k[1]),))
        return out + [(pre + (k,), "=", None, new.a[2])]
    if new.op == "agg" and old.op == "agg" and new.a[:2] == old.a[:2] and len(new.a[2]) == len(old.a[2]):
        fs = tm.FIELDS.get((new.a[0], new.a[1]))
        out = []
        for i, (x, y) in enumerate(zip(old.a[2], new.a[2])):
            out += diffs(x, y, pre + (fs[i] if fs else str(i),))
        return out
    if new.op == "seq" or old.op == "seq":
        (bo, po) = tm.seq_of(old)
        (bn, pn) = Engine.seq_from(new, old)
        if bo is bn and len(pn) >= len(po) and pn[:len(po)] == po:
            return [(pre, "+", old, p) for p in pn[len(po):]]
    if new.op in ("hv", "top"):
        return [(pre, "?", old, new)]
    return [(pre, "=", old, new)]


def unlv(e, t, depth=0):
    """t with every loop-carried value replaced by the value it had before the loop"""
    while depth < 8:
        ls = [x for x in tm.find(t, lambda y: y.op == "lv") if x in e.lv]
        if not ls:
            return t
        t = tm.replace(t, {x: e.lv[x]["init"] for x in ls})
        depth += 1
    return t


def iterations(e):
    """(site, invariant state, state after one arbitrary iteration) of every loop the run met"""
    for site, ls in e.loops.items():
        for inv, entry, backs in ls:
            for b in backs:
                yield site, inv, b


def dparam(name):
    return ("D", S(name))


def finished(e, s):
    """[(site, site of its index, {lists it ran over}, left out?)] loops that ran to the end on the way to state s"""
    out = []
    for t, v in s.facts.items():
        if t.op == "done" and v == 1:
            ls, base = set(), t.a[0]
            while not e.doneb.get(base) and isinstance(base, tuple) and len(base) == 2 and isinstance(base[0], tuple):
                base = base[0]
            for l in e.doneb.get(base, ()):
                l = unlv(e, l)
                l = l.a[0] if l.op == "len" else l
                ls.add(l.a[0] if l.op == "iter" else l)
            out.append((t.a[0], base, ls, is_partial(e, t.a[0])))
    return out


def forall(e, s, match, pred, sel=None):
    """does pred(state after the iteration, element, index) hold for every element of a list accepted by match, on
    the way to state s?  True / False / None

    Decided from the loops that ran over the whole list: pred must hold after every possible iteration of one of
    them.  sel(states after an iteration) restricts which loops are considered."""
    best = False
    for site, base, ls, part in finished(e, s):
        l = [x for x in ls if match(x)]
        if l and part is not None:
            if len(part.a) > 1 and part.a[1].op != "k":
                best = None
            continue
        if not l or len(ls) > 1:
            if l:
                best = None
            continue
        ix = mk("ix", base)
        if sel is not None and not sel([b for q in e.loops.get(site, ()) for b in q[2]]):
            continue
        rs = []
        for inv, entry, backs in e.loops.get(site, ()):
            rs += [pred(b, tm.at(l[0], ix), ix) for b in backs]
        if all(r is True for r in rs):
            return True
        if any(r is None for r in rs):
            best = None
    if best is False and any(tm.has_top(t) for t in s.facts):
        return None
    return best


NONINJ = ("div", "rem", "shr", "shl", "band", "bor", "len", "lt", "eq", "discr", "min", "max", "slice", "has", "inrange")


def implied_eq(e, s, a, b, full=None):
    """do the facts of s imply a == b?  True / False (a and b may differ on this path) / None

    The facts are evaluated, three-valued, for a < b and a > b; comparisons of values that only partly determine a and
    b (a component, a length, ...) exclude nothing."""
    if e.known(s, tm.EQ(a, b)) == 1:
        return True
    unk = []
    comp = set()

    def weak(x, y):
        """does x tell less than all about a (b)?"""
        while x is not a and x is not b:
            if x.op in NONINJ:
                return True
            if x.op == "fld":
                base = x.a[0]
                if base is a or base is b:
                    comp.add(x.a[1])
                    return True
                x = base
                continue
            if x.op == "cast" or x.op == "not":
                x = x.a[-1] if x.op == "cast" else x.a[0]
                continue
            return False
        return False

    def ev(t, rel):
        if t is tm.EQ(a, b):
            return rel == "="
        if t is tm.LT(a, b):
            return rel == "<"
        if t is tm.LT(b, a):
            return rel == ">"
        if t.op == "k":
            return bool(t.a[0])
        if t.op == "not":
            v = ev(t.a[0], rel)
            return None if v is None else not v
        if t.op in ("and", "or"):
            vs = [ev(x, rel) for x in t.a]
            if t.op == "and":
                return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        if tm.mentions(t, a) and tm.mentions(t, b):
            if t.op == "eq" and weak(t.a[0], t.a[1]) and weak(t.a[1], t.a[0]):
                return None
            unk.append(t)
        return None
    may = False
    for rel in "<>":
        if all(ev(t, rel) in (None, bool(v)) for t, v in s.facts.items() if isinstance(v, int)):
            may = True
    if not may:
        return True
    if not unk and full:
        return full <= comp
    if unk or comp:
        fs = [x for (d, n), x in tm.FIELDS.items() if comp and comp <= set(x)]
        return None if unk or any(set(x) == comp for x in fs) else False
    return False

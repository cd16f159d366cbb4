"""C25 silent payment fields."""
import itertools
from engine.check import prop
from engine import terms as tm
from engine.terms import fld, disc, length, K, EQ
from .lib import *
from .wire import dec_of, KDATA, VALUE

RULES = (("v2.Global", ("sp_ecdh_shares", "sp_dleq_proofs")), ("v2.Input", ("sp_ecdh_shares", "sp_dleq_proofs")),
         ("v2.Output", ("sp_v0_label", "sp_v0_info")), ("v2.Output", ("script_pubkey", "sp_v0_info")))
# field: (bytes of key data, bytes of value)
LENS = {"sp_ecdh_shares": (33, 33), "sp_dleq_proofs": (33, 64), "sp_v0_info": (0, 66), "sp_v0_label": (0, 4)}


def allowed(fs, bits):
    a, b = bits
    if fs[0] == "sp_ecdh_shares":
        return a == b
    if fs[0] == "sp_v0_label":
        return not a or b
    return a or b


def content(x, slot):
    """the term that says whether a slot of the loop holds something, and its value when it does"""
    sym, f = slot
    if f is None:
        return sym
    return fld(sym, f)


def fits(s, val, terms):
    """is a path possible when the two fields are as in val?  True / False / None (a fact about them is not understood)"""
    def ev(t):
        if t in val:
            return val[t]
        if t.op == "k":
            return t.a[0] if isinstance(t.a[0], int) else None
        if t.op == "not":
            x = ev(t.a[0])
            return None if not isinstance(x, int) else 1 - x
        if t.op in ("eq", "lt"):
            x, y = ev(t.a[0]), ev(t.a[1])
            if isinstance(x, int) and isinstance(y, int):
                return int(x == y if t.op == "eq" else x < y)
            if t.op == "eq" and 0 in (x, y) and isinstance(x if y == 0 else y, tuple):
                return 0
            if t.op == "lt" and x == 0 and isinstance(y, tuple):
                return 1
            if t.op == "lt" and isinstance(x, tuple) and y in (0, 1):
                return 0
            return None
        if t.op in ("and", "or", "xor", "bxor", "band", "bor"):
            xs = [ev(y) for y in t.a]
            o = t.op[-3:] if t.op != "or" and t.op != "bor" else "or"
            if o == "and":
                return 0 if 0 in xs else 1 if xs == [1] * len(xs) else None
            if o == "or":
                return 1 if 1 in xs else 0 if xs == [0] * len(xs) else None
            return (xs[0] + xs[1]) % 2 if all(isinstance(x, int) for x in xs) else None
        return None
    un = False
    payload = {fld(z, "Some.0") for z in terms}
    for t, v in s.facts.items():
        x = ev(t)
        if isinstance(x, int):
            if (x != v) if isinstance(v, int) else (x in v):
                return False
        elif isinstance(x, tuple):
            if v == 0:
                return False
        elif t in payload or t.op == "discr" and tail(t.a[0]) in ("from_slice", "try_from", "deserialize"):
            continue        # a free choice
        elif any(tm.find(t, lambda y: y is z) for z in terms):
            un = True
    return None if un else True


def best(rs):
    return True if True in rs else None if None in rs else False


def tail(x):
    return fname(x).split("::")[-1] if x.op == "app" else ""


@prop("C25", feats=("all", "sp"))
def c25(ctx):
    """The decoders are interpreted for each of the four combinations of two fields being present or not: they must
    refuse the forbidden combinations and none of the others because of it.  One arbitrary record is interpreted for the lengths."""
    for m, fs in RULES:
        d = dec_of(ctx, m)
        if d is None:
            continue
        slots = []
        for f in fs:
            sl = {(s, None if g in ("Some.0", "Ok.0") else g) for s, g in d.slot_of(f)}
            slots.append(next(iter(sl)) if len(sl) == 1 else None)
        n = "%s:%s+%s" % (m, fs[0], fs[1])
        if None in slots:
            ctx.und(n, "the fields are collected by the record loop", d.where, str(slots))
            continue
        terms = [content(None, s) for s in slots]
        opt = ["shares" not in f and "proofs" not in f for f in fs]
        for bits in ((0, 0), (0, 1), (1, 0), (1, 1)):
            vals = []
            lens = [(0,) if not b else (1, 2, 3, 1000) for b in bits]
            for x, y in itertools.product(*lens):
                v = {}
                for t, b, o, l in zip(terms, bits, opt, (x, y)):
                    if o:
                        v[disc(t)] = b
                    else:
                        v[EQ(length(t), K(0))] = 1 - b
                        v[length(t)] = l
                vals.append(v)
            cand = [(s, best([fits(s, v, terms) for v in vals])) for s, v_ in d.okrets]
            name = "%s:%s" % (n, "".join(map(str, bits)))
            what = " and ".join("%s %s" % (f, "present" if b else "absent") for f, b in zip(fs, bits))
            yes = [s for s, c in cand if c is True]
            may = [s for s, c in cand if c is None]
            if allowed(fs, bits):
                ctx.check(True if yes else None if may else False, name, "a map with %s is accepted" % what, d.where, "no accepting path")
            else:
                ctx.check(False if yes else None if may else True, name, "a map with %s is refused" % what, d.where,
                          "accepted on a path with %s" % ", ".join("%s=%s" % (tm.show(t)[:80], x) for t, x in list((yes or may or [d.okrets[0][0]])[0].facts.items())[-4:]))
    for m in ("v2.Global", "v2.Input", "v2.Output"):
        d = dec_of(ctx, m)
        if d is None:
            continue
        for f, (kl, vl) in LENS.items():
            if f not in fields(m):
                continue
            sl = d.slot_of(f)
            if len(sl) != 1:
                ctx.und("%s:%s" % (m, f), "the field is collected by the record loop", d.where, str(sl))
                continue
            sym, g = next(iter(sl))
            hit = 0
            for s in d.backs:
                ch = d.changed(s)
                if (sym, g) not in ch or ch[(sym, g)] is fld(sym, g) if g else (sym, None) not in ch:
                    continue
                hit += 1
                for t, want, what in ((KDATA, kl, "key data"), (VALUE, vl, "value")):
                    parsed = any(tm.find(x, lambda y: tail(y) == "from_slice" and y.a[-1] is t) for x in s.facts)
                    other = [65] if parsed and want == 33 else [x for x in (0, 1, want - 1, want + 1, 2 * want, 1000) if x != want and x >= 0]
                    r = best([fits(s, {length(t): x, EQ(length(t), K(0)): int(x == 0)}, [t]) for x in other])
                    if r is False:
                        ctx.ok("%s:%s:%s" % (m, f, what), "the %s has %d bytes" % (what, want), d.where)
                    else:
                        ctx.check(None if r is None else False, "%s:%s:%s" % (m, f, what), "the %s has %d bytes" % (what, want), d.where,
                                  "a record with %s of another length is taken" % what)
            ctx.check(hit > 0 or None, "%s:%s:read" % (m, f), "the record is read", d.where, "")

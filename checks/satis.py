"""C39 the satisfiers' answers."""
import re
from engine.check import prop
from engine import terms as tm
from engine.ai import Engine
from engine.terms import fld, mk, K
from .lib import *
from .table import cstr, factdict

GET = {"lookup_tap_leaf_script_sig": "tap_script_sigs", "lookup_ecdsa_sig": "partial_sigs", "lookup_hash160": "hash160_preimages",
       "lookup_sha256": "sha256_preimages", "lookup_hash256": "hash256_preimages", "lookup_ripemd160": "ripemd160_preimages"}
KEY = {"lookup_ecdsa_sig": ["to_public_key(a)"], "lookup_tap_leaf_script_sig": ["(to_x_only_pubkey(a), b)"],
       "lookup_hash160": ["to_hash160(a)"], "lookup_sha256": ["to_sha256(a)"], "lookup_ripemd160": ["to_ripemd160(a)"],
       "lookup_hash256": ["from_byte_array(to_byte_array(to_hash256(a)))"]}
FIND = {"lookup_raw_pkh_pk": ("bip32", "Ecdsa"), "lookup_raw_pkh_ecdsa_sig": ("partial_sigs", "Ecdsa"),
        "lookup_raw_pkh_tap_leaf_script_sig": ("tap_script_sigs", "Schnorr")}


def unsure(e, s, *ts):
    return bool(e.joins) or any(tm.has_top(t) or tm.find(t, lambda y: y.op in ("lv", "phi", "partial")) for t in list(ts) + list(s.facts))


def opt(v):
    return ("some", v.a[2][0]) if v.op == "agg" and v.a[1] == "Some" else ("none", None) if v.op == "agg" and v.a[1] == "None" else (None, None)


def about(s, x):
    return any(tm.mentions(t, x) for t in s.facts)


def number(t, x, n):
    """value of a term over x when x is n; None if something else matters"""
    if t is x:
        return n
    if t.op == "k":
        return int(t.a[0])
    if t.op == "agg" and len(t.a[2]) == 1:
        return number(t.a[2][0], x, n)
    if t.op == "cast":
        return number(t.a[-1], x, n)
    if t.op == "fld" and t.a[1] == "0" and t.a[0] is x:
        return n
    if t.op == "not":
        v = number(t.a[0], x, n)
        return None if v is None else int(not v)
    if t.op in ("lt", "eq"):
        a, b = number(t.a[0], x, n), number(t.a[1], x, n)
        return None if a is None or b is None else int(a < b if t.op == "lt" else a == b)
    return None


def possible(s, x, n):
    """can x be n on this path?  None if a fact about x is of another kind"""
    r = True
    for t, v in s.facts.items():
        if not tm.mentions(t, x):
            continue
        y = number(t, x, n)
        if y is None:
            if t.op != "has":
                r = None
        elif isinstance(v, frozenset) and y in v or not isinstance(v, frozenset) and y != v:
            return False
    return r


def by_key(ctx, e, st, name, inp, pre, w):
    """a lookup by key: the entry filed under the key asked for, or none if there is none (or no 32 byte preimage)"""
    f = GET[name]
    m = fld(inp, f)
    pre32 = "_preimages" in f
    some = False
    for s, v in st:
        k, x = opt(v)
        if k is None:
            if tm.has_top(v) or unsure(e, s, v):
                c = None
            elif v.op == "app" or v.op == "mgetopt":
                c = None
            else:
                c = None
            ctx.check(c, pre, "the answer is an entry or none", w, tm.show(v)[:200])
            continue
        if k == "some":
            some = True
            y = x
            while y.op == "fld" and y.a[1] in ("Ok.0", "Some.0"):
                b = y.a[0]
                if b.op == "app" and fname(b).split("::")[-1] in ("try_into", "try_from"):
                    y = b.a[-1]
                else:
                    break
            sure = y is not x
            if y.op == "mget":
                key = cstr(y.a[1])
                okm = y.a[0] is m
                okk = key in KEY[name]
                c = True if okm and okk else False if not okm and y.a[0].op == "fld" else False if not tm.mentions(y.a[1], S("a")) else None
                if c is None and name == "lookup_tap_leaf_script_sig" and not tm.mentions(y.a[1], S("b")):
                    c = False
                if c and pre32 and not sure and s.facts.get(tm.length(y)) != 32:
                    ln = tm.length(y)
                    ps = [possible(s, ln, k) for k in (0, 1, 31, 33, 64)]
                    c = False if True in ps else True if not any(x is None for x in ps) else None
                    if c is False and any(tm.mentions(t, y) and t.op != "has" and not tm.mentions(t, ln) for t in s.facts):
                        c = None
                if c is False and unsure(e, s, v):
                    c = None
                ctx.check(c, pre + ":found", "what is returned is this input's %s entry for the key asked for%s" % (
                    f, ", if it has 32 bytes" if pre32 else ""), w, "%s is returned" % tm.show(x)[:200])
            else:
                inside = [z for z in tm.find(x, lambda z: z.op == "mget")]
                ctx.check(None if inside or unsure(e, s, v) else False, pre + ":found", "what is returned is this input's %s entry for the key asked for" % f,
                          w, "%s is returned" % tm.show(x)[:200])
            continue
        fd = factdict(s)
        has = [(t, val) for t, val in s.facts.items() if t.op == "has" and t.a[0] is m and cstr(t.a[1]) in KEY[name]]
        c = any(val == 0 for t, val in has)
        if not c and pre32:
            for t, val in s.facts.items():
                if t.op == "len" and t.a[0].op == "mget" and t.a[0].a[0] is m and (
                        isinstance(val, frozenset) and 32 in val or isinstance(val, int) and val != 32):
                    c = True
                if t.op == "discr" and "try_" in cstr(t) and val == 1:
                    c = True
        if not c:
            # some other fact about this field may say that there is no entry
            mixed = [t for t in s.facts if tm.mentions(t, m) and not (t.op == "has" and cstr(t.a[1]) in KEY[name])
                     and not (t.op == "len")]
            c = None if mixed or unsure(e, s, v) else False
        ctx.check(c, pre + ":none", "none is returned only when there is no%s entry for the key asked for" % (" 32 byte" if pre32 else ""), w,
                  "none although an entry may exist: %s" % str({k: fd[k] for k in list(fd)[:6]})[:250])
    ctx.check(some or None, pre + ":answers", "an entry can be returned", w, "no path returns an entry")


def by_hash(ctx, e, st, name, inp, pre, w):
    f, alg = FIND[name]
    if f == "bip32":
        f = "bip32_derivations" if "v2" in pre else "bip32_derivation"
    m = fld(inp, f)
    want = "a.0" if "tap" in name else "a"

    def eqhash(b, el, keytext, val):
        """is `hash of this entry's key = requested hash` known to have value val?"""
        vs = []
        for t, x in b.facts.items():
            c = cstr(t)
            if t.op == "eq" and isinstance(x, int):
                sides = [cstr(z) for z in t.a]
                h = "to_pubkeyhash(%s, %s)" % (keytext, alg)
                if h in sides and want in sides:
                    vs.append(bool(x) is val)
                lh = "%s" % (re.sub(r"\.0$", ".1", keytext))
                if "tap" in name and lh in sides and "a.1" in sides and not val:
                    if x == 0:
                        return True
        return True if True in vs else False if vs else None

    kt = "kat(%s, *)" % cstr(m) + (".0" if "tap" in name else "")
    some = False
    for s, v in st:
        k, x = opt(v)
        if k == "some":
            some = True
            text = cstr(x)
            ent = "mget(%s, kat(%s, *))" % (cstr(m), cstr(m))
            good = {"lookup_raw_pkh_pk": ["new(%s)" % kt, "PublicKey(1, %s)" % kt],
                    "lookup_raw_pkh_ecdsa_sig": ["(%s, %s)" % (kt, ent)],
                    "lookup_raw_pkh_tap_leaf_script_sig": ["(%s, %s)" % (kt, ent)]}[name]
            c = text in good
            if not c:
                c = None if unsure(e, s, v) or cstr(m) in text and "(" in text and name == "lookup_raw_pkh_pk" else False
            else:
                r = eqhash(s, x, kt, True)
                if "tap" in name and r:
                    lh = [bool(val) for t, val in s.facts.items() if t.op == "eq" and isinstance(val, int) and
                          {cstr(z) for z in t.a} == {kt[:-2] + ".1", "a.1"}]
                    r = True if True in lh else False
                if not r:
                    r = None if unsure(e, s, v) or any("pubkeyhash" in cstr(t) and t.op not in ("eq",) for t in s.facts) else False
                c = r
            ctx.check(c, pre + ":found", "what is returned is an entry of this input's %s whose key has the hash asked for" % f, w,
                      "%s is returned, knowing %s" % (text[:150], str([cstr(t) for t in s.facts])[:200]))
        elif k == "none":
            def differs(b, el, ix):
                r = eqhash(b, el, kt, False)
                if r:
                    return True
                return None if unsure(e, b) or any("pubkeyhash" in cstr(t) and t.op != "eq" for t in b.facts) else False
            c = forall(e, s, lambda l: l is m, differs)
            if c is False and unsure(e, s, v):
                c = None
            ctx.check(c, pre + ":none", "none is returned only when no entry's key has the hash asked for", w,
                      "none although not every entry was compared")
        else:
            ctx.check(None, pre, "the answer is an entry or none", w, tm.show(v)[:200])
    ctx.check(some or None, pre + ":answers", "an entry can be returned", w, "no path returns an entry")


def ordering(t, a, b, rel):
    """value of a boolean term over a and b when a rel b; None if not determined by that"""
    if t.op == "k":
        return bool(t.a[0])
    if t.op == "not":
        v = ordering(t.a[0], a, b, rel)
        return None if v is None else not v
    if t.op in ("and", "or"):
        vs = [ordering(x, a, b, rel) for x in t.a]
        if t.op == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if t.op == "lt" and t.a[0] is a and t.a[1] is b:
        return rel == "<"
    if t.op == "lt" and t.a[0] is b and t.a[1] is a:
        return rel == ">"
    if t.op == "eq" and {t.a[0], t.a[1]} == {a, b}:
        return rel == "="
    return None


def after2(ctx, e, st, inp, pre, w):
    """v2: the input's own required lock time of the same kind must be at least the one asked about"""
    n = S("a")
    for kind, d, f in (("Blocks", 0, "min_height"), ("Seconds", 1, "min_time")):
        g = fld(inp, f)
        have, ask = fld(g, "Some.0"), fld(n, kind + ".0")
        for present in (0, 1):
            for rel in "<=>" if present else " ":
                want = present == 1 and rel in "<="          # asked rel required
                seen, c, det = False, True, ""
                for s, v in st:
                    if s.facts.get(tm.disc(n), d) not in (d,) and isinstance(s.facts.get(tm.disc(n)), int):
                        continue
                    pv = s.facts.get(tm.disc(g), present)
                    if isinstance(pv, int) and pv != present:
                        continue
                    vals = [(ordering(t, ask, have, rel), x) for t, x in s.facts.items() if isinstance(x, int)]
                    if any(y is not None and y != bool(x) for y, x in vals):
                        continue
                    seen = True
                    r = ordering(v, ask, have, rel)
                    if r is None:
                        foreign = not tm.mentions(v, g) and v.op != "k"
                        if c:
                            c, det = (False if foreign and not unsure(e, s, v) and tm.find(v, lambda y: y.op == "fld") else None), tm.show(v)[:200]
                    elif r is not want:
                        loose = [t for t in s.facts if tm.mentions(t, g) and t.op not in ("discr", "lt", "eq", "not")]
                        c, det = (None if loose or unsure(e, s, v) else False), "%s is returned" % ("true" if r else "false")
                        if c is False:
                            break
                ctx.check(c if seen else None, "%s:%s:%s%s" % (pre, kind, present, rel.strip()),
                          "a lock time is met exactly if the input itself requires one of its kind that is at least as great", w, det)


def after0(ctx, e, st, pre, w, inp, tx):
    n, lt = S("a"), fld(tx, "lock_time")
    for s, v in st:
        en = [x for t, x in s.facts.items() if t.op == "app" and re.search(r"enables_(absolute_)?lock_time$", fname(t)) and tm.mentions(t, inp)]
        loose = [t for t in s.facts if tm.mentions(t, fld(inp, "sequence")) or tm.mentions(t, inp)]
        if v.op == "k":
            c = True if not v.a[0] and 0 in en else None if loose and not en or unsure(e, s, v) else False
            ctx.check(c, pre + ":refused", "a lock time is refused for the input's sequence only if that disables lock times", w,
                      "%s whatever the lock time" % bool(v.a[0]))
            continue
        c = tm.mentions(v, lt) and tm.mentions(v, n)
        c = True if c and 1 in en else None if unsure(e, s, v) or (c and loose and not en) else False
        ctx.check(c, pre + ":met", "a lock time is met only if the input's sequence enables lock times and the transaction's lock time meets it", w,
                  tm.show(v)[:200])
        if c:
            other = [x for x in tm.find(v, lambda y: y.op == "fld") if not tm.mentions(x, lt) and not tm.mentions(lt, x) and not tm.mentions(x, n)
                     and not tm.mentions(S("self"), x)]
            okf = v.op == "app" and fname(v).split("::")[-1] == "check_after" and v.a[-2] is lt and v.a[-1] is n or \
                v.op == "app" and fname(v).split("::")[-1] == "is_implied_by" and v.a[-2] is n and v.a[-1] is lt
            bad = v.op == "app" and v.a[-1] is lt and v.a[-2] is n and fname(v).split("::")[-1] == "check_after" or \
                v.op == "app" and fname(v).split("::")[-1] == "is_implied_by" and v.a[-2] is lt
            ctx.check(True if okf else False if bad else None, pre + ":compared", "the transaction's lock time must imply the one asked about", w,
                      tm.show(v)[:200])


def older0(ctx, e, st, pre, w, inp, tx):
    n, seq, ver = S("a"), fld(inp, "sequence"), fld(tx, "version")
    for s, v in st:
        old, two = possible(s, ver, 1), possible(s, ver, 2)
        new = True if old is False else False if two is False else None
        over = old is True and two is True          # nothing on the path tells version 1 from version 2
        rel = [x for t, x in s.facts.items() if t.op == "app" and fname(t).endswith("is_relative_lock_time") and tm.mentions(t, seq)]
        lv = any(tm.mentions(t, ver) for t in s.facts)
        ls = any(tm.mentions(t, seq) for t in s.facts)
        if v.op == "k":
            c = True if not v.a[0] and (new is False or 0 in rel) else None if (lv and new is None and not over) or (ls and not rel) or unsure(e, s, v) else False
            ctx.check(c, pre + ":refused", "a relative lock time is refused outright only for an old transaction version or a sequence that is none", w,
                      "%s whatever the sequence" % bool(v.a[0]))
            continue
        c = tm.mentions(v, seq) and tm.mentions(v, n)
        if c:
            okv = True if new is True else None if new is None and not over else False
            c = okv
        elif unsure(e, s, v):
            c = None
        ctx.check(c, pre + ":met", "a relative lock time is met only in a version 2 transaction whose input's sequence meets it", w, tm.show(v)[:200])


def older2(ctx, e, st, pre, w, inp):
    n, g = S("a"), fld(inp, "sequence")
    seq = fld(g, "Some.0")
    for s, v in st:
        absent = s.facts.get(tm.disc(g)) == 0
        if v.op == "k":
            bad = any(t.op == "discr" and tm.mentions(t, seq) and x == 1 or t.op == "app" and tm.mentions(t, seq) and x == 0 for t, x in s.facts.items())
            c = True if not v.a[0] and (absent or bad) else None if unsure(e, s, v) or not absent and any(tm.mentions(t, seq) for t in s.facts) else False
            ctx.check(c, pre + ":refused", "a relative lock time is refused outright only when the input has no sequence that is one", w,
                      "%s whatever the sequence" % bool(v.a[0]))
            continue
        c = tm.mentions(v, seq) and tm.mentions(v, n)
        if c and v.op == "app" and fname(v).split("::")[-1] == "is_implied_by":
            c = tm.mentions(v.a[-2], n) and tm.mentions(v.a[-1], seq)
        c = c or (None if unsure(e, s, v) else False)
        ctx.check(c, pre + ":met", "a relative lock time is met only if the input's sequence implies it", w, tm.show(v)[:200])


@prop("C39", feats=("all",), thorough=("all", "common"))
def c39(ctx):
    """Both satisfiers are interpreted, method by method, for an arbitrary request.  A lookup by key must return the entry this
    input files under that key, and none only when there is none; a lookup by hash an entry whose key was found to have the
    hash, none only after all were found different; the lock time questions are compared with a decision table."""
    p = ctx.prog
    n = 0
    for key in sorted(p.raw):
        m = "{closure" not in key and " @" not in key and re.match(r"<psbt_v2::(v0|v2)::\S*?(\w+Satisfier)(<[^>]*>)? as miniscript.*Satisfier<Pk>>::(\w+)$", key)
        if not m:
            continue
        ver, ty, name = m.group(1), m.group(2), m.group(4)
        pre = "%s.%s" % (ver, name)
        w = where(p, key)
        e = Engine(p, cap=40)
        st = e.run(key, args=[S("self"), S("a"), S("b")][:p.raw[key]["argc"]])
        ctx.used(e)
        ctx.count("paths", len(st))
        st = [x for x in st if x is not None]
        n += 1
        if ver == "v0":
            inp = tm.at(fld(fld(S("self"), "psbt"), "inputs"), fld(S("self"), "index"))
            tx = fld(fld(S("self"), "psbt"), "unsigned_tx")
            txin = tm.at(fld(tx, "input"), fld(S("self"), "index"))
        else:
            fs = [x for (d, _), x in tm.FIELDS.items() if str(d).endswith("::" + ty)]
            if fs and len(fs[0]) != 1:
                ctx.check(None, pre, "the satisfier is a reference to an input", w, str(fs))
                continue
            inp = fld(S("self"), fs[0][0] if fs else "input")
        if name in GET:
            by_key(ctx, e, st, name, inp, pre, w)
        elif name in FIND:
            by_hash(ctx, e, st, name, inp, pre, w)
        elif name in ("lookup_tap_key_spend_sig", "lookup_tap_control_block_map"):
            f = fld(inp, "tap_key_sig" if "sig" in name else "tap_scripts")
            for s, v in st:
                k, x = opt(v)
                if "sig" in name:
                    c = v is f or k == "some" and x is fld(f, "Some.0") or k == "none" and s.facts.get(tm.disc(f)) == 0
                else:
                    c = k == "some" and x is f
                ctx.check(True if c else None if unsure(e, s, v) else False, pre, "the answer is the input's own field", w, tm.show(v)[:200])
        elif name == "check_after":
            after2(ctx, e, st, inp, pre, w) if ver == "v2" else after0(ctx, e, st, pre, w, txin, tx)
        elif name == "check_older":
            older2(ctx, e, st, pre, w, inp) if ver == "v2" else older0(ctx, e, st, pre, w, txin, tx)
    ctx.check(n >= 20 or None, "impls", "the satisfiers are found", "", "only %d methods found" % n)

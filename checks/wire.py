"""Wire format: C01 encode, C02 decode, C03 duplicates, C04 key data / lengths, C05 mandatory, C06 preimages."""
from engine.check import prop
from engine import terms as tm
from engine.terms import fld, disc, length, mk, K, EQ, K0
from .lib import *

KEY = fld(PAIR, "key")
TV = fld(KEY, "type_value")
KDATA = fld(KEY, "key")
VALUE = fld(PAIR, "value")


def pair_of(p):
    """(type value|None, key data, value, raw key) of a `one(Pair{..})` leaf"""
    x = p.a[0]
    if x.op != "agg" or not x.a[0].endswith("::Pair"):
        return None
    key, val = fld(x, "key"), fld(x, "value")
    tv = fld(key, "type_value")
    n = tv.a[0] if tv.op == "k" else None
    return n, fld(key, "key"), val, key


def nonempty_entry(t, f):
    """t depends on the entries of the map self.f (key or value), nothing else"""
    fs = selffields(t)
    return fs == {f}


@prop("C01", feats=("all", "common"), thorough=("all", "common", "sp", "nostd", "std"))
def c01(ctx):
    """For each of the six PSBT maps the record list produced for writing is computed as a sequence of abstract
    records (key type, key data, value provenance).  Obligations: every field of the map type has exactly one record
    type, the one the BIPs assign; the record is always written when the field is present (per entry for map
    fields), never when absent; key data is empty for single records and derived from the entry key for map
    records; the value depends on that field only; unknown records are written back verbatim; no other record."""
    for m in ENC:
        if ENC[m] not in ctx.prog.raw:
            ctx.und(m, "encoder present", m, "no body for " + ENC[m])
            continue
        w = where(ctx.prog, ENC[m])
        rows = spec(m, ctx.prog)
        byfield = {f: n for n, (f, k) in rows.items()}
        unk = UNKNOWN[m[:2]]
        e, r = enc_run(ctx, m)
        if not r:
            ctx.und(m, "encoder returns", w, "no return state")
            continue
        # every field of the type is wire relevant or known not to be
        for f in fields(m):
            if f in (unk, "inputs", "outputs") or f in byfield:
                continue
            ctx.bad("%s:field:%s" % (m, f), "every field of the map type has a record type", w,
                    "field `%s` of %s is not assigned a record type" % (f, TY[m]))
        for st, v in r:
            seen = {}
            verb = 0
            for p, must, each in leaves(v):
                if p.op != "one":
                    ctx.und("%s:shape" % m, "records are key/value pairs", w, tm.show(p)[:200])
                    continue
                q = pair_of(p)
                if q is None:
                    ctx.und("%s:shape" % m, "records are key/value pairs", w, tm.show(p)[:200])
                    continue
                n, kd, val, key = q
                if n is None:
                    fs = selffields(mk("agg", "()", "", (key, val)))
                    if fs == {unk}:
                        good = key.op == "kat" and key.a[0] is fld(SELF, unk) and \
                            val is tm.mget(fld(SELF, unk), key) and must and each == 1
                        soft = tm.find(key, lambda x: x.op == "app") or tm.find(val, lambda x: x.op == "app")
                        ctx.check(True if good else None if soft else False, "%s:unknown" % m,
                                  "unknown records are written back verbatim", w, tm.show(p)[:300])
                        verb += 1
                        entries(ctx, e, p, fld(SELF, unk), "%s:unknown:all" % m, w)
                    else:
                        ctx.und("%s:type" % m, "record type is a constant", w, tm.show(p)[:200])
                    continue
                if n not in rows:
                    ctx.bad("%s:0x%02x:unassigned" % (m, n), "every written record type is assigned", w,
                            "record type 0x%02x written but not assigned to a field of this map" % n)
                    continue
                f, kind = rows[n]
                seen.setdefault(n, []).append((kd, val, must, each))
                k0 = "%s:0x%02x" % (m, n)
                fs = selffields(val)
                if fs is not None:
                    ctx.check(fs <= {f} and (fs == {f} or val.op == "k"), k0 + ":value",
                              "record value comes from its own field", w,
                              "record 0x%02x should carry `%s`, its value is %s" % (n, f, tm.show(val)[:300]))
                if kind == "map":
                    ctx.check(selffields(kd) == {f} if selffields(kd) is not None else None, k0 + ":keydata",
                              "map record key data comes from the entry key", w, tm.show(kd)[:200])
                    ctx.check(each == 1, k0 + ":each", "one record per map entry", w, tm.show(p)[:200])
                    if each == 1:
                        entries(ctx, e, p, fld(SELF, f), k0 + ":all", w)
                else:
                    l = tm.length(kd)
                    ctx.check(True if l is K0 else (None if l.op != "k" else False), k0 + ":keydata",
                              "single record has empty key data", w, tm.show(kd)[:200])
                    ctx.check(each == 0, k0 + ":once", "single record is written once", w, tm.show(p)[:200])
            if not any(x == "%s:unknown" % m for x in ()):
                ctx.check(verb >= 1, "%s:unknown:written" % m, "unknown records are written back", w,
                          "entries of `%s` are not written" % unk)
            for n, l in seen.items():
                ctx.check(len(l) == 1, "%s:0x%02x:dup" % (m, n), "each field is written by one record", w,
                          "record 0x%02x is written by %d sites" % (n, len(l)))
        for n, (f, kind) in sorted(rows.items()):
            k0 = "%s:0x%02x" % (m, n)
            F = fld(SELF, f)
            if kind == "opt":
                for want, rule in ((1, "record is written whenever the field is present"),
                                   (0, "no record when the field is absent")):
                    e, r = enc_run(ctx, m, assume=[(disc(F), want)])
                    for st, v in r:
                        ls = [must for p, must, each in leaves(v) if p.op == "one" and pair_of(p)
                              and pair_of(p)[0] == n]
                        odd = [p for p, must, each in leaves(v) if p.op != "one" or not pair_of(p)]
                        if want:
                            c = any(ls) or (None if odd else False)
                        else:
                            c = not ls
                        ctx.check(c, k0 + (":present" if want else ":absent"), rule, w,
                                  "record 0x%02x (`%s`)%s" % (n, f, " missing on the path " + facts(st)))
            else:
                e, r = enc_run(ctx, m, assume=[(EQ(F, K0), 0)] if kind == "version" else ())
                for st, v in r:
                    ls = [must for p, must, each in leaves(v) if p.op == "one" and pair_of(p) and pair_of(p)[0] == n]
                    odd = [p for p, must, each in leaves(v) if p.op != "one" or not pair_of(p)]
                    ctx.check(any(ls) or (None if odd else False), k0 + ":present",
                              "record is written whenever the field has content", w,
                              "record 0x%02x (`%s`) not written on the path %s" % (n, f, facts(st)))


def entries(ctx, e, p, lst, key, w):
    """the record is written for every entry of the map, none passed over"""
    sites = {y.a[1].a[0] for y in tm.find(p, lambda z: z.op == "kat" and z.a[0] is lst and z.a[1].op == "ix")}
    c = None
    if len(sites) == 1:
        c = covers({unlv(e, l) for l in lens_of(e, sites.pop())}, {length(lst)})
    ctx.check(c, key, "a record is written for every entry of the map", w, "not every entry of %s is written: %s" % (
        tm.show(lst), tm.show(p)[:200]))


def facts(st):
    return "{" + ", ".join("%s=%s" % (tm.show(t)[:80], v if isinstance(v, int) else "∉%s" % sorted(v))
                           for t, v in list(st.facts.items())[:8]) + "}"


def dec_of(ctx, m):
    if DEC[m] not in ctx.prog.raw:
        ctx.und(m, "decoder present", m, "no body for " + DEC[m])
        return None
    d = Dec(ctx, m)
    if d.cut is None or not d.okrets:
        ctx.und(m, "decoder has a record loop", d.where, "record loop not recognised")
        return None
    return d


def entry_of(cur, new):
    """(key, value) when `new` is map `cur` plus one entry"""
    if new.op == "seq" and new.a[0] is cur and len(new.a[1]) == 1 and new.a[1][0].op == "ent":
        return new.a[1][0].a
    return None


def uses(t, e=None):
    """which of KDATA / VALUE / KEY / other parts of the pair t depends on (through loops when e is given)"""
    out = set()
    todo = []
    seen = set()

    def f(x):
        if e is not None and x in e.lv and x not in seen:
            seen.add(x)
            todo.append(e.lv[x]["init"])
            todo.extend(e.lv[x]["back"])
            return True
        if x is KDATA:
            out.add("keydata")
            return True
        if x is VALUE:
            out.add("value")
            return True
        if x is TV:
            out.add("type")
            return True
        if x is KEY:
            out.add("key")
            return True
        if x is PAIR:
            out.add("pair")
            return True
        return False
    tm.walk(t, f)
    while todo:
        tm.walk(todo.pop(), f)
    return out


DECF = ("all", "common")
DECT = ("all", "common", "sp", "nostd", "std")


@prop("C02", feats=DECF, thorough=DECT)
def c02(ctx):
    """The record loop of each of the six map decoders is analysed for one arbitrary record in an arbitrary loop
    state.  Obligations per assigned key type: some path accepts the record; every accepting path changes exactly the
    field the BIPs assign to it, from the record's value (and key data for map fields) only.  Key types of the other
    PSBT version are never accepted; any other key type is retained verbatim in the unknown map."""
    for m in DEC:
        d = dec_of(ctx, m)
        if d is None:
            continue
        rows = spec(m, ctx.prog)
        ty = d.types()
        slots = {f: d.slot_of(f) for f in fields(m)}
        unk = UNKNOWN[m[:2]]
        for n, (f, kind) in sorted(rows.items()):
            k0 = "%s:0x%02x" % (m, n)
            ss = ty.get(n, [])
            gen = [s for s in ty.get(None, []) if not excludes(s, n)]
            if gen:
                ctx.bad(k0 + ":unknown", "assigned record type is parsed", d.where,
                        "key type 0x%02x (`%s`) is treated as an unknown record" % (n, f))
            elif not ss:
                ctx.bad(k0 + ":rejected", "assigned record type is accepted", d.where,
                        "no path accepts a record of type 0x%02x (`%s`)" % (n, f))
            if len(slots[f]) != 1:
                ctx.und(k0 + ":slot", "field has one accumulator", d.where, str(slots[f]))
                continue
            sl = next(iter(slots[f]))
            for s in ss:
                ch = d.changed(s)
                ch2 = {norm_slot(k): v for k, v in ch.items()}
                want = norm_slot(sl)
                others = [k for k in ch2 if k != want]
                ctx.check(not others, k0 + ":only", "a record changes only its own field", d.where,
                          "record 0x%02x (`%s`) also changes %s" % (n, f, [(tm.show(a), b) for a, b in others]))
                if want not in ch2:
                    ctx.bad(k0 + ":stored", "an accepted record is stored", d.where,
                            "a path accepts record 0x%02x without storing it in `%s`: %s" % (n, f, facts(s)))
                    continue
                new = ch2[want]
                cur = fld(want[0], want[1]) if want[1] else want[0]
                u = uses(new, d.e)
                if kind == "map":
                    en = entry_of(cur, new)
                    if en is None:
                        ctx.und(k0 + ":entry", "one entry is added", d.where, tm.show(new)[:200])
                        continue
                    ku, vu = uses(en[0], d.e), uses(en[1], d.e)
                    ctx.check(ku <= {"keydata", "key"} if ku else None, k0 + ":entrykey",
                              "the entry key comes from the key data", d.where, tm.show(en[0])[:200])
                    ctx.check(vu == {"value"} if vu else None, k0 + ":entryvalue",
                              "the entry value comes from the record value", d.where, tm.show(en[1])[:200])
                else:
                    const = any(tm.mentions(t, VALUE) for t in s.facts) and not u
                    ctx.check(True if u == {"value"} or const else (None if not u else False), k0 + ":value",
                              "the field comes from the record value", d.where, tm.show(new)[:200])
                    # an optional field must become present
                    if kind == "opt":
                        ctx.check(True if new.op == "agg" and new.a[1] == "Some" else
                                  False if new is NONE_ else None, k0 + ":some", "an accepted record makes the field present",
                                  d.where, tm.show(new)[:200])
        for n in EXCLUDED[m]:
            acc = ty.get(n, []) + [s for s in ty.get(None, []) if not excludes(s, n)]
            ctx.check(not acc, "%s:0x%02x:excluded" % (m, n), "key types of the other version are rejected", d.where,
                      "key type 0x%02x is accepted: %s" % (n, [list(map(str, d.changed(s).items()))[:2] for s in acc]))
        gens = [s for s in ty.get(None, []) if isinstance(tv_of(s), frozenset) or tv_of(s) is None]
        allowed = set(rows) | set(EXCLUDED[m]) | {0x0e, 0x0f, 0x10, 0x11, 0x12} if m == "v0.Input" else \
            set(rows) | set(EXCLUDED[m]) | ({3, 4} if m == "v0.Output" else set())
        cov = [n for n in range(256) if n not in allowed]
        lost = [n for n in cov if n not in ty and all(excludes(s, n) for s in gens)]
        ctx.check(not lost, "%s:unknown:kept" % m, "unassigned key types are retained", d.where,
                  "records of types %s are rejected" % [hex(x) for x in lost][:12])
        for n, ss in ty.items():
            if n is None or n in rows or n in EXCLUDED[m]:
                continue
            for s in ss:
                check_unknown(ctx, d, m, s, slots[unk], n)
        for s in gens:
            check_unknown(ctx, d, m, s, slots[unk], None)


NONE_ = tm.NONE


def check_unknown(ctx, d, m, s, slots, n):
    k0 = "%s:unknown" % m
    if len(slots) != 1:
        ctx.und(k0, "unknown map has one accumulator", d.where, str(slots))
        return
    want = norm_slot(next(iter(slots)))
    ch = {norm_slot(k): v for k, v in d.changed(s).items()}
    ctx.check(set(ch) <= {want}, k0 + ":only", "an unknown record changes only the unknown map", d.where,
              str([(tm.show(a), b) for a, b in ch]))
    if want not in ch:
        ctx.bad(k0 + ":stored", "an unknown record is retained", d.where, "dropped on the path " + facts(s))
        return
    cur = fld(want[0], want[1]) if want[1] else want[0]
    en = entry_of(cur, ch[want])
    if en is None:
        ctx.und(k0 + ":entry", "one entry is added", d.where, tm.show(ch[want])[:200])
        return
    k = en[0]
    kk = k is KEY or (fld(k, "type_value") is TV and fld(k, "key") is KDATA)
    ctx.check(True if kk and en[1] is VALUE else None if (uses(k) & {"key", "keydata"} and uses(en[1]) == {"value"})
              else False, k0 + ":verbatim", "unknown records are retained verbatim", d.where, tm.show(ch[want])[:300])


def norm_slot(sl):
    """(acc, 'Some.0') and (acc, None) name the same accumulator"""
    a, f = sl
    return (a, None) if f in ("Some.0",) else (a, f)


def excludes(s, n):
    v = tv_of(s)
    if isinstance(v, int):
        return v != n
    return isinstance(v, frozenset) and n in v


def acc_cur(sl):
    a, f = norm_slot(sl)
    return fld(a, f) if f else a


def acc_init(d, sl):
    """value of the accumulator before the record loop"""
    a, f = norm_slot(sl)
    for root, sym in d.syms.items():
        if sym is a:
            v = d.cut["init"].mem.get(root)
            if v is not None:
                return fld(v, f) if f else v
    return None


@prop("C03", feats=DECF, thorough=DECT)
def c03(ctx):
    """For every path of the six record decoders that stores a record: the path has established that nothing was
    stored for that key before (the optional accumulator is empty, or the map has no entry for the very key inserted).
    An accumulator that uses an in-band placeholder instead of an empty option does not qualify unless the record can
    never carry the placeholder."""
    for m in DEC:
        d = dec_of(ctx, m)
        if d is None:
            continue
        rows = spec(m, ctx.prog)
        unk = UNKNOWN[m[:2]]
        todo = [(n, f) for n, (f, k) in sorted(rows.items())] + [(None, unk)]
        for n, f in todo:
            sls = d.slot_of(f)
            k0 = "%s:%s" % (m, "unknown" if n is None else "0x%02x" % n)
            if len(sls) != 1:
                ctx.und(k0, "field has one accumulator", d.where, str(sls))
                continue
            sl = next(iter(sls))
            want = norm_slot(sl)
            cur = acc_cur(sl)
            for s in d.types().get(n, []):
                ch = {norm_slot(k): v for k, v in d.changed(s).items()}
                if want not in ch:
                    continue
                new = ch[want]
                en = entry_of(cur, new)
                rule = "a second record with the same key is rejected"
                if en is not None:
                    h = d.e.known(s, mk("has", cur, en[0]))
                    ctx.check(h == 0, k0 + ":dup", rule, d.where,
                              "an entry is stored in `%s` without checking that its key is new: %s" % (f, facts(s)))
                    continue
                if s.facts.get(disc(cur)) == 0:
                    ctx.ok(k0 + ":dup", rule, d.where)
                    continue
                init = acc_init(d, sl)
                eqs = init is not None and d.e.known(s, EQ(cur, init)) == 1
                opt = init is not None and init is tm.NONE
                if new.op == "seq" and not opt:
                    ctx.und(k0 + ":dup", rule, d.where, tm.show(new)[:200])
                elif eqs and not opt:
                    # in-band placeholder: the stored value must be known to differ from it
                    ne = d.e.known(s, EQ(new, init)) == 0
                    ctx.check(ne, k0 + ":placeholder", rule, d.where,
                              "`%s` uses the in-band placeholder %s to mean 'not seen yet': a record carrying that value "
                              "can be followed by a second record with the same key" % (f, tm.show(init)))
                else:
                    ctx.bad(k0 + ":dup", rule, d.where,
                            "record stored in `%s` on a path that has not established that none was stored before: %s"
                            % (f, facts(s)))


PARTIAL = ("consensus_decode", "deserialize_partial", "read_exact", "consensus_decode_from_finite_reader")
FIXED = {"v2.Global": {0x02: 4, 0x03: 4, 0x06: 1, 0xFB: 4, 0x08: 64},
         "v2.Input": {0x1E: 64}, "v2.Output": {0x09: 66, 0x0A: 4}, "v0.Global": {0xFB: 4}, "v0.Input": {}, "v0.Output": {}}


@prop("C04", feats=DECF, thorough=DECT)
def c04(ctx):
    """For every accepting path of the six record decoders: a key type that carries no key data is accepted only when
    the key data length was established to be zero; key data of map records is consumed only through whole-input
    parsers or explicit complementary slices; the value of a fixed-size record is accepted only when its length was
    established, and a value parsed with a parser that may stop early is accepted only when its length was checked."""
    for m in DEC:
        d = dec_of(ctx, m)
        if d is None:
            continue
        rows = spec(m, ctx.prog)
        for n, (f, kind) in sorted(rows.items()):
            k0 = "%s:0x%02x" % (m, n)
            for s in d.types().get(n, []):
                if kind != "map":
                    ctx.check(d.e.known(s, EQ(length(KDATA), K0)) == 1, k0 + ":keydata",
                              "a record without key data is rejected when key data is present", d.where,
                              "record 0x%02x (`%s`) accepted without checking that the key data is empty: %s"
                              % (n, f, facts(s)))
                lv = length(VALUE)
                known = s.facts.get(lv)
                if n in FIXED[m]:
                    ctx.check(True if known == FIXED[m][n] else (False if known is None or isinstance(known, int) or
                                                                 FIXED[m][n] not in known else False),
                              k0 + ":size", "a fixed-size value has exactly the assigned size", d.where,
                              "record 0x%02x (`%s`) accepted with length facts %s, assigned size is %d"
                              % (n, f, known, FIXED[m][n]))
                elif kind != "map" and (m, n) not in (("v2.Global", 0x04), ("v2.Global", 0x05)):
                    # (the two counts are read as a compact-size prefix: BIP-375's own vectors pad them)
                    new = [v for k, v in d.changed(s).items()]
                    part = [x for v in new for x in tm.find(v, lambda y: y.op == "app" and
                                                          str(y.a[0]).split("::")[-1] in PARTIAL)]
                    if part and all(tm.mentions(x, VALUE) for x in part):
                        okk = isinstance(known, int) or any(
                            (t.op == "eq" and v == 1 and tm.mentions(t, VALUE) and
                             (lv in t.a)) for t, v in s.facts.items())
                        ctx.check(okk, k0 + ":consumed", "the whole value is consumed", d.where,
                                  "record 0x%02x (`%s`) is parsed with %s and trailing bytes are not rejected"
                                  % (n, f, str(part[0].a[0]).split("::")[-1]))
                    else:
                        ctx.ok(k0 + ":consumed", "the whole value is consumed", d.where)
                # numbers read in a loop that ends when the next one cannot be read: nothing may be left over
                short = [t for t, v in s.facts.items() if t.op == "discr" and v == 1 and t.a[0].op == "app"
                         and str(t.a[0].a[0]).split("::")[-1] in PARTIAL and t.a[0].a[-1].op == "lv"]
                if short:
                    w = [t for t, v in s.facts.items() if v == 0 and t.op in ("rem", "band", "bitand") and t.a[0] is length(VALUE)
                         and t.a[1].op == "k" and t.a[1].a[0] == (4 if t.op == "rem" else 3)]
                    ctx.check(bool(w) or isinstance(known, int) or None if any(
                        t.op not in ("rem", "len", "ovf", "lt", "le", "eq") and tm.mentions(t, length(VALUE)) for t in s.facts) else bool(w) or isinstance(known, int),
                        k0 + ":rest", "the whole value is consumed", d.where,
                        "the numbers of record 0x%02x (`%s`) are read until one cannot be, and a value with bytes left over is not rejected" % (n, f))


def only(d, s, ver):
    """do the facts of the path leave `ver` as the only value of the decoded number? None: cannot say"""
    def number(t):
        return tm.mentions(t, VALUE) and not tm.mentions(t, length(VALUE)) and t.op in ("fld", "app", "hv") and t is not VALUE

    def plain(t):
        return not tm.find(t, lambda y: y.op in ("cast", "rem", "band", "shr", "div", "bitand"))
    xs = {x for v in list(s.facts) + list(d.changed(s).values()) for x in tm.find(v, lambda y: number(y) and y.op == "fld" and y.a[-1] == "Ok.0" and plain(y))}
    lo, hi, odd = 0, (1 << 32) - 1, False
    for t, v in s.facts.items():
        if not tm.mentions(t, VALUE) or t.op == "discr" or t is length(VALUE) or t.op in ("len", "ovf"):
            continue
        t2 = t.a[0] if t.op == "cast" and str(t.a[0]) in ("u32", "u64", "usize", "i64") else t
        num = [y for y in t.a if y in xs] if t.op in ("lt", "le", "eq") and len(t.a) == 2 else []
        con = [y.a[0] for y in t.a if y.op == "k" and isinstance(y.a[0], int)] if num else []
        if t2 in xs:
            if isinstance(v, int):
                lo, hi = max(lo, v), min(hi, v)
            else:
                while lo in v:
                    lo += 1
        elif con:
            c, left = con[0], t.a[0] in xs
            if t.op == "eq":
                if v == 1:
                    lo, hi = max(lo, c), min(hi, c)
            else:
                o = 0 if t.op == "le" else 1
                if left:        # x < c
                    lo, hi = (lo, min(hi, c - o)) if v else (max(lo, c - o + 1), hi)
                else:           # c < x
                    lo, hi = (max(lo, c + o), hi) if v else (lo, min(hi, c + o - 1))
        elif not tm.find(t, lambda y: y.op in ("cast", "rem", "band", "bitand", "shr", "div")):
            odd = True
    if lo == hi == ver:
        return True
    return None if odd or not xs else False


MAND = {"v2.Global": ["version", "tx_version", "input_count", "output_count"],
        "v2.Input": ["previous_txid", "spent_output_index"], "v2.Output": ["amount"],
        "v0.Global": ["unsigned_tx"], "v0.Input": [], "v0.Output": []}


@prop("C05", feats=DECF, thorough=DECT)
def c05(ctx):
    """For every successful return of the map decoders: each mandatory record has been seen (its accumulator is
    present); the PSBT version field was compared with the one supported value; an optional record that was not
    seen is returned as absent (default) and one that was seen is returned unchanged."""
    for m in DEC:
        d = dec_of(ctx, m)
        if d is None:
            continue
        mand = list(MAND[m])
        if m == "v2.Output" and ctx.feat in ("common", "nostd", "std"):
            mand.append("script_pubkey")
        for f in fields(m):
            if m == "v0.Global" and f in ("inputs", "outputs"):
                continue
            k0 = "%s:%s" % (m, f)
            sls = d.slot_of(f)
            if len(sls) != 1:
                ctx.check(None if sls else False, k0 + ":returned", "decoded field is returned", d.where,
                          "field `%s` of the returned value does not come from the record loop" % f)
                continue
            sl = next(iter(sls))
            cur = acc_cur(sl)
            init = acc_init(d, sl)
            for s, v in d.okrets:
                x = fld(v, f)
                if f in mand:
                    present = s.facts.get(disc(cur)) == 1
                    if present:
                        ctx.ok(k0 + ":mandatory", "a mandatory record is present on success", d.where)
                    elif init is not None and init is not tm.NONE and init.op != "agg" or \
                            (init is not None and init is not tm.NONE and d.e.known(s, EQ(cur, init)) == 0):
                        ne = d.e.known(s, EQ(cur, init)) == 0
                        ctx.check(ne, k0 + ":mandatory", "a mandatory record is present on success", d.where,
                                  "decoding succeeds without `%s`: %s" % (f, facts(s)))
                        if ne and f == "amount":
                            ctx.bad(k0 + ":placeholder", "a valid value is not mistaken for a missing record", d.where,
                                    "`%s` = %s is treated as missing although it is a value the record can carry"
                                    % (f, tm.show(init)))
                    else:
                        ctx.bad(k0 + ":mandatory", "a mandatory record is present on success", d.where,
                                "decoding succeeds without `%s`: %s" % (f, facts(s)))
                # returned unchanged when seen
                if tm.mentions(x, sl[0]):
                    okk = x is cur or x is fld(cur, "Some.0")
                    ctx.check(True if okk else None, k0 + ":same", "the decoded value is returned unchanged", d.where,
                              tm.show(x)[:200])
                elif init is tm.NONE or (init is not None and init.op in ("k", "seq")):
                    ctx.check(s.facts.get(disc(cur)) == 0, k0 + ":default",
                              "a default is used only when the record was absent", d.where,
                              "`%s` = %s on the path %s" % (f, tm.show(x)[:100], facts(s)))
        ver = {"v2.Global": 2, "v0.Global": 0}.get(m)
        if ver is not None:
            for s in d.types().get(0xFB, []):
                got = only(d, s, ver)
                ctx.check(got, m + ":version:value", "only the supported version is accepted", d.where,
                          "version record accepted on the path " + facts(s))


PRE = {0x0A: "ripemd160", 0x0B: "sha256", 0x0C: "hash160", 0x0D: "sha256d"}


@prop("C06", feats=DECF, thorough=DECT)
def c06(ctx):
    """For every path of the input decoders that stores a preimage: the path has established that the hash of the
    stored preimage equals the hash it is stored under (the hash type is fixed by the map's key type)."""
    for m in ("v0.Input", "v2.Input"):
        d = dec_of(ctx, m)
        if d is None:
            continue
        for n in PRE:
            f = SPEC[m][n][0]
            sls = d.slot_of(f)
            if len(sls) != 1:
                ctx.und("%s:0x%02x" % (m, n), "field has one accumulator", d.where, str(sls))
                continue
            sl = next(iter(sls))
            cur, want = acc_cur(sl), norm_slot(sl)
            for s in d.types().get(n, []):
                ch = {norm_slot(k): v for k, v in d.changed(s).items()}
                if want not in ch:
                    continue
                en = entry_of(cur, ch[want])
                if en is None:
                    ctx.und("%s:0x%02x" % (m, n), "one entry is added", d.where, tm.show(ch[want])[:200])
                    continue
                good = False
                for t, v in s.facts.items():
                    if v == 1 and t.op == "eq" and en[0] in t.a:
                        o = t.a[0] if t.a[1] is en[0] else t.a[1]
                        if o.op == "app" and str(o.a[0]).endswith("::hash") and len(o.a) == 2 and o.a[1] is en[1]:
                            good = True
                soft = any(tm.mentions(t, en[1]) and tm.mentions(t, en[0]) for t in s.facts)
                ctx.check(True if good else None if soft else False, "%s:0x%02x:hash" % (m, n),
                          "a preimage is stored only under its own hash", d.where,
                          "preimage stored in `%s` without comparing its hash with the key: %s" % (f, facts(s)))

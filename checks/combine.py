"""C08 combining different transactions is refused, C09 combining loses nothing."""
from engine.check import prop
from engine import terms as tm
from engine.ai import Engine
from engine.terms import fld, disc, mk, length, EQ
from .lib import *
from .lib import UNKNOWN as UNK
from .sign import has_vague

COMB = {
    "v2.Global": "psbt_v2::v2::map::global::Global::combine",
    "v2.Input": "psbt_v2::v2::map::input::Input::combine",
    "v2.Output": "psbt_v2::v2::map::output::Output::combine",
    "v0.Global": "psbt_v2::v0::bitcoin::Psbt::combine",
    "v0.Input": "psbt_v2::v0::bitcoin::map::input::Input::combine",
    "v0.Output": "psbt_v2::v0::bitcoin::map::output::Output::combine",
}
WITH = "psbt_v2::v2::Psbt::combine_with"
TOPS = (WITH, "psbt_v2::v2::combine")
SUB = ("v2::map::global::Global::combine", "v2::map::input::Input::combine", "v2::map::output::Output::combine",
       "v0::bitcoin::map::input::Input::combine", "v0::bitcoin::map::output::Output::combine")
OTHER = tm.S("other")
# what makes two PSBTs PSBTs of the same transaction
SAME = {"v2.Global": ("version", "tx_version"), "v2.Input": ("previous_txid", "spent_output_index"),
        "v2.Output": ("amount", "script_pubkey"), "v0.Global": ("unsigned_tx",)}
NOCLAIM = {"v2.Global": ("tx_modifiable_flags", "input_count", "output_count")}


def okstate(s, v):
    return not is_err(v)


def new_of(e, key, s, v):
    return fld(v, "Ok.0") if key in TOPS else e.content(s, SELF)


def syms(prog, key):
    """the engine's symbols of the two PSBTs combined"""
    b = prog.body(key)
    return tuple(tm.S(b.argnames.get(i, "arg%d" % (i - 1))) for i in (1, 2))


@prop("C08")
def c08(ctx):
    """The combine functions are interpreted for two arbitrary PSBTs.  On every path that succeeds, facts must
    imply that the two agree in PSBT version, transaction version, number of inputs and outputs, and for every input
    and output the same for the outpoint, amount and script (version 0: the unsigned transaction); and the result
    of combining each map must have been checked."""
    n = 0
    for m, fs in SAME.items():
        key = COMB[m]
        if key not in ctx.prog.raw:
            ctx.und("anchor:" + m, "function present", key, "missing")
            continue
        w = where(ctx.prog, key)
        e = Engine(ctx.prog, cap=6, opaque=opaque_names(*[x for x in SUB if not key.endswith(x)]))
        r = e.run(key)
        ctx.used(e)
        A, B = syms(ctx.prog, key)
        for s, v in r:
            if not okstate(s, v):
                continue
            for f in fs:
                n += 1
                ctx.check(implied_eq(e, s, fld(A, f), fld(B, f), {"version", "lock_time", "input", "output"} if f == "unsigned_tx" else None), "%s:%s" % (m, f),
                          "combining succeeds only when %s is equal" % f, w, "success without comparing it")
        # equal maps are not refused
        if not any(okstate(s, v) for s, v in r):
            ctx.bad("%s:never" % m, "combining can succeed", w, "every path returns an error")
    for key in TOPS:
        if key not in ctx.prog.raw:
            continue
        w = where(ctx.prog, key)
        e = Engine(ctx.prog, cap=20, opaque=opaque_names(*SUB))
        r = e.run(key)
        ctx.used(e)
        A, B = syms(ctx.prog, key)
        for s, v in r:
            if not is_ok(v):
                if not is_err(v):
                    ctx.und(key + ":result", "result understood", w, tm.show(v)[:200])
                continue
            n += 1
            for f in ("inputs", "outputs"):
                a, b = fld(A, f), fld(B, f)
                c = implied_eq(e, s, length(a), length(b))
                if c is not True:
                    g = f[:-1] + "_count"
                    c2 = implied_eq(e, s, fld(fld(A, "global"), g), fld(fld(B, "global"), g))
                    c = c2 if c2 is True else c
                ctx.check(c, "%s:%s:len" % (key, f), "combining succeeds only with equal numbers of %s" % f, w,
                          "success without comparing the numbers")
                c = forall(e, s, lambda l: l is a or l is b, lambda bs, el, ix: okcall(bs, f[:-1].capitalize()),
                           sel=None)
                if c is not True:
                    c = pairs_checked(e, s, a, b, f)
                ctx.check(c, "%s:%s:each" % (key, f), "the result of combining each pair of %s is checked" % f, w,
                          "an error is dropped or a pair left out")
            ctx.check(True if okcall(s, "Global") else False, "%s:global" % key, "the result of combining the globals is checked", w,
                      "not on this path")
    ctx.check(True if n else None, "coverage", "functions found", "", "none")


def okcall(s, kind):
    """did a call of <kind>::combine return Ok on this path?"""
    suffix = "%s::combine" % kind
    for t, v in s.facts.items():
        if t.op == "discr" and v == 0 and t.a[0].op == "app" and fname(t.a[0]).endswith(suffix):
            return True
    return False


def pairs_checked(e, s, a, b, f):
    """the loop over the pairs of both lists checks every result"""
    best = False
    for site, base, ls, part in finished(e, s):
        if not any(l is a or l is b for l in ls):
            continue
        if part is not None:
            if len(part.a) > 1 and part.a[1].op != "k":
                best = None
            continue
        bs = [x for q in e.loops.get(site, ()) for x in q[2]]
        if bs and all(okcall(x, f[:-1].capitalize()) for x in bs):
            return True
        if not bs:
            best = None
    return best


# ---------------------------------------------------------------- C09
def alts(v):
    return list(v.a[0]) if v.op == "phi" else [v]


def src(v, a, b):
    """'a' | 'b' | 'none' | None: which option a value is"""
    for n, x in (("a", a), ("b", b)):
        if v is x:
            return n
        if v.op == "agg" and v.a[1] == "Some" and v.a[2][0] is fld(x, "Some.0"):
            return n
    if v.op == "agg" and v.a[1] == "None":
        return "none"
    return None


def merged(e, s, v, a, b, f, root):
    """does map v hold the entries of both a and b?  (True/False/None, detail)"""
    if v is a or v is b:
        return False, "only one side's entries"
    if v.op != "seq":
        return None, tm.show(v)[:200]
    base, ps = v.a
    have = {x for x in (a, b) if base is x}
    some_other = False
    for p in ps:
        if p.op == "all" and p.a[0] in (a, b):
            have.add(p.a[0])
        else:
            some_other = True
    if {a, b} <= have and not some_other:
        return True, ""
    if a not in have:
        if base is None and not ps:
            return False, "empty"
        return None if (lv_any(v)) else False, "own entries missing: " + tm.show(v)[:200]
    if b in have:
        return None, "unexpected entries: " + tm.show(v)[:200]
    # entry by entry
    best = "the other side's entries are missing: " + tm.show(v)[:200]
    res = False
    for site, base, ls, part in finished(e, s):
        if not any(l is b for l in ls):
            continue
        if part is not None:
            if len(part.a) > 1 and part.a[1].op != "k":
                res = None
            continue
        key = tm.kat(b, mk("ix", base))
        rs = []
        for inv, entry, backs in e.loops.get(site, ()):
            iv = fld(e.content(inv, root), f)
            for bs in backs:
                rs.append(entered(e, bs, iv, fld(e.content(bs, root), f), a, b, key))
        if rs and all(r is True for r in rs):
            return True, ""
        if None in rs or not rs:
            res = None
        best = "an entry of the other side can be left out"
    return res, best


def entered(e, bs, iv, cur, a, b, key):
    """is the entry `key` of b in the map after the iteration?"""
    parts = [] if cur is iv else list(tm.seq_of(cur)[1])
    if parts and tm.seq_of(iv)[1] == tuple(parts[:len(tm.seq_of(iv)[1])]):
        parts = parts[len(tm.seq_of(iv)[1]):]
    for c in parts:
        for x in tm.find(c, lambda y: y.op == "ent" and y.a[0] is key):
            val = x.a[1]
            if val is tm.mget(b, key) or (val.op == "agg" and all(
                    y is fld(tm.mget(b, key), str(i)) for i, y in enumerate(val.a[2]))):
                return True
            return None if tm.has_top(val) else False
    for t, k in bs.facts.items():
        if t.op == "has" and k == 1 and t.a[1] is key and (t.a[0] is a or tm.mentions(t.a[0], a)):
            return True
    return None if parts and lv_any(cur) else False


def lv_any(t):
    return bool(tm.find(t, lambda x: x.op in ("lv", "hv", "top")))


@prop("C09")
def c09(ctx):
    """Each map's combine function is interpreted for two arbitrary maps, once per optional field and presence of that
    field on either side, and once for the keyed fields: the resulting field must be present when it is on either
    side, with the value of a side that has it; keyed fields must hold the entries of both.  Every pair of inputs and
    outputs must be combined."""
    for m, key in COMB.items():
        if key not in ctx.prog.raw:
            ctx.und("anchor:" + m, "function present", key, "missing")
            continue
        w = where(ctx.prog, key)
        A, B = syms(ctx.prog, key)
        opq = opaque_names(*[x for x in SUB if not key.endswith(x)])
        rows = {f: k for f, k in spec(m, ctx.prog).values()}
        rows[UNK[m[:2]]] = "map"
        for f in fields(m):
            if f in ("inputs", "outputs") or f in NOCLAIM.get(m, ()):
                continue
            if f not in rows:
                ctx.und("%s:%s" % (m, f), "kind of field known", w, f)
        for f, k in rows.items():
            if f in NOCLAIM.get(m, ()) or k != "opt":
                continue
            a, b = fld(A, f), fld(B, f)
            if m.endswith("Input") and f == "non_witness_utxo":
                # clearing it when a witness UTXO takes its place is intended
                wu = (fld(A, "witness_utxo"), fld(B, "witness_utxo"))
                hyps = [{wu[0]: 1}, {wu[1]: 0, wu[0]: 0}]
            else:
                hyps = [{}]
            for pa in (0, 1):
                for pb in (0, 1):
                    for h in hyps:
                        d = {disc(x): y for x, y in h.items()}
                        d[disc(a)], d[disc(b)] = pa, pb
                        e = Engine(ctx.prog, cap=4, opaque=opq, oracle=d.get)
                        r = e.run(key)
                        ctx.used(e)
                        ctx.count("paths", len(r))
                        for s, v in r:
                            if not okstate(s, v):
                                continue
                            x = fld(new_of(e, key, s, v), f)
                            for y in alts(x):
                                g = src(y, a, b)
                                if g == "a":
                                    g = "a" if pa else "none"
                                elif g == "b":
                                    g = "b" if pb else "none"
                                want = {(0, 0): ("none",), (1, 0): ("a",), (0, 1): ("b",), (1, 1): ("a", "b")}[(pa, pb)]
                                ctx.check(None if g is None else g in want, "%s:%s:%d%d" % (m, f, pa, pb),
                                          "%s %s: the result has %s" % (f, "present on " + ("both sides" if pa + pb == 2 else "one side")
                                                                        if pa + pb else "absent", "it" if pa + pb else "none"), w,
                                          tm.show(y)[:200])
        e = Engine(ctx.prog, cap=6, opaque=opq)
        r = e.run(key)
        ctx.used(e)
        ctx.count("paths", len(r))
        for s, v in r:
            if not okstate(s, v):
                continue
            new = new_of(e, key, s, v)
            for f, k in rows.items():
                if f in NOCLAIM.get(m, ()) or k == "opt":
                    continue
                a, b = fld(A, f), fld(B, f)
                x = fld(new, f)
                if k == "map":
                    for y in alts(x):
                        c, det = merged(e, s, y, a, b, f, A)
                        ctx.check(c, "%s:%s" % (m, f), "%s holds the entries of both sides" % f, w, det)
                elif k == "version":
                    good = x.op == "max" and set(x.a) == {a, b}
                    ctx.check(True if good else (False if x is a or x is b or x.op == "min" else None), "%s:%s" % (m, f), "the higher version is kept", w, tm.show(x)[:200])
                else:
                    g = [y is a or y is b for y in alts(x)]
                    ctx.check(True if all(g) else (None if lv_any(x) else False), "%s:%s" % (m, f), "%s is kept" % f, w, tm.show(x)[:200])
            if m == "v0.Global":
                lists(ctx, e, new, A, B, key, w, s)
    for key in TOPS:
        if key not in ctx.prog.raw:
            continue
        e = Engine(ctx.prog, cap=20, opaque=opaque_names(*SUB))
        A, B = syms(ctx.prog, key)
        w = where(ctx.prog, key)
        for s, v in e.run(key):
            if not is_ok(v):
                continue
            new = fld(v, "Ok.0")
            lists(ctx, e, new, A, B, key, w, s)
            g = fld(new, "global")
            c = pair_of(g, fld(A, "global"), fld(B, "global"))
            ctx.check(c, key + ":global", "the global maps are combined", w, tm.show(g)[:200])
        ctx.used(e)


def pair_of(x, a, b):
    """is x what combining a and b left?  True/False/None"""
    if x.op == "hv" and str(x.a[0]).endswith("::combine"):
        got = set(x.a[2:])
        return True if got == {a, b} else False
    if x is a or x is b:
        return False
    return None


def lists(ctx, e, new, A, B, key, w, s):
    for f in ("inputs", "outputs"):
        a, b = fld(A, f), fld(B, f)
        x = fld(new, f)
        rule = "every pair of %s is combined" % f
        k = "%s:%s" % (key, f)
        if x is a or x is b:
            ctx.bad(k, rule, w, "left as they were")
            continue
        r = elems(e, x)
        if r is None:
            ctx.und(k, rule, w, tm.show(x)[:200])
            continue
        xs, lens = r
        cs = [pair_of(y, mk("at", a, IXC), mk("at", b, IXC)) for y in xs]
        c = False if False in cs else None if None in cs else True
        if c is True:
            c = covers(lens, {length(a), length(b)})
        ctx.check(c, k, rule, w, "; ".join(tm.show(y)[:150] for y in xs) + " lengths " + ",".join(tm.show(l)[:60] for l in lens))


# ---------------------------------------------------------------- C41
XWORLDS = [dict(order="<" if d < 0 else ">" if d else "=", E=E, F=F, S1=s1, S2=s2, d=d)
           for d in range(-3, 4) for E, s1, s2 in ([(0, 0, 0), (0, 1, 0)] if d < 0 else [(0, 0, 0), (0, 0, 1)] if d else [(1, 1, 1), (0, 0, 0)])
           for F in (0, 1)]


def lin(t, l1, l2):
    """t as (x, y, k): x*l1 + y*l2 + k, or None"""
    if t is l1 or t is l2:
        return (int(t is l1), int(t is l2), 0)
    if t.op == "k" and isinstance(t.a[0], int):
        return (0, 0, t.a[0])
    if t.op in ("add", "sub") and len(t.a) == 2:
        a, b = lin(t.a[0], l1, l2), lin(t.a[1], l1, l2)
        if a and b:
            return tuple(x + y if t.op == "add" else x - y for x, y in zip(a, b))
    return None


def want_of(w):
    """what combining two key sources of one xpub must do: ours / theirs / refuse"""
    if w["E"] and w["F"] or (w["order"] == "<" and w["S1"]):
        return "ours"
    return "theirs" if w["order"] == ">" and w["S2"] else "refuse"


def holds(t, v, w, this, that):
    """can the fact t = v be true in world w (that: the other PSBT's key source, this: ours)?  True/False,
    None: not understood, "?": a comparison of the two paths that says nothing certain about w"""
    d1, d2, f1, f2 = fld(that, "1"), fld(this, "1"), fld(that, "0"), fld(this, "0")
    l1, l2 = length(d1), length(d2)
    t = tm.replace(t, {x: length(x.a[1]) for x in tm.find(t, lambda y: y.op == "app" and len(y.a) == 2 and fname(y).endswith("::len") and
                                                         (y.a[1] is d1 or y.a[1] is d2))})
    val = None
    if t.op == "eq":
        s = set(t.a)
        if s == {d1, d2}:
            val = w["E"]
        elif s == {f1, f2}:
            val = w["F"]
        elif s == {this, that}:
            val = w["E"] and w["F"]
        elif s == {l1, l2}:
            val = w["order"] == "="
        else:
            for x, y in (t.a, t.a[::-1]):
                if y.op != "slice":
                    continue
                short, long, n = (d1, d2, "S1") if x is d1 and y.a[0] is d2 else (d2, d1, "S2") if x is d2 and y.a[0] is d1 else (None,) * 3
                if n is None:
                    continue
                st, en = y.a[1], y.a[2]
                if (en is None or en is length(long)) and st.op == "sub" and st.a[0] is length(long) and st.a[1] is length(short):
                    val = w[n]
                elif not tm.has_top(y) and not tm.find(mk("t", st, *([en] if en is not None else [])), lambda z: z.op in ("app", "lv", "phi")):
                    return "?"
    elif t.op == "lt":
        a, b = lin(t.a[0], l1, l2), lin(t.a[1], l1, l2)
        if a and b:
            x, y, k = (p - q for p, q in zip(a, b))
            if x == -y:
                val = x * w["d"] + k < 0
            else:
                return "?"
    elif t.op == "ovf" and t.a[0] in ("add", "sub") and {t.a[1], t.a[2]} != {l1, l2} and lin(t.a[1], l1, l2) and lin(t.a[2], l1, l2):
        return "?"
    elif t.op == "ovf" and t.a[0] == "sub" and {t.a[1], t.a[2]} == {l1, l2}:
        val = w["order"] == (">" if t.a[1] is l2 else "<")
    elif t.op == "app" and len(t.a) > 2 and {t.a[1], t.a[2]} == {d1, d2} and fname(t).rsplit("::", 1)[-1].startswith("ends_with"):
        val = w["S1"] if t.a[1] is d2 else w["S2"]
    elif t.op == "app" and len(t.a) > 2 and {t.a[1], t.a[2]} == {d1, d2} and fname(t).rsplit("::", 1)[-1].startswith("starts_with"):
        return "?"
    if val is None:
        return None
    return bool(val) == bool(v) if isinstance(v, int) else bool(val) not in {bool(x) for x in v}


@prop("C41")
def c41(ctx):
    """The combine functions of the two global maps are interpreted for arbitrary PSBTs.  Every path through an
    iteration over the other PSBT's xpubs that finds the xpub on both sides is checked against the possible
    relations between the two key sources (order of the path lengths, equal, suffix, same fingerprint): in each
    relation the path's conditions admit, it must keep ours, take theirs or refuse as specified."""
    n = 0
    for m, f in (("v2.Global", "xpubs"), ("v0.Global", "xpub")):
        key = COMB.get(m)
        if key not in ctx.prog.raw:
            ctx.und("anchor:" + m, "function present", str(key), "missing")
            continue
        w = where(ctx.prog, key)
        A, B = syms(ctx.prog, key)
        a, b = fld(A, f), fld(B, f)
        e = Engine(ctx.prog, cap=60, opaque=opaque_names(*[x for x in SUB if not key.endswith(x)]))
        r = e.run(key)
        ctx.used(e)
        ctx.count("paths", len(r))

        def shared(s):
            """(our key source, theirs, the fact) when the path knows the xpub at hand is on both sides"""
            for t, v in s.facts.items():
                if t.op == "has" and v == 1 and t.a[1].op == "kat" and t.a[1].a[0] is b and (t.a[0] is a or tm.mentions(t.a[0], a)):
                    return tm.mget(t.a[0], t.a[1]), tm.mget(b, t.a[1]), t

        ends = []
        for site, inv, bs in iterations(e):
            h = shared(bs)
            if h and inv.facts.get(h[2]) != 1:
                o, c = fld(e.content(inv, A), f), fld(e.content(bs, A), f)
                act = "ours" if c is o else None
                if act is None and c.op == "seq":
                    parts = list(tm.seq_of(c)[1])[len(tm.seq_of(o)[1]):] if o.op == "seq" else list(tm.seq_of(c)[1])
                    es = [x for x in (p.a[0] if p.op == "one" else p for p in parts) if x.op == "ent" and x.a[0] is h[2].a[1]]
                    if len(es) == 1 and len(parts) == 1:
                        val = es[0].a[1]
                        for nm, src_ in (("theirs", h[1]), ("ours", h[0])):
                            if val is src_ or val.op == "agg" and len(val.a[2]) == 2 and all(
                                    y is fld(src_, str(i)) for i, y in enumerate(val.a[2])):
                                act = nm
                        if act is None and (not has_vague(val) or val.op == "agg" and all(
                                y in {fld(z, i) for z in h[:2] for i in "01"} for y in val.a[2])):
                            act = "mixed"
                ends.append((bs, h, act, tm.show(c)[:150]))
        for s, v in r:
            h = shared(s)
            if h and is_err(v):
                ends.append((s, h, "refuse", tm.show(v)[:150]))
            elif h and is_ok(v):
                ends.append((s, h, None, "returns from within the loop"))
        for s, (this, that, hf), act, det in ends:
            n += 1
            ctx.count("xpub_paths")
            D = [fld(x, y) for x in (this, that) for y in "01"] + [this, that]
            rel = [(t, v) for t, v in s.facts.items() if t is not hf and any(tm.mentions(t, d) for d in D)]
            # a later error: the loop is not what refused
            for wd in XWORLDS:
                hs = [holds(t, v, wd, this, that) for t, v in rel]
                if False in hs:
                    continue
                exp = want_of(wd)
                ok = act == exp
                c = True if ok else None if act is None or None in hs else False
                ctx.check(c, "%s:%s:%s%s" % (m, exp, wd["order"], "".join(str(wd[x]) for x in ("E", "F", "S1", "S2"))),
                          "key sources of an xpub on both sides: %s" % {
                              "ours": "ours is kept when it is the same or ends in theirs", "theirs": "theirs is taken when it ends in ours",
                              "refuse": "inconsistent key sources are refused"}[exp], w,
                          "%s although path lengths theirs %s ours, equal=%d, same fingerprint=%d, theirs is a suffix=%d, ours is a suffix=%d: %s" % (
                              {"ours": "ours is kept", "theirs": "theirs is taken", "refuse": "refused", "mixed": "another value is stored"}.get(act, "not understood"),
                              wd["order"], wd["E"], wd["F"], wd["S1"], wd["S2"], det))
    ctx.check(True if n else None, "coverage", "paths that find the xpub on both sides", "", "none")

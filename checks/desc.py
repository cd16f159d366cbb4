"""C40 an input is finalized only with the scripts its funding output commits to."""
from engine.check import prop
from engine import terms as tm
from engine.ai import Engine
from .lib import *
from .table import cstr

CTOR = {"new_pk": "pk", "new_pkh": "pkh", "new_wpkh": "wpkh", "new_wsh": "wsh", "new_sh_wsh": "shwsh", "new_sh_wpkh": "shwpkh",
        "new_sh": "sh", "new_bare": "bare"}
PREDS = ("is_p2pk", "is_p2pkh", "is_p2wpkh", "is_p2wsh", "is_p2sh", "is_p2tr", "is_witness_program", "is_p2wpkh", "is_v0_p2wsh")


def app(t, *names):
    """arguments of t if it is a call of one of these functions (last segment) | None"""
    if t.op != "app":
        return None
    n = fname(t)
    while n.endswith(">") and "::<" in n:
        n = n[:n.rindex("::<")]
    return list(t.a[1:]) if n.split("::")[-1] in names else None


def okof(t):
    """x if t is x's success value, else t"""
    while t.op == "fld" and t.a[1] in ("Ok.0", "Some.0"):
        t = t.a[0]
    return t


def key_of(t):
    """the key a (compressed) key value was made from"""
    while True:
        t = okof(t)
        a = app(t, "try_from", "try_into", "new", "from", "into", "clone", "to_public_key")
        if not a:
            return t
        t = a[0]


def commit(t):
    """(kind, what is committed to) of an output script built from something | None"""
    a = app(t, "to_p2wsh", "to_p2sh")
    if a:
        return ("p2wsh" if app(t, "to_p2wsh") else "p2sh", cstr(a[0]))
    a = app(t, "script_pubkey")
    if a:
        x = okof(a[0])
        for k in ("p2pkh", "p2wpkh", "p2wsh", "p2sh", "p2shwpkh", "p2shwsh"):
            b = app(x, k)
            if b:
                return (k, cstr(key_of(b[0])) if k.endswith("pkh") else cstr(b[0]))
        return None
    for f, k, hs in (("new_p2wsh", "p2wsh", ("wscript_hash",)), ("new_p2sh", "p2sh", ("script_hash",)),
                     ("new_p2pkh", "p2pkh", ("pubkey_hash",)), ("new_p2wpkh", "p2wpkh", ("wpubkey_hash",))):
        a = app(t, f)
        if a:
            h = app(okof(a[0]), *hs)
            if h:
                return (k, cstr(key_of(h[0])) if k.endswith("pkh") else cstr(h[0]))
    return None


class Path:
    """what one path through the descriptor inference knows"""

    def __init__(self, e, s, inp, prev, vout, txid):
        self.e, self.s, self.inp = e, s, inp
        self.f = {}
        self.com = {}
        self.odd = []
        self.W = inp + ".witness_utxo.Some.0.script_pubkey"
        self.N = "%s.non_witness_utxo.Some.0.output[%s].script_pubkey" % (inp, vout)
        self.rs, self.ws = inp + ".redeem_script.Some.0", inp + ".witness_script.Some.0"
        for t, v in s.facts.items():
            self.f[cstr(t)] = v
        w, n = self.d(inp + ".witness_utxo"), self.d(inp + ".non_witness_utxo")
        self.spk = self.W if w == 1 else self.N if w == 0 and n == 1 else None
        self.noutxo = w == 0 and (n == 0 or self.f.get("lt(%s, len(%s.non_witness_utxo.Some.0.output))" % (vout, inp)) == 0
                                  or (txid and any(t.op == "eq" and v == 0 and "txid" in cstr(t) for t, v in s.facts.items())))
        known = (self.W, self.N, self.rs, self.ws)
        for t, v in s.facts.items():
            if t.op == "eq" and len(t.a) == 2:
                hit = False
                for x, y in (t.a, t.a[::-1]):
                    c = commit(x)
                    if c:
                        self.com[c + (cstr(y),)] = v
                        hit = True
                if hit:
                    continue
            c = cstr(t)
            if t.op in ("lt", "ovf", "done", "len") or not any(k in c for k in known) and ".partial_sigs" not in c:
                if not tm.has_top(t):
                    continue
            if t.op == "discr":
                x = t.a[0]
                if x.op != "app" or app(x, "try_from") or self.fallible(x):
                    continue
            if app(t, *PREDS):
                continue
            if txid and "txid" in c:
                continue
            if t.op == "eq" and any(x.op == "len" or app(x, "len", "is_empty") for x in t.a):
                continue        # equal lengths say nothing about what is committed to
            self.odd.append(t)

    def fallible(self, x):
        return x.op == "app" and (app(x, "from_slice", *CTOR) is not None or "parse" in fname(x).split("::")[-1])

    def d(self, x):
        v = self.f.get("discr(%s)" % x)
        if isinstance(v, frozenset):
            return 1 if v == frozenset({0}) else 0 if v == frozenset({1}) else None
        return v

    def p(self, pred, x):
        for t, v in self.s.facts.items():
            a = app(t, pred)
            if a and cstr(a[0]) == x:
                return v
        return None

    def c(self, kind, what, to):
        v = self.com.get((kind, what, to))
        if v is None and any(k[2] == to and k[:2] != (kind, what) and w == 1 for k, w in self.com.items()):
            return None
        return v

    def scan(self, kind, to, sigs):
        """no key of the input's partial signatures is the one `to` commits to: True / False / None"""
        def pred(b, el, ix):
            # the spent output of the state the iteration runs in
            own = {cstr(t): v for t, v in b.facts.items()}.get("discr(%s.witness_utxo)" % self.inp)
            here = to if to == self.rs else self.W if own == 1 else self.N if own == 0 else to
            for t, v in b.facts.items():
                if t.op == "eq" and v == 0:
                    for x, y in (t.a, t.a[::-1]):
                        c = commit(x)
                        if c and c[0] == kind and sigs in c[1] and cstr(y) == here:
                            return True
                if kind == "p2wpkh" and t.op == "discr" and v == 1 and app(t.a[0], "try_from") and sigs in cstr(t):
                    return True
            return None if any("kat(" + sigs in cstr(t) and t.op not in ("lt", "len") and not (
                t.op == "eq" and any(commit(x) for x in t.a)) for t in b.facts) else False
        return forall(self.e, self.s, lambda l: cstr(l) == sigs, pred)


def parsed(t):
    """the scripts parsed to make t"""
    return {cstr(x.a[1]) for x in tm.find(t, lambda y: y.op == "app" and "parse" in fname(y).split("::")[-1]
                                           and "<" not in fname(y).split("::")[-1])}


def ok_path(P, x, sigs):
    """[(what, True / False / None)] for a path that returns the descriptor x"""
    inner = okof(x)
    kind = next((CTOR[c] for c in CTOR if app(inner, c) is not None), None)
    if kind is None or P.spk is None:
        return kind, [("descriptor", None, "not understood: " + tm.show(x)[:120])]
    arg = inner.a[1]
    out = []

    def need(name, v, text):
        out.append((name, True if v is True else False if v is False else None if P.odd or P.e.joins else False, text))
    spk, rs, ws = P.spk, P.rs, P.ws
    b = lambda v, w=1: None if v is None else v == w
    if kind == "pk":
        need("type", b(P.p("is_p2pk", spk)), "the output is P2PK")
        a = app(okof(arg), "from_slice")
        if a and a[0].op == "slice" and cstr(a[0].a[0]) in (spk, "to_bytes(%s)" % spk):
            lo, hi = cstr(a[0].a[1]), cstr(a[0].a[2])
            out.append(("key", lo == "1" and hi.startswith("sub(len(%s)" % spk) and hi.endswith(", 1)"), "the key is what the output "
                        "pushes: bytes %s..%s" % (lo, hi)))
        else:
            out.append(("key", True if cstr(okof(arg)) == "p2pk_public_key(%s)" % spk else None, "the key comes from the output"))
    elif kind in ("pkh", "wpkh", "shwpkh"):
        to = rs if kind == "shwpkh" else spk
        k = cstr(key_of(arg))
        out.append(("key", True if ("kat(%s," % sigs) in k else False if ".partial_sigs" in k else None,
                    "the key signed this input: %s" % k))
        need("committed", b(P.c("p2pkh" if kind == "pkh" else "p2wpkh", k, to)), "the %s script pays to that key" % (
            "redeem" if kind == "shwpkh" else "output"))
        if kind == "shwpkh":
            need("redeem", b(P.c("p2sh", rs, spk)), "the output commits to the redeem script")
    else:
        sub = {"wsh": ws, "shwsh": ws, "sh": rs, "bare": spk}[kind]
        got = parsed(arg)
        out.append(("script", got == {sub} if len(got) == 1 and not tm.has_top(arg) else None,
                    "the script satisfied is %s (expected %s)" % (sorted(got), sub)))
        if kind == "wsh":
            need("committed", b(P.c("p2wsh", ws, spk)), "the output commits to the witness script")
            need("redeem-absent", b(P.d(P.inp + ".redeem_script"), 0), "a native segwit input has no redeem script")
        elif kind == "shwsh":
            need("redeem", b(P.c("p2sh", rs, spk)), "the output commits to the redeem script")
            need("committed", b(P.c("p2wsh", ws, rs)), "the redeem script commits to the witness script")
        elif kind == "sh":
            need("committed", b(P.c("p2sh", rs, spk)), "the output commits to the redeem script")
            need("not-wsh", b(P.p("is_p2wsh", rs), 0), "the redeem script is no witness program")
            need("not-wpkh", b(P.p("is_p2wpkh", rs), 0), "the redeem script is no witness program")
            need("witness-absent", b(P.d(P.inp + ".witness_script"), 0), "a legacy input has no witness script")
        else:
            for q in ("is_p2wpkh", "is_p2wsh", "is_p2sh"):
                need(q, b(P.p(q, spk), 0), "a bare output is none of the hashed kinds")
            need("witness-absent", b(P.d(P.inp + ".witness_script"), 0), "a bare input has no witness script")
            need("redeem-absent", b(P.d(P.inp + ".redeem_script"), 0), "a bare input has no redeem script")
        for m in tm.find(arg, lambda y: app(y, "substitute_raw_pkh") is not None):
            for en in tm.find(m.a[2], lambda y: y.op == "ent"):
                out.append(("keymap", True if cstr(key_of(en.a[1])) in cstr(en.a[0]) else False if not tm.has_top(en) and not tm.find(
                    en, lambda y: y.op == "lv") else None, "a key hash stands for the key that has it: %s" % tm.show(en)[:160]))
    return kind, out


def err_path(P, sigs):
    """may a path with these facts refuse the input?  True / False / None"""
    if P.noutxo or any(t.op == "lt" and v == 0 and cstr(t) in ("lt(index, len(psbt.inputs))", "lt(index, len(psbt.unsigned_tx.input))")
                       for t, v in P.s.facts.items()):
        return True
    if any(t.op == "discr" and v == 1 and P.fallible(t.a[0]) for t, v in P.s.facts.items()):
        return True
    spk, rs, ws = P.spk, P.rs, P.ws
    if spk is None:
        return None
    R, Wt = P.d(P.inp + ".redeem_script"), P.d(P.inp + ".witness_script")
    q = {n: P.p("is_" + n, spk) for n in ("p2pk", "p2pkh", "p2wpkh", "p2wsh", "p2sh")}
    if q["p2pkh"] == 1:
        return P.scan("p2pkh", spk, sigs)
    if q["p2wpkh"] == 1:
        return P.scan("p2wpkh", spk, sigs)
    if q["p2wsh"] == 1:
        r = R == 1 or Wt == 0 or P.com.get(("p2wsh", ws, spk)) == 0
    elif q["p2sh"] == 1:
        r = R == 0 or P.com.get(("p2sh", rs, spk)) == 0
        if not r and P.p("is_p2wsh", rs) == 1:
            r = Wt == 0 or P.com.get(("p2wsh", ws, rs)) == 0
        elif not r and P.p("is_p2wpkh", rs) == 1:
            return P.scan("p2wpkh", rs, sigs)
        elif not r:
            r = Wt == 1 and P.p("is_p2wsh", rs) == 0 and P.p("is_p2wpkh", rs) == 0
    else:
        r = (Wt == 1 or R == 1) and q["p2sh"] == 0 and q["p2wsh"] == 0 and q["p2wpkh"] == 0 and q["p2pkh"] == 0
    return True if r else None if P.odd or P.e.joins else False


def descriptor(ctx, key, inp, vout, txid):
    p = ctx.prog
    e = Engine(p, cap=120, opaque=opaque_names())
    st = e.run(key)
    ctx.used(e)
    ctx.count("paths", len(st))
    w = where(p, key)
    tag = "v2" if "::v2::" in key else "v0"
    sigs = inp + ".partial_sigs"
    seen = {}
    for s, v in st:
        P = Path(e, s, inp, None, vout, txid)
        if v.op == "agg" and v.a[1] == "Ok":
            kind, rs = ok_path(P, v.a[2][0], sigs)
            for name, r, text in rs:
                seen.setdefault((kind or "?", name), []).append((r, text))
        elif v.op == "agg" and v.a[1] == "Err":
            r = err_path(P, sigs)
            seen.setdefault(("refused", tm.show(v.a[2][0]).split("(")[0].split("{")[0]), []).append(
                (r, "refused with %s on a path with %s" % (tm.show(v)[:80], [("%s=%s" % (tm.show(t)[:90], x)) for t, x in list(
                    s.facts.items())[-3:]])))
        else:
            seen.setdefault(("?", "result"), []).append((None, tm.show(v)[:200]))
    for (kind, name), rs in sorted(seen.items(), key=str):
        bad = next((t for r, t in rs if r is False), None)
        und = next((t for r, t in rs if r is None), None)
        ctx.check(False if bad else None if und else True, "%s:%s:%s" % (tag, kind, name),
                  "an input is refused only if it lacks, or contradicts, what its funding output commits to" if kind == "refused" else
                  "the descriptor satisfied is the one the funding output commits to", w, bad or und or rs[0][1])
    for k in sorted(set(CTOR.values()) - {k for k, _ in seen}):
        ctx.check(None, "%s:%s" % (tag, k), "every kind of output has a descriptor", w, "no path builds it")


def tap(ctx, key, inp):
    """the witness of a taproot input"""
    p = ctx.prog
    e = Engine(p, cap=120, opaque=opaque_names())
    st = e.run(key)
    ctx.used(e)
    w = where(p, key)
    tag = ("v2" if "::v2::" in key else "v0") + ":tap"
    ts = inp + ".tap_scripts"
    rule = "a taproot input is spent with its key signature, or with a leaf, that leaf's script and its control block"

    def wit(x):
        """is x = satisfaction ++ script ++ control block of one entry?"""
        if x.op == "lv" or x.op != "seq" or x.a[0] is None:
            return None
        base, ps = x.a
        sat = okof(base)
        if app(sat, "satisfy", "satisfy_malleable") is None or len(ps) != 2 or any(y.op != "one" for y in ps):
            return None
        cb = ps[1].a[0]
        c = app(cb, "serialize")
        if not c:
            # the other way round?
            return False if app(ps[0].a[0], "serialize") else None
        k = cstr(c[0])
        val = {cstr(y) for z in (sat, ps[0].a[0]) for y in tm.find(z, lambda q: q.op == "mget" and cstr(q.a[0]) == ts)}
        if not k.startswith("kat(" + ts):
            return None if tm.has_top(cb) else False if k.startswith("kat(") else None
        return val == {"mget(%s, %s)" % (ts, k)}
    vals, n = set(), 0
    for s, v in st:
        if not (v.op == "agg" and v.a[1] in ("Ok", "Err")):
            ctx.und(tag + ":result", rule, w, tm.show(v)[:160])
            continue
        x = v.a[2][0]
        sig = next((y for t, y in s.facts.items() if cstr(t) == "discr(%s.tap_key_sig)" % inp), None)
        if any(t.op == "lt" and y == 0 and "len(" in cstr(t) and t.a[0].op != "ix" for t, y in s.facts.items()):
            continue        # index outside the list
        if v.a[1] == "Ok" and (x.op == "seq" and x.a[0] is None or x.op == "agg"):
            got = [cstr(y) for y in tm.find(x, lambda q: q.op == "fld" and q.a[1] == "tap_key_sig")]
            ctx.check(True if sig == 1 and got else None, tag + ":key", "with a key signature the witness is that signature", w, tm.show(x)[:160])
            continue
        n += 1
        if v.a[1] == "Err":
            over = [f for f in finished(e, s) if any(cstr(l) == ts for l in f[2]) and f[3] is None]
            none = any(cstr(t) == "len(%s)" % ts and y == 0 or cstr(t) == "lt(0, len(%s))" % ts and y == 0 or t.op == "eq" and y == 1 and
                       "len(%s)" % ts in (cstr(t.a[0]), cstr(t.a[1])) for t, y in s.facts.items())
            ctx.check(True if over or none else None if any(tm.has_top(t) for t in s.facts) else False, tag + ":all",
                      "the input is refused only after every leaf was tried", w, "refused without having tried every leaf of %s" % ts)
        ctx.check(True if sig == 0 else False if sig == 1 and v.a[1] == "Ok" and tm.find(x, lambda q: q.op in ("lv", "mget")) else None,
                  tag + ":key-first", "leaves are tried only without a key signature", w, "tap_key_sig present: %s" % sig)
        if v.a[1] == "Ok":
            for l in tm.find(x, lambda q: q.op == "lv"):
                d = e.lv.get(l)
                vals |= set(d["back"]) | {d["init"]} if d else set()
    vals = {y for y in vals if isinstance(y, tm.T) and y.op != "lv"}
    for y in sorted(vals, key=str):
        if y.op == "agg" and y.a[1] == "None":
            continue
        z = y.a[2][0] if y.op == "agg" and y.a[1] == "Some" else y
        if z.op == "lv" or z.op == "fld":
            continue
        r = wit(z)
        ctx.check(r, tag + ":leaf", rule, w, tm.show(z)[-300:])
    # every leaf is tried
    for site, ls in e.loops.items():
        for inv, entry, backs in ls:
            cells = [c for c, v in inv.mem.items() if v.op == "lv" and v.a[0][0] == site]
            fam = {cstr(t.a[0]) for b in backs for t in b.facts if t.op == "lt" and t not in inv.facts and "tap_scripts" in cstr(t.a[1])
                   and t.a[0].op == "ix" and t.a[0].a[0] == site}
            if not fam or not cells:
                continue
            for b in backs:
                if any(b.mem.get(c) is not inv.mem[c] for c in cells):
                    continue
                new = {t: v for t, v in b.facts.items() if inv.facts.get(t) != v}
                why = any(t.op == "discr" and (
                    (cstr(t).startswith("discr(mget(%s" % ts) and v not in (0,)) or
                    (v == 1 and t.a[0].op == "app" and ("parse" in fname(t.a[0]) or app(t.a[0], "satisfy", "satisfy_malleable") is not None)))
                    for t, v in new.items()) or any(t.op == "lt" and tm.find(t, lambda q: q.op == "lv") for t in new)
                odd = [t for t in new if t.op not in ("lt", "len", "done", "ovf") and not (t.op == "sym")]
                if not why:
                    ctx.check(None if odd else False, tag + ":tried", "a leaf is passed over only if its version is unknown, its script is "
                              "no miniscript, or it cannot be satisfied", w, str([tm.show(t)[:100] for t in odd])[:300])
                else:
                    ctx.ok(tag + ":tried", "a leaf is passed over only for a reason of its own", w, "")


@prop("C40")
def c40(ctx):
    """Every path of the functions that infer an input's descriptor is compared with what the funding output commits
    to: which script or key is satisfied, which comparison guards it, and on which grounds an input is refused."""
    p = ctx.prog
    n = 0
    for key in p.raw:
        if key.endswith("::get_descriptor"):
            n += 1
            if "::v2::" in key:
                descriptor(ctx, key, "input", "input.spent_output_index", True)
            else:
                descriptor(ctx, key, "psbt.inputs[index]", "psbt.unsigned_tx.input[index].previous_output.vout", False)
        elif key.endswith("::construct_tap_witness"):
            n += 1
            tap(ctx, key, "sat.input" if "::v2::" in key else "sat.psbt.inputs[sat.index]")
    if n < 4:
        ctx.und("anchor", "the descriptor inference of both versions was found", "", "%d of 4 functions" % n)

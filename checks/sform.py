"""C26 the serde form of every type keeps every field."""
import re
from engine.check import prop
from engine import terms as tm
from engine.ai import Engine
from engine.models import EMPTY
from engine.terms import fld, K, S
from .lib import *

SERT, DET = "::Serialize", "::Deserialize"


def tail(x):
    return fname(x).split("::")[-1] if x.op == "app" else ""


class World:
    """the serde impls of the crate, by the type they are for"""

    def __init__(self, p):
        self.p = p
        self.impl = {}
        self.name = {}
        self.fields = {}
        for it in p.items:
            if it["kind"] in ("Struct", "Enum") and "ty" in it:
                d = p.types[it["ty"]].get("did")
                self.name[d] = it["path"]
                self.fields[d] = it
            if it["kind"] != "AssocFn" or "self_ty" not in it or "inst" not in it:
                continue
            d = p.types[it["self_ty"]].get("did")
            tr = it.get("trait") or ""
            if d is None or not re.match(r"serde\w*::", tr):
                continue
            self.impl.setdefault((d, tr.split("::")[-1]), {})[it["path"].split("::")[-1]] = (it["inst"], it.get("derived"), it["span"])

    def did(self, ty):
        t = self.p.types[ty]
        while t["k"] == "ref":
            t = self.p.types[t["to"]]
        return t.get("did")

    def agg_did(self, x):
        """the local type of a value, if only one type has its name"""
        if x.op != "agg":
            return None
        n = str(x.a[0])
        c = [d for d, m in self.name.items() if m == n and d is not None]
        return c[0] if len(c) == 1 else None


def record(path, f):
    if re.match(r"<?serde\w*::|<.* as serde\w*::", path) or "serde" in path.split("::")[0]:
        ga = f.get("ga") or []
        return (path.split("::")[-1], ga[-1] if ga else None)
    return None


def run(ctx, key, args=None, hooks=None, cap=60):
    e = Engine(ctx.prog, cap=cap, hooks=hooks)
    e.watch = record
    st = e.run(key, args=args) if args else e.run(key)
    ctx.used(e)
    return e, st


def mode(s):
    """h: human readable formats only, b: binary ones only, hb: both"""
    for t, v in s.facts.items():
        if tail(t) == "is_human_readable" and v in (0, 1):
            return "h" if v else "b"
    return "hb"


def hexarg(x):
    """the bytes that x shows as hex"""
    if x.op == "app" and tail(x) in ("to_lower_hex_string", "to_upper_hex_string") and len(x.a) == 2:
        return x.a[1]
    if x.op == "app" and tail(x) == "new" and len(x.a) == 3 and x.a[1].op == "k" and x.a[1].a[0] == b"\xc0\x00" and x.a[2].op == "agg" and len(x.a[2].a[2]) == 1:
        y = x.a[2].a[2][0]
        if tail(y) in ("new_lower_hex", "new_upper_hex"):
            y = y.a[1]
            while tail(y) == "as_hex":
                y = y.a[1]
            return y
    return None


def chain(x, names):
    """[(args)] of the calls that x went through, oldest first, and where it began"""
    out = []
    while x.op == "hv" and str(x.a[0]).split("::")[-1] in names + ("skip_field",):
        if not str(x.a[0]).endswith("skip_field"):
            out.append(x.a[3:])
        x = x.a[2]
    return out[::-1], x


def wrapped(x):
    return x.op == "agg" and str(x.a[0]).endswith("__SerializeWith")


def val_shapes(ctx, w, x, ty):
    """[(mode, shape)] of a serialized value; leaves carry the value"""
    if x.op == "agg" and x.a[0] == "()" and len(x.a[2]) == 2:
        return [("hb", ("tuple", ("plain", x.a[2][0]), ("plain", x.a[2][1])))]
    d = None
    if wrapped(x) and ty is not None:
        d = w.did(ty)
    elif x.op == "agg":
        d = w.agg_did(x)
    if d is None:
        return [("hb", ("plain", x))]
    k = w.impl.get((d, "Serialize"), {}).get("serialize")
    return shapes(ctx, w, k[0], x) if k else [("hb", None)]


def one(sh, m):
    """the shape in mode m"""
    c = [s for mm, s in sh if m in mm]
    return c[0] if c and all(s == c[0] for s in c) else None


def shapes(ctx, w, key, subj):
    """[(mode, shape)] of what a Serialize impl writes for subj"""
    e, st = run(ctx, key, [subj, S("ser")])
    out = []
    for s, v in st:
        if is_err(v):
            continue
        m = mode(s)
        if is_ok(v):
            v = v.a[2][0]
            if v.op == "fld" and v.a[1] == "Ok.0":
                v = v.a[0]
        n = tail(v)
        if n == "serialize" and len(v.a) == 3:
            out.append((m, ("plain", v.a[1])))
        elif n in ("collect_str", "serialize_str") and len(v.a) == 3:
            h = hexarg(v.a[2])
            out.append((m, None if h is None else ("hex", h)))
        elif n == "serialize_bytes" and len(v.a) == 3:
            out.append((m, ("bytes", v.a[2])))
        elif n == "serialize_newtype_struct" and len(v.a) == 4:
            ty = [r["name"][1] for r in e.log if r["name"][0] == n]
            out += [(m2, None if x is None else ("newtype", x)) for m2, x in val_shapes(ctx, w, v.a[3], ty[0]) if set(m) & set(m2)]
        elif n == "end":
            out.append((m, ended(ctx, w, e, s, v.a[1], m)))
        else:
            out.append((m, None))
    return out


def ended(ctx, w, e, s, x, m):
    """what the serialize_seq / map / struct that ends here wrote"""
    calls, x0 = chain(x, ("serialize_field", "serialize_element", "serialize_entry"))
    def ty_of(args):
        for r in e.log:
            if r["name"][0] in ("serialize_field", "serialize_element", "serialize_entry") and tuple(r["args"][1:]) == tuple(args):
                return r["name"][1]
    if x0.op == "fld" and x0.a[1] == "Ok.0" and tail(x0.a[0]) in ("serialize_struct", "serialize_tuple_struct", "serialize_tuple"):
        o = x0.a[0]
        fs = []
        for a in calls:
            sh = val_shapes(ctx, w, a[-1], ty_of(a))
            sub = a[-1]
            fs.append((a[0] if len(a) == 2 else None, sub, tuple(sh)))
        if tail(o) == "serialize_struct":
            return ("struct", o.a[3], tuple(fs))
        return ("fields", o.a[-1], tuple(fs))
    lv = e.lv.get(x0)
    if lv is None or calls:
        return None
    i0 = lv["init"]
    if not (i0.op == "fld" and i0.a[1] == "Ok.0" and tail(i0.a[0]) in ("serialize_seq", "serialize_map")):
        return None
    kind = tail(i0.a[0])[10:]
    hint = i0.a[0].a[2]
    fin = [(b, l, part) for site, b, l, part in finished(e, s)]
    if len(fin) != 1 or len(fin[0][1]) != 1:
        return None
    src = next(iter(fin[0][1]))
    if fin[0][2] is not None:
        return ("left", kind, src, hint)
    shs = set()
    for site, inv, b in iterations(e):
        hit = [t for t, y in b.facts.items() if t.op == "discr" and tail(t.a[0]) in ("serialize_element", "serialize_entry") and y == 0]
        if not hit:
            return ("left", kind, src, hint)
        if len(hit) != 1:
            return None
    for b in lv["back"]:
        cs, r = chain(b, ("serialize_element", "serialize_entry"))
        if not cs:
            return ("left", kind, src, hint)
        if len(cs) != 1:
            return None
        a = cs[0]
        if kind == "map" and len(a) == 2:
            ka, va = one(val_shapes(ctx, w, a[0], None), m[0]), one(val_shapes(ctx, w, a[1], None), m[0])
            shs.add(("map", ka, va))
        elif kind == "seq" and len(a) == 1:
            x = one(val_shapes(ctx, w, a[0], ty_of(a)), m[0])
            if x and x[0] == "fields" and len(x[2]) == 2:
                y = [one(list(q[2]), m[0]) for q in x[2]]
                x = ("tuple", y[0], y[1])
            shs.add(("seq", x))
    if len(shs) == 0:
        return None
    if len(shs) > 1 or (x0 in lv["back"]):
        return ("left", kind, src, hint) if x0 in lv["back"] else None
    return ("over", src, hint, next(iter(shs)))


def desc(sh, subj):
    """the form without the values; the values must be those of subj.  (form, problem | None)"""
    if sh is None:
        return None, None
    if sh[0] in ("plain", "hex", "bytes"):
        x = sh[1]
        while tail(x) in ("as_ref", "as_slice", "borrow", "as_bytes") and len(x.a) == 2:
            x = x.a[1]
        while x is not subj and x.op == "fld" and x.a[1] == "0" and not tm.find(x, lambda y: y is subj and y is not x.a[0]):
            x = x.a[0]
        if x is subj or x.op == "fld" and x.a[0] is subj and x.a[1] == "0":
            return sh[0], None
        return None, "%s is written" % tm.show(x)[:200] if not tm.find(x, lambda y: y.op in ("app", "phi", "hv")) and not tm.has_top(x) else None
    if sh[0] == "left":
        return None, "not every entry of %s is written" % tm.show(sh[2])
    if sh[0] == "over":
        src, hint, x = sh[1], sh[2], sh[3]
        if src is not subj:
            return None, None
        if hint.op == "agg" and hint.a[1] == "Some" and not (hint.a[2][0].op == "len" and hint.a[2][0].a[0] is subj):
            y = hint.a[2][0]
            if y.op == "k" or y.op in ("add", "sub"):
                return None, "the length is given as %s" % tm.show(y)[:100]
            return None, None
        k, v = (x[1], x[2]) if x[0] == "map" else (x[1][1], x[1][2]) if x[1] and x[1][0] == "tuple" else (None, None)
        if not k or not v or len(k) != 2 or len(v) != 2:
            return None, None
        kt, vt = k[1], v[1]
        if not (kt.op == "kat" and kt.a[0] is subj):
            return None, None
        if not (vt.op == "mget" and vt.a[0] is subj and vt.a[1] is kt):
            return None, None
        return ("map" if x[0] == "map" else "seq", k[0], v[0]), None
    return None, None


# ---------------------------------------------------------------- reading
def reading(ctx, w, key):
    """[(mode, form)] of what a Deserialize impl accepts"""
    e, st = run(ctx, key)
    out = []
    for s, v in st:
        m = mode(s)
        if is_err(v):
            continue
        if is_ok(v):
            v = v.a[2][0]
            if v.op == "agg" and v.a[2]:
                v = v.a[2][0]
            if v.op == "fld" and v.a[1] == "Ok.0":
                v = v.a[0]
            else:
                out.append((m, None))
                continue
        n = tail(v)
        if n == "deserialize" and len(v.a) == 2:
            out.append((m, "plain"))
            continue
        r = [x["name"][1] for x in e.log if x["name"][0] == n and x["args"] and tuple(x["args"]) == tuple(v.a[1:])]
        d = w.did(r[0]) if r and r[0] is not None else None
        vis = w.impl.get((d, "Visitor"))
        if n.startswith("deserialize_") and vis:
            out.append((m, visit(ctx, w, n[12:], vis)))
        else:
            out.append((m, None))
    return out


def visit(ctx, w, n, vis):
    name = {"seq": "visit_seq", "map": "visit_map", "str": "visit_str", "string": "visit_str", "bytes": "visit_bytes", "byte_buf": "visit_bytes"}.get(n)
    if n in ("struct", "tuple_struct", "newtype_struct", "tuple"):
        return ("visitor", n, vis)
    k = vis.get(name)
    if not k:
        return None
    if name in ("visit_str", "visit_bytes"):
        e, st = run(ctx, k[0], [S("self"), S("in")])
        good, extra = None, False
        for s, v in st:
            if is_err(v):
                continue
            if not is_ok(v):
                good = None
                break
            x = v.a[2][0]
            if x.op == "agg" and len(x.a[2]) == 1:
                x = x.a[2][0]
            f = "bytes" if name == "visit_bytes" and x is S("in") else None
            if x.op == "fld" and x.a[1] == "Ok.0" and tail(x.a[0]) == "from_hex" and x.a[0].a[1] is S("in"):
                f = "hex"
            if f is None or good not in (None, f):
                good = None
                break
            good = f
            for t in s.facts:
                y = t.a[0] if t.op in ("discr", "len") else t
                while y.op in ("fld",):
                    y = y.a[0]
                if not (t.op in ("discr", "len") and (y is S("in") or tail(y) == "from_hex")):
                    extra = True
        return None if extra else good
    e, st = run(ctx, k[0])
    forms = set()
    for s, v in st:
        if is_err(v):
            continue
        x = v.a[2][0] if is_ok(v) else None
        c = None if x is None else tm.seq_of(x)
        if not c or c[0] is not None:
            return None
        if any(t.op == "discr" and t.a[0].op == "fld" and t.a[0].a[1] == "Ok.0" and tail(t.a[0].a[0]) in NEXTS and v == 1 for t, v in s.facts.items()):
            return ("left",)
        if len(c[1]) != 1 or c[1][0].op != "each":
            return drops(ctx, k[0])
        y = c[1][0].a[0]
        if y.op != "ent":
            return None
        kt, vt = y.a
        vf = "plain"
        if vt.op == "fld" and vt.a[1] == "Ok.0" and tail(vt.a[0]) == "from_hex":
            vt, vf = vt.a[0].a[1], "hex"
        if not (kt.op == "fld" and vt.op == "fld" and kt.a[0] is vt.a[0]):
            return None
        if (kt.a[1], vt.a[1]) == ("1", "0"):
            return ("swapped",)
        if (kt.a[1], vt.a[1]) != ("0", "1"):
            return None
        src = kt.a[0]
        if not (src.op == "fld" and src.a[1] == "Some.0" and src.a[0].op == "fld" and tail(src.a[0].a[0]) in ("next_entry", "next_element")):
            return None
        tys = {r["name"][1] for r in e.log if r["name"][0] in ("next_entry", "next_element")}
        ty = next(iter(tys)) if len(tys) == 1 else None
        if ty is None:
            return None
        t = w.p.types[ty]
        kf = "plain"
        borrowed = t["k"] == "ref"
        if tail(src.a[0].a[0]) == "next_element":
            if t["k"] == "tuple":
                borrowed = any(w.p.types[q]["k"] == "ref" for q in t["args"])
            elif w.did(ty) is not None:
                d = w.impl.get((w.did(ty), "Deserialize"), {}).get("deserialize")
                r = one(reading(ctx, w, d[0]), "h") if d else None
                if not (r and r[0] == "visitor" and "visit_seq" in r[2]):
                    return None
                q = positions(ctx, w, r[2]["visit_seq"][0])
                if not q or len(q) != 2:
                    return None
                g = [one(f, "h") for _, _, f in q]
                if [i for i, _, _ in q] != [0, 1] or None in g:
                    return None
                kf, vf = g[0], g[1] if vf == "plain" else None
        forms.add((name[6:], kf, vf) + (("borrowed",) if borrowed else ()))
    return next(iter(forms)) if len(forms) == 1 else None


NEXTS = ("next_entry", "next_element", "next_key")


def drops(ctx, key):
    """("left",) if some iteration goes on after reading an entry without having kept it"""
    e = Engine(ctx.prog, cap=60)
    e.watch = record
    e.loopcut = lambda b, h: True

    def bump(e, st, f, args, site, loc):
        e.cutcalls += 1
    for n in NEXTS[:2]:
        for c in ("serde::de", "serde_core::de"):
            e.hooks["%s::%s::%s" % (c, "MapAccess" if n == "next_entry" else "SeqAccess", n)] = bump
    e.run(key)
    if len(e.cuts) != 1:
        return None
    cut = e.cuts[0]
    for b in cut["backs"]:
        b = b[0] if isinstance(b, tuple) else b
        if not any(t.op == "discr" and t.a[0].op == "fld" and tail(t.a[0].a[0]) in NEXTS and v == 1 for t, v in b.facts.items()):
            return None
        kept = False
        for r, y in cut["syms"].items():
            v = b.mem.get(r)
            if v is not None and v.op == "hv" and str(v.a[0]).split("::")[-1] in NEXTS:
                continue        # the input itself
            if v is not y or any(tm.find(t, lambda z: z is y) for t in b.facts):
                kept = True     # stored, or left out because of what is stored already
        if kept is False:
            return ("left",)
    return None


def positions(ctx, w, key):
    """[(position read, type id, [(mode, form)])] of the fields of the value a visit_seq returns, or None"""
    e, st = run(ctx, key, cap=120)
    res = None
    for s, v in st:
        if is_err(v):
            continue
        if not is_ok(v) or v.a[2][0].op != "agg":
            return None
        row = []
        for x in v.a[2][0].a[2]:
            val = x
            inner = False
            if x.op == "fld" and x.a[1] == "value":
                x, inner = x.a[0], True
            if not (x.op == "fld" and x.a[1] == "Some.0" and x.a[0].op == "fld" and x.a[0].a[1] == "Ok.0" and tail(x.a[0].a[0]) == "next_element"):
                row.append((None, val, None))
                continue
            c = x.a[0].a[0]
            n = len(chain(c.a[1], ("next_element",))[0])
            ty = next((r["name"][1] for r in e.log if r["name"][0] == "next_element" and r["args"] and r["args"][0] is c.a[1]), None)
            row.append((n, ty, value_forms(ctx, w, ty, inner)))
        if res is None:
            res = row
            continue
        if len(res) != len(row):
            return None
        for i, (a, b) in enumerate(zip(res, row)):
            if a[0] is None:        # a default where the sequence is short
                res[i] = b
            elif b[0] is not None and a[:2] != b[:2]:
                return None
    return res


def value_forms(ctx, w, ty, inner):
    if not inner:
        return [("hb", "plain")]
    d = w.impl.get((w.did(ty), "Deserialize"), {}).get("deserialize") if ty is not None else None
    return reading(ctx, w, d[0]) if d else [("hb", None)]


def keynames(ctx, w, ty):
    """{name: field variant}, {position: field variant} accepted for the key type of a derived visitor"""
    d = w.impl.get((w.did(ty), "Deserialize"), {}).get("deserialize") if ty is not None else None
    if not d:
        return None
    e, st = run(ctx, d[0])
    r = [x["name"][1] for x in e.log if x["name"][0] == "deserialize_identifier"]
    vis = w.impl.get((w.did(r[0]), "Visitor")) if r and r[0] is not None else None
    if not vis:
        return None
    out = []
    for meth in ("visit_str", "visit_bytes", "visit_u64"):
        m = {}
        if meth not in vis:
            return None
        e, st = run(ctx, vis[meth][0], [S("self"), S("in")], cap=400)
        for s, v in st:
            if not is_ok(v) or v.a[2][0].op != "agg":
                continue
            var = str(v.a[2][0].a[1])
            if meth == "visit_u64":
                c = [x for t, x in s.facts.items() if t is S("in") and isinstance(x, int)]
            else:
                c = []
                n = s.facts.get(tm.length(S("in")))
                ch = [s.facts.get(tm.at(S("in"), K(i))) for i in range(n)] if isinstance(n, int) else [None]
                if all(isinstance(x, int) for x in ch):
                    c.append(bytes(ch).decode("latin1"))
                for t, x in s.facts.items():
                    if t.op == "eq" and x == 1 and S("in") in t.a:
                        o = t.a[1] if t.a[0] is S("in") else t.a[0]
                        if o.op == "k":
                            o = o.a[0]
                            c.append(o.decode("latin1") if isinstance(o, bytes) else str(o))
            for x in c:
                m[x] = var
        out.append(m)
    return out


def mapfields(ctx, w, key):
    """what visit_map puts into the fields: ([alternatives per field], {variant: (type, wrapped?)}, key type)"""
    vals = {}

    def nv(e, s, f, args, site, loc):
        a = args[0]
        a = e.content(s, a) if a.op == "ref" and hasattr(e, "content") else a
        ks = [(t, v) for t, v in s.facts.items() if t.op == "discr" and t.a[0].op == "fld" and t.a[0].a[1] == "Some.0"
              and t.a[0].a[0].op == "fld" and tail(t.a[0].a[0].a[0]) == "next_key"]
        if len(ks) != 1 or not isinstance(ks[0][1], int):
            return None
        j = ks[0][1]
        ty = (f.get("ga") or [None])[-1]
        vals[j] = ty
        return [(s.copy(), tm.ok(S("val:%d" % j))), (s.copy(), tm.err(S("refused:%d" % j)))]

    hooks = {}
    for it in ("serde::de::MapAccess::next_value", "serde_core::de::MapAccess::next_value"):
        hooks[it] = nv
    e, st = run(ctx, key, hooks=hooks, cap=30)
    kty = {r["name"][1] for r in e.log if r["name"][0] == "next_key"}
    alts = None
    for s, v in st:
        if is_err(v):
            continue
        if not is_ok(v) or v.a[2][0].op != "agg":
            return None
        row = []
        for x in v.a[2][0].a[2]:
            row.append(set(tm.t_choices(x)) if x.op == "phi" else {x})
        alts = row if alts is None else [a | b for a, b in zip(alts, row)]
    if alts is None or len(kty) != 1:
        return None
    return e, alts, vals, next(iter(kty))


def borrowed(f):
    return isinstance(f, tuple) and f[-1] == "borrowed"


def bare(f):
    return f[:-1] if borrowed(f) else f


def compare(ctx, n, where_, wr, prob, rd):
    """the form written and the form read, in both modes"""
    for m in "hb":
        a, b = wr.get(m), rd.get(m)
        mm = "human readable" if m == "h" else "binary"
        if prob.get(m):
            ctx.bad(n + ":" + m, "every entry is written as it is", where_, prob[m])
            continue
        if a is None or b is None:
            ctx.und(n + ":" + m, "the form written and read are known", where_, "%s / %s" % (a, b))
            continue
        if b == ("left",):
            ctx.bad(n + ":" + m, "every entry read is kept", where_, "an entry may be left out in %s formats" % mm)
            continue
        ctx.check(bare(b) == a, n + ":" + m, "the form that is written in %s formats is the one that is read" % mm, where_, "writes %s, reads %s" % (a, bare(b)))
        if borrowed(b):
            ctx.bad(n + ":borrow", "reading does not need text that can be borrowed from the input", where_,
                    "values are read as borrowed text, which a reader, a decoded value or an escaped string cannot give")


@prop("C26", feats=("all", "sp"), thorough=("all", "sp", "common"))
def c26(ctx):
    """Every Serialize and Deserialize impl of the crate (derived ones in their expanded form) is interpreted: which
    fields are written, under which names, in which form, and where what is read under a name or position ends up."""
    p = ctx.prog
    w = World(p)
    types = sorted({d for d, t in w.impl if t == "Serialize"} | {d for d, t in w.impl if t == "Deserialize"}, key=str)
    n_types = 0
    for d in types:
        ser = w.impl.get((d, "Serialize"), {}).get("serialize")
        de = w.impl.get((d, "Deserialize"), {}).get("deserialize")
        tn = w.name.get(d, "?")
        if "__" in tn.split("::")[-1]:
            continue
        short = tn.replace("psbt_v2::", "")
        if not ser or not de:
            continue
        n_types += 1
        wh = ser[2]
        struct = w.fields[d]
        if len(struct["variants"]) != 1:
            ctx.und(short, "a struct", wh, "an enum")
            continue
        names = [f["n"] for f in struct["variants"][0]["f"]]
        sh = shapes(ctx, w, ser[0], SELF)
        rd = reading(ctx, w, de[0])
        kinds = {x[1][0] for x in sh if x[1]}
        if kinds <= {"hex", "bytes", "plain"} and all(x[1] for x in sh):
            wr, prob, r = {}, {}, {}
            for m in "hb":
                wr[m], prob[m] = desc(one(sh, m), SELF)
                r[m] = one(rd, m)
            compare(ctx, short, wh, wr, prob, r)
            continue
        vis = [f for m, f in rd if isinstance(f, tuple) and f[0] == "visitor"]
        if len(vis) != 1 or len(rd) != 1:
            ctx.und(short, "one visitor", wh, str(rd)[:200])
            continue
        _, vn, meth = vis[0]
        if kinds == {"newtype"}:
            form, pr = desc(sh[0][1][1], fld(SELF, names[0])) if len(names) == 1 else (None, None)
            if pr:
                ctx.bad(short, "the value is written", wh, pr)
                continue
            ok = None
            if "visit_newtype_struct" in meth:
                e, st = run(ctx, meth["visit_newtype_struct"][0], [S("self"), S("in")])
                good = [v for s, v in st if is_ok(v)]
                ok = all(v.a[2][0].op == "agg" and len(v.a[2][0].a[2]) == 1 and v.a[2][0].a[2][0].op == "fld" and tail(v.a[2][0].a[2][0].a[0]).startswith("deserialize") for v in good) and len(good) == 1 or None
            ctx.check((form == "plain" and vn == "newtype_struct" and ok) or None, short, "a newtype is written and read as its value", wh, str((form, vn, ok)))
            continue
        if not kinds or not kinds <= {"struct", "fields"}:
            ctx.und(short, "the form is known", wh, str(sh)[:300])
            continue
        pos = positions(ctx, w, meth["visit_seq"][0]) if "visit_seq" in meth else None
        mp = mapfields(ctx, w, meth["visit_map"][0]) if vn == "struct" and "visit_map" in meth else None
        kn = keynames(ctx, w, mp[3]) if mp else None
        if pos is None or vn == "struct" and (mp is None or kn is None):
            ctx.und(short, "the visitor is understood", wh, "")
            continue
        order = None
        for m0, one_sh in sh:
            _, cnt, fs = one_sh
            this = []
            for i, f in enumerate(names):
                subj = fld(SELF, f)
                hits = [(j, nm, q) for j, (nm, x, q) in enumerate(fs) if (x.a[2][0].a[2][0] if wrapped(x) and x.a[2][0].op == "agg" and len(x.a[2][0].a[2]) == 1 else x) is subj]
                key = "%s.%s" % (short, f)
                if len(hits) != 1:
                    amb = any(tm.find(x, lambda y: y is subj) or x.op in ("phi",) or tm.has_top(x) for _, x, _ in fs) and not hits
                    ctx.check(None if amb else False, key + ":written", "the field is written once", wh, "%d of the values written are this field" % len(hits))
                    continue
                j, nm, q = hits[0]
                ctx.ok(key + ":written", "the field is written once", wh)
                wr, prob = {}, {}
                for m in "hb":
                    wr[m], prob[m] = desc(one(list(q), m), subj)
                # by position
                if i < len(pos):
                    pn, ty, fm = pos[i]
                    if pn is None:
                        ctx.check(False if ty.op in ("agg", "k", "seq") else None, key + ":position", "the field is read", wh, "it is set to %s" % tm.show(ty)[:150])
                    elif ctx.check(pn == j, key + ":position", "the field is read at the position it is written at", wh, "written as number %d, read as number %d" % (j + 1, pn + 1)):
                        compare(ctx, key + ":seq", wh, wr, prob, {m: one(fm, m) for m in "hb"})
                if mp is None:
                    continue
                e, alts, vals, kty = mp
                name = str(nm.a[0]) if nm is not None and nm.op == "k" else None
                if isinstance(nm.a[0], bytes):
                    name = nm.a[0].decode("latin1")
                var = [t.get(name) for t in kn[:2]]
                if None in var or var[0] != var[1] or not re.match(r"__field\d+$", var[0] or ""):
                    ctx.check(False if all(len(t) >= len(fs) - 1 for t in kn[:2]) else None, key + ":name", "the name the field is written under is one it is read under", wh, "written as %s, read as %s" % (name, var))
                    continue
                jx = int(var[0][7:])
                good, other, dflt = False, None, None
                for x in alts[i]:
                    y, inner = x, False
                    if y.op == "fld" and y.a[1] == "Some.0" and y.a[0] in e.lv:
                        back = e.lv[y.a[0]]["back"]
                        bs = {b for b in back if b is not y.a[0]}
                        src = set()
                        for b in bs:
                            z = b.a[2][0] if b.op == "agg" and b.a[1] == "Some" else b
                            if z.op == "fld" and z.a[1] == "value":
                                z, inner = z.a[0], True
                            src.add(z)
                        if src == {S("val:%d" % jx)}:
                            good = True
                            tyid = vals.get(jx)
                            compare(ctx, key + ":map", wh, wr, prob, {m: one(value_forms(ctx, w, tyid, inner), m) for m in "hb"})
                        else:
                            other = src
                    elif not (y.op == "fld" and tail(y.a[0]) == "missing_field"):
                        dflt = y
                if good:
                    ctx.ok(key + ":name", "what is read under its name ends up in the field", wh)
                elif other and all(x.op == "sym" and str(x.a[0]).startswith("val:") for x in other) or not other and dflt is not None and dflt.op in ("agg", "k", "seq"):
                    ctx.bad(key + ":name", "what is read under its name ends up in the field", wh,
                            "it gets %s" % (", ".join(tm.show(x) for x in other) if other else tm.show(dflt)))
                else:
                    ctx.und(key + ":name", "what is read under its name ends up in the field", wh, str(alts[i])[:300])
    ctx.count("types", n_types)
    ctx.check(n_types >= 10 or None, "types", "the serde types of the crate are found", "", str(n_types))

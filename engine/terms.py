"""Value-provenance domain: hash-consed terms naming where a value comes from.

Nothing here is executed or solved: a term is an abstract value (a value number).  Two occurrences of
the same term denote the same run-time value on every path; different terms may or may not be equal.
"""


class T:
    __slots__ = ("op", "a", "id", "hasref", "ixs")

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)


_tab = {}
_EMPTY = frozenset()


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        hr = op == "ref"
        ixs = frozenset((t,)) if op == "ix" else _EMPTY
        for x in a:
            if isinstance(x, T):
                hr = hr or x.hasref
                if x.ixs:
                    ixs = ixs | x.ixs
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    if isinstance(y, T):
                        hr = hr or y.hasref
                        if y.ixs:
                            ixs = ixs | y.ixs
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                hr = hr or z.hasref
                                if z.ixs:
                                    ixs = ixs | z.ixs
        t.hasref = hr
        t.ixs = ixs
        _tab[k] = t
    return t


def K(v):
    return mk("k", v)


K0, K1 = K(0), K(1)
UNIT = mk("agg", "()", "", ())
TOP = mk("top")
UNINIT = mk("uninit")


def S(name):
    return mk("sym", name)


# ---- type tables (filled by Program) -------------------------------------------------------------
FIELDS = {}   # (def, variant) -> [field names]
VARIANTS = {}  # def -> [(variant name, discriminant)]
ISENUM = {}

def reset_types():
    FIELDS.clear()
    VARIANTS.clear()
    ISENUM.clear()
    _builtin()


def _builtin():
  for _d, _v in (("core::option::Option", [("None", 0), ("Some", 1)]), ("core::result::Result", [("Ok", 0), ("Err", 1)])):
    VARIANTS[_d] = _v
    ISENUM[_d] = True
    for _n, _ in _v:
        FIELDS[(_d, _n)] = [] if _n == "None" else ["0"]


_builtin()


def some(x):
    return mk("agg", "core::option::Option", "Some", (x,))


NONE = mk("agg", "core::option::Option", "None", ())


def ok(x):
    return mk("agg", "core::result::Result", "Ok", (x,))


def err(x):
    return mk("agg", "core::result::Result", "Err", (x,))


def tup(*xs):
    return mk("agg", "()", "", tuple(xs))


def fields_of(d, v, n):
    f = FIELDS.get((d, v))
    if f is None or len(f) < n:
        f = [str(i) for i in range(n)]
    return f


def step_name(d, v, i, n=0):
    f = FIELDS.get((d, v))
    nm = f[i] if f is not None and i < len(f) else str(i)
    return (v + "." + nm) if ISENUM.get(d) else nm


# ---- projections ---------------------------------------------------------------------------------
def fld(t, name):
    """field `name` ('f' for structs, 'Var.f' for enums) of value t"""
    op = t.op
    if op == "agg":
        d, v, vals = t.a
        if "." in name and ISENUM.get(d):
            vn, fn = name.split(".", 1)
            if vn != v:
                return mk("bot")
        else:
            fn = name
        f = FIELDS.get((d, v))
        if f is not None and fn in f:
            i = f.index(fn)
            if i < len(vals):
                return vals[i]
        if fn.isdigit() and int(fn) < len(vals):
            return vals[int(fn)]
        if fn[:1] == "u" and fn[1:].isdigit() and int(fn[1:]) < len(vals):
            return vals[int(fn[1:])]
        return mk("fld", t, name)
    if op == "upd":
        for n, v in t.a[1]:
            if n == name:
                return v
        return fld(t.a[0], name)
    if op == "phi":
        vs = []
        for c in t.a[0]:
            r = fld(c, name)
            if r.op != "bot":
                vs.append(r)
        return phi(vs)
    if op in ("bot", "uninit"):
        return mk("bot")
    if op == "closure" and name[:1] == "u" and name[1:].isdigit() and int(name[1:]) < len(t.a[1]):
        return t.a[1][int(name[1:])]
    if op == "as" and t.a[1] is not None:
        return fld(t.a[0], name)
    return mk("fld", t, name)


def phi(vs):
    s = set()
    for v in vs:
        if v.op == "phi":
            s |= t_choices(v)
        elif v.op != "bot":
            s.add(v)
    if not s:
        return mk("bot")
    if len(s) == 1:
        return next(iter(s))
    if TOP in s or len(s) > 14:
        return TOP
    return mk("phi", frozenset(s))


def t_choices(t):
    return set(t.a[0]) if t.op == "phi" else {t}


def upd(t, name, val):
    if t.op == "agg":
        d, v, vals = t.a
        fn = name
        if "." in name and ISENUM.get(d):
            vn, fn = name.split(".", 1)
            if vn != v:
                return t
        f = fields_of(d, v, len(vals))
        i = f.index(fn) if fn in f else (int(fn.lstrip("u")) if fn.lstrip("u").isdigit() else -1)
        if 0 <= i < len(vals):
            l = list(vals)
            l[i] = val
            return mk("agg", d, v, tuple(l))
        return mk("upd", t, ((name, val),))
    base, o = (t.a[0], dict(t.a[1])) if t.op == "upd" else (t, {})
    o[name] = val
    if fld(base, name) is val:
        del o[name]
    if not o:
        return base
    return mk("upd", base, tuple(sorted(o.items())))


def isx(t):
    return isinstance(t, T)


# ---- collections ---------------------------------------------------------------------------------
# seq(base|None, parts): parts are one(x) / ent(k,v) / all(coll) / each(part) / may(frozenset parts)
EMPTY = mk("seq", None, ())


def seq_of(t):
    """(base, parts) view of a collection value"""
    if t.op == "seq":
        return t.a
    if t.op == "agg" and t.a[0] == "[]":
        return None, tuple(mk("one", x) for x in t.a[2])
    return t, ()


def seq_add(t, *parts):
    b, p = seq_of(t)
    parts = tuple(norm_part(x) for x in parts)
    return mkseq(b, p + parts)


def mkseq(b, p):
    if b is None and len(p) == 1 and p[0].op == "all":
        return p[0].a[0]
    out = []
    for x in p:
        # `all(seq(b,parts))` flattens
        if x.op == "all" and x.a[0].op == "seq":
            bb, pp = x.a[0].a
            if bb is not None:
                out.append(mk("all", bb))
            out.extend(pp)
        else:
            out.append(x)
    if b is None and out and out[0].op == "all" and len(out) >= 1 and False:
        pass
    if b is not None and not out:
        return b
    return mk("seq", b, tuple(out))


# set by the engine: (left out, reversed) for the loop an index belongs to
LOOP = [None]


def irregular(t, order=True):
    """may a loop whose index occurs in t leave elements out (or, with order, visit them backwards)?"""
    f = LOOP[0]
    if f is None:
        return False
    for ix in t.ixs:
        part, rev = f(ix.a[0])
        if part or order and rev:
            return True
    return False


def norm_part(x):
    """each(one(at(src, ix))) == all(src) etc."""
    if x.op == "each" and irregular(x.a[0]):
        return x
    if x.op == "each":
        y = x.a[0]
        if y.op == "one":
            v = y.a[0]
            if v.op == "at" and v.a[1].op == "ix" and v.a[1] not in v.a[0].ixs:
                return mk("all", v.a[0])
            if v.op == "kat" and v.a[1].op == "ix" and v.a[1] not in v.a[0].ixs:
                return mk("all", v.a[0])
        if y.op == "ent":
            k, v = y.a
            if k.op == "kat" and v.op == "mget" and v.a[1] is k and v.a[0] is k.a[0] and k.a[1].op == "ix":
                return mk("all", k.a[0])
            if k.op == "fld" and v.op == "fld" and k.a[1] == "0" and v.a[1] == "1" and k.a[0] is v.a[0] \
                    and k.a[0].op == "at" and k.a[0].a[1].op == "ix":
                return mk("all", k.a[0].a[0])
    return x


def at(c, key):
    """element of an indexed collection"""
    if c.op == "agg" and c.a[0] == "[]" and key.op == "k" and isinstance(key.a[0], int):
        if key.a[0] < len(c.a[2]):
            return c.a[2][key.a[0]]
    if c.op == "seq" and c.a[0] is None and key.op == "k" and isinstance(key.a[0], int):
        p = c.a[1]
        if key.a[0] < len(p) and all(x.op == "one" for x in p[: key.a[0] + 1]):
            return p[key.a[0]].a[0]
    if c.op == "cset":
        b, st, v = c.a
        if st == ("e", key):
            return v
        if st[0] == "e" and isx(st[1]) and st[1].op == "k" and key.op == "k":
            return at(b, key)
    if c.op == "phi":
        return phi([at(x, key) for x in c.a[0]])
    if c.op == "slice" and key.op == "k" and c.a[1].op == "k":
        return at(c.a[0], K(c.a[1].a[0] + key.a[0]))
    if c.op == "seq" and c.a[0] is None and len(c.a[1]) == 1 and key.op == "ix":
        # vector built by one pass over a source, read at the same position
        p = c.a[1][0]
        if p.op == "each" and p.a[0].op == "one" and not irregular(p.a[0]):
            src = p.a[0].a[0]
            return subst_ix(src, key)
    if c.op == "k" and isinstance(c.a[0], (bytes, tuple)) and key.op == "k" and key.a[0] < len(c.a[0]):
        return K(c.a[0][key.a[0]])
    return mk("at", c, key)


def subst_ix(t, new):
    """replace the single loop index of t by `new`"""
    if len(t.ixs) != 1:
        return mk("atx", t, new)
    old = next(iter(t.ixs))
    return replace(t, {old: new})


def replace(t, m, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        return m[t]

    def go(x):
        if isinstance(x, T):
            return replace(x, m, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    na = tuple(go(x) for x in t.a)
    if na == t.a:
        r = t
    elif t.op == "fld":
        r = fld(na[0], na[1])
    elif t.op == "at":
        r = at(na[0], na[1])
    elif t.op == "phi":
        r = phi(list(na[0]))
    elif t.op == "upd":
        r = na[0]
        for n, v in na[1]:
            r = upd(r, n, v)
    else:
        r = mk(t.op, *na)
    memo[t] = r
    return r


def kat(c, i):
    return mk("kat", c, i)


def mget(c, key):
    if c.op == "cset":
        b, st, v = c.a
        if st == ("m", key):
            return v
    if c.op == "seq":
        for p in reversed(c.a[1]):
            if p.op == "ent" and p.a[0] is key:
                return p.a[1]
            if p.op in ("may", "each", "all"):
                break
    if c.op == "phi":
        return phi([mget(x, key) for x in c.a[0]])
    return mk("mget", c, key)


def length(c):
    if c.op == "agg" and c.a[0] == "[]":
        return K(len(c.a[2]))
    if c.op == "k" and isinstance(c.a[0], (bytes, tuple, str)):
        return K(len(c.a[0]))
    if c.op == "seq":
        b, p = c.a
        if b is None and all(x.op == "one" for x in p):
            return K(len(p))
        if b is None and len(p) == 1 and p[0].op == "all":
            return length(p[0].a[0])
        if b is None and len(p) == 1 and p[0].op == "each" and p[0].a[0].op == "one" and not irregular(p[0].a[0], False):
            src = iter_src(p[0].a[0].a[0])
            if src is not None:
                return length(src)
        if b is None and len(p) == 1 and p[0].op == "rep":
            return p[0].a[1]
    if c.op in ("cset", "sorted"):
        return length(c.a[0])
    if c.op == "iter":
        return length(c.a[0])
    return mk("len", c)


def iter_src(t):
    """source collection that the (single) loop index in t ranges over"""
    src = set()

    def go(x):
        if isinstance(x, T):
            if not x.ixs:
                return
            if x.op in ("at", "kat") and x.a[1].op == "ix":
                src.add(x.a[0])
                return
            for y in x.a:
                go(y)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
    go(t)
    return next(iter(src)) if len(src) == 1 else None


# ---- boolean / arithmetic ------------------------------------------------------------------------
BOOLOPS = {"eq", "lt", "not", "and", "or", "has", "ovf", "done", "bool"}


def NOT(t):
    if t.op == "k":
        return K(1 - int(t.a[0]))
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def AND(a, b):
    if a is K0 or b is K0:
        return K0
    if a is K1:
        return b
    if b is K1 or a is b:
        return a
    return mk("and", a, b)


def OR(a, b):
    return NOT(AND(NOT(a), NOT(b)))


def disc(t):
    """discriminant value of an enum value"""
    op = t.op
    if op == "agg":
        d, v, _ = t.a
        for n, x in VARIANTS.get(d, ()):
            if n == v:
                return K(x)
    if op == "upd":
        return disc(t.a[0])
    if op == "phi":
        ds = {disc(c) for c in t.a[0]}
        if len(ds) == 1:
            return next(iter(ds))
    if op == "k":
        return t
    return mk("discr", t)


def EQ(a, b):
    if a is b:
        return K1
    if a.op == "k" and b.op == "k":
        return K1 if a.a[0] == b.a[0] else K0
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return K0
        r = K1
        for x, y in zip(a.a[2], b.a[2]):
            r = AND(r, EQ(x, y))
        return r
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and ISENUM.get(x.a[0]) and y.op not in ("agg", "top", "phi"):
            d, v, vals = x.a
            r = EQ(disc(y), disc(x))
            for i, w in enumerate(vals):
                r = AND(r, EQ(fld(y, step_name(d, v, i)), w))
            return r
    if a.op == "k" or (b.op != "k" and b.id < a.id):
        a, b = b, a
    return mk("eq", a, b)


def LT(a, b):
    if a is b:
        return K0
    if a.op == "k" and b.op == "k":
        return K1 if a.a[0] < b.a[0] else K0
    return mk("lt", a, b)


def arith(op, a, b):
    if a.op == "k" and b.op == "k" and isinstance(a.a[0], int) and isinstance(b.a[0], int):
        x, y = a.a[0], b.a[0]
        try:
            r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x // y,
                 "rem": lambda: x % y, "band": lambda: x & y, "bor": lambda: x | y, "bxor": lambda: x ^ y,
                 "shl": lambda: x << y, "shr": lambda: x >> y}[op]()
            return K(r)
        except Exception:
            return TOP
    if op in ("add", "mul", "band", "bor", "bxor", "max", "min") and b.id < a.id:
        a, b = b, a
    if op in ("add", "bor", "bxor") and (a is K0 or b is K0):
        return b if a is K0 else a
    if op == "sub" and b is K0:
        return a
    return mk(op, a, b)


# ---- pretty printing / traversal -----------------------------------------------------------------
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + ", ".join(sorted(show(x, d) for x in t)) + "}"
        return str(t)
    if d > 14:
        return "…"
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if op == "k":
        return repr(a[0]) if not isinstance(a[0], int) else str(a[0])
    if op == "sym":
        return a[0]
    if op == "fld":
        return f"{s(a[0])}.{a[1]}"
    if op == "agg":
        n = a[0].split("::")[-1] if a[0] not in ("()", "[]") else a[0]
        if a[0] == "()" and not a[2]:
            return "()"
        if a[0] == "[]":
            return "[" + ", ".join(s(x) for x in a[2]) + "]"
        if ISENUM.get(a[0]):
            n = a[1]
        f = FIELDS.get((a[0], a[1]))
        if a[0] != "()" and f and not f[0].isdigit():
            return n + "{" + ", ".join(f"{k}: {s(x)}" for k, x in zip(f, a[2])) + "}"
        return (n if a[0] != "()" else "") + ("(" + ", ".join(s(x) for x in a[2]) + ")" if a[2] else "")
    if op == "app":
        return str(a[0]).split("::")[-1] + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    if op == "ref":
        return "&" + show(a[0], d + 1) + "".join("." + str(x[1]) for x in a[1])
    if op == "at":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "ix":
        return f"i#{hash(a[0]) % 1000}"
    if op == "upd":
        return s(a[0]) + "{" + ", ".join(f"{k}:={s(v)}" for k, v in a[1]) + "}"
    if op == "seq":
        return "⟨" + (s(a[0]) if a[0] is not None else "") + "".join(" +" + s(x) for x in a[1]) + "⟩"
    if op == "phi":
        return "φ" + s(a[0])
    if op == "lv":
        return f"lv#{hash(a[0]) % 1000}/{a[1]}"
    if op == "closure":
        return "λ" + a[0].split("|")[0].split("::")[-2] if "::" in a[0] else "λ"
    if op == "done":
        return f"done#{hash(a[0]) % 1000}"
    return op + "(" + ", ".join(s(x) for x in a) + ")"


def walk(t, f, seen=None):
    """call f on every sub-term; f returns True to stop descending"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if f(x):
                continue
            stack.extend(x.a)
        elif isinstance(x, (tuple, frozenset, list)):
            stack.extend(x)


def mentions(t, sub):
    r = []

    def f(x):
        if x is sub:
            r.append(1)
        return bool(r)
    walk(t, f)
    return bool(r)


def find(t, pred):
    r = []

    def f(x):
        if pred(x):
            r.append(x)
    walk(t, f)
    return r


def has_top(t):
    return bool(find(t, lambda x: x.op in ("top",)))

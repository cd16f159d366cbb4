"""Interprocedural abstract interpreter over MIR (dataflow with trace partitioning).

State = (memory: place -> provenance term, facts: branch outcomes known on every path of the partition,
ev: calls that must have happened, fa: facts that hold for every finished iteration of a loop).
States meeting at a block are kept apart up to a bound and joined beyond it; loops are iterated to a
fixpoint with widening.  No path is executed and no solver is involved.
"""
from . import terms as tm
from .terms import (T, mk, K, K0, K1, S, UNIT, TOP, UNINIT, some, NONE, ok, err, tup, fld, upd, phi, at, kat, mget,
                    length, EQ, LT, NOT, AND, OR, disc, arith, seq_of, seq_add, mkseq, EMPTY, step_name)


class Budget(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "ev", "fa")

    def __init__(self, mem=None, facts=None, ev=frozenset(), fa=frozenset()):
        self.mem = {} if mem is None else mem
        self.facts = {} if facts is None else facts
        self.ev = ev
        self.fa = fa

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.ev, self.fa)


BOOL_BINS = {"Eq": 0, "Ne": 0, "Lt": 0, "Le": 0, "Gt": 0, "Ge": 0}
ARITH = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "BitAnd": "band", "BitOr": "bor",
         "BitXor": "bxor", "Shl": "shl", "Shr": "shr"}


BITOPS = ("band", "bor", "bxor")


class Engine:
    CAP = 14
    HARDCAP = 40

    def __init__(self, prog, opaque=None, watch=None, hooks=None, budget=400000, cap=None, oracle=None):
        self.p = prog
        self.opaque = opaque or (lambda path, key: False)
        self.watch = watch or (lambda path, f: None)
        self.hooks = hooks or {}
        self.oracle = oracle   # f(term) -> assumed constant | None (hypothesis of the whole run)
        self.budget = budget
        self.steps = 0
        self.log = []        # may-events: dict(kind, name, args, facts, ev, loc, stack)
        self.stack = []      # [(key, loc)]
        self.frames = {}
        self.lv = {}         # lv term -> {"init": T, "back": set}
        self.loopstack = []
        self.loophead = []    # parallel to loopstack: (frame, head block) | None
        self.omits = {}       # loop site -> an iteration that adds nothing to a list others add to: sure?
        self.arity = {}
        self.promo = {}
        self.analysed = set()
        self.opaque_called = {}
        self.callsites = 0
        self.joins = 0
        self.late = False
        self.doneb = {}
        self.partial = {}      # loop site -> why its iterations need not cover the whole source
        self.loop_each = {}
        self.loopcut = None    # f(body, head) -> bool: candidate for a one-iteration cut
        self.cutcalls = 0      # bumped by hooks that read the stream the cut loop consumes
        self.incut = False
        self.cuts = []
        self.reversed = set()  # sites of loops that run backwards
        tm.LOOP[0] = self.loop_kind
        self.loops = {}        # loop site -> [(invariant, entry state, back states)] at the fixpoint
        self.keep = []         # keeps the identities below alive
        self.entrymem = {}     # loop -> memory roots that exist when it is entered
        self.advances = {}     # loop -> iterators advanced directly by it, not by a loop inside it
        self.iters = {}        # loop site -> set of fact conjunctions, one per kind of finished iteration
        from . import models
        self.models = models.MODELS
        self.cont = models.CONT
        self.generic_model = models.generic
        if cap:
            self.CAP = cap
            self.HARDCAP = max(self.HARDCAP, 2 * cap)

    # ---------------------------------------------------------------- frames / sites
    def frame(self, parent, site, key):
        k = (parent, site, key)
        f = self.frames.get(k)
        if f is None:
            f = len(self.frames) + 1
            self.frames[k] = f
        return f

    def new_ix(self, site):
        for s in self.loopstack:
            s.add(site)
        if self.loopstack:
            self.advances.setdefault(id(self.loopstack[-1]), set()).add(site)
        return mk("ix", site)

    # ---------------------------------------------------------------- facts
    def known(self, st, t):
        """constant value of integer/bool term t in st, or None"""
        if t.op == "k":
            v = t.a[0]
            return int(v) if isinstance(v, (int, bool)) else v
        f = st.facts.get(t)
        if isinstance(f, int):
            return f
        if self.oracle is not None:
            v = self.oracle(t)
            if v is not None:
                return int(v)
        op = t.op
        if op == "not":
            v = self.known(st, t.a[0])
            return None if v is None else 1 - v
        if op == "and":
            a, b = self.known(st, t.a[0]), self.known(st, t.a[1])
            if a == 0 or b == 0:
                return 0
            if a == 1 and b == 1:
                return 1
            return None
        if op == "eq":
            a, b = t.a
            for x, y in ((a, b), (b, a)):
                if y.op == "k":
                    fx = st.facts.get(x)
                    yv = y.a[0]
                    if isinstance(fx, int) and isinstance(yv, int):
                        return 1 if fx == yv else 0
                    if isinstance(fx, frozenset) and yv in fx:
                        return 0
                    r = self.known_special(st, x, yv)
                    if r is not None:
                        return r
                    if x.op in BITOPS or x.op == "cast" or x.op == "discr" or self.oracle is not None:
                        kx = self.known(st, x)
                        if isinstance(kx, int) and isinstance(yv, int):
                            return 1 if kx == yv else 0
            return None
        if op == "cast":
            v = self.known(st, t.a[1])
            if isinstance(v, int) and v >= 0 and t.a[0][0] == "u" and t.a[0][1:].isdigit():
                return v & ((1 << int(t.a[0][1:])) - 1)
            return None
        if op in BITOPS and len(t.a) == 2:
            x = self.known(st, t.a[0])
            if not isinstance(x, int):
                return None
            y = self.known(st, t.a[1])
            if not isinstance(y, int):
                return None
            return {"band": x & y, "bor": x | y, "bxor": x ^ y}[op]
        if op == "lt":
            a, b = t.a
            x, y = st.facts.get(mk("lt", b, a)), None
            if x == 1:
                return 0
            if self.known(st, EQ(a, b)) == 1 if (a.op != "k" or b.op != "k") else False:
                return 0
            if a is K0:
                # 0 < n  <=>  n != 0 (unsigned)
                z = self.known(st, mk("eq", b, K0)) if b.op != "k" else None
                if z is not None:
                    return 1 - z
            if a.op == "k":
                kb = self.known(st, b)
                if isinstance(kb, int):
                    return 1 if a.a[0] < kb else 0
            if b.op == "k":
                ka = self.known(st, a)
                if isinstance(ka, int):
                    return 1 if ka < b.a[0] else 0
            return None
        if op == "has":
            c, k = t.a
            if c.op == "seq":
                for p in c.a[1]:
                    if p.op == "ent" and p.a[0] is k:
                        return 1
                if c.a[0] is None and not c.a[1]:
                    return 0
            return None
        if op == "discr":
            x = t.a[0]
            if x.op == "phi":
                vs = {self.known(st, disc(c)) for c in x.a[0]}
                if len(vs) == 1:
                    return next(iter(vs))
        return None

    def known_special(self, st, x, c):
        """x == c for x = len(collection)"""
        if x.op == "len" and c == 0:
            s = x.a[0]
            if s.op == "seq":
                if any(p.op in ("one", "ent") for p in s.a[1]):
                    return 0
                if s.a[0] is not None and self.known(st, mk("eq", length(s.a[0]), K0)) == 0:
                    return 0
        return None

    def assume(self, st, t, v, out=None):
        """refine st (mutating) with t == v; returns list of states (may fork), [] if infeasible"""
        v = int(v)
        kv = self.known(st, t)
        if kv is not None:
            return [st] if kv == v else []
        op = t.op
        if op == "not":
            return self.assume(st, t.a[0], 1 - v)
        if op == "and":
            if v == 1:
                r = []
                for s in self.assume(st, t.a[0], 1):
                    r += self.assume(s, t.a[1], 1)
                return r
            s2 = st.copy()
            r = self.assume(st, t.a[0], 0)
            for s in self.assume(s2, t.a[0], 1):
                r += self.assume(s, t.a[1], 0)
            return r
        if op == "eq":
            a, b = t.a
            for x, y in ((a, b), (b, a)):
                if y.op == "k" and isinstance(y.a[0], int):
                    if v == 1:
                        return self.assume(st, x, y.a[0])
                    f = st.facts.get(x)
                    if x.op in tm.BOOLOPS:
                        return self.assume(st, x, 1 - y.a[0])
                    s = (f if isinstance(f, frozenset) else frozenset()) | {y.a[0]}
                    n = self.arity.get(x)
                    if n is not None and len(s) == n - 1:
                        rest = [i for i in range(n) if i not in s]
                        if len(rest) == 1:
                            st.facts[x] = rest[0]
                            return [st]
                    st.facts[x] = s
                    return [st]
            st.facts[t] = v
            return [st]
        if op == "lt" and v == 0 and t.a[0].op == "ix":
            d = mk("done", t.a[0].a[0])
            st.facts[d] = 1
            self.doneb.setdefault(t.a[0].a[0], set()).add(t.a[1])
        f = st.facts.get(t)
        if isinstance(f, frozenset) and v in f:
            return []
        st.facts[t] = v
        return [st]

    def exclude(self, st, t, vals):
        kv = self.known(st, t)
        if kv is not None:
            return [st] if kv not in vals else []
        f = st.facts.get(t)
        s = (f if isinstance(f, frozenset) else frozenset()) | frozenset(vals)
        if t.op in tm.BOOLOPS:
            if 0 in s and 1 in s:
                return []
            return self.assume(st, t, 1 if 0 in s else 0)
        n = self.arity.get(t)
        if n is not None:
            rest = [i for i in range(n) if i not in s]
            if not rest:
                return []
            if len(rest) == 1:
                st.facts[t] = rest[0]
                return [st]
        st.facts[t] = s
        return [st]

    def fork(self, st, t):
        """[(state, 0/1)] for a boolean term"""
        kv = self.known(st, t)
        if kv is not None:
            return [(st, int(kv))]
        s2 = st.copy()
        return [(s, 1) for s in self.assume(st, t, 1)] + [(s, 0) for s in self.assume(s2, t, 0)]

    # ---------------------------------------------------------------- memory
    def rd_root(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] in ("D", "V"):
            return root[1]
        if root[0] == "P":
            return phi([self.read(st, l) for l in root[1]])
        return UNINIT

    def step(self, st, v, s):
        if s[0] == "f":
            if v.op == "ref":
                # field of a reference value: look through (auto-deref of smart pointers)
                return self.step(st, self.deref_val(st, v), s)
            return fld(v, s[1])
        if s[0] == "e":
            return at(v, s[1])
        if s[0] == "m":
            return mget(v, s[1])
        if s[0] == "k":
            return kat(v, s[1])
        if s[0] == "sl":
            return mk("slice", v, s[1], s[2])
        return TOP

    def read(self, st, loc):
        v = self.rd_root(st, loc[0])
        for s in loc[1]:
            v = self.step(st, v, s)
        return v

    def deref_loc(self, st, v):
        if v.op == "ref":
            return (v.a[0], v.a[1])
        if v.op == "phi" and any(c.op == "ref" for c in v.a[0]):
            locs = tuple(sorted((self.deref_loc(st, c) for c in v.a[0]), key=repr))
            return (("P", locs), ())
        return (("D", v), ())

    def deref_val(self, st, v):
        return self.read(st, self.deref_loc(st, v))

    def put(self, cur, path, val):
        if not path:
            return val
        s = path[0]
        if s[0] == "f":
            return upd(cur, s[1], self.put(fld(cur, s[1]), path[1:], val))
        if s[0] == "e" and s[1].op == "k" and cur.op == "agg" and cur.a[0] == "[]" and s[1].a[0] < len(cur.a[2]):
            l = list(cur.a[2])
            l[s[1].a[0]] = self.put(l[s[1].a[0]], path[1:], val)
            return mk("agg", "[]", "", tuple(l))
        old = at(cur, s[1]) if s[0] == "e" else mget(cur, s[1]) if s[0] == "m" else TOP
        if s[0] == "sl":
            old = mk("slice", cur, s[1], s[2])
        nv = self.put(old, path[1:], val)
        if nv is old:
            return cur
        if cur.op == "cset" and cur.a[1] == s:
            cur = cur.a[0]
        return mk("cset", cur, s, nv)

    def write(self, st, loc, val):
        root, path = loc
        if root[0] == "P":
            for l in root[1]:
                l2 = (l[0], l[1] + path)
                self.write(st, l2, phi([self.read(st, l2), val]))
            return
        if not path:
            st.mem[root] = val
            return
        # writing through a stored reference (e.g. field holding a &mut)
        st.mem[root] = self.put(self.rd_root(st, root), path, val)

    def snap(self, st, v, d=0):
        """value with every reference replaced by what it points to"""
        if not v.hasref:
            return v
        if d > 12:
            return TOP
        if v.op == "ref":
            return self.snap(st, self.read(st, (v.a[0], v.a[1])), d + 1)

        def go(x):
            if isinstance(x, T):
                return self.snap(st, x, d + 1)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(go(y) for y in x)
            return x
        na = tuple(go(x) for x in v.a)
        if v.op == "fld":
            return fld(na[0], na[1])
        if v.op == "at":
            return at(na[0], na[1])
        if v.op == "mget":
            return mget(na[0], na[1])
        if v.op == "phi":
            return phi(list(na[0]))
        return mk(v.op, *na)

    def ref(self, root, path=()):
        if root[0] in ("D", "V") and not path:
            pass
        return mk("ref", root, path)

    def tmp(self, st, site, val, tag=""):
        r = ("A", site, tag)
        st.mem[r] = val
        return mk("ref", r, ())

    # ---------------------------------------------------------------- places
    def ty(self, i):
        return self.p.types[i]

    def place(self, st, b, fid, p):
        """-> (loc, type)"""
        loc = (("L", fid, p[0]), ())
        ty = self.ty(b.locals[p[0]])
        var = None
        for e in p[1:]:
            if e == "*":
                k = ty.get("k")
                if k == "adt" and ty.get("def") == "alloc::boxed::Box":
                    ty = self.ty(ty["args"][0])
                    continue
                v = self.read(st, loc)
                loc = self.deref_loc(st, v)
                ty = self.ty(ty["to"]) if "to" in ty else {"k": "?"}
            elif e == "cast":
                pass
            elif e[0] == "f":
                k = ty.get("k")
                nt = self.ty(e[2])
                if k == "adt":
                    d = ty["def"]
                    if d == "alloc::boxed::Box":
                        loc = (("V", mk("ref", loc[0], loc[1])), ())
                        ty = nt
                        continue
                    if d in ("core::ptr::unique::Unique", "core::ptr::non_null::NonNull"):
                        ty = nt
                        continue
                    if d in ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop",
                             "core::mem::maybe_dangling::MaybeDangling"):
                        ty = nt
                        continue
                    vs = tm.VARIANTS.get(d)
                    vn = ""
                    if vs:
                        vn = vs[var or 0][0] if (var or 0) < len(vs) else ""
                    nm = step_name(d, vn, e[1])
                elif k == "closure":
                    nm = "u%d" % e[1]
                else:
                    nm = str(e[1])
                loc = (loc[0], loc[1] + (("f", nm),))
                ty = nt
                var = None
                continue
            elif e[0] == "d":
                var = e[1]
                continue
            elif e[0] == "i":
                key = self.read(st, (("L", fid, e[1]), ()))
                loc = (loc[0], loc[1] + (("e", key),))
                ty = self.ty(ty["to"]) if "to" in ty else {"k": "?"}
            elif e[0] == "c":
                key = mk("fromend", e[1]) if e[2] else K(e[1])
                loc = (loc[0], loc[1] + (("e", key),))
                ty = self.ty(ty["to"]) if "to" in ty else {"k": "?"}
            elif e[0] == "s":
                loc = (loc[0], loc[1] + (("sl", K(e[1]), mk("fromend", e[2]) if e[3] else K(e[2])),))
            var = None
        return loc, ty

    def const(self, c):
        k = c["k"]
        if k == "int":
            return K(c["v"])
        if k == "str":
            return K(c["v"])
        if k == "bytes":
            return K(bytes(c["v"]))
        if k == "fn":
            return self.p.fnitem(c["f"])
        if k == "ref":
            return self.const(c["v"])
        if k == "adt":
            ty = self.ty(c["ty"])
            fs = tuple(self.const(x) for x in c["f"])
            kk = ty.get("k")
            if kk == "adt":
                vs = tm.VARIANTS.get(ty["def"])
                vn = vs[c["var"]][0] if vs and c["var"] < len(vs) else ""
                return mk("agg", ty["def"], vn, fs)
            if kk == "array":
                if fs and all(x.op == "k" and isinstance(x.a[0], int) for x in fs) and self.ty(ty["to"])["s"] == "u8":
                    return K(bytes(x.a[0] & 255 for x in fs))
                return mk("agg", "[]", "", fs)
            if kk == "closure":
                return mk("closure", ty.get("def", "?"), ())
            return mk("agg", "()", "", fs)
        if k == "promoted":
            key = c["inst"]
            if key not in self.promo:
                b = self.p.body(key)
                v = mk("const", key)
                if b is not None:
                    s = State()
                    fid = self.frame(0, "promo", key)
                    rs = self.exec_body(b, fid, s)
                    if len(rs) == 1:
                        v = self.snap(rs[0][0], rs[0][1])
                self.promo[key] = v
            return self.promo[key]
        ty = self.ty(c["ty"])
        if ty.get("k") == "tuple" and not ty.get("args"):
            return UNIT
        if ty.get("k") == "adt" and not c.get("name"):
            vs = tm.VARIANTS.get(ty["def"])
            if vs and not ty.get("enum") and not tm.FIELDS.get((ty["def"], vs[0][0])):
                return mk("agg", ty["def"], vs[0][0], ())
        return mk("const", c.get("name") or ty["s"])

    def op(self, st, b, fid, o):
        if o[0] == "k":
            return self.const(o[1])
        loc, _ = self.place(st, b, fid, o[1])
        return self.read(st, loc)

    def opty(self, st, b, fid, o):
        if o[0] == "k":
            return self.ty(o[1]["ty"])
        return self.place(st, b, fid, o[1])[1]

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, b, fid, rv, dty=None):
        k = rv[0]
        if k == "use":
            return self.op(st, b, fid, rv[1])
        if k in ("ref", "raw"):
            loc, _ = self.place(st, b, fid, rv[2])
            if loc[0][0] == "V" and not loc[1]:
                return loc[0][1]
            if loc[0][0] == "D" and not loc[1] and loc[0] not in st.mem and not rv[1]:
                return loc[0][1]
            if loc[0][0] == "D" and not loc[1]:
                return loc[0][1] if loc[0][1].op != "ref" else mk("ref", loc[0], ())
            return mk("ref", loc[0], loc[1])
        if k == "cast":
            v = self.op(st, b, fid, rv[2])
            kind = rv[1]
            if kind.startswith("IntToInt"):
                s, d = self.opty(st, b, fid, rv[2]), self.ty(rv[3])
                sb = 8 if s.get("k") == "bool" else s.get("bits", 64)
                db = d.get("bits", 64)
                if v.op == "k" and isinstance(v.a[0], int):
                    x = v.a[0] & ((1 << db) - 1)
                    if d.get("signed") and x >> (db - 1):
                        x -= 1 << db
                    return K(x)
                if db >= sb and (not s.get("signed") or d.get("signed")):
                    return v
                return mk("cast", ("i" if d.get("signed") else "u") + str(db), v)
            if kind.startswith(("FloatToInt", "IntToFloat", "FloatToFloat")):
                return mk("cast", kind, v)
            return v
        if k == "bin":
            o = rv[1]
            a, c = self.op(st, b, fid, rv[2]), self.op(st, b, fid, rv[3])
            if o.endswith("WithOverflow"):
                ao = ARITH[o[:-12]]
                return tup(arith(ao, a, c), self.overflow(ao, a, c, self.opty(st, b, fid, rv[2])))
            if o.endswith("Unchecked"):
                return arith(ARITH[o[:-9]], a, c)
            if o == "Eq":
                return EQ(self.deep(st, a), self.deep(st, c))
            if o == "Ne":
                return NOT(EQ(self.deep(st, a), self.deep(st, c)))
            if o == "Lt":
                return LT(a, c)
            if o == "Gt":
                return LT(c, a)
            if o == "Le":
                return NOT(LT(c, a))
            if o == "Ge":
                return NOT(LT(a, c))
            if o in ("BitAnd", "BitOr", "BitXor"):
                if self.opty(st, b, fid, rv[2]).get("k") == "bool":
                    if o == "BitAnd":
                        return AND(a, c)
                    if o == "BitOr":
                        return OR(a, c)
                    return NOT(EQ(a, c))
            if o in ARITH:
                return arith(ARITH[o], a, c)
            return mk("bin", o, a, c)
        if k == "un":
            v = self.op(st, b, fid, rv[2])
            if rv[1] == "Not":
                if self.opty(st, b, fid, rv[2]).get("k") == "bool":
                    return NOT(v)
                return mk("bnot", v)
            if rv[1] == "PtrMetadata":
                return length(self.snap(st, v))
            if rv[1] == "Neg" and v.op == "k":
                return K(-v.a[0])
            return mk("un", rv[1], v)
        if k == "discr":
            loc, ty = self.place(st, b, fid, rv[1])
            v = self.snap(st, self.read(st, loc))
            t = disc(v)
            if ty.get("k") == "adt" and t.op == "discr":
                vs = tm.VARIANTS.get(ty["def"])
                if vs:
                    self.arity.setdefault(t, len(vs))
            return t
        if k == "agg":
            kk = rv[1]
            fs = tuple(self.op(st, b, fid, x) for x in rv[2])
            if kk[0] == "adt":
                ty = self.ty(kk[1])
                d = ty["def"]
                vs = tm.VARIANTS.get(d)
                vn = vs[kk[2]][0] if vs and kk[2] < len(vs) else ""
                if kk[3] is not None and d not in tm.FIELDS:
                    pass
                if d in ("alloc::boxed::Box", "core::mem::manually_drop::ManuallyDrop",
                         "core::mem::maybe_uninit::MaybeUninit") and len(fs) >= 1:
                    return fs[0]
                return mk("agg", d, vn, fs)
            if kk[0] == "tuple":
                return mk("agg", "()", "", fs)
            if kk[0] == "array":
                if fs and all(x.op == "k" and isinstance(x.a[0], int) for x in fs) and self.ty(kk[1])["s"] == "u8":
                    return K(bytes(x.a[0] & 255 for x in fs))
                return mk("agg", "[]", "", fs)
            if kk[0] == "closure":
                return mk("closure", kk[2] or kk[1], fs)
            return mk("aggo", fs)
        if k == "repeat":
            v = self.op(st, b, fid, rv[1])
            n = rv[2]
            if n is not None and n <= 128 and v.op == "k" and isinstance(v.a[0], int) and 0 <= v.a[0] < 256:
                return K(bytes([v.a[0]] * n))
            return mk("repeat", v, n)
        return TOP

    def deep(self, st, v):
        return self.snap(st, v)

    def overflow(self, op, a, b, ty):
        if a.op == "k" and b.op == "k" and isinstance(a.a[0], int) and isinstance(b.a[0], int):
            x, y = a.a[0], b.a[0]
            r = {"add": x + y, "sub": x - y, "mul": x * y}.get(op)
            if r is not None and ty.get("bits"):
                n = ty["bits"]
                lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if ty.get("signed") else (0, (1 << n) - 1)
                return K0 if lo <= r <= hi else K1
        return mk("ovf", op, a, b)

    # ---------------------------------------------------------------- state sets
    def shape(self, v, d=0):
        op = v.op
        if op == "k":
            return v
        if op == "agg":
            if tm.ISENUM.get(v.a[0]):
                return (v.a[1],) + (tuple(self.shape(x, d + 1) for x in v.a[2]) if d < 2 else ())
            if d < 2 and v.a[0] == "()":
                return tuple(self.shape(x, d + 1) for x in v.a[2])
            return v.a[0]
        if op == "uninit":
            return "?"
        return "*"

    def join_val(self, a, b):
        if a is b:
            return a
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            return mk("agg", a.a[0], a.a[1], tuple(self.join_val(x, y) for x, y in zip(a.a[2], b.a[2])))
        if a.op == "upd" or b.op == "upd":
            ba = a.a[0] if a.op == "upd" else a
            bb = b.a[0] if b.op == "upd" else b
            if ba is bb:
                names = set()
                for x in (a, b):
                    if x.op == "upd":
                        names |= {n for n, _ in x.a[1]}
                r = ba
                for n in sorted(names):
                    r = upd(r, n, self.join_val(fld(a, n), fld(b, n)))
                return r
        if a.op == "seq" or b.op == "seq":
            j = self.join_seq(a, b)
            if j is not None:
                return j
        if a.op == "closure" and b.op == "closure" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            return mk("closure", a.a[0], tuple(self.join_val(x, y) for x, y in zip(a.a[1], b.a[1])))
        return phi([a, b])

    def join_seq(self, a, b):
        (ba, pa), (bb, pb) = seq_of(a), seq_of(b)
        if ba is not bb:
            return None
        n = 0
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        ra, rb = pa[n:], pb[n:]
        must = [x for x in ra if x in rb and x.op != "may"]
        rest = set()
        for r in (ra, rb):
            for x in r:
                if x in must:
                    continue
                if x.op == "may":
                    rest |= x.a[0]
                else:
                    rest.add(x)
        parts = pa[:n] + tuple(must)
        if rest:
            # merge with a trailing may part of the common prefix
            if n and not must and pa[n - 1].op == "may":
                parts = pa[: n - 1] + (mk("may", pa[n - 1].a[0] | frozenset(rest)),)
            else:
                parts = parts + (mk("may", frozenset(rest)),)
        return mkseq(ba, parts)

    def join_facts(self, f, g):
        out = {}
        for t, v in f.items():
            w = g.get(t)
            if w is None:
                continue
            if v == w:
                out[t] = v
            elif isinstance(v, frozenset) and isinstance(w, frozenset):
                if v & w:
                    out[t] = v & w
            elif isinstance(v, frozenset) and isinstance(w, int):
                if v - {w}:
                    out[t] = v - {w}
            elif isinstance(w, frozenset) and isinstance(v, int):
                if w - {v}:
                    out[t] = w - {v}
        return out

    def join(self, a, b):
        mem = {}
        for r, v in a.mem.items():
            w = b.mem.get(r)
            if w is None:
                if r[0] == "D":
                    mem[r] = self.join_val(v, r[1])
                continue
            mem[r] = v if v is w else self.join_val(v, w)
        for r, w in b.mem.items():
            if r[0] == "D" and r not in a.mem:
                mem[r] = self.join_val(r[1], w)
        return State(mem, self.join_facts(a.facts, b.facts), a.ev & b.ev, a.fa & b.fa)

    def complementary(self, f, g):
        """merge two fact maps that differ in one two-valued term"""
        if abs(len(f) - len(g)) > 0:
            return None
        diff = None
        for t, v in f.items():
            w = g.get(t)
            if w is None:
                return None
            if v != w:
                if diff is not None:
                    return None
                diff = t
        if diff is None:
            return f
        v, w = f[diff], g[diff]
        two = diff.op in tm.BOOLOPS or self.arity.get(diff) == 2
        if isinstance(v, int) and isinstance(w, int):
            if two:
                out = dict(f)
                del out[diff]
                return out
            n = self.arity.get(diff)
            return None
        if isinstance(v, int):
            v, w = w, v
        if isinstance(w, int) and isinstance(v, frozenset) and w in v:
            out = dict(f)
            if v - {w}:
                out[diff] = v - {w}
            else:
                del out[diff]
            return out
        return None

    def compact(self, states, cap=None):
        cap = cap or self.CAP
        if len(states) <= 1:
            return states
        # identical memory: merge exact duplicates and complementary facts
        groups = {}
        for s in states:
            k = (frozenset(s.mem.items()), s.ev, s.fa)
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            if len(g) > 1:
                # drop states whose facts are implied (superset of another's facts)
                changed = True
                while changed and len(g) > 1:
                    changed = False
                    for i in range(len(g)):
                        for j in range(i + 1, len(g)):
                            fi, fj = g[i].facts, g[j].facts
                            m = None
                            if all(fj.get(t) == v for t, v in fi.items()):
                                m = fi
                            elif all(fi.get(t) == v for t, v in fj.items()):
                                m = fj
                            else:
                                m = self.complementary(fi, fj)
                            if m is not None:
                                g[i].facts = dict(m)
                                del g[j]
                                changed = True
                                break
                        if changed:
                            break
            out.extend(g)
        if len(out) <= cap:
            return out
        return out

    def limit(self, b, fid, blk, states, cap=None):
        cap = cap or self.CAP
        states = self.compact(states, cap)
        if len(states) <= cap:
            return states
        live = [("L", fid, l) for l in (b.live[blk] | b.addr)] if blk is not None else [("L", fid, 0)]
        groups = {}
        for s in states:
            k = tuple(self.shape(s.mem.get(r, UNINIT)) for r in live if not (r[2] in b.dropflags))
            groups.setdefault(k, []).append(s)
        # merge, within a shape, the two states with the closest facts until under cap
        while sum(len(g) for g in groups.values()) > cap:
            g = max(groups.values(), key=len)
            if len(g) < 2:
                break
            best = None
            items = [frozenset(s.facts.items()) for s in g]
            for i in range(len(g)):
                for j in range(i + 1, len(g)):
                    d = len(items[i] ^ items[j])
                    if best is None or d < best[0]:
                        best = (d, i, j)
            _, i, j = best
            self.joins += 1      # facts are lost here
            m = self.join(g[i], g[j])
            g[i] = m
            del g[j]
        out = [s for g in groups.values() for s in g]
        if len(out) > self.HARDCAP:
            while len(out) > self.HARDCAP:
                self.joins += 1
                a, c = out.pop(), out.pop()
                out.insert(0, self.join(a, c))
        return out

    # ---------------------------------------------------------------- execution
    def exec_body(self, b, fid, st):
        """run body from st (args already bound); returns [(state, retval)]"""
        if b.local:
            self.analysed.add(b.path)
        exits = self.exec_blocks(b, fid, set(b.rpo), 0, {0: [st]}, None)
        out = []
        for s in self.limit(b, fid, None, exits.get("ret", [])):
            v = s.mem.get(("L", fid, 0), UNIT)
            if v.hasref:
                v = self.escape(s, fid, v)
            out.append((s, v))
        for s, _ in out:
            for r in [r for r in s.mem if r[0] == "L" and r[1] == fid]:
                del s.mem[r]
        return out

    def escape(self, st, fid, v):
        """a returned value must not point into the dying frame"""
        def bad(x):
            return x.op == "ref" and x.a[0][0] == "L" and x.a[0][1] == fid
        if tm.find(v, bad):
            if v.op == "agg":
                return mk("agg", v.a[0], v.a[1], tuple(self.escape(st, fid, x) for x in v.a[2]))
            return self.snap(st, v)
        return v

    def exec_blocks(self, b, fid, scope, entry, pending, head):
        """process blocks of `scope` in RPO; returns exits {block|'ret'|'back': [states]}"""
        exits = {}
        pend = {k: list(v) for k, v in pending.items()}
        for blk in b.rpo:
            if blk not in scope or blk not in pend:
                continue
            states = pend.pop(blk)
            states = self.prune(b, fid, blk, states)
            states = self.limit(b, fid, blk, states)
            if not states:
                continue
            if blk in b.loops and blk != head:
                ex = self.exec_loop(b, fid, blk, states)
                for t, ss in ex.items():
                    if t in scope and t != head:
                        pend.setdefault(t, []).extend(ss)
                    elif t == head:
                        exits.setdefault("back", []).extend(ss)
                    else:
                        exits.setdefault(t, []).extend(ss)
                continue
            for s in states:
                for t, s2 in self.exec_block(b, fid, blk, s):
                    if t == "ret":
                        exits.setdefault("ret", []).append(s2)
                    elif t == head:
                        exits.setdefault("back", []).append(s2)
                    elif t in scope:
                        pend.setdefault(t, []).append(s2)
                    else:
                        exits.setdefault(t, []).append(s2)
        return exits

    def prune(self, b, fid, blk, states):
        live = b.live[blk]
        for s in states:
            for r in [r for r in s.mem if r[0] == "L" and r[1] == fid and r[2] not in live and r[2] not in b.addr]:
                if r[2] != 0 or 0 not in live:
                    del s.mem[r]
            for l in b.dropflags:
                s.mem.pop(("L", fid, l), None)
        return states

    def exec_loop(self, b, fid, head, states):
        states = self.limit(b, fid, head, states, 4)
        total = {}
        for s in states:
            for t, ss in self.exec_loop1(b, fid, head, s).items():
                total.setdefault(t, []).extend(ss)
        return total

    def exec_loop1(self, b, fid, head, st):
        if self.loopcut is not None and not self.incut and self.loopcut(b, head):
            return self.exec_cut(b, fid, head, st)
        return self.exec_loopn(b, fid, head, st)

    def exec_cut(self, b, fid, head, st):
        """one arbitrary iteration: everything the loop may change is replaced by a fresh symbol"""
        log0 = len(self.log)
        c0 = self.cutcalls
        self.incut = True
        probe = {}
        try:
            ex = self.exec_loopn(b, fid, head, st.copy(), probe)
        finally:
            self.incut = False
        if self.cutcalls == c0:
            return ex
        del self.log[log0:]
        changed = [r for r, v in st.mem.items() if probe["inv"].mem.get(r) is not v]
        changed += [r for r in probe["inv"].mem if r not in st.mem]
        s0 = st.copy()
        s0.facts = dict(probe["inv"].facts)
        s0.ev, s0.fa = probe["inv"].ev, probe["inv"].fa
        self.incut = True
        syms = {}
        for r in list(s0.mem):
            if r not in probe["inv"].mem:
                del s0.mem[r]
        for r in changed:
            if r not in probe["inv"].mem:
                continue
            if r[0] == "L" and r[1] == fid:
                name = "acc:%s" % (b.names.get(r[2]) or "_%d" % r[2])
            else:
                name = "acc:%s" % (r,)
            syms[r] = S(name)
            s0.mem[r] = syms[r]
        try:
            ex = self.exec_blocks(b, fid, b.loops[head], head, {head: [s0]}, head)
        finally:
            self.incut = False
        backs = ex.pop("back", [])
        self.cuts.append({"body": b.key, "head": head, "init": st, "syms": syms, "backs": backs, "fid": fid})
        return ex

    def exec_loopn(self, b, fid, head, st, probe=None):
        scope = b.loops[head]
        inv = st
        site = (fid, head)
        log0 = len(self.log)
        sites = set()
        self.loopstack.append(sites)
        self.loophead.append(site)
        self.advances[id(sites)] = set()
        self.entrymem[id(sites)] = set(st.mem)
        self.keep.append(sites)
        try:
            for it in range(12):
                del self.log[log0:]
                ex = self.exec_blocks(b, fid, scope, head, {head: [inv.copy()]}, head)
                backs = ex.pop("back", [])
                if probe is not None:
                    probe["inv"] = inv
                if not backs:
                    return ex
                new = self.widen(inv, st, backs, site, sites, it)
                if new is None:
                    return self.cut_short(ex, site, sites, st)
                inv = new
            raise Budget("loop did not stabilise: %s bb%d" % (b.key, head))
        finally:
            self.loopstack.pop()
            self.loophead.pop()

    def cut_short(self, ex, site, sites, entry):
        """a loop left before its iterator is exhausted may not have made every addition it makes per iteration"""
        parts = {n for n in self.loop_each.get(site, ()) if n.op in ("each", "all")}
        if not parts or not sites:
            return ex
        m = {n: mk("may", frozenset([n])) for n in parts}
        for ss in ex.values():
            for s in ss:
                if any(s.facts.get(mk("done", x)) == 1 for x in sites):
                    continue
                for r, v in list(s.mem.items()):
                    if entry.mem.get(r) is not v and tm.find(v, lambda y: y in parts):
                        s.mem[r] = tm.replace(v, m)
        return ex

    # loop widening, shared by MIR loops and modelled iterator consumers
    def widen(self, inv, entry, backs, site, sites, it):
        """None if inv already covers every back state, else the widened state"""
        def mine(t):
            return any(x.a[0] in sites for x in t.ixs)
        facts = dict(inv.facts)
        drop = [t for t in facts if mine(t) or (t.op == "done" and t.a[0] in sites)]
        for t in drop:
            del facts[t]
        fa_back = None
        ev_back = None
        for s in backs:
            own = set()
            for t, v in s.facts.items():
                if mine(t):
                    own.add((t, v))
            ev = frozenset(e for e in s.ev if mine(e) or e.op == "each")
            for e in list(s.fa):
                t = e[0]
                if mine(t):
                    # inner loop's universal facts count only when that loop was exhausted
                    own.add(e)
            fa_back = own if fa_back is None else fa_back & own
            ev_back = ev if ev_back is None else ev_back & ev
            sf = {t: v for t, v in s.facts.items() if not mine(t) and not (t.op == "done" and t.a[0] in sites)}
            facts = self.join_facts(facts, sf)
        fa0 = frozenset(e for e in inv.fa if not mine(e[0]))
        first = it == 0
        self.late = it >= 3
        if first:
            self.loop_each.pop(site, None)
        old_fa = frozenset(e for e in inv.fa if mine(e[0]))
        nfa = frozenset(fa_back or ())
        fa = fa0 | (nfa if first else (nfa & old_fa))
        for s in backs:
            fa = frozenset(e for e in fa if mine(e[0]) or e in s.fa)
        old_ev = frozenset(e for e in inv.ev if mine(e))
        ev0 = frozenset(e for e in inv.ev if not mine(e))
        for s in backs:
            ev0 = ev0 & s.ev
        ev = ev0 | ((ev_back or frozenset()) if first else (ev_back or frozenset()) & old_ev)
        mem = {}
        self.unsure = any(tm.has_top(t) for s in backs for t in s.facts)
        if first:
            self.omits.pop(site, None)
        for r, v in inv.mem.items():
            vs = []
            okk = True
            for s in backs:
                w = s.mem.get(r)
                if w is None:
                    if r[0] == "D":
                        w = r[1]
                    else:
                        okk = False
                        break
                vs.append(w)
            if not okk:
                continue
            mem[r] = self.widen_val(v, vs, site, r, ())
        for s in backs:
            for r, w in s.mem.items():
                if r[0] == "D" and r not in inv.mem:
                    mem[r] = self.widen_val(r[1], [s2.mem.get(r, r[1]) for s2 in backs], site, r, ())
        new = State(mem, facts, ev, fa)
        if new.facts == inv.facts and new.ev == inv.ev and new.fa == inv.fa and new.mem == inv.mem:
            # what one finished iteration may look like, as a disjunction of its facts about the element
            dnf = {frozenset((t, v) for t, v in s.facts.items() if mine(t)) for s in backs}
            for x in self.advances.get(id(sites), ()):
                self.iters.setdefault(x, set()).update(dnf)
                self.loops.setdefault(x, []).append((inv, entry, backs))
                if site in self.omits:
                    self.omits[x] = self.omits[site]
            return None
        return new

    def widen_val(self, v, vs, site, root, path):
        ws = [w for w in vs if w is not v]
        if not ws:
            return v
        # struct-wise
        if v.op == "agg" and all(w.op == "agg" and w.a[:2] == v.a[:2] and len(w.a[2]) == len(v.a[2]) for w in ws) \
                and not (tm.ISENUM.get(v.a[0]) and False):
            return mk("agg", v.a[0], v.a[1], tuple(
                self.widen_val(x, [w.a[2][i] for w in vs], site, root, path + (i,)) for i, x in enumerate(v.a[2])))
        bases = {(w.a[0] if w.op == "upd" else w) for w in ws} | {v.a[0] if v.op == "upd" else v}
        if len(bases) == 1:
            base = next(iter(bases))
            names = set()
            for w in ws + [v]:
                if w.op == "upd":
                    names |= {n for n, _ in w.a[1]}
            r = base
            for n in sorted(names):
                r = upd(r, n, self.widen_val(fld(v, n), [fld(w, n) for w in vs], site, root, path + (n,)))
            return r
        if all(self.seqlike(w, v) for w in ws):
            r = v
            must = None
            for w in ws:
                (bv, pv), (bw, pw) = seq_of(v), self.seq_from(w, v)
                extra = pw[len(pv):]
                ex = [x for x in extra if x.op != "may"]
                must = ex if must is None else [x for x in must if x in ex]
            if len(ws) != len(vs):
                must = []
            if len(ws) != len(vs) or any(len(self.seq_from(w, v)[1]) <= len(seq_of(v)[1]) for w in ws):
                self.omits[site] = mk("partial", "omit", S("?")) if self.unsure else mk("partial", "omit")
            b0, p0 = seq_of(v)
            eachp = []
            mayp = set()
            prev = {x.a[0] for x in p0 if x.op == "each"}
            for x in must or []:
                y = x if x.op == "each" else mk("each", x)
                n = tm.norm_part(y)
                if not (n in p0 and n in self.loop_each.get(site, ())) and y not in eachp:
                    eachp.append(y)
            for w in ws:
                for x in self.seq_from(w, v)[1][len(p0):]:
                    if x in (must or []):
                        continue
                    if x.op == "may":
                        mayp |= x.a[0]
                    else:
                        if self.late and v.op == "seq" and tm.mentions(x, v):
                            # an entry computed from the list itself would grow for ever
                            x = tm.replace(x, {v: mk("hv", "list", path, S(str(site)))})
                        mayp.add(x)
            for x in p0:
                if x.op == "may":
                    mayp -= x.a[0]
            parts = list(p0)
            # an `each` recorded earlier that is no longer pushed on every back edge becomes `may`
            still = {tm.norm_part(y if y.op == "each" else mk("each", y)) for y in (must or [])}
            nparts = []
            for x in parts:
                if x in self.loop_each.get(site, ()) and x not in still:
                    # described an earlier, narrower invariant: the parts added from the current
                    # invariant (must or may) cover every iteration including the first
                    pass
                else:
                    nparts.append(x)
            for y in eachp:
                n = tm.norm_part(y)
                nparts.append(n)
                self.loop_each.setdefault(site, set()).add(n)
            if mayp:
                for i, x in enumerate(nparts):
                    if x.op == "may":
                        nparts[i] = mk("may", x.a[0] | frozenset(mayp))
                        break
                else:
                    nparts.append(mk("may", frozenset(mayp)))
            return mkseq(b0, tuple(nparts))
        if v.op == "cset" or any(w.op == "cset" for w in ws):
            # in-place element updates: keep the base, remember the update as a per-iteration one
            pass
        key = mk("lv", (site, root), path_str(path))
        if v is key:
            info = self.lv[key]
            info["back"] |= set(vs)
            inc = mk("add", *sorted((key, K1), key=lambda t: t.id))
            if info["init"] is K0 and all(w is inc for w in vs):
                ixsite = ("w", site, path_str(path), root)
                ix = self.new_ix(ixsite)
                self.lv[ix] = {"init": K0, "back": set(ws)}
                return ix
            return v
        if v.op == "ix" and v in self.lv:
            inc = mk("add", *sorted((v, K1), key=lambda t: t.id))
            if all(w is inc for w in vs):
                return v
        init = v if key not in self.lv else self.lv[key]["init"]
        self.lv.setdefault(key, {"init": init, "back": set()})["back"] |= set(ws)
        return key

    def seqlike(self, w, v):
        if w.op not in ("seq",) and v.op not in ("seq",):
            return False
        (bv, pv), (bw, pw) = seq_of(v), self.seq_from(w, v)
        return bv is bw and len(pw) >= len(pv) and pw[: len(pv)] == pv

    @staticmethod
    def seq_from(w, v):
        """view of w as an extension of the sequence v (a lone `all(c)` is stored as c itself)"""
        if w.op != "seq" and v.op == "seq" and v.a[0] is None and w.op != "agg":
            return None, (mk("all", w),)
        return seq_of(w)

    def exec_block(self, b, fid, blk, st):
        """-> [(target, state)]"""
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("analysis budget exhausted in " + b.key)
        bl = b.blocks[blk]
        for s in bl["s"]:
            k = s[0]
            if k == "=":
                loc, ty = self.place(st, b, fid, s[1])
                v = self.rvalue(st, b, fid, s[2], ty)
                self.write(st, loc, v)
            elif k == "dead":
                st.mem.pop(("L", fid, s[1]), None)
            elif k == "sd":
                loc, ty = self.place(st, b, fid, s[1])
                vs = tm.VARIANTS.get(ty.get("def"), [])
                if s[2] < len(vs):
                    self.write(st, loc, mk("agg", ty["def"], vs[s[2]][0], ()))
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "switch":
            return self.exec_switch(b, fid, bl, t, st)
        if k == "assert":
            return self.exec_assert(b, fid, bl, t, st)
        if k == "call":
            if b.local:
                self.callsites += 1
            return self.exec_call(b, fid, blk, bl, t, st)
        return []

    def exec_switch(self, b, fid, bl, t, st):
        o = t[1]
        if o[0] in ("cp", "mv") and len(o[1]) == 1 and o[1][0] in b.dropflags:
            tgt = [x for v, x in t[2] if v == 0]
            return [(tgt[0] if tgt else t[3], st)]
        v = self.op(st, b, fid, o)
        v = self.snap(st, v)
        ty = self.ty(t[4])
        kv = self.known(st, v)
        if isinstance(kv, int):
            if ty.get("k") == "int" and ty.get("signed") and kv < 0:
                kv &= (1 << ty["bits"]) - 1
            for val, tgt in t[2]:
                if val == kv:
                    return [(tgt, st)]
            return [(t[3], st)]
        # matching on a union of known variants: split the value too
        out = []
        vals = [x for x, _ in t[2]]
        ph = v.a[0] if v.op == "discr" and v.a[0].op == "phi" else None
        for val, tgt in t[2]:
            if b.blocks[tgt]["t"][0] == "unreachable" and not b.blocks[tgt]["s"]:
                continue
            if ph is not None and not any(self.may_disc(st, c, val) for c in ph.a[0]):
                continue
            for s in self.assume(st.copy(), v, val):
                out.append((tgt, s))
        if not (b.blocks[t[3]]["t"][0] == "unreachable" and not b.blocks[t[3]]["s"]):
            if ty.get("k") == "bool":
                rest = [x for x in (0, 1) if x not in vals]
                for x in rest:
                    for s in self.assume(st.copy(), v, x):
                        out.append((t[3], s))
            else:
                for s in self.exclude(st.copy(), v, vals):
                    out.append((t[3], s))
        return out

    def may_disc(self, st, c, val):
        d = self.known(st, disc(c))
        return d is None or d == val

    def where(self):
        for key, loc in reversed(self.stack):
            if loc and not loc.startswith("/"):
                return loc
        return self.stack[-1][1] if self.stack else "?"

    def record(self, st, kind, name, args, loc):
        self.log.append({"kind": kind, "name": name, "args": args, "st": st.copy(), "loc": loc,
                         "where": self.local_loc(loc), "stack": tuple(k for k, _ in self.stack)})

    def local_loc(self, loc):
        if loc and not loc.startswith("/"):
            return loc
        return self.where()

    def exec_assert(self, b, fid, bl, t, st):
        c = self.snap(st, self.op(st, b, fid, t[1]))
        want = 1 if t[2] else 0
        kv = self.known(st, c)
        ops = tuple(self.snap(st, self.op(st, b, fid, x)) for x in t[4])
        if kv == want:
            return [(t[5], st)]
        if t[3] != "other":
            tys = tuple(self.opty(st, b, fid, x).get("s", "?") for x in t[4])
            if not self.discharge(st, t[3], ops, tys):
                self.record(st, "assert", t[3], ops + (c,), bl["l"])
        if kv is not None:
            return []
        return [(t[5], s) for s in self.assume(st, c, want)]

    def discharge(self, st, kind, ops, tys):
        if kind == "bounds":
            n, i = ops
            if self.known(st, LT(i, n)) == 1:
                return True
            if i.op == "k" and self.lower(st, n) > i.a[0]:
                return True
            return False
        if kind == "overflow:Sub":
            a, b = ops
            if self.known(st, LT(a, b)) == 0:
                return True
            if b.op == "k" and self.lower(st, a) >= b.a[0]:
                return True
            return False
        if kind == "overflow:Add":
            # a counter stepped by one below a collection length cannot wrap
            a, b = ops
            for x, y in ((a, b), (b, a)):
                if y is K1 and x.op == "ix":
                    return True
                if y.op == "k" and x.op in ("len", "ix"):
                    return True
            hi = [self.upper(st, x) for x in ops]
            bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}.get(tys[0])
            if bits and None not in hi and sum(hi) < (1 << bits):
                return True
            return False
        if kind == "overflow:Mul":
            hi = [self.upper(st, x) for x in ops]
            bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}.get(tys[0])
            return bool(bits and None not in hi and hi[0] * hi[1] < (1 << bits))
        if kind == "divzero":
            return ops[0].op == "k" and ops[0].a[0] != 0 or self.known(st, EQ(ops[0], K0)) == 0
        return False

    def lower(self, st, t):
        v = self.known(st, t)
        if isinstance(v, int):
            return v
        lo = 0
        f = st.facts.get(t)
        if isinstance(f, frozenset):
            while lo in f:
                lo += 1
        for ft, fv in st.facts.items():
            if ft.op == "lt" and fv == 1 and ft.a[1] is t and ft.a[0].op == "k":
                lo = max(lo, ft.a[0].a[0] + 1)
            if ft.op == "lt" and fv == 0 and ft.a[0] is t and ft.a[1].op == "k":
                lo = max(lo, ft.a[1].a[0])
        return lo

    def upper(self, st, t):
        v = self.known(st, t)
        if isinstance(v, int):
            return v
        if t.op in ("len", "ix"):
            return (1 << 62)
        hi = None
        for ft, fv in st.facts.items():
            if ft.op == "lt" and fv == 1 and ft.a[0] is t and ft.a[1].op == "k":
                hi = min(hi, ft.a[1].a[0] - 1) if hi is not None else ft.a[1].a[0] - 1
            if ft.op == "lt" and fv == 0 and ft.a[1] is t and ft.a[0].op == "k":
                hi = min(hi, ft.a[0].a[0]) if hi is not None else ft.a[0].a[0]
        if t.op == "cast" and t.a[0].startswith("u"):
            hi2 = (1 << int(t.a[0][1:])) - 1
            hi = hi2 if hi is None else min(hi, hi2)
        if t.op in ("add", "mul"):
            a, b = self.upper(st, t.a[0]), self.upper(st, t.a[1])
            if a is not None and b is not None:
                return a + b if t.op == "add" else a * b
        if t.op == "app" and str(t.a[0]).endswith("::len"):
            return 1 << 62
        return hi

    # ---------------------------------------------------------------- calls
    def exec_call(self, b, fid, blk, bl, t, st):
        loc = bl["l"]
        args = [self.op(st, b, fid, x) for x in t[2]]
        atys = [self.opty(st, b, fid, x) for x in t[2]]
        dty = self.ty(t[5])
        site = (fid, blk)
        f = t[1]
        self.stack.append((b.key, loc))
        try:
            if f[0] == "k" and f[1]["k"] == "fn":
                res = self.call(st, f[1]["f"], args, atys, dty, site, loc)
            else:
                fv = self.op(st, b, fid, f)
                res = self.call_value(st, fv, args, site, loc, dty)
        finally:
            self.stack.pop()
        if t[4] is None:
            return []
        out, cont = [], []
        for s, v in res:
            if v is self.cont:
                cont.append((blk, s))
                continue
            dl, _ = self.place(s, b, fid, t[3])
            self.write(s, dl, v)
            out.append((t[4], s))
        if len(out) > self.CAP:
            ss = self.limit_after(b, fid, t[4], [s for _, s in out])
            out = [(t[4], s) for s in ss]
        return out + cont

    def limit_after(self, b, fid, blk, states):
        return self.limit(b, fid, blk, self.prune(b, fid, blk, states))

    def call_value(self, st, fv, args, site, loc, dty=None):
        v = fv
        while v.op == "ref":
            r = self.read(st, (v.a[0], v.a[1]))
            if r.op in ("closure", "fnitem", "ref", "phi", "ctor"):
                prev, v = v, r
            else:
                v = r
                break
        if v.op == "closure":
            body = self.p.body(v.a[0])
            if body is None:
                return self.opaque_call(st, "closure", args, [], dty, loc)
            selfref = self.ty(body.locals[1]).get("k") == "ref"
            if selfref:
                selfv = fv if (fv.op == "ref" and self.read(st, (fv.a[0], fv.a[1])) is v) else self.tmp(st, site, v, "clo")
            else:
                selfv = v
            return self.inline(st, body, [selfv] + args, site, loc)
        if v.op == "fnitem":
            f = self.p.fnitems[v.a[1]]
            atys = [{"k": "?"}] * len(args)
            return self.call(st, f, args, atys, dty or {"k": "?", "s": "?"}, site, loc)
        if v.op == "phi":
            out = []
            for c in v.a[0]:
                out += self.call_value(st.copy(), c, args, site, loc, dty)
            return out
        return [(st, mk("app", "call", self.snap(st, v), *[self.snap(st, a) for a in args]))]

    def call(self, st, f, args, atys, dty, site, loc):
        if "closure" in f:
            a = self.untuple(st, args[1]) if len(args) == 2 else args[1:]
            return self.call_value(st, args[0], a, site, loc, dty)
        if "fndef" in f:
            a = self.untuple(st, args[1]) if len(args) == 2 else args[1:]
            return self.call(st, f["fndef"], a, [{"k": "?"}] * len(a), dty, site, loc)
        if "ctor" in f:
            vs = tm.VARIANTS.get(f["ctor"])
            vn = vs[f["variant"]][0] if vs else ""
            return [(st, mk("agg", f["ctor"], vn, tuple(args)))]
        path = f["path"]
        rpath = f.get("rpath") or path
        if f.get("trait", "").startswith("core::ops::function::Fn"):
            a = self.untuple(st, args[1]) if len(args) == 2 else args[1:]
            return self.call_value(st, args[0], a, site, loc, dty)
        # hooks and watches
        w = self.watch(rpath, f)
        if w:
            sa = tuple(self.snap(st, a) for a in args)
            self.record(st, "call", w, sa, loc)
            st.ev = st.ev | {mk("call", w, *sa)}
        h = self.hooks.get(rpath) or self.hooks.get(path)
        if h is not None:
            r = h(self, st, f, args, site, loc)
            if r is not None:
                return r
        if dty.get("k") == "never" or path.startswith(("core::panicking::", "std::rt::panic", "core::option::unwrap_failed",
                                                       "core::option::expect_failed", "core::result::unwrap_failed",
                                                       "alloc::alloc::handle_alloc_error", "core::slice::index::")) \
                and dty.get("k") in ("never", "?"):
            self.record(st, "panic", rpath, tuple(self.snap(st, a) for a in args[:1]), loc)
            return []
        key = f.get("inst")
        opq = self.opaque(rpath, key)
        if not opq:
            m = self.models.get(path) or self.models.get(rpath)
            if m is None:
                m = self.generic_model(path, rpath, f)
            if m is not None:
                c = Ctx(self, f, args, atys, dty, site, loc)
                r = m(self, st, c)
                if r is not None:
                    return r
            if key is not None:
                body = self.p.body(key)
                if body is not None and sum(1 for k, _ in self.stack if k == key) < 2 and len(self.stack) < 40:
                    return self.inline(st, body, args, site, loc)
        return self.opaque_call(st, rpath, args, atys, dty, loc, f)

    def untuple(self, st, v):
        v = self.deref_val(st, v) if v.op == "ref" else v
        if v.op == "agg" and v.a[0] == "()":
            return list(v.a[2])
        return [fld(v, "0")]

    def inline(self, st, body, args, site, loc):
        fid = self.frame(site[0], site, body.key)
        for i in range(body.argc):
            st.mem[("L", fid, i + 1)] = args[i] if i < len(args) else TOP
        self.stack.append((body.key, loc))
        try:
            return self.exec_body(body, fid, st)
        finally:
            self.stack.pop()

    def opaque_call(self, st, path, args, atys, dty, loc, f=None):
        self.opaque_called[path] = self.opaque_called.get(path, 0) + 1
        sa = tuple(self.snap(st, a) for a in args)
        name = path
        if f is not None and f.get("trait"):
            # distinguish trait impls by the Self type
            ga = f.get("ga") or []
            if ga and "rpath" not in f:
                name = path
        elif f is None:
            pass
        if path in GENERIC_RET and f is not None:
            name = path + "<" + ",".join(self.ty(x)["s"] for x in f.get("ga", [])) + ">"
        for i, a in enumerate(args):
            ty = atys[i] if i < len(atys) else {}
            if a.op == "ref" and ty.get("k") == "ref" and ty.get("mut") and not pure_mut(path):
                l = (a.a[0], a.a[1])
                self.write(st, l, mk("hv", name, i, *sa))
            elif a.op != "ref" and ty.get("k") == "ref" and ty.get("mut") and not pure_mut(path):
                self.write(st, self.deref_loc(st, a), mk("hv", name, i, *sa))
            self.havoc_captures(st, a, name, sa)
        if dty.get("k") == "tuple" and not dty.get("args"):
            return [(st, UNIT)]
        return [(st, mk("app", name, *sa))]

    def havoc_captures(self, st, a, name, sa):
        if a.op == "closure":
            for c in a.a[1]:
                if c.op == "ref":
                    l = (c.a[0], c.a[1])
                    # captured by reference and handed to unknown code: anything may have been written
                    body = self.p.body(a.a[0])
                    if body is not None and writes_captures(body):
                        self.write(st, l, mk("hv", name, 99, *sa))

    # ---------------------------------------------------------------- abstract iteration for models
    def consume(self, st, site, nxt, step):
        """nxt(state)->[(state,item|None)]; step(state,item)->[(state,'c'|'b',val)]
        returns [(state, 'done', None) | (state, 'b', val)]"""
        inv = st
        log0 = len(self.log)
        sites = set()
        self.loopstack.append(sites)
        self.loophead.append(None)
        self.advances[id(sites)] = set()
        self.entrymem[id(sites)] = set(st.mem)
        self.keep.append(sites)
        try:
            for it in range(12):
                del self.log[log0:]
                outs, backs = [], []
                for s, item in nxt(inv.copy()):
                    if item is None:
                        outs.append((s, "done", None))
                        continue
                    if item == "skip":
                        backs.append(s)
                        continue
                    for s2, c, v in step(s, item):
                        if c == "c":
                            backs.append(s2)
                        else:
                            outs.append((s2, "b", v))
                if not backs:
                    return outs
                new = self.widen(inv, st, backs, site, sites, it)
                if new is None:
                    return outs
                inv = new
            raise Budget("iterator model did not stabilise")
        finally:
            self.loopstack.pop()
            self.loophead.pop()

    # ---------------------------------------------------------------- entry
    def loop_kind(self, site):
        """(may leave elements out, runs backwards)"""
        part, rev = False, False
        while True:
            part = part or site in self.partial
            rev ^= site in self.reversed
            if not isinstance(site, tuple) or not site:
                return part, rev
            site = site[0]

    def run(self, key, args=None, assume=(), names=None, pre=None):
        """interpret body `key`; args default to symbols named after the parameters.
        returns [(state, retval snapshot)]"""
        b = self.p.body(key)
        if b is None:
            raise KeyError("no body for " + key)
        st = State()
        fid = self.frame(0, "entry", key)
        vals = []
        for i in range(b.argc):
            if args is not None and i < len(args) and args[i] is not None:
                v = args[i]
            else:
                v = S(b.argnames.get(i + 1, "arg%d" % i))
            vals.append(v)
            st.mem[("L", fid, i + 1)] = v
        sts = [st]
        for t, v in assume:
            n = []
            for s in sts:
                n += self.assume(s, t, v) if not isinstance(v, frozenset) else self.exclude(s, t, v)
            sts = n
        if pre:
            for s in sts:
                pre(self, s)
        out = []
        self.stack.append((key, b.span))
        try:
            for s in sts:
                for s2, v in self.exec_body(b, fid, s):
                    out.append((s2, self.snap(s2, v)))
        finally:
            self.stack.pop()
        return out

    def content(self, st, t):
        """value now behind parameter symbol t"""
        return self.snap(st, self.rd_root(st, ("D", t)))


class Ctx:
    __slots__ = ("e", "f", "args", "atys", "dty", "site", "loc")

    def __init__(self, e, f, args, atys, dty, site, loc):
        self.e, self.f, self.args, self.atys, self.dty, self.site, self.loc = e, f, args, atys, dty, site, loc

    def ga(self, i):
        g = self.f.get("ga") or []
        return self.e.ty(g[i]) if i < len(g) else {"k": "?", "s": "?"}


GENERIC_RET = {"core::convert::TryFrom::try_from", "core::str::traits::FromStr::from_str",
               "core::default::Default::default", "core::convert::From::from", "core::convert::Into::into",
               "core::convert::TryInto::try_into"}

PURE_MUT = ("bitcoin::crypto::sighash::SighashCache",)


def pure_mut(path):
    p = path.lstrip("<")
    return any(x in p for x in PURE_MUT)


_wc = {}


def writes_captures(body):
    """does a closure body contain a write or &mut through its captures"""
    r = _wc.get(body.key)
    if r is None:
        r = False
        for bl in body.blocks:
            for s in bl["s"]:
                if s[0] == "=":
                    if s[1][0] == 1 and len(s[1]) > 1:
                        r = True
                    if s[2][0] in ("ref", "raw") and s[2][1] and s[2][2][0] == 1:
                        r = True
        _wc[body.key] = r
    return r


def path_str(p):
    return ".".join(str(x) for x in p)

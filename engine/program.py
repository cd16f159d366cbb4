"""Loads a MIR dump and precomputes control-flow facts (loops, liveness) per body."""
import json
import re

from . import terms as tm


class Body:
    pass


def strip_gen(p):
    return p


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        if d.get("truncated"):
            raise RuntimeError("MIR dump truncated")
        tm.reset_types()
        self.types = d["types"]
        self.items = d["items"]
        self.bodies = {}
        self.raw = {}
        for b in d["bodies"]:
            self.raw[b["key"]] = b
        for t in self.types:
            if t.get("k") == "adt":
                self._adt(t["def"], t.get("vs", []), t.get("ds"), t.get("enum"))
        for it in self.items:
            if it["kind"] in ("Struct", "Enum") and it.get("variants") is not None:
                ds = None
                ti = it.get("ty")
                if ti is not None:
                    ds = self.types[ti].get("ds")
                self._adt(it["path"], [{"n": v["n"], "f": [x["n"] for x in v["f"]]} for v in it["variants"]], ds,
                          it["kind"] == "Enum")
        self.item = {}
        for it in self.items:
            self.item.setdefault(it["path"], []).append(it)
        self.consts = {}
        for it in self.items:
            if it["kind"].startswith("Const") and it.get("val"):
                self.consts[it["path"]] = it["val"].get("v")
        self.derived = {it['path'] for it in self.items if it.get('derived') and it['kind'] == 'AssocFn'}
        self.fnitems = []
        self._fnidx = {}

    def _adt(self, d, vs, ds, enum):
        if d in tm.VARIANTS and len(tm.VARIANTS[d]) >= len(vs):
            return
        if not vs:
            return
        tm.ISENUM[d] = bool(enum)
        tm.VARIANTS[d] = [(v["n"], (ds[i] if ds and i < len(ds) else i)) for i, v in enumerate(vs)]
        for v in vs:
            tm.FIELDS[(d, v["n"])] = v["f"]

    def fnitem(self, f):
        k = json.dumps(f, sort_keys=True)
        i = self._fnidx.get(k)
        if i is None:
            i = len(self.fnitems)
            self.fnitems.append(f)
            self._fnidx[k] = i
        return tm.mk("fnitem", f.get("rpath") or f["path"], i)

    def find_fn(self, path=None, self_ty=None, trait=None, name=None):
        """items of kind Fn/AssocFn by (path) or by (self type, trait, method name)"""
        out = []
        for it in self.items:
            if it["kind"] not in ("Fn", "AssocFn"):
                continue
            if path is not None and it["path"] != path:
                continue
            if name is not None and it["path"].split("::")[-1] != name:
                continue
            if self_ty is not None and it.get("self") != self_ty:
                continue
            if trait is not None and (it.get("trait_ref") or "") .find(trait) < 0:
                continue
            if trait is None and path is None and it.get("trait"):
                continue
            out.append(it)
        return out

    def body(self, key):
        b = self.bodies.get(key)
        if b is None:
            r = self.raw.get(key)
            if r is None:
                return None
            b = self._prep(r)
            self.bodies[key] = b
        return b

    # ---- preparation ----
    def _prep(self, r):
        b = Body()
        b.key = r["key"]
        b.path = r["path"]
        b.local = r["local"]
        b.argc = r["argc"]
        b.locals = r["locals"]
        b.blocks = r["blocks"]
        b.span = r["span"]
        b.closure = r.get("closure")
        b.parent = r.get("parent")
        b.generic = r.get("generic")
        b.argnames = {}
        b.names = {}
        for n, pl in r["names"]:
            if len(pl) == 1:
                b.names[pl[0]] = n
                if 1 <= pl[0] <= b.argc:
                    b.argnames[pl[0]] = n
        n = len(b.blocks)
        b.succ = []
        for bl in b.blocks:
            b.succ.append([x for x in succs(bl["t"]) if x is not None])
        # reachable, RPO
        order = []
        seen = set()
        stack = [(0, iter(b.succ[0]))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(b.succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        b.rpo = order
        pos = {x: i for i, x in enumerate(order)}
        b.pos = pos
        preds = {x: [] for x in order}
        for x in order:
            for y in b.succ[x]:
                preds[y].append(x)
        b.preds = preds
        # dominators
        dom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in order[1:]:
                ps = [p for p in preds[x] if p in dom]
                if not ps:
                    continue
                nd = ps[0]
                for p in ps[1:]:
                    u, v = nd, p
                    while u != v:
                        while pos[u] > pos[v]:
                            u = dom[u]
                        while pos[v] > pos[u]:
                            v = dom[v]
                    nd = u
                if dom.get(x) != nd:
                    dom[x] = nd
                    ch = True
        b.dom = dom

        def dominates(a, x):
            while True:
                if x == a:
                    return True
                if x == 0:
                    return False
                x = dom[x]
        loops = {}
        for x in order:
            for y in b.succ[x]:
                if pos[y] <= pos[x] and dominates(y, x):
                    L = loops.setdefault(y, {y})
                    st = [x]
                    while st:
                        z = st.pop()
                        if z in L:
                            continue
                        L.add(z)
                        st.extend(preds[z])
        b.loops = loops
        self._liveness(b)
        self._dropflags(b)
        return b

    def _dropflags(self, b):
        live_stmt = set()
        nonconst = set()
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "live":
                    live_stmt.add(s[1])
                if s[0] == "=" and len(s[1]) == 1:
                    rv = s[2]
                    if not (rv[0] == "use" and rv[1][0] == "k" and rv[1][1]["k"] == "int"):
                        nonconst.add(s[1][0])
            t = bl["t"]
            if t[0] == "call" and len(t[3]) == 1:
                nonconst.add(t[3][0])
        named = set(b.names)
        # a drop flag's only uses are switches
        uses = set()

        def op(o):
            if o[0] in ("cp", "mv"):
                uses.add(o[1][0])
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "=":
                    for x in s[2]:
                        if isinstance(x, list) and x and x[0] in ("cp", "mv") and isinstance(x[1], list):
                            op(x)
                        elif s[2][0] in ("ref", "raw", "discr") and isinstance(x, list):
                            uses.add(x[0])
                    if s[2][0] == "agg":
                        for x in s[2][2]:
                            op(x)
            t = bl["t"]
            if t[0] == "call":
                op(t[1])
                for x in t[2]:
                    op(x)
            if t[0] == "assert":
                op(t[1])
        b.dropflags = {i for i, ty in enumerate(b.locals) if i > b.argc and self.types[ty].get("k") == "bool"
                       and i not in live_stmt and i not in nonconst and i not in named and i not in uses}

    def _liveness(self, b):
        n = len(b.blocks)
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        addr = set()

        def u(i, l):
            if l not in de[i]:
                use[i].add(l)

        def uplace(i, p):
            u(i, p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i":
                    u(i, e[1])

        def op(i, o):
            if o[0] in ("cp", "mv"):
                uplace(i, o[1])

        def dplace(i, p):
            if len(p) == 1:
                de[i].add(p[0])
            else:
                uplace(i, p)
        for i in b.rpo:
            bl = b.blocks[i]
            for s in bl["s"]:
                if s[0] == "=":
                    rv = s[2]
                    k = rv[0]
                    if k in ("use", "repeat"):
                        op(i, rv[1])
                    elif k in ("ref", "raw"):
                        uplace(i, rv[2])
                        if "*" not in rv[2]:
                            addr.add(rv[2][0])
                    elif k == "cast":
                        op(i, rv[2])
                    elif k == "bin":
                        op(i, rv[2])
                        op(i, rv[3])
                    elif k == "un":
                        op(i, rv[2])
                    elif k == "discr":
                        uplace(i, rv[1])
                    elif k == "agg":
                        for x in rv[2]:
                            op(i, x)
                    dplace(i, s[1])
                elif s[0] == "sd":
                    uplace(i, s[1])
            t = bl["t"]
            if t[0] == "switch":
                op(i, t[1])
            elif t[0] == "call":
                op(i, t[1])
                for x in t[2]:
                    op(i, x)
                dplace(i, t[3])
            elif t[0] == "assert":
                op(i, t[1])
                for x in t[4]:
                    op(i, x)
            elif t[0] == "ret":
                u(i, 0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in reversed(b.rpo):
                o = set()
                for y in b.succ[i]:
                    o |= live[y]
                nl = use[i] | (o - de[i])
                if nl != live[i]:
                    live[i] = nl
                    ch = True
        b.live = live
        b.addr = addr


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]]
    if k == "assert":
        return [t[5]]
    return []

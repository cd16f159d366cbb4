"""Decision tables: every state of a run must give the result the table demands for every row it is consistent with."""
import re
from engine import terms as tm
from .lib import *


def cstr(t):
    return re.sub(r"i#\d+", "*", tm.show(t))


def wholes(t):
    """texts of the subterms of t that are used as a whole, not through one of their fields"""
    out = set()

    def go(x, under):
        if not under:
            out.add(cstr(x))
        if x.op == "fld":
            b = x.a[0]
            go(b, True)
            return
        for y in x.a:
            sub(y)

    def sub(y):
        if isinstance(y, tm.T):
            go(y, False)
        elif isinstance(y, (tuple, frozenset)):
            for z in y:
                sub(z)
    go(t, False)
    return out


class Lit:
    """one condition: any of the alternative texts of a term has a value in `vals`; `atoms`: what it is about"""

    def __init__(self, alts, vals, atoms=()):
        self.alts = [alts] if isinstance(alts, str) else list(alts)
        self.vals = {vals} if isinstance(vals, (int, bool)) else set(vals)
        self.atoms = tuple(atoms)

    def value(self, fd):
        for a in self.alts:
            v = fd.get(a)
            if v is None:
                continue
            if isinstance(v, frozenset):
                if self.vals <= v:
                    return False
            else:
                return v in self.vals
        return None


def eqs(*pairs):
    """texts of a == b for every pair, in both orders"""
    out = []
    for a, b in pairs:
        out += ["eq(%s, %s)" % (a, b), "eq(%s, %s)" % (b, a)]
    return out


def factdict(s):
    return {cstr(t): v for t, v in s.facts.items()}


def related(s, fd, lits, known):
    """facts outside the table's vocabulary that may settle one of the undetermined conditions"""
    out = []
    for t, v in s.facts.items():
        c = cstr(t)
        if c in known or t.op == "done" or (t.op == "len"):
            continue
        if tm.has_top(t):
            out.append(c)
            continue
        w = None
        for l in lits:
            if not l.atoms:
                continue
            w = w if w is not None else wholes(t)
            if all(a in w for a in l.atoms):
                out.append(c)
                break
    return out


def decide(ctx, e, pre, rule, states, rows, w):
    """states: [(state, result)]; rows: [(name, [Lit], expect(state, result) -> True/False/None, text)]"""
    known = {a for _, ls, _, _ in rows for l in ls for a in l.alts}
    res = {}
    for s, v in states:
        fd = factdict(s)
        for name, ls, expect, text in rows:
            vs = [l.value(fd) for l in ls]
            if False in vs:
                continue
            r = expect(s, v)
            if r is True:
                res.setdefault(name, (True, ""))
                continue
            det = "%s: the result is %s%s" % (text, tm.show(v)[:200] if v is not None else "acceptance", (
                "" if None not in vs else " although nothing on the path settles whether " + "; ".join(
                    l.alts[0] for l, x in zip(ls, vs) if x is None))[:300])
            if r is False and None in vs:
                rel = related(s, fd, [l for l, x in zip(ls, vs) if x is None], known)
                if rel or e.joins:
                    r, det = None, det + " (other conditions on the path: %s)" % rel[:3]
            if r is False or res.get(name, (True,))[0] is True:
                if res.get(name, (True,))[0] is not False:
                    res[name] = (r, det)
    for name, ls, expect, text in rows:
        r = res.get(name)
        if r is None:
            ctx.check(None, "%s:%s" % (pre, name), rule, w, "no path is consistent with: " + text)
        else:
            ctx.check(r[0], "%s:%s" % (pre, name), rule, w, r[1])

"""C10 parsing arbitrary bytes never panics nor allocates by an unchecked count, C11 formatting never panics."""
import re
from engine.check import prop
from engine import terms as tm
from engine.ai import Engine, Budget
from engine.terms import fld, disc, mk, length, K
from .lib import *
from .table import cstr

MAXALLOC = 4_000_000          # bitcoin's MAX_VEC_SIZE
BAD = ("assert", "panic", "unwrap")
SMALL = list(range(0, 140)) + [255, 256, 257, 1023, 1024, 1025, 65535, 65536, MAXALLOC - 1, MAXALLOC, MAXALLOC + 1,
                               2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1]
# external parsers that fail on some inputs
FALLIBLE = ("from_slice", "deserialize", "deserialize_partial", "consensus_decode", "decode", "try_from", "try_into", "from_consensus",
            "from_str", "from_hex", "from_bytes", "read_exact", "read_u8", "read_to_limit", "from_sighash", "parse", "from_u32",
            "decode_slice", "add_leaf_with_ver", "checked_add", "checked_sub", "checked_mul", "from_standard", "verify_taproot_commitment")
# fixed sizes of array-like conversion targets
SIZES = {"Fingerprint": 4, "ChainCode": 32}


def num(t, env):
    """value of a numeric term for the given atoms (mathematical integers) | None"""
    if t in env:
        return env[t]
    if t.op == "k":
        v = t.a[0]
        return int(v) if isinstance(v, (int, bool)) else None
    if t.op in ("add", "sub", "mul", "div", "rem", "min", "max", "shl", "shr", "band", "bor", "bxor"):
        a, b = num(t.a[0], env), num(t.a[1], env)
        if a is None or b is None:
            return None
        if t.op in ("div", "rem"):
            return None if b == 0 else a // b if t.op == "div" else a % b
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "min": lambda: min(a, b),
                "band": lambda: a & b, "bor": lambda: a | b, "bxor": lambda: a ^ b, "max": lambda: max(a, b), "shl": lambda: a << min(b, 64), "shr": lambda: a >> min(b, 64)}[t.op]()
    if t.op == "cast" and isinstance(t.a[1], tm.T):
        r = num(t.a[1], env)
        m = re.match(r"u(\d+)$", str(t.a[0]))
        return r & (2 ** int(m.group(1)) - 1) if m and r is not None else r
    if t.op in ("lt", "eq"):
        a, b = num(t.a[0], env), num(t.a[1], env)
        if a is None or b is None:
            return None
        return int(a < b) if t.op == "lt" else int(a == b)
    if t.op == "not":
        a = num(t.a[0], env)
        return None if a is None else 1 - a
    if t.op in ("and", "or"):
        vs = [num(x, env) for x in t.a]
        if t.op == "and":
            return 0 if 0 in vs else None if None in vs else 1
        return 1 if 1 in vs else None if None in vs else 0
    if t.op == "len" and t.a[0].op == "slice":
        x, lo, hi = t.a[0].a[0], t.a[0].a[1], t.a[0].a[2]
        a = num(lo, env) if isinstance(lo, tm.T) else 0
        if hi is None or (isinstance(hi, tm.T) and (hi is tm.UNIT or hi.op == "agg")):
            b = num(length(x), env)
        else:
            b = num(hi, env) if isinstance(hi, tm.T) else hi
        return None if a is None or b is None else b - a
    if t.op == "ovf":
        op, x, y = t.a[0], num(t.a[1], env), num(t.a[2], env)
        if x is None or y is None:
            return None
        r = {"sub": x - y, "add": x + y, "mul": x * y}.get(op)
        return None if r is None else int(r < 0 or r >= 2 ** 64)
    return None


def atoms(t, out=None):
    """maximal sub-terms `num` cannot open"""
    out = {} if out is None else out
    if t.op == "k":
        return out
    if t.op in ("add", "sub", "mul", "div", "rem", "min", "max", "lt", "eq", "not", "and", "or", "shl", "shr", "band", "bor", "bxor"):
        for x in t.a:
            atoms(x, out)
    elif t.op == "cast" and isinstance(t.a[1], tm.T):
        atoms(t.a[1], out)
    elif t.op == "ovf":
        atoms(t.a[1], out)
        atoms(t.a[2], out)
    elif t.op == "len" and t.a[0].op == "slice":
        for y in t.a[0].a[1:]:
            if isinstance(y, tm.T) and y is not tm.UNIT and y.op != "agg":
                atoms(y, out)
        atoms(length(t.a[0].a[0]), out)
    else:
        out[t] = 1
    return out


def is_consumed(x, of):
    """number of bytes a partial parse of `of` reports as consumed: at most its length"""
    return x.op == "fld" and x.a[1] == "1" and x.a[0].op == "fld" and any(
        len(c.a) > 1 and (of is None or c.a[1] is of) for c in [x.a[0].a[0]] if c.op == "app" and
        fname(c).endswith("deserialize_partial"))


def envs(facts, ats):
    """assignments to the atoms that satisfy every fact that can be evaluated on them"""
    import itertools
    ats = list(ats)
    dom = SMALL if len(ats) <= 1 else [v for v in SMALL if v < 70 or v > 1000][:90]
    fs = []
    for t, v in facts.items():
        a = atoms(t)
        if a and all(x in ats for x in a):
            fs.append((t, v))
    for vals in itertools.product(dom, repeat=len(ats)):
        env = dict(zip(ats, vals))
        good = True
        for x in ats:      # consumed <= length of what was parsed
            if is_consumed(x, None):
                n = env.get(length(x.a[0].a[0].a[1]))
                if env[x] < 1 or n is not None and env[x] > n:
                    good = False
        for t, v in fs:
            if not good:
                break
            r = num(t, env)
            if r is None:
                continue
            if (r in v) if isinstance(v, frozenset) else (r != v):
                good = False
        if good:
            yield env


def fails_when(l):
    """(condition terms, f(env) -> does the assertion fail) of a logged assertion | None"""
    n, a = str(l["name"]), l["args"] or ()
    T = [x for x in a if isinstance(x, tm.T)]
    if n.startswith("overflow:") and len(T) >= 2:
        op = n.split(":")[1]

        def f(env):
            x, y = num(T[0], env), num(T[1], env)
            if x is None or y is None:
                return None
            r = {"Sub": x - y, "Add": x + y, "Mul": x * y}.get(op)
            return None if r is None else r < 0 or r >= 2 ** 64
        return T[:2], f
    if n == "bounds" and len(T) >= 2:
        def f(env):
            x, y = num(T[0], env), num(T[1], env)
            return None if x is None or y is None else y < 0 or y >= x
        return T[:2], f
    if n == "slice" and len(T) >= 3:
        hi_open = T[2] is tm.UNIT or T[2].op == "agg"

        def f(env):
            x, lo = num(T[0], env), num(T[1], env)
            hi = x if hi_open else num(T[2], env)
            if x is None or lo is None or hi is None:
                return None
            return lo < 0 or lo > hi or hi > x
        return (T[:2] if hi_open else T[:3]), f
    if n in ("div", "rem", "divzero") or n.startswith(("div", "rem")):
        if T:
            return T[-1:], lambda env: (lambda v: None if v is None else v == 0)(num(T[-1], env))
    return None


def feasible_fail(facts, terms, f):
    """can the assertion fail?  False: no / an assignment: yes / None: unknown"""
    ats = {}
    for t in terms:
        atoms(t, ats)
    # a consumed count is related to the length of what was parsed
    for x in list(ats):
        if is_consumed(x, None):
            ats[length(x.a[0].a[0].a[1])] = 1
    if len(ats) > 2:
        return None
    hidden = False
    for t, v in facts.items():
        a = atoms(t)
        if any(x in ats for x in a) and not all(x in ats for x in a):
            hidden = True
    some = None
    for env in envs(facts, ats):
        r = f(env)
        if r is None:
            return None
        if r and some is None:
            some = env
    if some is None:
        return False
    if hidden or any(x.op in ("lv", "phi", "top", "ix") or tm.has_top(x) for x in ats):
        return None
    return some


def cause(facts):
    """last fact about the outcome of a call or the presence of a value"""
    for t, v in reversed(list(facts.items())):
        if t.op == "discr":
            return t, v
        if t.op in ("has", "eq", "lt", "len", "not", "and", "or"):
            return t, v
    return None, None


READS = ("consensus_decode", "deserialize", "read_u8", "read_u32", "deserialize_partial", "consensus_encode_partial")


def free(x):
    """may the atom take any value? (the input's own data, or an integer read from it)"""
    if x.op == "fld":
        return free(x.a[0])
    if x.op == "app" and fname(x).split("::")[-1] in READS:
        return True
    return not tm.find(x, lambda y: y.op in ("lv", "phi", "hv", "top", "ix", "app"))


def judge(e, l):
    """True: cannot happen / False: can / None"""
    facts = l["st"].facts
    if any(tm.has_top(t) for t in facts):
        return None, "unknown values"
    fw = fails_when(l)
    if fw:
        r = feasible_fail(facts, *fw)
        if r is False:
            return True, ""
        if r is None:
            return None, "cannot be bounded"
        return False, "fails e.g. for " + ", ".join("%s = %d" % (cstr(k), v) for k, v in list(r.items())[:3])
    if l["kind"] == "assert":
        return None, "unknown assertion"
    # a panic: is it excluded by what its cause means?
    ats = {}
    for t in facts:
        if not any(x.op in ("app", "discr", "has", "sym", "fld", "done") for x in [t]):
            atoms(t, ats)
    t, v = cause(facts)
    if t is None:
        return False, "reached unconditionally"
    if t.op in ("eq", "lt", "len", "not", "and", "or"):
        a = atoms(t)
        if len(a) <= 2:
            r = next(envs(facts, a), None)
            if r is None:
                return True, ""
            if any(not free(x) for x in a):
                return None, "cannot be bounded"
            return False, "reached e.g. for " + ", ".join("%s = %d" % (cstr(k), x) for k, x in list(r.items())[:3])
        return None, "cannot be bounded"
    x = t.a[0]
    # variant of an error that the parser never returns for bytes
    if x.op == "fld" and x.a[1] == "Err.0" and x.a[0].op == "app" and fname(x.a[0]).split("::")[-1] in FALLIBLE:
        n = e.arity.get(t)
        left = {v} if isinstance(v, int) else set(range(n)) - set(v) if n else None
        if "ecdsa" in fname(x.a[0]) and left == {0}:
            return True, "parsing bytes never fails as hex"
        return (None if left is None else not left), "%s may fail with %s" % (fname(x.a[0]), left)
    if x.op == "app":
        n = fname(x)
        last = n.split("::")[-1]
        if last == "read_exact" and len(x.a) >= 3:
            src, buf = x.a[1], x.a[2]
            src = src.a[1] if src.op == "app" and fname(src).split("::")[-1] in ("new", "cursor") and len(src.a) > 1 else src
            bl = length(buf)
            r = feasible_fail(facts, [length(src), bl], lambda env: (lambda p, q: None if p is None or q is None else p < q)(
                num(length(src), env), num(bl, env)))
            if r is False:
                return True, ""
            if r is None:
                return None, "cannot be bounded"
            return False, "fails e.g. for " + ", ".join("%s = %d" % (cstr(k), v) for k, v in list(r.items())[:3])
        if last in ("try_from", "try_into") and len(x.a) >= 2 and x.a[1].op == "slice":
            want = next((z for y, z in SIZES.items() if y in x.a[0]), None)
            m = re.search(r"\[u8; (\d+)", x.a[0])
            want = int(m.group(1)) if m else want
            if want is not None:
                bl = length(x.a[1])
                r = feasible_fail(facts, [bl], lambda env: (lambda p: None if p is None else p != want)(num(bl, env)))
                if r is False:
                    return True, ""
                if r is not None:
                    return False, "the slice need not have %d bytes" % want
                return None, "cannot be bounded"
        if last in ("consensus_encode", "write_into", "write_all", "write_str", "emit_u8") and "W" != n:
            return (True, "writing to memory does not fail") if re.search(r"Vec|String|W", " ".join(x.a[0:1])) else (None, n)
        if last in FALLIBLE:
            return False, "%s fails for some input" % n
        return None, "depends on " + n
    if x.op in ("sym", "fld", "at", "kat", "mget"):
        if tm.find(x, lambda y: y.op in ("app", "lv", "phi", "hv")):
            return None, "depends on " + cstr(x)[:80]
        return False, "%s may be absent" % cstr(x)[:80]
    if t.op == "has":
        return None, "depends on the content of a map"
    return None, "depends on " + cstr(t)[:80]


def alloc_ok(l):
    """is the requested capacity bounded by a constant or by data already in memory?"""
    t = next((x for x in l["args"] or () if isinstance(x, tm.T)), None)
    if t is None or t.op == "k":
        return True if t is None or t.a[0] <= MAXALLOC else False
    facts = l["st"].facts
    for f, v in facts.items():
        if f.op == "lt" and v == 0 and f.a[0].op == "k" and f.a[1] is t and f.a[0].a[0] <= MAXALLOC:
            return True
        if f.op == "lt" and v == 1 and f.a[1].op == "k" and f.a[0] is t and f.a[1].a[0] <= MAXALLOC:
            return True
    ats = atoms(t)
    rd = [x for x in ats if tm.find(x, lambda y: y.op == "app" and fname(y).split("::")[-1] in (
        "consensus_decode", "deserialize", "deserialize_partial", "read_u8", "decode", "from_le_bytes"))]
    if t.op == "min" and any(x.op == "k" and x.a[0] <= MAXALLOC for x in t.a):
        return True
    if not rd:
        return True if all(x.op == "len" or x.op == "app" and fname(x).split("::")[-1] in ("len", "size", "size_hint") for x in ats) else None
    if all(x.op == "len" for x in rd):
        return True      # size of something already parsed into memory
    if len(ats) == 1:
        big = [env for env in envs(facts, ats) if (num(t, env) or 0) > MAXALLOC]
        return not big
    return None


def loglist(ctx, e, key, w):
    for l in e.log:
        where = "%s (analysing %s)" % (l.get("where") or l["loc"], key.split("::")[-1])
        if l["kind"] in BAD:
            r, det = judge(e, l)
            stack = [k for k in l["stack"] if "psbt_v2" in k or k.startswith("<")]
            fn = stack[-1] if stack else key
            ctx.check(r, "panic:%s" % re.sub(r"<.*?>|\|.*", "", fn).split("::")[-1] + ":" + str(l["name"]).split("::")[-1],
                      "no input reaches a panic", where, "%s in %s: %s" % (l["name"], fn[:120], det))
        elif l["kind"] == "alloc":
            r = alloc_ok(l)
            ctx.check(r, "alloc:" + key.split("::")[-1].split("<")[0], "an allocation is bounded by a constant or by data in memory", where,
                      "capacity %s is taken from the input unchecked" % tm.show(l["args"][0])[:150])


# bodies that read untrusted bytes or text
PARSE = r"Deserialize>::deserialize$|FromStr>::from_str$|raw::Key::decode::<&\[u8\]>$|raw::Pair::decode::<&\[u8\]>$|Psbt::deserialize$|" \
        r"TryFrom<(u\d+|psbt_v2::(v0::bitcoin::)?raw::Key|&.*|alloc::vec::Vec<u8>|alloc::string::String)>>::try_from$|raw::ProprietaryKey<.*Decodable>::consensus_decode|Psbt::from_unsigned_tx$"


@prop("C10", feats=("all",), thorough=("all", "common", "nostd"))
def c10(ctx):
    """Every function that turns untrusted bytes or text into a value is interpreted for arbitrary input, the record loops of
    the six maps for an arbitrary record.  Every reachable panic, failing assertion, slice or index is checked against
    the facts on its path, over the length values they admit, and every allocation size must be bounded."""
    p = ctx.prog
    runs = 0
    for m in DEC:
        if DEC[m] not in p.raw:
            continue
        d = Dec(ctx, m)
        loglist(ctx, d.e, DEC[m], d.where)
        runs += 1
        ctx.ok("run:" + m, "decoder interpreted for an arbitrary record", d.where)
    OP = opaque_names("Global::decode", "Input::decode", "Output::decode", "decode::<&[u8]>", "decode_global::<&[u8]>", "decode_global")
    for key, r in sorted(p.raw.items()):
        if " @" in key or "|" in key or "{closure" in key or "promoted[" in key or not r.get("local", True) or "serde" in key:
            continue
        if not re.search(PARSE, key) or r["path"] in p.derived:
            continue
        e = Engine(p, cap=60, opaque=(lambda path, k: False) if "raw::" in key else OP)
        w = where(p, key)
        try:
            e.run(key)
        except Budget:
            ctx.check(None, "run:" + key[-60:], "body interpreted", w, "too large")
            continue
        ctx.used(e)
        runs += 1
        loglist(ctx, e, key, w)
        ctx.ok("run:" + key[-80:], "body interpreted for arbitrary input", w)
    ctx.check(runs >= 60 or None, "entry-points", "the parsing functions are found", "", "only %d found" % runs)


FMT = r"core::fmt::(Display|Debug|LowerHex|UpperHex|Binary|Octal)>::fmt$|error::Error>::(source|cause|description)$|" \
      r"as core::convert::From<.*>>::from$|as core::convert::AsRef<.*>>::as_ref$"


@prop("C11", feats=("all",), thorough=("all", "common", "nostd"))
def c11(ctx):
    """Every formatting, error-source and conversion function of the crate is interpreted for an arbitrary value: no path
    may reach a panic, a failing assertion, slice or index."""
    p = ctx.prog
    n = 0
    for key, r in sorted(p.raw.items()):
        if " @" in key or "|" in key or "{closure" in key or "promoted[" in key or not r.get("local", True):
            continue
        if not re.search(FMT, key) or "From<!>" in key:
            continue
        e = Engine(p, cap=60)
        w = where(p, key)
        try:
            e.run(key)
        except Budget:
            ctx.check(None, "run:" + key[-80:], "body interpreted", w, "too large")
            continue
        ctx.used(e)
        n += 1
        loglist(ctx, e, key, w)
        ctx.ok("run:" + key[-100:], "body interpreted for an arbitrary value", w)
    ctx.check(n >= 100 or None, "functions", "the formatting functions are found", "", "only %d found" % n)
    ctx.count("formatting_functions", n)

"""C27 no hidden inputs and no side effects."""
import re
from engine.check import prop
from .lib import *

# callees that read or change something other than their arguments
DENY = (
    (r"^std::io::stdio::|::_print$|::_eprint$|^std::io::(stdin|stdout|stderr)", "writes to or reads from a standard stream"),
    (r"^std::fs::|^std::net::|^std::os::", "does file or network I/O"),
    (r"^std::env::(?!ArgsOs)|^std::env::", "reads the environment"),
    (r"^std::process::", "acts on the process"),
    (r"^std::thread::|^std::sync::mpsc::", "acts on threads"),
    (r"^std::time::(SystemTime|Instant)|::now$", "reads the clock"),
    (r"(^|::|<)rand(_core)?::|thread_rng|::getrandom|OsRng|^std::hash::random::RandomState.*hash_one|DefaultHasher", "uses randomness"),
    (r"^std::panic::|::set_hook$|::catch_unwind$", "changes how panics are handled"),
    (r"^core::mem::(transmute|zeroed|uninitialized|forget)|^core::intrinsics::transmute|MaybeUninit.*::assume_init|from_utf8_unchecked"
     r"|new_pointer$|from_raw_parts|::(get|unwrap)_unchecked(_mut)?$|^core::ptr::(read|write|copy|swap|replace)|^alloc::alloc::alloc", "uses memory unchecked"),
)
CELLS = re.compile(r"(Mutex|RwLock|Atomic\w*|RefCell|\bCell|UnsafeCell|LocalKey|OnceCell|OnceLock|LazyLock|LazyCell)\b")
HASHITER = re.compile(r"^std::collections::hash::(set::HashSet|map::HashMap)::<[^>]*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|union|intersection|difference)$"
                      r"|<&?('a )?(mut )?std::collections::hash::(set::HashSet|map::HashMap)<.*> as core::iter::traits::collect::IntoIterator>::into_iter$")


def own(k):
    return " @" not in k and "|" not in k


def calls(body):
    """(callee paths, source location) of every call and function value in a body"""
    for b in body["blocks"]:
        t = b["t"] if "t" in b else b.get("term")
        yield from walk(b, [None])


def walk(x, loc):
    if isinstance(x, dict):
        l = x.get("l") or loc[0]
        for key in ("path", "rpath"):
            if isinstance(x.get(key), str):
                yield x[key], (l if isinstance(l, str) else loc[0]), x
        for y in x.values():
            yield from walk(y, [l if isinstance(l, str) else loc[0]])
    elif isinstance(x, list):
        for y in x:
            yield from walk(y, loc)


@prop("C27", feats=("all", "nostd"), thorough=("all", "common", "sp", "nostd", "std"))
def c27(ctx):
    """Every call in every body of the crate is looked up in a table of functions that have effects or hidden inputs;
    statics and unsafe blocks are listed from the type-checked program."""
    p = ctx.prog
    n = seen = 0
    for k in sorted(p.raw):
        body = p.raw[k]
        if not own(k) or not body.get("local"):
            continue
        n += 1
        ctx.functions.add(k)
        w = where(p, k)
        bad = {}
        for path, loc, node in walk(body["blocks"], [None]):
            seen += 1
            for rx, what in DENY:
                if re.search(rx, path) and not path.startswith("psbt_v2"):
                    bad[(path, what)] = loc
            if HASHITER.search(path):
                exempt = "GetKey" in k
                if not exempt:
                    bad[(path, "iterates a hash table, whose order differs from run to run")] = loc
        for (path, what), loc in bad.items():
            ctx.check(None if "iterates" in what and not ordered(p, k) else False, "%s:%s" % (short(k), path.split("::")[-1]),
                      "a function of the library depends on its arguments only and changes nothing else", w, "%s (%s): %s" % (k[:150], what, path))
        if not bad:
            ctx.check(True, short(k), "a function of the library depends on its arguments only and changes nothing else", w)
    ctx.count("bodies", n)
    ctx.count("callees", seen)
    ctx.check(n > 300 or None, "bodies", "the crate's bodies are present", "", str(n))
    for it in p.items:
        if it["kind"] == "UnsafeBlock":
            ctx.check(False, "unsafe:" + it["path"], "the library contains no unsafe code", it["span"], it["path"])
        elif it["kind"].startswith("Static"):
            ty = str(it.get("ty", "")) + str(it.get("tys", ""))
            cell = bool(CELLS.search(ty))
            once = bool(re.search(r"Once|Lazy", ty))
            ctx.check(False if it.get("mutbl") or cell and not once else None if once or not ty else True, "static:" + it["path"],
                      "the library keeps no global state", it["span"], "%s: %s" % (it["path"], ty[:200]))
        elif it["kind"] in ("Fn", "AssocFn"):
            ctx.check(not it.get("unsafe"), "unsafefn:" + it["path"], "the library contains no unsafe code", it["span"], it["path"])
        elif it["kind"].startswith("Const") and CELLS.search(str(it.get("tys", ""))) and "LocalKey" in str(it.get("tys", "")):
            ctx.check(False, "static:" + it["path"], "the library keeps no global state", it["span"], it["path"])


def short(k):
    return re.sub(r"[a-z0-9_]+::", "", k)[:80]


ENDS = re.compile(r"::(push|extend|extend_from_slice|insert|append|write_all|consensus_encode|collect|next|find|fold)$")


def ordered(p, k):
    """does the body do anything with the elements for which their order matters?"""
    fam = [b for b in p.raw if own(b) and (b == k or b.startswith(k + "::{closure"))]
    return any(ENDS.search(path) and "BTree" not in path for b in fam for path, l, nd in walk(p.raw[b]["blocks"], [None]))

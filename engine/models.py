"""Abstract transfer functions for std collections, iterators and conversions."""
import re

from . import terms as tm
from .terms import (T, mk, K, K0, K1, S, UNIT, TOP, UNINIT, some, NONE, ok, err, tup, fld, upd, phi, at, kat, mget,
                    length, EQ, LT, NOT, AND, OR, disc, arith, seq_of, seq_add, mkseq, EMPTY)

MODELS = {}


def model(*paths):
    def d(f):
        for p in paths:
            MODELS[p] = f
        return f
    return d


def local_impl(c):
    r = c.f.get("rpath", "")
    return ("psbt_v2::" in r.split(" as ")[0] if " as " in r else r.startswith("psbt_v2::")) and \
        r not in c.e.p.derived


def V(e, st, a):
    """value behind a reference argument (or the argument itself)"""
    return e.deref_val(st, a) if a.op in ("ref", "phi") else e.read(st, e.deref_loc(st, a))


def SV(e, st, a):
    return e.snap(st, V(e, st, a)) if a.op == "ref" else e.snap(st, V(e, st, a))


def L(e, st, a):
    return e.deref_loc(st, a)


def subref(e, st, a, *steps):
    l = L(e, st, a)
    return mk("ref", l[0], l[1] + tuple(steps))


# ---------------------------------------------------------------- identity-like
def ident(e, st, c):
    if local_impl(c):
        return None
    return [(st, c.args[0])]


for p in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::borrow::Borrow::borrow",
          "core::borrow::BorrowMut::borrow_mut", "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut",
          "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice",
          "alloc::vec::Vec::<T, A>::into_boxed_slice", "alloc::boxed::Box::<T>::new", "alloc::boxed::Box::<T, A>::into_inner",
          "alloc::slice::<impl [T]>::into_vec", "alloc::boxed::box_assume_init_into_vec_unsafe",
          "alloc::string::String::as_str", "core::hint::must_use", "core::hint::black_box",
          "bitcoin::blockdata::script::owned::ScriptBuf::as_script", "core::mem::ManuallyDrop::<T>::new",
          "core::option::Option::<&T>::copied", "core::option::Option::<&T>::cloned", "core::convert::identity",
          "alloc::boxed::Box::<T, A>::into_boxed_slice", "core::slice::iter::Iter::<'a, T>::as_slice"):
    MODELS[p] = ident


@model("core::option::Option::<&T>::copied", "core::option::Option::<&T>::cloned",
       "core::option::Option::<&mut T>::copied", "core::option::Option::<&mut T>::cloned")
def _(e, st, c):
    v = c.args[0]
    if v.op == "agg" and v.a[1] == "Some":
        return [(st, some(V(e, st, v.a[2][0])))]
    if v.op == "phi":
        out = []
        for x in v.a[0]:
            out.append(some(V(e, st, x.a[2][0])) if x.op == "agg" and x.a[1] == "Some" else x)
        return [(st, phi(out))]
    return [(st, v)]


@model("core::slice::iter::Iter::<'a, T>::as_slice")
def _(e, st, c):
    it = V(e, st, c.args[0])
    if it.op == "it" and it.a[0] == "seq":
        return [(st, it.a[1])]
    return None


def value_of(e, st, c):
    if local_impl(c):
        return None
    return [(st, V(e, st, c.args[0]))]


for p in ("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::slice::<impl [T]>::to_vec",
          "alloc::borrow::Cow::<'_, B>::into_owned"):
    MODELS[p] = value_of


@model("alloc::boxed::Box::<T>::new_uninit", "core::mem::maybe_uninit::MaybeUninit::<T>::uninit")
def _(e, st, c):
    return [(st, UNINIT)]


@model("core::mem::drop", "core::mem::forget")
def _(e, st, c):
    return [(st, UNIT)]


def default_of(ty):
    s = ty.get("s", "")
    d = ty.get("def", "")
    if ty.get("k") == "int" or ty.get("k") == "bool":
        return K0
    if d == "core::option::Option":
        return NONE
    if is_coll(ty):
        return EMPTY
    if ty.get("k") == "tuple" and not ty.get("args"):
        return UNIT
    return mk("default", s)


def is_coll(ty):
    d = ty.get("def", "")
    return d in ("alloc::vec::Vec", "alloc::string::String", "alloc::collections::btree::map::BTreeMap",
                 "alloc::collections::btree::set::BTreeSet", "std::collections::hash::map::HashMap",
                 "std::collections::hash::set::HashSet", "alloc::collections::vec_deque::VecDeque")


@model("core::default::Default::default")
def _(e, st, c):
    ty = c.ga(0)
    if "inst" in c.f and not (is_coll(ty) or ty.get("k") in ("int", "bool") or ty.get("def") == "core::option::Option"):
        return None
    return [(st, default_of(ty))]


@model("core::mem::take")
def _(e, st, c):
    v = V(e, st, c.args[0])
    ty = c.ga(0)
    it = [x for x in e.p.items if x.get("trait") == "core::default::Default" and x.get("self") == ty.get("s")
          and x.get("inst")]
    if it:
        body = e.p.body(it[0]["inst"])
        out = []
        for s, dv in e.inline(st, body, [], c.site, c.loc):
            e.write(s, L(e, s, c.args[0]), dv)
            out.append((s, v))
        return out
    e.write(st, L(e, st, c.args[0]), default_of(ty))
    return [(st, v)]


@model("core::mem::replace")
def _(e, st, c):
    v = V(e, st, c.args[0])
    e.write(st, L(e, st, c.args[0]), c.args[1])
    return [(st, v)]


@model("core::mem::swap")
def _(e, st, c):
    a, b = c.args
    x, y = V(e, st, a), V(e, st, b)
    e.write(st, L(e, st, a), y)
    e.write(st, L(e, st, b), x)
    return [(st, UNIT)]


@model("core::option::Option::<T>::take")
def _(e, st, c):
    v = V(e, st, c.args[0])
    e.write(st, L(e, st, c.args[0]), NONE)
    return [(st, v)]


@model("core::option::Option::<T>::replace")
def _(e, st, c):
    v = V(e, st, c.args[0])
    e.write(st, L(e, st, c.args[0]), some(c.args[1]))
    return [(st, v)]


@model("core::option::Option::<T>::insert")
def _(e, st, c):
    e.write(st, L(e, st, c.args[0]), some(c.args[1]))
    return [(st, subref(e, st, c.args[0], ("f", "Some.0")))]


@model("core::option::Option::<T>::get_or_insert", "core::option::Option::<T>::get_or_insert_with")
def _(e, st, c):
    v = SV(e, st, c.args[0])
    out = []
    d = disc(v)
    if d.op == "discr":
        e.arity.setdefault(d, 2)
    for s in e.assume(st.copy(), EQ(d, K1), 1):
        out.append((s, subref(e, s, c.args[0], ("f", "Some.0"))))
    for s in e.assume(st.copy(), EQ(d, K0), 1):
        rs = e.call_value(s, c.args[1], [], c.site, c.loc) if c.f["path"].endswith("with") else [(s, c.args[1])]
        for s2, x in rs:
            e.write(s2, L(e, s2, c.args[0]), some(x))
            out.append((s2, subref(e, s2, c.args[0], ("f", "Some.0"))))
    return out


@model("core::option::Option::<T>::as_slice")
def _(e, st, c):
    return [(st, mk("optslice", SV(e, st, c.args[0])))]


# ---------------------------------------------------------------- comparison
@model("core::cmp::PartialEq::eq")
def _(e, st, c):
    if local_impl(c):
        return None
    return [(st, EQ(deep(e, st, c.args[0]), deep(e, st, c.args[1])))]


@model("core::cmp::PartialEq::ne")
def _(e, st, c):
    r = c.f.get("rpath", "")
    lhs = c.ga(0).get("s", "")
    if lhs.startswith("psbt_v2::"):
        # default `ne` is !eq; honour a hand-written eq
        eqs = [x for x in e.p.items if x.get("trait") == "core::cmp::PartialEq" and x.get("self") == lhs and x.get("inst")
               and x["path"].endswith("::eq")]
        if eqs and not eqs[0].get("derived"):
            b = e.p.body(eqs[0]["inst"])
            return [(s, NOT(v)) for s, v in e.inline(st, b, c.args, c.site, c.loc)]
    return [(st, NOT(EQ(deep(e, st, c.args[0]), deep(e, st, c.args[1]))))]


def deep(e, st, a):
    v = SV(e, st, a)
    n = 0
    while v.op == "ref" and n < 4:
        v = SV(e, st, v)
        n += 1
    return canon_coll(v)


def canon_coll(v):
    if v.op == "slice" and v.a[1] is K0 and v.a[2] is None:
        return v.a[0]
    return v


@model("core::cmp::PartialOrd::lt")
def _(e, st, c):
    return [(st, LT(deep(e, st, c.args[0]), deep(e, st, c.args[1])))]


@model("core::cmp::PartialOrd::gt")
def _(e, st, c):
    return [(st, LT(deep(e, st, c.args[1]), deep(e, st, c.args[0])))]


@model("core::cmp::PartialOrd::le")
def _(e, st, c):
    return [(st, NOT(LT(deep(e, st, c.args[1]), deep(e, st, c.args[0]))))]


@model("core::cmp::PartialOrd::ge")
def _(e, st, c):
    return [(st, NOT(LT(deep(e, st, c.args[0]), deep(e, st, c.args[1]))))]


@model("core::cmp::Ord::cmp")
def _(e, st, c):
    if local_impl(c):
        return None
    t = mk("cmp", deep(e, st, c.args[0]), deep(e, st, c.args[1]))
    return [(st, t)]


@model("core::cmp::PartialOrd::partial_cmp")
def _(e, st, c):
    if local_impl(c):
        return None
    return [(st, some(mk("cmp", deep(e, st, c.args[0]), deep(e, st, c.args[1]))))]


@model("core::cmp::max", "core::cmp::Ord::max")
def _(e, st, c):
    return [(st, arith("max", e.snap(st, c.args[0]), e.snap(st, c.args[1])))]


@model("core::cmp::min", "core::cmp::Ord::min")
def _(e, st, c):
    return [(st, arith("min", e.snap(st, c.args[0]), e.snap(st, c.args[1])))]


# ---------------------------------------------------------------- numbers
_num = re.compile(r"core::num::<impl (\w+)>::(\w+)$")


def num_model(ty, name):
    m = re.match(r"(checked|saturating|wrapping|overflowing|unchecked)_(add|sub|mul|div|rem)$", name)
    if m:
        kind, op = m.groups()

        def f(e, st, c):
            a, b = e.snap(st, c.args[0]), e.snap(st, c.args[1])
            r = arith(op, a, b)
            ov = e.overflow(op, a, b, c.atys[0]) if op in ("add", "sub", "mul") else EQ(b, K0)
            if kind == "checked":
                out = []
                for s, v in e.fork(st, ov):
                    out.append((s, NONE if v else some(r)))
                return out
            if kind in ("wrapping", "unchecked"):
                return [(st, mk("wrap", r) if r.op != "k" else r)]
            if kind == "saturating":
                return [(st, mk("sat", r) if r.op != "k" else r)]
            return [(st, tup(r, ov))]
        return f
    if name in ("to_le_bytes", "to_be_bytes", "from_le_bytes", "from_be_bytes"):
        def g(e, st, c):
            x = e.snap(st, c.args[0])
            inv = name.replace("to_", "X").replace("from_", "to_").replace("X", "from_")
            if x.op == inv and x.a[0] == ty:
                return [(st, x.a[1])]
            return [(st, mk(name, ty, x))]
        return g
    if name in ("is_power_of_two", "pow", "abs", "min_value", "max_value", "count_ones", "leading_zeros",
                "trailing_zeros", "rotate_left", "rotate_right", "swap_bytes", "abs_diff", "div_ceil"):
        return lambda e, st, c: [(st, mk("app", name, *[e.snap(st, a) for a in c.args]))]
    return None


# ---------------------------------------------------------------- Vec / slices
@model("alloc::vec::Vec::<T>::new", "alloc::collections::btree::map::BTreeMap::<K, V>::new",
       "alloc::collections::btree::set::BTreeSet::<T>::new", "alloc::string::String::new",
       "std::collections::hash::map::HashMap::<K, V>::new", "std::collections::hash::set::HashSet::<T>::new")
def _(e, st, c):
    return [(st, EMPTY)]


@model("alloc::vec::Vec::<T>::with_capacity", "alloc::string::String::with_capacity",
       "std::collections::hash::map::HashMap::<K, V>::with_capacity",
       "std::collections::hash::set::HashSet::<T>::with_capacity")
def _(e, st, c):
    e.record(st, "alloc", c.f["path"], (e.snap(st, c.args[0]),), c.loc)
    return [(st, EMPTY)]


@model("alloc::vec::Vec::<T, A>::reserve", "alloc::vec::Vec::<T, A>::reserve_exact")
def _(e, st, c):
    e.record(st, "alloc", c.f["path"], (e.snap(st, c.args[1]),), c.loc)
    return [(st, UNIT)]


@model("alloc::vec::Vec::<T, A>::shrink_to_fit")
def _(e, st, c):
    return [(st, UNIT)]


@model("alloc::vec::from_elem")
def _(e, st, c):
    n = e.snap(st, c.args[1])
    e.record(st, "alloc", c.f["path"], (n,), c.loc)
    if n.op == "k" and n.a[0] <= 16:
        return [(st, mk("seq", None, tuple(mk("one", c.args[0]) for _ in range(n.a[0]))))]
    return [(st, mk("seq", None, (mk("rep", e.snap(st, c.args[0]), n),)))]


@model("alloc::vec::Vec::<T, A>::push", "alloc::collections::vec_deque::VecDeque::<T, A>::push_back",
       "alloc::string::String::push")
def _(e, st, c):
    a = c.args[0]
    e.write(st, L(e, st, a), seq_add(V(e, st, a), mk("one", e.snap(st, c.args[1]))))
    return [(st, UNIT)]


@model("alloc::vec::Vec::<T, A>::insert")
def _(e, st, c):
    a = c.args[0]
    e.write(st, L(e, st, a), mk("seq", mk("inserted", V(e, st, a), e.snap(st, c.args[1])),
                                (mk("one", e.snap(st, c.args[2])),)))
    return [(st, UNIT)]


@model("alloc::vec::Vec::<T, A>::extend_from_slice", "alloc::string::String::push_str")
def _(e, st, c):
    a = c.args[0]
    e.write(st, L(e, st, a), seq_add(V(e, st, a), mk("all", SV(e, st, c.args[1]))))
    return [(st, UNIT)]


@model("alloc::vec::Vec::<T, A>::append", "alloc::collections::btree::map::BTreeMap::<K, V, A>::append",
       "alloc::collections::btree::set::BTreeSet::<T, A>::append")
def _(e, st, c):
    a, b = c.args[0], c.args[1]
    e.write(st, L(e, st, a), seq_add(V(e, st, a), mk("all", SV(e, st, b))))
    e.write(st, L(e, st, b), EMPTY)
    return [(st, UNIT)]


@model("alloc::vec::Vec::<T, A>::clear", "alloc::collections::btree::map::BTreeMap::<K, V, A>::clear",
       "alloc::collections::btree::set::BTreeSet::<T, A>::clear")
def _(e, st, c):
    e.write(st, L(e, st, c.args[0]), EMPTY)
    return [(st, UNIT)]


@model("alloc::slice::<impl [T]>::sort", "alloc::slice::<impl [T]>::sort_by", "core::slice::<impl [T]>::sort_unstable",
       "alloc::slice::<impl [T]>::sort_by_key", "core::slice::<impl [T]>::sort_unstable_by",
       "core::slice::<impl [T]>::sort_unstable_by_key")
def _(e, st, c):
    e.write(st, L(e, st, c.args[0]), mk("sorted", SV(e, st, c.args[0])))
    return [(st, UNIT)]


@model("alloc::vec::Vec::<T, A>::dedup")
def _(e, st, c):
    e.write(st, L(e, st, c.args[0]), mk("dedup", SV(e, st, c.args[0])))
    return [(st, UNIT)]


@model("core::slice::<impl [T]>::reverse")
def _(e, st, c):
    e.write(st, L(e, st, c.args[0]), mk("reversed", SV(e, st, c.args[0])))
    return [(st, UNIT)]


@model("alloc::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "alloc::collections::btree::map::BTreeMap::<K, V, A>::len",
       "alloc::collections::btree::set::BTreeSet::<T, A>::len", "core::str::<impl str>::len", "alloc::string::String::len",
       "std::collections::hash::map::HashMap::<K, V, S, A>::len")
def _(e, st, c):
    return [(st, length(SV(e, st, c.args[0])))]


@model("alloc::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty",
       "alloc::collections::btree::map::BTreeMap::<K, V, A>::is_empty",
       "alloc::collections::btree::set::BTreeSet::<T, A>::is_empty", "core::str::<impl str>::is_empty",
       "alloc::string::String::is_empty", "std::collections::hash::map::HashMap::<K, V, S, A>::is_empty")
def _(e, st, c):
    return [(st, EQ(length(SV(e, st, c.args[0])), K0))]


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def _(e, st, c):
    i = e.snap(st, c.args[1])
    coll = SV(e, st, c.args[0])
    out = []
    if is_range(i):
        lo, hi = rng(i)
        b = mk("inrange", coll, lo, hi if hi is not None else UNIT)
        for s, v in e.fork(st, b):
            out.append((s, some(slice_ref(e, s, c.args[0], lo, hi)) if v else NONE))
        return out
    for s, v in e.fork(st, LT(i, length(coll))):
        out.append((s, some(subref(e, s, c.args[0], ("e", i))) if v else NONE))
    return out


def slice_ref(e, st, a, lo, hi):
    if lo is K0 and hi is None:
        return a
    return mk("slice", SV(e, st, a), lo, hi)


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut")
def _(e, st, c):
    coll = SV(e, st, c.args[0])
    return [(s, NONE if v else some(subref(e, s, c.args[0], ("e", K0)))) for s, v in e.fork(st, EQ(length(coll), K0))]


@model("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut")
def _(e, st, c):
    coll = SV(e, st, c.args[0])
    k = mk("fromend", 1)
    ln = length(coll)
    if ln.op == "k" and ln.a[0] > 0:
        k = K(ln.a[0] - 1)
    return [(s, NONE if v else some(subref(e, s, c.args[0], ("e", k)))) for s, v in e.fork(st, EQ(length(coll), K0))]


@model("alloc::vec::Vec::<T, A>::pop")
def _(e, st, c):
    coll = SV(e, st, c.args[0])
    out = []
    for s, v in e.fork(st, EQ(length(coll), K0)):
        if v:
            out.append((s, NONE))
        else:
            if coll.op == "seq" and coll.a[1] and coll.a[1][-1].op == "one":
                e.write(s, L(e, s, c.args[0]), mkseq(coll.a[0], coll.a[1][:-1]))
                out.append((s, some(coll.a[1][-1].a[0])))
            else:
                e.write(s, L(e, s, c.args[0]), mk("popped", coll))
                out.append((s, some(at(coll, mk("fromend", 1)))))
    return out


@model("core::slice::<impl [T]>::contains")
def _(e, st, c):
    return [(st, mk("has", SV(e, st, c.args[0]), SV(e, st, c.args[1])))]


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def _(e, st, c):
    d, s_ = SV(e, st, c.args[0]), SV(e, st, c.args[1])
    same = EQ(length(d), length(s_))
    if e.known(st, same) != 1:
        e.record(st, "assert", "copy_from_slice", (length(d), length(s_)), c.loc)
    e.write(st, L(e, st, c.args[0]), s_)
    return [(st, UNIT)]


def is_range(i):
    return (i.op == "agg" and "::range::" in i.a[0]) or (i.op == "const" and "RangeFull" in str(i.a[0]))


def rng(i):
    d = i.a[0].split("::")[-1] if i.op == "agg" else "RangeFull"
    v = i.a[2] if i.op == "agg" else ()
    if d == "RangeFull":
        return K0, None
    if d == "RangeFrom":
        return v[0], None
    if d == "RangeTo":
        return K0, v[0]
    if d == "RangeToInclusive":
        return K0, arith("add", v[0], K1)
    if d == "RangeInclusive":
        return v[0], arith("add", v[1], K1)
    return v[0], v[1]


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _(e, st, c):
    if local_impl(c):
        return None
    i = e.snap(st, c.args[1])
    sty = c.ga(0)
    coll = SV(e, st, c.args[0])
    if is_range(i):
        lo, hi = rng(i)
        n = length(coll)
        if not (lo is K0 and hi is None):
            okk = True
            if hi is not None and e.known(st, LT(n, hi)) != 0 and not (hi.op == "k" and e.lower(st, n) >= hi.a[0]):
                okk = False
            if hi is None and e.known(st, LT(n, lo)) != 0 and not (lo.op == "k" and e.lower(st, n) >= lo.a[0]) \
                    and not range_sub_ok(e, st, lo, n):
                okk = False
            if hi is not None and lo is not K0 and e.known(st, LT(hi, lo)) != 0:
                okk = False
            if not okk:
                e.record(st, "assert", "slice", (n, lo, hi if hi is not None else UNIT), c.loc)
        return [(st, slice_ref(e, st, c.args[0], lo, hi))]
    if "Map" in sty.get("def", ""):
        k = i
        if e.known(st, mk("has", coll, k)) != 1:
            e.record(st, "assert", "mapindex", (coll, k), c.loc)
        return [(s, subref(e, s, c.args[0], ("m", k))) for s in e.assume(st, mk("has", coll, k), 1)]
    n = length(coll)
    if not e.discharge(st, "bounds", (n, i), ("usize", "usize")):
        e.record(st, "assert", "bounds", (n, i), c.loc)
    return [(s, subref(e, s, c.args[0], ("e", i))) for s in e.assume(st, LT(i, n), 1)]


def range_sub_ok(e, st, lo, n):
    """v[n - m ..] with m <= n"""
    return lo.op == "sub" and lo.a[0] is n


# ---------------------------------------------------------------- maps
BT = "alloc::collections::btree::map::BTreeMap::<K, V, A>::"
HM = "std::collections::hash::map::HashMap::<K, V, S, A>::"
BS = "alloc::collections::btree::set::BTreeSet::<T, A>::"
HS = "std::collections::hash::set::HashSet::<T, S, A>::"


def has(e, st, m, k):
    return mk("has", m, k)


@model(BT + "get", BT + "get_mut", HM + "get", HM + "get_mut")
def _(e, st, c):
    m, k = SV(e, st, c.args[0]), deep(e, st, c.args[1])
    return [(s, some(subref(e, s, c.args[0], ("m", k))) if v else NONE) for s, v in e.fork(st, has(e, st, m, k))]


@model(BT + "get_key_value")
def _(e, st, c):
    m, k = SV(e, st, c.args[0]), deep(e, st, c.args[1])
    return [(s, some(tup(k, subref(e, s, c.args[0], ("m", k)))) if v else NONE) for s, v in e.fork(st, has(e, st, m, k))]


@model(BT + "contains_key", HM + "contains_key", BS + "contains", HS + "contains")
def _(e, st, c):
    m, k = SV(e, st, c.args[0]), deep(e, st, c.args[1])
    return [(st, has(e, st, m, k))]


@model(BT + "insert", HM + "insert")
def _(e, st, c):
    m, k, v = SV(e, st, c.args[0]), e.snap(st, c.args[1]), e.snap(st, c.args[2])
    e.record(st, "insert", "map", (m, k, v), c.loc)
    out = []
    for s, h in e.fork(st, has(e, st, m, k)):
        e.write(s, L(e, s, c.args[0]), seq_add(m, mk("ent", k, v)))
        out.append((s, some(mget(m, k)) if h else NONE))
    return out


@model(BS + "insert", HS + "insert")
def _(e, st, c):
    m, k = SV(e, st, c.args[0]), e.snap(st, c.args[1])
    out = []
    for s, h in e.fork(st, has(e, st, m, k)):
        e.write(s, L(e, s, c.args[0]), seq_add(m, mk("one", k)))
        out.append((s, K(1 - h)))
    return out


@model(BT + "remove", HM + "remove")
def _(e, st, c):
    m, k = SV(e, st, c.args[0]), deep(e, st, c.args[1])
    out = []
    for s, h in e.fork(st, has(e, st, m, k)):
        if h:
            e.write(s, L(e, s, c.args[0]), mk("removed", m, k))
        out.append((s, some(mget(m, k)) if h else NONE))
    return out


@model(BT + "entry", HM + "entry")
def _(e, st, c):
    m, k = SV(e, st, c.args[0]), e.snap(st, c.args[1])
    out = []
    d = c.dty.get("def", "alloc::collections::btree::map::entry::Entry")
    for s, h in e.fork(st, has(e, st, m, k)):
        if h:
            out.append((s, mk("agg", d, "Occupied", (mk("occ", c.args[0], k),))))
        else:
            out.append((s, mk("agg", d, "Vacant", (mk("vac", c.args[0], k),))))
    return out


EN = "alloc::collections::btree::map::entry::"


def ent_insert(e, st, x, v, kind):
    m = V(e, st, x.a[0])
    if kind == "occ":
        e.record(st, "insert", "map", (e.snap(st, m), x.a[1], v), "")
    e.write(st, L(e, st, x.a[0]), seq_add(m, mk("ent", x.a[1], v)))
    l = L(e, st, x.a[0])
    return mk("ref", l[0], l[1] + (("m", x.a[1]),))


def ent_of(e, st, a):
    v = a
    if v.op == "ref":
        v = V(e, st, a)
    return v


@model(EN + "VacantEntry::<'a, K, V, A>::insert", EN + "VacantEntry::<'a, K, V, A>::insert_entry")
def _(e, st, c):
    x = ent_of(e, st, c.args[0])
    if x.op != "vac":
        return None
    return [(st, ent_insert(e, st, x, e.snap(st, c.args[1]), "vac"))]


@model(EN + "OccupiedEntry::<'a, K, V, A>::insert")
def _(e, st, c):
    x = ent_of(e, st, c.args[0])
    if x.op != "occ":
        return None
    old = mget(SV(e, st, x.a[0]), x.a[1])
    ent_insert(e, st, x, e.snap(st, c.args[1]), "occ")
    return [(st, old)]


@model(EN + "OccupiedEntry::<'a, K, V, A>::get", EN + "OccupiedEntry::<'a, K, V, A>::get_mut",
       EN + "OccupiedEntry::<'a, K, V, A>::into_mut")
def _(e, st, c):
    x = ent_of(e, st, c.args[0])
    if x.op != "occ":
        return None
    return [(st, subref(e, st, x.a[0], ("m", x.a[1])))]


@model(EN + "OccupiedEntry::<'a, K, V, A>::key", EN + "VacantEntry::<'a, K, V, A>::key",
       EN + "VacantEntry::<'a, K, V, A>::into_key")
def _(e, st, c):
    x = ent_of(e, st, c.args[0])
    if x.op not in ("occ", "vac"):
        return None
    return [(st, x.a[1])]


@model(EN + "OccupiedEntry::<'a, K, V, A>::remove")
def _(e, st, c):
    x = ent_of(e, st, c.args[0])
    if x.op != "occ":
        return None
    m = SV(e, st, x.a[0])
    e.write(st, L(e, st, x.a[0]), mk("removed", m, x.a[1]))
    return [(st, mget(m, x.a[1]))]


@model(EN + "Entry::<'a, K, V, A>::or_insert", EN + "Entry::<'a, K, V, A>::or_insert_with",
       EN + "Entry::<'a, K, V, A>::or_default")
def _(e, st, c):
    x = c.args[0]
    if x.op != "agg":
        return None
    y = x.a[2][0]
    if x.a[1] == "Occupied":
        return [(st, subref(e, st, y.a[0], ("m", y.a[1])))]
    if c.f["path"].endswith("or_default"):
        rs = [(st, default_of(c.ga(1)))]
    elif c.f["path"].endswith("with"):
        rs = e.call_value(st, c.args[1], [], c.site, c.loc)
    else:
        rs = [(st, c.args[1])]
    return [(s, ent_insert(e, s, y, e.snap(s, v), "vac")) for s, v in rs]


@model(EN + "Entry::<'a, K, V, A>::and_modify")
def _(e, st, c):
    x = c.args[0]
    if x.op != "agg":
        return None
    if x.a[1] != "Occupied":
        return [(st, x)]
    y = x.a[2][0]
    return [(s, x) for s, _ in e.call_value(st, c.args[1], [subref(e, st, y.a[0], ("m", y.a[1]))], c.site, c.loc)]


# ---------------------------------------------------------------- iterators
CONT = mk("cont")     # "no value, go on with the next iteration of the enclosing loop"
ADAPT = {"map", "filter", "filter_map", "enumerate", "zip", "rev", "cloned", "copied", "take", "skip", "chain", "peekable",
         "by_ref", "flat_map", "flatten", "take_while", "skip_while", "map_while", "inspect", "fuse", "step_by"}


def coll_kind(ty):
    d = ty.get("def", "")
    s = ty.get("s", "")
    if "::map::" in d or "Map" in d.split("::")[-1]:
        return "map"
    if "::set::" in d or d.split("::")[-1].endswith("Set"):
        return "set"
    if d == "core::option::Option":
        return "opt"
    return "vec"


def mkit(src, kind, mode):
    return mk("it", "seq", src, kind, mode)


def as_iter(e, st, v, ty=None):
    """recognise an iterator value"""
    if v.op == "it":
        return v
    if v.op == "ref":
        w = V(e, st, v)
        if w.op == "it" or (w.op == "agg" and "::range::" in w.a[0]):
            return as_iter(e, st, w)
    if v.op == "agg" and "::range::" in v.a[0]:
        lo, hi = rng(v)
        return mk("it", "range", lo, hi)
    return None


def has_rev(it):
    return bool(tm.find(it, lambda x: x.op == "it" and x.a[0] == "rev"))


def nxt(e, st, it, site):
    """[(state, item | None | 'skip')]"""
    kind = it.a[0]
    if kind == "seq":
        _, src, ck, mode = it.a
        c = SV(e, st, src)
        if c.op in ("it",):
            return nxt(e, st, c, site)
        ix = e.new_ix(site)
        n = length(c)
        out = []
        if n.op == "k" and n.a[0] == 0:
            return [(st, None)]
        e.doneb.setdefault(site, set()).add(n)
        s0 = st.copy()
        s0.facts[mk("done", site)] = 1
        out.append((s0, None))
        for s in e.assume(st, LT(ix, n), 1):
            if e.known(s, EQ(n, K0)) is None and n.op != "k":
                for s2 in e.assume(s, EQ(n, K0), 0):
                    pass
            if ck in ("vec", "set"):
                if mode == "val":
                    item = at(c, ix)
                else:
                    item = subref(e, s, src, ("e", ix))
            else:
                k = kat(c, ix)
                if mode == "val":
                    item = tup(k, mget(c, k))
                elif mode == "keys":
                    item = k
                elif mode == "values":
                    item = subref(e, s, src, ("m", k))
                elif mode == "intovalues":
                    item = mget(c, k)
                else:
                    item = tup(k, subref(e, s, src, ("m", k)))
            out.append((s, item))
        return out
    if kind == "opaque":
        ix = e.new_ix(site)
        s0 = st.copy()
        s0.facts[mk("done", site)] = 1
        n = length(mk("iter", it.a[1]))
        e.doneb.setdefault(site, set()).add(n)
        out = [(s0, None)]
        for s in e.assume(st, LT(ix, n), 1):
            out.append((s, at(it.a[1], ix)))
        return out
    if kind == "range":
        lo, hi = it.a[1], it.a[2]
        ix = e.new_ix(site)
        s0 = st.copy()
        s0.facts[mk("done", site)] = 1
        out = [(s0, None)]
        if hi is None:
            out = []
            out.append((st, arith("add", lo, ix)))
            return out
        if lo is K0:
            e.doneb.setdefault(site, set()).add(hi)
            if e.known(st, EQ(hi, K0)) == 1:
                return [(s0, None)]
            for s in e.assume(st, LT(ix, hi), 1):
                out.append((s, ix))
        else:
            e.doneb.setdefault(site, set()).add(hi)
            e.partial[site] = mk("partial", "skip", lo)
            v = arith("add", lo, ix)
            for s in e.assume(st, LT(v, hi), 1):
                out.append((s, v))
        return out
    if kind == "map":
        out = []
        for s, x in nxt(e, st, it.a[1], site):
            if x is None or isinstance(x, str):
                out.append((s, x))
            else:
                out += e.call_value(s, it.a[2], [x], (site, "map"), "")
        return out
    if kind in ("filter", "take_while", "skip_while"):
        out = []
        for s, x in nxt(e, st, it.a[1], site if kind == "filter" else (site, "part")):
            if x is None or isinstance(x, str):
                out.append((s, x))
                continue
            xr = e.tmp(s, (site, "fltarg"), x)
            for s2, v in e.call_value(s, it.a[2], [xr], (site, "pred"), ""):
                for s3, bv in e.fork(s2, e.snap(s2, v)):
                    if kind == "filter":
                        out.append((s3, x if bv else "skip"))
                    elif kind == "take_while":
                        if not bv:
                            e.partial[(site, "part")] = mk("partial", kind)
                        out.append((s3, x if bv else None))
                    else:
                        if bv:
                            e.partial[(site, "part")] = mk("partial", kind)
                        out.append((s3, x))
        return out
    if kind in ("filter_map", "map_while"):
        out = []
        for s, x in nxt(e, st, it.a[1], site if kind == "filter_map" else (site, "part")):
            if x is None or isinstance(x, str):
                out.append((s, x))
                continue
            for s2, v in e.call_value(s, it.a[2], [x], (site, "fm"), ""):
                for s3, is_some, y in split_opt(e, s2, v):
                    if not is_some and kind == "map_while":
                        e.partial[(site, "part")] = mk("partial", kind)
                    out.append((s3, y if is_some else ("skip" if kind == "filter_map" else None)))
        return out
    if kind == "enumerate":
        out = []
        inner = it.a[1]
        for s, x in nxt(e, st, inner, site):
            if x is None or isinstance(x, str):
                out.append((s, x))
            else:
                plain = only_plain(inner) and not has_rev(inner)
                ix = mk("ix", site) if plain else mk("enum", e.new_ix((site, "n")))
                out.append((s, tup(ix, x)))
        return out
    if kind == "zip":
        out = []
        for z in sorted(tm.find(it, lambda y: y.op == "it" and y.a[0] in ("take", "skip", "step_by", "take_while", "map_while")), key=lambda y: y.id):
            # either side may end before the other has been used up
            n = e.snap(st, z.a[2]) if len(z.a) > 2 and isinstance(z.a[2], T) and z.a[0] in ("take", "skip", "step_by") else TOP
            if not (n.op == "k" and n.a[0] == {"skip": 0, "step_by": 1}.get(z.a[0])):
                e.partial.setdefault(site, mk("partial", z.a[0], n))
        for s, x in nxt(e, st, it.a[1], site):
            if x is None or isinstance(x, str):
                out.append((s, x))
                continue
            for s2, y in nxt(e, s, it.a[2], site if has_rev(it.a[1]) == has_rev(it.a[2]) else (site, "z")):
                if y is None:
                    s2.facts[mk("done", site)] = 1
                    out.append((s2, None))
                elif isinstance(y, str):
                    out.append((s2, y))
                else:
                    out.append((s2, tup(x, y)))
        return out
    if kind in ("rev", "fuse", "peekable"):
        if kind == "rev":
            e.reversed.add(site)
        return nxt(e, st, it.a[1], site)
    if kind == "inspect":
        out = []
        for s, x in nxt(e, st, it.a[1], site):
            if x is None or isinstance(x, str):
                out.append((s, x))
            else:
                xr = e.tmp(s, (site, "insp"), x)
                out += [(s2, x) for s2, _ in e.call_value(s, it.a[2], [xr], (site, "insp"), "")]
        return out
    if kind in ("cloned", "copied"):
        return [(s, V(e, s, x) if isinstance(x, T) else x) for s, x in nxt(e, st, it.a[1], site)]
    if kind in ("take", "skip", "step_by"):
        n = e.snap(st, it.a[2]) if len(it.a) > 2 and isinstance(it.a[2], T) else TOP
        if not (n.op == "k" and n.a[0] == {"skip": 0, "step_by": 1}.get(kind)):
            e.partial[(site, kind)] = mk("partial", kind, n)
        return [(s, x) for s, x in nxt(e, st, it.a[1], (site, kind))]
    if kind == "chain":
        out = []
        s2 = st.copy()
        for s, x in nxt(e, st, it.a[1], (site, "a")):
            if x is None:
                continue
            out.append((s, x))
        for s, x in nxt(e, s2, it.a[2], (site, "b")):
            if x is None:
                s.facts[mk("done", (site, "a"))] = 1
                s.facts[mk("done", site)] = 1
            out.append((s, x))
        return out
    if kind == "once":
        s0 = st.copy()
        return [(s0, None), (st, it.a[1])]
    if kind == "opt":
        out = []
        for s, is_some, y in split_opt(e, st.copy(), it.a[1]):
            if is_some:
                out.append((s, y))
        out.append((st, None))
        return out
    if kind == "flat_map":
        out = []
        for s, x in nxt(e, st, it.a[1], (site, "outer")):
            if x is None or isinstance(x, str):
                out.append((s, x))
                continue
            rs = [(s, x)] if it.a[2] is None else e.call_value(s, it.a[2], [x], (site, "fmap"), "")
            for s2, v in rs:
                sub = as_iter(e, s2, v)
                if sub is None:
                    sub = mk("it", "opaque", e.snap(s2, v)) if v.op != "agg" else mk("it", "opt", v)
                for s3, y in nxt(e, s2, sub, (site, "inner")):
                    out.append((s3, "skip" if y is None else y))
        return out
    return [(st, TOP), (st.copy(), None)]


def only_plain(it):
    while it.op == "it" and it.a[0] in ("map", "rev", "cloned", "copied", "enumerate", "zip", "inspect", "peekable", "fuse"):
        it = it.a[1]
    return it.op == "it" and (it.a[0] in ("seq", "opaque") or (it.a[0] == "range" and it.a[1] is K0))


def split_opt(e, st, v, dname="core::option::Option"):
    """[(state, is_some, payload)]"""
    v = V(e, st, v) if v.op == "ref" else v
    if v.op == "phi":
        out = []
        for x in v.a[0]:
            out += split_opt(e, st.copy(), x)
        return out
    d = disc(v)
    if d.op == "discr":
        e.arity.setdefault(d, 2)
    out = []
    s2 = st.copy()
    for s in e.assume(st, EQ(d, K1), 1):
        out.append((s, True, fld(v, "Some.0")))
    for s in e.assume(s2, EQ(d, K0), 1):
        out.append((s, False, None))
    return out


def split_try(e, st, v, dty):
    """[(state, continue?, payload, whole)] for Option/Result/ControlFlow values"""
    d = dty.get("def", "") if dty else ""
    if v.op == "ref":
        v = V(e, st, v)
    if v.op == "agg":
        d = v.a[0]
    cont, brk = {"core::option::Option": (("Some.0", 1), 0),
                 "core::ops::control_flow::ControlFlow": (("Continue.0", 0), 1)}.get(d, (("Ok.0", 0), 1))
    dd = disc(v)
    if dd.op == "discr":
        e.arity.setdefault(dd, 2)
    out = []
    s2 = st.copy()
    for s in e.assume(st, EQ(dd, K(cont[1])), 1):
        out.append((s, True, fld(v, cont[0]), v))
    for s in e.assume(s2, EQ(dd, K(brk)), 1):
        out.append((s, False, None, v))
    return out


def full_err(v, dty):
    """an Err/None value of the right shape from a (possibly symbolic) failing value"""
    d = (dty or {}).get("def", "")
    if d == "core::option::Option":
        return NONE
    if d == "core::ops::control_flow::ControlFlow":
        return v
    return err(fld(v, "Err.0"))


def full_ok(x, dty):
    d = (dty or {}).get("def", "")
    if d == "core::option::Option":
        return some(x)
    if d == "core::ops::control_flow::ControlFlow":
        return mk("agg", d, "Continue", (x,))
    return ok(x)


def into_it(e, st, v, ty):
    k = ty.get("k")
    it = as_iter(e, st, v)
    if it is not None:
        return it
    d = ty.get("def", "")
    if k == "ref":
        inner = e.ty(ty["to"])
        w = V(e, st, v) if v.op == "ref" else v
        if w.op == "it" or inner.get("k") == "ref":
            return as_iter(e, st, w) or mkit(w, "vec", "ref")
        if coll_kind(inner) == "opt":
            r = e.snap(st, v)
            return mk("it", "opt", mk("agg", "core::option::Option", "Some", (subref(e, st, v, ("f", "Some.0")),))
                      if e.known(st, EQ(disc(r), K1)) == 1 else r)
        return mkit(v, coll_kind(inner), "ref")
    if d == "core::option::Option":
        return mk("it", "opt", v)
    if is_coll(ty) or k == "array" or d in ("alloc::boxed::Box",):
        return mkit(v, coll_kind(ty), "val")
    return mk("it", "opaque", e.snap(st, v))


@model("core::iter::traits::collect::IntoIterator::into_iter")
def _(e, st, c):
    r = c.f.get("rpath", "")
    if local_impl(c) and "psbt_v2" in c.ga(0).get("s", ""):
        if c.ga(0).get("def", "").startswith("psbt_v2"):
            return None
    return [(st, into_it(e, st, c.args[0], c.ga(0)))]


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "alloc::vec::Vec::<T, A>::iter")
def _(e, st, c):
    return [(st, mkit(c.args[0], "vec", "ref"))]


@model(BT + "iter", BT + "iter_mut", HM + "iter", HM + "iter_mut")
def _(e, st, c):
    return [(st, mkit(c.args[0], "map", "ref"))]


@model(BS + "iter", HS + "iter")
def _(e, st, c):
    return [(st, mkit(c.args[0], "set", "ref"))]


@model(BT + "keys", HM + "keys")
def _(e, st, c):
    return [(st, mkit(c.args[0], "map", "keys"))]


@model(BT + "values", BT + "values_mut", HM + "values", HM + "values_mut")
def _(e, st, c):
    return [(st, mkit(c.args[0], "map", "values"))]


@model(BT + "into_keys")
def _(e, st, c):
    return [(st, mkit(c.args[0], "map", "keys"))]


@model(BT + "into_values")
def _(e, st, c):
    return [(st, mkit(c.args[0], "map", "intovalues"))]


@model("alloc::vec::Vec::<T, A>::drain")
def _(e, st, c):
    v = V(e, st, c.args[0])
    e.write(st, L(e, st, c.args[0]), EMPTY)
    return [(st, mkit(v, "vec", "val"))]


@model("core::option::Option::<T>::iter", "core::option::Option::<T>::iter_mut")
def _(e, st, c):
    v = SV(e, st, c.args[0])
    return [(st, mk("it", "opt", v))]


@model("core::iter::sources::once::once")
def _(e, st, c):
    return [(st, mk("it", "once", c.args[0]))]


@model("core::iter::sources::empty::empty")
def _(e, st, c):
    return [(st, mkit(EMPTY, "vec", "val"))]


@model("core::iter::adapters::zip::zip")
def _(e, st, c):
    return [(st, mk("it", "zip", into_it(e, st, c.args[0], c.atys[0]), into_it(e, st, c.args[1], c.atys[1])))]


IT = "core::iter::traits::iterator::Iterator::"


def self_iter(e, st, c):
    a = c.args[0]
    it = as_iter(e, st, a)
    if it is not None:
        return it
    s = c.ga(0)
    while s.get("k") == "ref":
        s = e.ty(s["to"])
    if s.get("def", "").startswith("psbt_v2"):
        return None
    if s.get("def") == "core::option::Option":
        return None
    return mk("it", "opaque", e.snap(st, a))


def adapt(name):
    def f(e, st, c):
        it = self_iter(e, st, c)
        if it is None:
            return None
        if name == "zip":
            other = into_it(e, st, c.args[1], c.atys[1])
            return [(st, mk("it", "zip", it, other))]
        if name == "chain":
            return [(st, mk("it", "chain", it, into_it(e, st, c.args[1], c.atys[1])))]
        if name == "by_ref":
            return [(st, c.args[0])]
        if name == "flatten":
            return [(st, mk("it", "flat_map", it, None))]
        if len(c.args) > 1:
            return [(st, mk("it", name, it, c.args[1]))]
        return [(st, mk("it", name, it))]
    return f


for _n in ADAPT:
    MODELS[IT + _n] = adapt(_n)
MODELS["core::iter::traits::double_ended::DoubleEndedIterator::rev"] = adapt("rev")


def simple_next(e, st, c):
    it = self_iter(e, st, c)
    if it is None:
        return None
    # advanced by the enclosing loop, or only here
    a = c.args[0]
    lp = e.loopstack[-1] if e.loopstack else None
    persist = lp is not None and a.op == "ref" and a.a[0] in e.entrymem.get(id(lp), ())
    if persist and e.loophead and e.loophead[-1] == c.site:
        # a skipped element is an iteration of the enclosing loop that does nothing
        return [(s, CONT if x == "skip" else NONE if x is None else some(x)) for s, x in nxt(e, st, it, c.site)]
    k = len(e.keep)
    outs = e.consume(st, c.site, lambda s: nxt(e, s, it, c.site), lambda s, x: [(s, "b", x)])
    if persist:
        e.advances[id(lp)] |= e.advances[id(e.keep[k])]
    out = []
    for s, kind, x in outs:
        if not persist and a.op == "ref" and a.a[0] in s.mem:
            e.write(s, (a.a[0], a.a[1]), mk("it", "skip", it, TOP))
        out.append((s, NONE if kind == "done" else some(x)))
    return out


MODELS[IT + "next"] = simple_next
MODELS["core::iter::traits::double_ended::DoubleEndedIterator::next_back"] = simple_next
MODELS[IT + "last"] = simple_next


@model(IT + "nth")
def _(e, st, c):
    it = self_iter(e, st, c)
    if it is None:
        return None
    i = e.snap(st, c.args[1])
    base = it
    if base.a[0] == "seq" and base.a[2] == "vec":
        coll = SV(e, st, base.a[1])
        return [(s, some(subref(e, s, base.a[1], ("e", i))) if v else NONE) for s, v in e.fork(st, LT(i, length(coll)))]
    out = []
    for s, x in nxt(e, st, it, (c.site, "nth")):
        if x != "skip":
            out.append((s, NONE if x is None else some(x)))
    return out


def consumer(name):
    def d(f):
        def g(e, st, c):
            it = self_iter(e, st, c)
            if it is None:
                return None
            return f(e, st, c, it)
        for n in (name if isinstance(name, tuple) else (name,)):
            MODELS[IT + n] = g
            if n == "rfind":
                MODELS["core::iter::traits::double_ended::DoubleEndedIterator::rfind"] = g
        return g
    return d


def loop(e, st, c, it, step):
    return e.consume(st, c.site, lambda s: nxt(e, s, it, c.site), step)


@consumer("all")
def _(e, st, c, it):
    def step(s, x):
        out = []
        for s2, v in e.call_value(s, c.args[1], [x], (c.site, "f"), c.loc):
            for s3, b in e.fork(s2, e.snap(s2, v)):
                out.append((s3, "c" if b else "b", K0))
        return out
    return [(s, K1 if k == "done" else v) for s, k, v in loop(e, st, c, it, step)]


@consumer("any")
def _(e, st, c, it):
    def step(s, x):
        out = []
        for s2, v in e.call_value(s, c.args[1], [x], (c.site, "f"), c.loc):
            for s3, b in e.fork(s2, e.snap(s2, v)):
                out.append((s3, "b" if b else "c", K1))
        return out
    return [(s, K0 if k == "done" else v) for s, k, v in loop(e, st, c, it, step)]


@consumer(("find", "rfind"))
def _(e, st, c, it):
    def step(s, x):
        xr = e.tmp(s, (c.site, "x"), x)
        out = []
        for s2, v in e.call_value(s, c.args[1], [xr], (c.site, "f"), c.loc):
            for s3, b in e.fork(s2, e.snap(s2, v)):
                out.append((s3, "b" if b else "c", some(x)))
        return out
    return [(s, NONE if k == "done" else v) for s, k, v in loop(e, st, c, it, step)]


@consumer("find_map")
def _(e, st, c, it):
    def step(s, x):
        out = []
        for s2, v in e.call_value(s, c.args[1], [x], (c.site, "f"), c.loc):
            for s3, is_some, y in split_opt(e, s2, v):
                out.append((s3, "b" if is_some else "c", some(y) if is_some else None))
        return out
    return [(s, NONE if k == "done" else v) for s, k, v in loop(e, st, c, it, step)]


@consumer(("position", "rposition"))
def _(e, st, c, it):
    def step(s, x):
        out = []
        for s2, v in e.call_value(s, c.args[1], [x], (c.site, "f"), c.loc):
            for s3, b in e.fork(s2, e.snap(s2, v)):
                out.append((s3, "b" if b else "c", some(mk("ix", c.site))))
        return out
    return [(s, NONE if k == "done" else v) for s, k, v in loop(e, st, c, it, step)]


@consumer("for_each")
def _(e, st, c, it):
    def step(s, x):
        return [(s2, "c", None) for s2, _ in e.call_value(s, c.args[1], [x], (c.site, "f"), c.loc)]
    return [(s, UNIT) for s, k, v in loop(e, st, c, it, step)]


@consumer("try_for_each")
def _(e, st, c, it):
    def step(s, x):
        out = []
        for s2, v in e.call_value(s, c.args[1], [x], (c.site, "f"), c.loc):
            for s3, cont, y, w in split_try(e, s2, v, c.dty):
                out.append((s3, "c" if cont else "b", None if cont else full_err(w, c.dty)))
        return out
    return [(s, full_ok(UNIT, c.dty) if k == "done" else v) for s, k, v in loop(e, st, c, it, step)]


@consumer("fold")
def _(e, st, c, it):
    acc = ("A", c.site, "acc")
    st.mem[acc] = c.args[1]

    def step(s, x):
        out = []
        for s2, v in e.call_value(s, c.args[2], [s.mem[acc], x], (c.site, "f"), c.loc):
            s2.mem[acc] = v
            out.append((s2, "c", None))
        return out
    return [(s, s.mem[acc]) for s, k, v in loop(e, st, c, it, step)]


@consumer("try_fold")
def _(e, st, c, it):
    acc = ("A", c.site, "acc")
    st.mem[acc] = c.args[1]

    def step(s, x):
        out = []
        for s2, v in e.call_value(s, c.args[2], [s.mem[acc], x], (c.site, "f"), c.loc):
            for s3, cont, y, w in split_try(e, s2, v, c.dty):
                if cont:
                    s3.mem[acc] = y
                    out.append((s3, "c", None))
                else:
                    out.append((s3, "b", full_err(w, c.dty)))
        return out
    return [(s, full_ok(s.mem[acc], c.dty) if k == "done" else v) for s, k, v in loop(e, st, c, it, step)]


@consumer("reduce")
def _(e, st, c, it):
    acc = ("A", c.site, "acc")
    s0 = st.copy()
    st.mem[acc] = mk("first", e.snap(st, it))

    def step(s, x):
        out = []
        for s2, v in e.call_value(s, c.args[1], [s.mem[acc], x], (c.site, "f"), c.loc):
            s2.mem[acc] = v
            out.append((s2, "c", None))
        return out
    return [(s0, NONE)] + [(s, some(s.mem[acc])) for s, k, v in loop(e, st, c, it, step)]


@consumer(("sum", "product"))
def _(e, st, c, it):
    acc = ("A", c.site, "acc")
    st.mem[acc] = EMPTY

    def step(s, x):
        v = V(e, s, x) if x.op == "ref" else x
        s.mem[acc] = seq_add(s.mem[acc], mk("one", e.snap(s, v)))
        return [(s, "c", None)]
    return [(s, mk("sum", s.mem[acc])) for s, k, v in loop(e, st, c, it, step)]


@consumer(("max", "min", "max_by", "min_by", "max_by_key", "min_by_key"))
def _(e, st, c, it):
    acc = ("A", c.site, "acc")
    st.mem[acc] = EMPTY
    nm = c.f["path"].split("::")[-1]

    def step(s, x):
        s.mem[acc] = seq_add(s.mem[acc], mk("one", e.snap(s, x)))
        return [(s, "c", None)]
    out = []
    for s, k, v in loop(e, st, c, it, step):
        out.append((s, mk(nm + "of", s.mem[acc])))
    return out


@consumer("count")
def _(e, st, c, it):
    acc = ("A", c.site, "acc")
    st.mem[acc] = EMPTY

    def step(s, x):
        s.mem[acc] = seq_add(s.mem[acc], mk("one", e.snap(s, x)))
        return [(s, "c", None)]
    return [(s, length(s.mem[acc])) for s, k, v in loop(e, st, c, it, step)]


def part_of(e, s, x, dty):
    x = e.snap(s, x)
    d = (dty or {}).get("def", "")
    if "Map" in d.split("::")[-1]:
        return mk("ent", fld(x, "0"), fld(x, "1"))
    return mk("one", x)


def collect_into(e, st, c, it, start, dty, tryty=None):
    """[(state, 'done'|'b', value)]"""
    acc = ("A", c.site, "acc")
    st.mem[acc] = start

    def step(s, x):
        if tryty is None:
            s.mem[acc] = seq_add(s.mem[acc], part_of(e, s, x, dty))
            return [(s, "c", None)]
        out = []
        for s3, cont, y, w in split_try(e, s, x, tryty):
            if cont:
                s3.mem[acc] = seq_add(s3.mem[acc], part_of(e, s3, y, dty))
                out.append((s3, "c", None))
            else:
                out.append((s3, "b", full_err(w, tryty)))
        return out
    return [(s, k, s.mem[acc] if k == "done" else v) for s, k, v in loop(e, st, c, it, step)]


@consumer("collect")
def _(e, st, c, it):
    d = c.dty.get("def", "")
    if d in ("core::result::Result", "core::option::Option"):
        inner = e.ty(c.dty["args"][0])
        return [(s, full_ok(v, c.dty) if k == "done" else v) for s, k, v in
                collect_into(e, st, c, it, EMPTY, inner, c.dty)]
    return [(s, v) for s, k, v in collect_into(e, st, c, it, EMPTY, c.dty)]


@model("core::iter::traits::collect::FromIterator::from_iter")
def _(e, st, c):
    if local_impl(c):
        return None
    it = into_it(e, st, c.args[0], c.atys[0])
    return [(s, v) for s, k, v in collect_into(e, st, c, it, EMPTY, c.dty)]


@model("core::iter::traits::collect::Extend::extend")
def _(e, st, c):
    if local_impl(c):
        return None
    a = c.args[0]
    it = into_it(e, st, c.args[1], c.ga(2) if len(c.f.get("ga", [])) > 2 else c.atys[1])
    if it.a[0] == "seq" and it.a[3] in ("val", "ref"):
        e.write(st, L(e, st, a), seq_add(V(e, st, a), mk("all", SV(e, st, it.a[1]))))
        return [(st, UNIT)]
    out = []
    for s, k, v in collect_into(e, st, c, it, V(e, st, a), c.ga(0)):
        e.write(s, L(e, s, a), v)
        out.append((s, UNIT))
    return out


# ---------------------------------------------------------------- bitcoin consensus encoding into a Vec
@model("bitcoin::consensus::encode::Encodable::consensus_encode")
def _(e, st, c):
    if local_impl(c):
        return None
    w = V(e, st, c.args[1])
    wt = c.ga(1)
    while wt.get("k") == "ref":
        wt = e.ty(wt["to"])
    if w.op != "seq" and wt.get("def") != "alloc::vec::Vec" and not (
            w.op == "app" and w.a[0] == "bitcoin::consensus::encode::serialize"):
        return None
    x = SV(e, st, c.args[0])
    t = c.ga(0)
    if t.get("s") == "u8":
        part = mk("one", x)
    else:
        part = mk("all", mk("app", "bitcoin::consensus::encode::serialize", x))
    e.opaque_called["bitcoin::consensus::encode::Encodable::consensus_encode"] = 1
    e.write(st, L(e, st, c.args[1]), seq_add(w, part))
    return [(st, ok(mk("app", "enclen", x)))]


def seq_write(e, st, c, part):
    """append to a writer whose content is known (a Vec behind a generic Write); None otherwise"""
    w = V(e, st, c.args[0])
    x = e.lv[w]["init"] if w in e.lv else w
    if local_impl(c) or not (x.op == "seq" or x.op == "app" and x.a[0] == "bitcoin::consensus::encode::serialize"):
        return None
    e.write(st, L(e, st, c.args[0]), seq_add(w, part))
    return [(st, ok(UNIT))]


@model("bitcoin_io::Write::write_all")
def _(e, st, c):
    return seq_write(e, st, c, mk("all", SV(e, st, c.args[1])))


@model("bitcoin::consensus::encode::WriteExt::emit_slice")
def _(e, st, c):
    return seq_write(e, st, c, mk("all", SV(e, st, c.args[1])))


@model("bitcoin::consensus::encode::WriteExt::emit_u8")
def _(e, st, c):
    return seq_write(e, st, c, mk("one", SV(e, st, c.args[1])))


# ---------------------------------------------------------------- fallbacks by pattern
def generic(path, rpath, f):
    m = _num.match(path)
    if m:
        return num_model(*m.groups())
    if path.startswith("core::slice::index::") or path.startswith("core::slice::iter"):
        return None
    return None


# ---------------------------------------------------------------- bitcoin_units::Amount (a u64 of satoshis)
@model("bitcoin_units::amount::Amount::to_sat")
def _(e, st, c):
    x = e.snap(st, c.args[0])
    if x.op == "app" and x.a[0] == "bitcoin_units::amount::Amount::from_sat":
        return [(st, x.a[1])]
    return [(st, mk("app", "bitcoin_units::amount::Amount::to_sat", x))]


def amount_op(op):
    def f(e, st, c):
        P = "bitcoin_units::amount::Amount::"
        ab = []
        for x in c.args:
            x = e.snap(st, x)
            ab.append(x.a[1] if x.op == "app" and x.a[0] == P + "from_sat" else mk("app", P + "to_sat", x))
        r = arith(op, ab[0], ab[1])
        out = []
        for s, v in e.fork(st, e.overflow(op, ab[0], ab[1], "u64")):
            out.append((s, NONE if v else some(mk("app", P + "from_sat", r))))
        return out
    return f


MODELS["bitcoin_units::amount::Amount::checked_add"] = amount_op("add")
MODELS["bitcoin_units::amount::Amount::checked_sub"] = amount_op("sub")

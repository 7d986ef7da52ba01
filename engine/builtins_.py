"""Primitive operations of the value-flow analysis and the map from std operations to /verif/model."""
from terms import *
from values import *
import machine as M_
import math
from fractions import Fraction

BUILTINS = {}


def bi(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return d


SL = "core::slice::<impl [T]>::"
VEC = "std::vec::Vec::<T, A>::"
VEC0 = "std::vec::Vec::<T>::"
OPT = "std::option::Option::<T>::"
RES = "std::result::Result::<T, E>::"
IT = "std::iter::Iterator::"
F64 = ["core::f64::<impl f64>::", "std::f64::<impl f64>::"]
HM = "std::collections::HashMap::<K, V, S, A>::"
HS = "std::collections::HashSet::<T, S, A>::"

MODEL = {
    SL + "iter": "slice_iter", SL + "iter_mut": "slice_iter_mut", SL + "get": None, SL + "get_mut": None,
    SL + "first": "slice_first", SL + "last": "slice_last", SL + "first_mut": "slice_first_mut", SL + "last_mut": "slice_last_mut",
    SL + "is_empty": "slice_is_empty", SL + "contains": "slice_contains", SL + "swap": "slice_swap", SL + "reverse": "slice_reverse",
    SL + "fill": "slice_fill", SL + "copy_from_slice": "slice_copy_from", SL + "clone_from_slice": "slice_copy_from",
    SL + "split_at": "slice_split_at", SL + "split_at_mut": "slice_split_at_mut", SL + "split_first": "slice_split_first",
    SL + "split_last": "slice_split_last", SL + "windows": "windows", SL + "chunks": "chunks", SL + "chunks_exact": "chunks_exact",
    SL + "chunks_mut": "chunks_mut", SL + "chunks_exact_mut": "chunks_exact_mut",
    "std::slice::<impl [T]>::to_vec": "slice_to_vec", "std::slice::<impl [T]>::sort": "sort", "std::slice::<impl [T]>::sort_by": "sort_by",
    "std::slice::<impl [T]>::sort_by_key": "sort_by_key", SL + "sort_unstable": "sort", SL + "sort_unstable_by": "sort_by",
    SL + "sort_unstable_by_key": "sort_by_key", SL + "binary_search": "binary_search",
    "std::slice::<impl [T]>::sort_by_cached_key": "sort_by_key",
    VEC + "dedup": "vec_dedup", VEC + "retain": "vec_retain", VEC + "extend_from_slice": "vec_extend_from_slice", VEC + "append": "vec_append",
    VEC + "resize": "vec_resize", VEC + "insert": "vec_insert", VEC + "remove": "vec_remove",
    VEC + "swap_remove": "vec_swap_remove", VEC + "split_off": "vec_split_off",
    "std::mem::swap": "mem_swap", "std::mem::replace": "mem_replace", "std::mem::take": "mem_take",
    "std::cmp::max": "cmp_max", "std::cmp::min": "cmp_min", "std::cmp::Ord::max": "cmp_max", "std::cmp::Ord::min": "cmp_min",
    "std::iter::repeat_with": "repeat_with", "std::iter::repeat": "repeat", "std::iter::once": "once", "std::iter::empty": "empty",
    "std::iter::from_fn": "from_fn", "std::iter::successors": "successors", "std::iter::zip": "zip",
    "std::ops::RangeInclusive::<Idx>::new": "incl_new", "std::ops::RangeInclusive::<Idx>::contains": "incl_contains",
    "std::ops::RangeInclusive::<Idx>::start": "incl_start", "std::ops::RangeInclusive::<Idx>::end": "incl_end",
    "std::ops::Range::<Idx>::contains": "range_contains", "std::ops::Range::<Idx>::is_empty": "range_is_empty",
    OPT + "map": "option_map", OPT + "and_then": "option_and_then", OPT + "map_or": "option_map_or", OPT + "map_or_else": "option_map_or_else",
    OPT + "filter": "option_filter", OPT + "unwrap": "option_unwrap", OPT + "unwrap_or": "option_unwrap_or", OPT + "unwrap_or_else": "option_unwrap_or_else",
    OPT + "unwrap_unchecked": "option_unwrap",
    OPT + "ok_or": "option_ok_or", OPT + "ok_or_else": "option_ok_or_else", OPT + "or": "option_or", OPT + "or_else": "option_or_else",
    OPT + "and": "option_and", OPT + "xor": "option_xor", OPT + "zip": "option_zip", OPT + "is_some": "option_is_some", OPT + "is_none": "option_is_none",
    OPT + "is_some_and": "option_is_some_and", OPT + "is_none_or": "option_is_none_or",
    OPT + "as_ref": "option_as_ref", OPT + "as_mut": "option_as_mut", OPT + "take": "option_take", OPT + "replace": "option_replace",
    OPT + "insert": "option_insert", OPT + "get_or_insert_with": "option_get_or_insert_with",
    "std::option::Option::<&T>::cloned": "option_cloned", "std::option::Option::<&T>::copied": "option_cloned",
    "std::option::Option::<&mut T>::cloned": "option_cloned", "std::option::Option::<&mut T>::copied": "option_cloned",
    RES + "map": "result_map", RES + "map_err": "result_map_err", RES + "and_then": "result_and_then", RES + "unwrap": "result_unwrap",
    RES + "unwrap_or": "result_unwrap_or", RES + "unwrap_or_else": "result_unwrap_or_else", RES + "ok": "result_ok", RES + "err": "result_err",
    RES + "is_ok": "result_is_ok", RES + "is_err": "result_is_err", RES + "as_ref": "result_as_ref", RES + "unwrap_err": "result_unwrap_err",
    "core::bool::<impl bool>::then": "bool_then", "core::bool::<impl bool>::then_some": "bool_then_some",
    "std::cmp::Ordering::reverse": "ord_reverse", "std::cmp::Ordering::then": "ord_then", "std::cmp::Ordering::then_with": "ord_then_with",
    "std::cmp::Ordering::is_lt": "ord_is_lt", "std::cmp::Ordering::is_gt": "ord_is_gt", "std::cmp::Ordering::is_eq": "ord_is_eq",
    "std::cmp::Ordering::is_le": "ord_is_le", "std::cmp::Ordering::is_ge": "ord_is_ge",
}
for n in ("map filter filter_map enumerate rev skip take take_while skip_while step_by cloned peekable flat_map flatten "
          "fold reduce for_each count last nth all any find find_map position max_by min_by max_by_key min_by_key unzip partition").split():
    MODEL[IT + n] = n
MODEL.update({IT + "zip": "zip", IT + "chain": "chain", IT + "copied": "cloned", IT + "max": "iter_max", IT + "min": "iter_min", IT + "eq": "iter_eq"})
MODEL.update({IT + n: n for n in "scan map_while inspect cycle rposition".split()})
MODEL.update({IT + n: "iter_" + n for n in "cmp ne lt le gt ge".split()})
MODEL.update({"std::iter::DoubleEndedIterator::" + n: n for n in "rfind rfold nth_back".split()})
MODEL.update({
    "std::iter::repeat_n": "repeat_n", "std::iter::Peekable::<I>::peek": "peek", "std::iter::Peekable::<I>::next_if": "next_if",
    "std::slice::ChunksExact::<'a, T>::remainder": "chunks_remainder", SL + "rchunks": "rchunks", IT + "partial_cmp": None,
    "std::slice::<impl [T]>::concat": "slice_concat", "std::slice::<impl [T]>::repeat": "slice_repeat",
    SL + "rotate_left": "slice_rotate_left", SL + "rotate_right": "slice_rotate_right", SL + "fill_with": "slice_fill_with",
    SL + "split_first_mut": "slice_split_first_mut", SL + "split_last_mut": "slice_split_last_mut",
    SL + "swap_with_slice": "slice_swap_with", SL + "starts_with": "slice_starts_with", SL + "ends_with": "slice_ends_with",
    SL + "is_sorted": "slice_is_sorted", SL + "partition_point": "partition_point", SL + "binary_search_by": "binary_search_by",
    SL + "binary_search_by_key": "binary_search_by_key", VEC + "dedup_by_key": "vec_dedup_by_key", VEC + "resize_with": "vec_resize_with",
})
for _b in ("std::collections::VecDeque::<T, A>::", "std::collections::VecDeque::<T>::"):
    MODEL.update({_b + "pop_front": "deque_pop_front", _b + "push_front": "deque_push_front", _b + "front": "slice_first", _b + "back": "slice_last",
                  _b + "front_mut": "slice_first_mut", _b + "back_mut": "slice_last_mut", _b + "iter": "slice_iter", _b + "iter_mut": "slice_iter_mut",
                  _b + "contains": "slice_contains", _b + "append": "vec_append", _b + "resize": "vec_resize", _b + "swap": "slice_swap",
                  _b + "insert": "vec_insert", _b + "remove": "deque_remove", _b + "retain": "vec_retain", _b + "rotate_left": "slice_rotate_left",
                  _b + "rotate_right": "slice_rotate_right", _b + "split_off": "vec_split_off"})
for _b in ("std::collections::BinaryHeap::<T, A>::", "std::collections::BinaryHeap::<T>::"):
    MODEL.update({_b + "pop": "heap_pop", _b + "peek": "heap_peek", _b + "into_sorted_vec": "heap_sorted", _b + "append": "vec_append"})
MODEL.update({OPT + n: "option_" + n for n in "get_or_insert inspect iter iter_mut take_if".split()})
MODEL.update({RES + n: "result_" + n for n in "and or or_else as_mut inspect is_ok_and is_err_and iter map_or map_or_else".split()})
MODEL.update({
    "std::option::Option::<std::option::Option<T>>::flatten": "option_flatten", "std::option::Option::<(T, U)>::unzip": "option_unzip",
    "std::option::Option::<std::result::Result<T, E>>::transpose": "option_transpose",
    "std::result::Result::<std::option::Option<T>, E>::transpose": "result_transpose",
    "std::result::Result::<&T, E>::cloned": "result_cloned", "std::result::Result::<&T, E>::copied": "result_cloned",
    "std::result::Result::<&mut T, E>::cloned": "result_cloned", "std::result::Result::<&mut T, E>::copied": "result_cloned",
    RES + "expect_err": "result_unwrap_err",
    "std::cmp::Ordering::is_ne": "ord_is_ne", SL + "chunk_by": "chunk_by", SL + "split": "slice_split", SL + "is_sorted_by": "slice_is_sorted_by",
    SL + "is_sorted_by_key": "slice_is_sorted_by_key", IT + "is_sorted": "iter_is_sorted", SL + "strip_prefix": "slice_strip_prefix",
    VEC + "dedup_by": "vec_dedup_by", VEC + "retain_mut": "vec_retain_mut", VEC + "pop_if": "vec_pop_if",
    "std::iter::Peekable::<I>::next_if_eq": "next_if_eq", "std::iter::Peekable::<I>::peek_mut": "peek_mut",
})
MODEL = {k: v for k, v in MODEL.items() if v}
del MODEL["std::mem::take"]


def mrun(m, st, name, args):
    return m.run(m.bodies["model::" + name], args, {}, st)


@bi("std::vec::from_elem")
def _from_elem(m, st, a, i):
    if isinstance(a[1], Poly) and int_val(a[1]) is None and scalar(a[0]):
        return VA(a[1], var("%elem", "i", True), a[0])
    return mrun(m, st, "vec_from_elem", a)


def scalar(v):
    return isinstance(v, Node) and not (isinstance(v, Leaf) and v.kind in ("ref", "fn"))


def is_num(v):
    if isinstance(v, Poly):
        return True
    if isinstance(v, Ite):
        x = v
        while isinstance(x, Ite):
            x = x.hi if x.hi is not BOT else x.lo
        return isinstance(x, Poly)
    return v is BOT


# ---------------------------------------------------------------- cloning, references

@bi("std::clone::Clone::clone", "model::x::clone", "std::borrow::ToOwned::to_owned", "std::clone::Clone::clone_from")
def _clone(m, st, a, i):
    v = m.deref(a[0], st)
    if isinstance(v, VS) and isinstance(v.tag, str):
        for im, path in m.impls.get(("std::clone::Clone", "clone"), []):
            if im["self"]["k"] == "adt" and im["self"]["path"] == v.tag and not im.get("derived"):
                b = m.bodies[path]
                return m.run(b, [a[0]], {}, st)
    return v


@bi("model::x::dup", "std::ptr::read")
def _dup(m, st, a, i):
    return m.deref(a[0], st)


@bi("model::x::take_elem")
def _take(m, st, a, i):
    return m.elem(m.deref_all(a[0], st), a[1])


@bi("model::x::elem", "model::x::elem_ptr", SL + "get_unchecked", SL + "get_unchecked_mut")
def _elem(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    if i.f["path"].startswith(SL):
        if isinstance(a[1], VS):
            return rng_index(m, st, r, a[1], i, check=False)
        m.oob(st, r, a[1], i)
    return m.extend_ref(r, ("i", a[1]))


@bi("model::x::sub", "model::x::sub_mut")
def _sub(m, st, a, i):
    return m.extend_ref(m.ref_to_value(a[0], st), ("sl", a[1], a[2]))


@bi("model::x::deref_clone")
def _dc(m, st, a, i):
    return m.deref_all(a[0], st)


def zero_of(t):
    k = t["k"] if t else "float"
    if k in ("int", "float"):
        return ZERO
    if k == "bool":
        return FALSE
    if k == "adt" and t["path"] == "std::vec::Vec":
        return VL(())
    if k == "adt" and t["path"].startswith("std::option"):
        return NONE
    if k == "adt" and ("HashMap" in t["path"] or "BTreeMap" in t["path"]):
        return VH({}, False, "BTree" in t["path"])
    if k == "adt" and ("HashSet" in t["path"] or "BTreeSet" in t["path"]):
        return VH({}, True, "BTree" in t["path"])
    if k == "adt" and ("VecDeque" in t["path"] or "BinaryHeap" in t["path"]):
        return VL(())
    if k == "array" and isinstance(t["n"], int) and t["n"] <= 64:
        return VL([zero_of(t["e"]) for _ in range(t["n"])])
    if k == "tuple":
        return VS("()", [zero_of(x) for x in t["e"]]) if t["e"] else UNIT
    return ZERO


@bi("model::x::zero")
def _zero(m, st, a, i):
    return ZERO


@bi("model::x::one")
def _one(m, st, a, i):
    return ONE


@bi("std::default::Default::default")
def _default(m, st, a, i):
    t = i.f["args"][0] if i.f["args"] else i.dt
    if t["k"] == "adt" and t["path"] in m.adts:
        return NotImplemented
    return zero_of(t)


@bi("model::x::itlen", "std::iter::ExactSizeIterator::len")
def _itlen(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    v = m.deref_all(r, st)
    if isinstance(v, VS):
        if v.tag == "std::ops::Range":
            return mrun(m, st, "range_itlen", [r])
        for (tr, n), lst in m.impls.items():
            if n == "itlen" and tr is None:
                for im, path in lst:
                    if im["self"]["path"] == v.tag:
                        return m.run(m.bodies[path], [r], {}, st)
    raise Unsupported("length of iterator %r" % (getattr(v, "tag", v),))


# ---------------------------------------------------------------- arithmetic through traits

def arith(op):
    def f(m, st, a, i):
        x, y = m.deref_all(a[0], st), m.deref_all(a[1], st)
        if scalar(x) and scalar(y):
            t = i.f["args"][0] if i.f["args"] else None
            while t and t["k"] == "ref":
                t = t["e"]
            if not t or t["k"] not in ("int", "float"):
                t = {"k": "float", "n": "f64"}
            return m.binop(_F(i.fn), op, x, y, t, st, i.span)
        return NotImplemented
    return f


class _F:
    def __init__(self, fn):
        self.body = {"path": fn}


def arith_assign(op):
    g = arith(op)
    def f(m, st, a, i):
        cur = m.deref_all(a[0], st)
        if scalar(cur) and scalar(m.deref_all(a[1], st)):
            r = m.ref_to_value(a[0], st)
            v = g(m, st, [cur, a[1]], i)
            if v is NotImplemented:
                return v
            m.write(m.locs_of_ref(r), v, st)
            return UNIT
        return NotImplemented
    return f


for nm, op in (("Add", "Add"), ("Sub", "Sub"), ("Mul", "Mul"), ("Div", "Div"), ("Rem", "Rem"), ("BitAnd", "BitAnd"), ("BitOr", "BitOr"), ("BitXor", "BitXor")):
    BUILTINS["std::ops::%s::%s" % (nm, nm.lower())] = arith(op)
    BUILTINS["std::ops::%sAssign::%s_assign" % (nm, nm.lower())] = arith_assign(op)


@bi("std::ops::Neg::neg")
def _neg(m, st, a, i):
    x = m.deref_all(a[0], st)
    return neg(x) if scalar(x) else NotImplemented


@bi("std::ops::Not::not")
def _not(m, st, a, i):
    x = m.deref_all(a[0], st)
    return not_(b2b(x)) if scalar(x) else NotImplemented


def any_op(op):
    def f(m, st, a, i):
        x, y = m.deref_all(a[0], st), m.deref_all(a[1], st)
        if scalar(x) and scalar(y):
            if m.ieee:
                return m.binop(None, op, x, y, {"k": "float", "n": "f64"}, st, i.span)
            return add(x, y) if op == "Add" else mul(x, y)
        tr = "std::ops::" + op
        if x is ZERO and op == "Add" and not scalar(y):
            return a[1]
        f2 = {"path": tr + "::" + op.lower(), "trait": tr, "name": op.lower(), "args": [{"k": "param", "n": "?"}] * 2}
        r = m.trait_call(f2, a, st, i.span, i.fn, None, None)
        if r is None:
            raise Unsupported("sum of %r" % (x,))
        return r
    return f


BUILTINS["model::x::add"] = any_op("Add")
BUILTINS["model::x::mul"] = any_op("Mul")


# ---------------------------------------------------------------- comparison

def custom_impl(m, tr, name, v):
    if isinstance(v, (VS, VE)) and isinstance(v.tag, str):
        for im, path in m.impls.get((tr, name), []):
            if im["self"]["k"] == "adt" and im["self"]["path"] == v.tag and not im.get("derived"):
                return m.bodies.get(path)
    return None


def veq(m, st, x, y, sort=None):
    """structural equality -> boolean diagram (may run user impls)"""
    x, y = m.deref_all(x, st), m.deref_all(y, st)
    if x is BOT or y is BOT:
        return BOT
    if isinstance(x, VI):
        return ite(x.c, veq(m, st, x.a, y), veq(m, st, x.b, y))
    if isinstance(y, VI):
        return ite(y.c, veq(m, st, x, y.a), veq(m, st, x, y.b))
    b = custom_impl(m, "std::cmp::PartialEq", "eq", x)
    if b is not None:
        v, s2 = m.run(b, [m.temp(x, st), m.temp(y, st)], {}, st)
        st.c, st.pc = s2.c, s2.pc
        return b2b(v)
    if isinstance(x, Node) and isinstance(y, Node):
        def f(p, q):
            if p is BOT or q is BOT:
                return BOT
            if isinstance(p, Leaf) and p.kind == "bool":
                return ite(p, b2b(q), not_(b2b(q)))
            if isinstance(q, Leaf) and q.kind == "bool":
                return ite(q, b2b(p), not_(b2b(p)))
            if isinstance(p, Leaf) or isinstance(q, Leaf):
                return cmp("eq", p, q, "o")
            return cmp("eq", p, q, sort or psort(psub(p, q)))
        return ap(("veq", sort), f, x, y)
    if isinstance(x, VS) and isinstance(y, VS):
        return and_(*[veq(m, st, p, q) for p, q in zip(x.f, y.f)])
    if isinstance(x, VE) and isinstance(y, VE):
        r = FALSE
        for k in set(x.pay) | set(y.pay) | {v for v in variants_of(x) | variants_of(y)}:
            c = and_(is_variant(x, k), is_variant(y, k))
            if c is FALSE:
                continue
            px, py = x.pay.get(k, ()), y.pay.get(k, ())
            r = or_(r, and_(c, *[veq(m, st, p, q) for p, q in zip(px, py)]))
        return r
    if isinstance(x, VL) and isinstance(y, VL):
        r = cmp("eq", x.len, y.len, "i")
        for k in range(min(len(x.items), len(y.items))):
            r = and_(r, or_(not_(gt(x.len, const(k))), veq(m, st, x.items[k], y.items[k])))
        return r
    if isinstance(x, VH) and isinstance(y, VH) and all(const_val(t) is not None for h in (x, y) for k in h.e for t in k):
        # keys are known numbers: both or neither hold each of them, with equal values
        r = TRUE
        for k in list(x.e) + [k for k in y.e if k not in x.e]:
            (_, p, v), (_, q, w) = x.e.get(k, (None, FALSE, None)), y.e.get(k, (None, FALSE, None))
            both = FALSE if p is FALSE or q is FALSE else and_(p, q) if v is None or w is None else and_(p, q, veq(m, st, v, w))
            r = and_(r, or_(both, and_(not_(p), not_(q))))
        return r
    raise Unsupported("equality of %s and %s" % (type(x).__name__, type(y).__name__))


def variants_of(x):
    out = set()
    seen = set()
    def go(t):
        if t.id in seen:
            return
        seen.add(t.id)
        if isinstance(t, Ite):
            go(t.hi)
            go(t.lo)
        elif isinstance(t, Leaf) and t.kind == "variant":
            out.add(t.v)
    go(x.disc)
    return out


@bi("std::cmp::PartialEq::eq", "model::x::eq", "model::slice_eq")
def _eq(m, st, a, i):
    return veq(m, st, a[0], a[1], ty_sort(i))


@bi("std::cmp::PartialEq::ne")
def _ne(m, st, a, i):
    return not_(veq(m, st, a[0], a[1], ty_sort(i)))


def ty_sort(i):
    t = i.f["args"][0] if i.f.get("args") else None
    while t and t["k"] == "ref":
        t = t["e"]
    if t and t["k"] == "float":
        return "r"
    if t and t["k"] in ("int", "char"):
        return "i"
    return None


def vcmp(m, st, x, y, sort=None):
    """three-way comparison -> diagram over variant leaves of Ordering"""
    x, y = m.deref_all(x, st), m.deref_all(y, st)
    if isinstance(x, VI):
        return ite(x.c, vcmp(m, st, x.a, y, sort), vcmp(m, st, x.b, y, sort))
    if isinstance(y, VI):
        return ite(y.c, vcmp(m, st, x, y.a, sort), vcmp(m, st, x, y.b, sort))
    for tr, nm in (("std::cmp::Ord", "cmp"), ("std::cmp::PartialOrd", "partial_cmp")):
        b = custom_impl(m, tr, nm, x)
        if b is not None:
            v, s2 = m.run(b, [m.temp(x, st), m.temp(y, st)], {}, st)
            st.c, st.pc = s2.c, s2.pc
            if nm == "partial_cmp":
                v = v.pay[1][0]
            return v.disc
    if isinstance(x, Node) and isinstance(y, Node):
        if x is BOT or y is BOT:
            return BOT
        if not is_num(x):
            x, y = ite(b2b(x), ONE, ZERO), ite(b2b(y), ONE, ZERO)
            sort = "i"
        s = sort
        if s is None:
            s = "i"
            for t in (x, y):
                for p in leaves_of(t):
                    if isinstance(p, Poly) and (psort(p) == "r" or any(c.denominator != 1 for _, c in p.t)):
                        s = "r"
        return M_.ordering_of(x, y, s).disc
    if isinstance(x, VS) and isinstance(y, VS):
        if x.tag == "std::cmp::Reverse":
            return vcmp(m, st, y.f[0], x.f[0])
        return lex([vcmp(m, st, p, q) for p, q in zip(x.f, y.f)])
    if isinstance(x, VL) and isinstance(y, VL):
        n = min(len(x.items), len(y.items))
        r = M_.ordering_of(x.len, y.len, "i").disc
        for k in range(n - 1, -1, -1):
            both = and_(gt(x.len, const(k)), gt(y.len, const(k)))
            r = ite(both, lex([vcmp(m, st, x.items[k], y.items[k]), r]), M_.ordering_of(x.len, y.len, "i").disc)
        return r
    if isinstance(x, VE) and isinstance(y, VE):
        dx, dy = m_disc_idx(x), m_disc_idx(y)
        r = M_.ordering_of(dx, dy, "i").disc
        for k in set(x.pay) & set(y.pay):
            c = and_(is_variant(x, k), is_variant(y, k))
            if c is not FALSE and x.pay[k]:
                r = ite(c, lex([vcmp(m, st, p, q) for p, q in zip(x.pay[k], y.pay[k])]), r)
        return r
    raise Unsupported("comparison of %s" % type(x).__name__)


def m_disc_idx(v):
    return ap("vidx", lambda x: const(x.v), v.disc)


def leaves_of(t):
    if isinstance(t, Ite):
        return leaves_of(t.hi) | leaves_of(t.lo)
    return {t}


def lex(ds):
    r = variant(1)
    for d in reversed(ds):
        r = ap(("lex", r.id), lambda x, r=r: r if x is variant(1) else x, d)
    return r


@bi("std::cmp::Ord::cmp", "model::x::cmp")
def _cmp(m, st, a, i):
    d = vcmp(m, st, a[0], a[1], ty_sort(i))
    return VE(ORDERING, d, {}), st


@bi("core::f64::<impl f64>::total_cmp", "std::f64::<impl f64>::total_cmp")
def _tcmp(m, st, a, i):
    return VE(ORDERING, vcmp(m, st, a[0], a[1], "r"), {})


@bi("std::cmp::PartialOrd::partial_cmp")
def _pcmp(m, st, a, i):
    x = m.deref_all(a[0], st)
    b = custom_impl(m, "std::cmp::PartialOrd", "partial_cmp", x)
    if b is not None:
        return m.run(b, [m.ref_to_value(a[0], st), m.ref_to_value(a[1], st)], {}, st)
    return some(VE(ORDERING, vcmp(m, st, a[0], a[1], ty_sort(i)), {})), st


def pord(test):
    def f(m, st, a, i):
        d = vcmp(m, st, a[0], a[1], ty_sort(i))
        return ap(("ord", test), lambda x: BOT if x is BOT else B(x.v in test), d)
    return f


BUILTINS["std::cmp::PartialOrd::lt"] = pord((0,))
BUILTINS["std::cmp::PartialOrd::le"] = pord((0, 1))
BUILTINS["std::cmp::PartialOrd::gt"] = pord((2,))
BUILTINS["std::cmp::PartialOrd::ge"] = pord((1, 2))


@bi("std::cmp::Ord::clamp")
def _oclamp(m, st, a, i):
    return imax(a[1], imin(a[0], a[2]))


# ---------------------------------------------------------------- indexing

def rng_bounds(m, st, idx, n):
    t = idx.tag
    if t == "std::ops::Range":
        return idx.f[0], idx.f[1]
    if t == "std::ops::RangeTo":
        return ZERO, idx.f[0]
    if t == "std::ops::RangeFrom":
        return idx.f[0], n
    if t == "std::ops::RangeFull":
        return ZERO, n
    if t == "model::Incl":
        return idx.f[0], add(idx.f[1], ONE)
    if t == "std::ops::RangeToInclusive":
        return ZERO, add(idx.f[0], ONE)
    raise Unsupported("index by %s" % (t,))


def rng_index(m, st, r, idx, i, check=True):
    n = m.ref_len(r, st)
    lo, hi = rng_bounds(m, st, idx, n)
    if check:
        m.require(st, and_(le(lo, hi), le(hi, n)), "slice range", i.span, i.fn)
    return m.extend_ref(r, ("sl", lo, sub(hi, lo)))


@bi("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _index(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    v = m.deref_all(r, st)
    if isinstance(v, VI):
        v = v.a if v.a is not BOT else v.b
    if isinstance(v, (VL, VA)):
        idx = m.deref_all(a[1], st)
        if isinstance(idx, VS):
            return rng_index(m, st, r, idx, i), st
        n = m.ref_len(r, st)
        m.require(st, and_(lt(idx, n), ge(idx, ZERO)), "bounds", i.span, i.fn)
        return m.extend_ref(r, ("i", idx)), st
    if isinstance(v, VH):
        g, st = map_get(m, st, r, a[1])
        m.require(st, is_variant(g, 1), "missing key", i.span, i.fn)
        return g.pay[1][0], st
    if isinstance(v, VS) and v.tag == "image":
        x, y = m.deref_all(a[1], st).f
        return pixel_ref(m, st, r, x, y, i.f["path"].endswith("_mut"), i), st
    return NotImplemented


def slice_get(mut):
    def f(m, st, a, i):
        idx = a[1]
        r = m.ref_to_value(a[0], st)
        n = m.ref_len(r, st)
        if isinstance(idx, VS):
            lo, hi = rng_bounds(m, st, idx, n)
            return option(m.under(and_(le(lo, hi), le(hi, n)), st), m.extend_ref(r, ("sl", lo, sub(hi, lo))))
        return option(m.under(and_(lt(idx, n), ge(idx, ZERO)), st), m.extend_ref(r, ("i", idx)))
    return f


BUILTINS[SL + "get"] = slice_get(False)
BUILTINS[SL + "get_mut"] = slice_get(True)
BUILTINS["model::slice_get"] = slice_get(False)
BUILTINS["model::slice_get_mut"] = slice_get(True)


@bi(SL + "len", VEC + "len")
def _len(m, st, a, i):
    return m.ref_len(m.ref_to_value(a[0], st), st)


@bi(VEC + "is_empty")
def _isempty(m, st, a, i):
    return cmp("eq", m.ref_len(m.ref_to_value(a[0], st), st), ZERO, "i")


@bi(VEC + "as_slice", VEC + "as_mut_slice", SL + "as_slice", VEC + "as_ptr", "core::array::<impl [T; N]>::as_slice")
def _asslice(m, st, a, i):
    return m.ref_to_value(a[0], st)


@bi("std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut")
def _asref(m, st, a, i):
    v = m.deref_all(a[0], st)
    if isinstance(v, (VL, VA)):
        return m.ref_to_value(a[0], st)
    return NotImplemented


@bi("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def _deref(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    v = m.deref_all(r, st)
    if isinstance(v, VI):
        v = v.a
    if isinstance(v, (VL, VA)) or isinstance(v, Node):
        return r
    t = i.f["args"][0] if i.f["args"] else None
    if t and t["k"] == "adt" and t["path"] in POINTERS:
        return r
    return NotImplemented


POINTERS = ("std::rc::Rc", "std::sync::Arc", "std::cell::Ref", "std::cell::RefMut", "std::boxed::Box", "std::sync::MutexGuard")


@bi("std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new")
def _rc(m, st, a, i):
    return m.temp(a[0], st)


CELL = ("std::cell::Cell::<T>::", "std::cell::RefCell::<T>::")


@bi(*[c + "new" for c in CELL])
def _cell(m, st, a, i):
    return VS("cell", (a[0],))


@bi(*[c + n for c in CELL for n in ("borrow", "borrow_mut", "get_mut", "as_ptr")])
def _cell_ref(m, st, a, i):
    return m.extend_ref(m.ref_to_value(a[0], st), ("f", 0))


@bi(*[c + "get" for c in CELL])
def _cell_get(m, st, a, i):
    return m.deref_all(a[0], st).f[0]


@bi(*[c + "into_inner" for c in CELL])
def _cell_in(m, st, a, i):
    return a[0].f[0]


@bi(*[c + n for c in CELL for n in ("set", "replace")])
def _cell_set(m, st, a, i):
    r = m.extend_ref(m.ref_to_value(a[0], st), ("f", 0))
    old = m.deref_all(r, st)
    m.write(m.locs_of_ref(r), a[1], st)
    return UNIT if i.f["path"].endswith("set") else old


# ---------------------------------------------------------------- Vec primitives

def upd(m, st, r, g):
    """apply g: value -> value at reference r"""
    for c, cell, path in m.locs_of_ref(r):
        old = m.read1(cell, path, st)
        new = g(old)
        m.write([(c, cell, path)], new, st)


def push_cond(v, x, c=TRUE):
    if isinstance(v, VI):
        return VI(v.c, push_cond(v.a, x, c), push_cond(v.b, x, c))
    if not isinstance(v, VL):
        raise Unsupported("push on %s" % type(v).__name__)
    if c is FALSE:
        return v
    n = int_val(v.len)
    if n is not None:
        items = v.items[:n] + (x,)
        return VL(items, v.len if False else ite(c, const(n + 1), const(n)))
    items = list(v.items)
    done = []
    for k in range(len(items) + 1):
        cc = and_(eq(v.len, const(k)), c)
        if cc is FALSE:
            continue
        if k < len(items):
            items[k] = merge(cc, x, items[k])
        else:
            items.append(x)
    return VL(items, ite(c, add(v.len, ONE), v.len))


@bi(VEC0 + "new", VEC0 + "with_capacity", VEC + "with_capacity_in")
def _vnew(m, st, a, i):
    return VL(())


@bi(VEC + "push")
def _push(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    upd(m, st, r, lambda v: push_cond(v, a[1]))
    return UNIT


@bi(VEC + "pop")
def _pop(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    v = m.deref_all(r, st)
    if isinstance(v, VL):
        n = int_val(v.len)
        if n is not None:
            if n == 0:
                return NONE
            upd(m, st, r, lambda w: VL(w.items[:n - 1]))
            return some(v.items[n - 1])
        ne = gt(v.len, ZERO)
        x = m.elem(v, sub(v.len, ONE))
        upd(m, st, r, lambda w: VL(w.items, ite(ne, sub(v.len, ONE), ZERO)))
        return option(ne, x)
    raise Unsupported("pop on %s" % type(v).__name__)


@bi(VEC + "clear")
def _clear(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    v = m.deref_all(r, st)
    upd(m, st, r, lambda w: VL(()))
    return UNIT


@bi(VEC + "truncate")
def _trunc(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    def g(v):
        n = int_val(a[1])
        if n is not None and int_val(v.len) is not None:
            return VL(v.items[:n])
        return VL(v.items, imin(v.len, a[1]))
    upd(m, st, r, g)
    return UNIT


@bi(VEC + "reserve", VEC + "shrink_to_fit", HM + "reserve", "std::collections::HashMap::<K, V, S>::reserve")
def _nop(m, st, a, i):
    return UNIT


@bi(VEC + "capacity")
def _cap(m, st, a, i):
    return m.ref_len(m.ref_to_value(a[0], st), st)


@bi(VEC + "into_boxed_slice", "std::slice::<impl [T]>::into_vec", "std::boxed::Box::<T>::new", "std::boxed::Box::<[T]>::into_vec",
    "std::hint::must_use", "std::convert::identity", "std::iter::Iterator::by_ref", "std::hint::black_box", "std::iter::Iterator::fuse")
def _ident(m, st, a, i):
    return a[0]


@bi("std::slice::<impl [T]>::into_vec", "std::slice::<impl [T]>::into_boxed_slice")
def _ident2(m, st, a, i):
    return a[0]


@bi("std::boxed::Box::<T>::new_uninit")
def _uninit(m, st, a, i):
    return VS("UBox", (VS("MU", (UNIT, VS("MD", (BOT,)))),))


@bi("std::boxed::box_assume_init_into_vec_unsafe")
def _assume(m, st, a, i):
    return a[0].f[0].f[1].f[0]


for _b in ("std::collections::VecDeque::<T, A>::", "std::collections::VecDeque::<T>::", "std::collections::BinaryHeap::<T, A>::", "std::collections::BinaryHeap::<T>::"):
    for _n, _f in (("new", _vnew), ("with_capacity", _vnew), ("push_back", _push), ("len", _len), ("is_empty", _isempty), ("clear", _clear), ("truncate", _trunc),
                   ("reserve", _nop), ("make_contiguous", _asslice), ("get", BUILTINS[SL + "get"]), ("get_mut", BUILTINS[SL + "get_mut"])):
        BUILTINS[_b + _n] = _f
    BUILTINS[_b + ("push" if "Heap" in _b else "pop_back")] = _push if "Heap" in _b else _pop
    if "Heap" in _b:
        BUILTINS[_b + "into_vec"] = _ident


@bi(VEC + "drain", "std::collections::VecDeque::<T, A>::drain")
def _drain(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    n = m.ref_len(r, st)
    lo, hi = rng_bounds(m, st, a[1], n)
    return mrun(m, st, "vec_drain", [r, VS("std::ops::Range", (lo, hi))])


@bi("std::iter::Extend::extend")
def _extend(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    v = m.deref_all(r, st)
    if isinstance(v, VL):
        t = i.f["args"][1] if len(i.f["args"]) > 1 else None
        return mrun(m, st, "vec_extend_clone" if t and t["k"] == "ref" else "vec_extend", [r, a[1]])
    if isinstance(v, VH):
        return mrun(m, st, "set_extend" if v.set else "map_extend", [r, a[1]])
    return NotImplemented


# ---------------------------------------------------------------- iteration

def seq_of_map(m, st, r, v, what, byref):
    """entries of a hash map in the machine's chosen order"""
    keys = list(v.e)
    def sk(k):
        return tuple((0, int_val(x)) if isinstance(x, Poly) and int_val(x) is not None else (1, x.id) for x in k)
    keys.sort(key=sk)
    if v.srt:
        if len(keys) > 1 and any(t for k in keys for t, _ in sk(k)):
            raise Unsupported("order of arbitrary keys")
    elif m.maporder < 0:
        keys.reverse()
    out = VL(())
    for k in keys:
        kv, p, x = v.e[k]
        if byref:
            kr, xr = m.extend_ref(r, ("mkk", k)), m.extend_ref(r, ("mk", k))
        else:
            kr, xr = kv, x
        item = kr if (v.set or what == "keys") else xr if what == "values" else tup(kr, xr)
        out = push_cond(out, item, m.under(p, st))
    return out


@bi(HM + "iter", HM + "iter_mut", HM + "keys", HM + "values", HM + "values_mut", HS + "iter", HM + "drain", HM + "into_keys", HM + "into_values", HS + "drain",
    "std::collections::HashMap::<K, V, S>::iter", "std::collections::HashMap::<K, V, S>::iter_mut",
    "std::collections::HashMap::<K, V, S>::keys", "std::collections::HashMap::<K, V, S>::values",
    "std::collections::HashMap::<K, V, S>::values_mut", "std::collections::HashMap::<K, V, S>::drain", "std::collections::HashSet::<T, S>::iter")
@bi(*["std::collections::BTreeMap::<K, V, A>::" + n for n in "iter iter_mut keys values values_mut into_keys into_values".split()],
    "std::collections::BTreeSet::<T, A>::iter", "std::collections::HashSet::<T, S>::drain", "std::collections::HashMap::<K, V, S>::into_keys",
    "std::collections::HashMap::<K, V, S>::into_values")
def _mapiter(m, st, a, i):
    name = i.f["path"].split("::")[-1]
    byval = name in ("drain", "into_keys", "into_values")
    r = m.ref_to_value(a[0], st)
    v = m.deref_all(r, st)
    q = seq_of_map(m, st, r, v, {"into_keys": "keys", "into_values": "values", "values_mut": "values"}.get(name, name), not byval)
    if name == "drain":
        upd(m, st, r, lambda w: VH({}, v.set, v.srt))
    return mrun(m, st, "vec_into_iter", [q])


@bi("std::iter::IntoIterator::into_iter", "model::x::into_iter")
def _into_iter(m, st, a, i):
    x = a[0]
    v = m.deref_all(x, st)
    isref = v is not x
    if isinstance(v, VI):
        v = v.a if v.a is not BOT else v.b
    if isinstance(v, (VL, VA)):
        if not isref:
            return mrun(m, st, "vec_into_iter", [x])
        t = i.f["args"][0] if i.f["args"] else None
        return mrun(m, st, "slice_iter_mut" if t and t["k"] == "ref" and t.get("m") else "slice_iter", [m.ref_to_value(x, st)])
    if isinstance(v, VH):
        if not isref:
            return mrun(m, st, "vec_into_iter", [seq_of_map(m, st, None, v, "iter", False)])
        return mrun(m, st, "vec_into_iter", [seq_of_map(m, st, m.ref_to_value(x, st), v, "iter", True)])
    if isinstance(v, VE) and v.tag == OPTION:
        if not isref:
            return mrun(m, st, "option_into_iter", [v])
        o = mrun(m, st, "option_as_ref", [m.ref_to_value(x, st)])
        o, st = o if isinstance(o, tuple) else (o, st)
        return mrun(m, st, "option_into_iter", [o])
    if isinstance(v, VS):
        if isref:
            # &T / &mut T: user impl of IntoIterator, or &mut Iterator
            pass
        if v.tag in ("std::ops::Range", "std::ops::RangeFrom", "model::Incl") or has_impl(m, "std::iter::Iterator", v.tag):
            return x
        return NotImplemented
    return NotImplemented


def has_impl(m, tr, tag):
    return any(im["self"]["k"] == "adt" and im["self"]["path"] == tag for im in m.trait_impls.get(tr, []))


@bi(IT + "next", "std::iter::DoubleEndedIterator::next_back")
def _next(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    v = m.deref_all(r, st)
    back = i.f["path"].endswith("next_back")
    if isinstance(v, VS) and v.tag == "std::ops::Range":
        return mrun(m, st, "range_next_back" if back else "range_next", [r])
    if isinstance(v, VS) and v.tag == "std::ops::RangeFrom":
        x = v.f[0]
        upd(m, st, r, lambda w: VS(w.tag, (add(x, ONE),)))
        return some(x)
    if isinstance(v, VS) and isinstance(v.tag, str) and r is not a[0]:
        f = dict(i.f, args=[{"k": "param", "n": "?"}])
        return m.trait_call(f, [r], st, i.span, i.fn, i.dt, i.at)
    return NotImplemented


@bi(IT + "collect", "std::iter::FromIterator::from_iter")
def _collect(m, st, a, i):
    t = i.dt
    if t is None or t["k"] != "adt":
        t = i.f["args"][-1] if i.f["path"] == IT + "collect" else i.f["args"][0]
    x = a[0]
    if i.f["path"] != IT + "collect":
        x, st = m.invoke({"path": "std::iter::IntoIterator::into_iter", "trait": "std::iter::IntoIterator", "name": "into_iter", "args": [i.at[0] if i.at else {"k": "param", "n": "?"}]}, [x], st, i.span, i.fn)
    if t["k"] in ("adt",):
        p = t["path"]
        if p in ("std::vec::Vec", "std::boxed::Box", "std::collections::VecDeque", "std::collections::BinaryHeap"):
            return mrun(m, st, "collect_vec", [x])
        if "HashMap" in p or "BTreeMap" in p or "HashSet" in p or "BTreeSet" in p:
            r = mrun(m, st, "collect_map" if "Map" in p else "collect_set", [x])
            if "BTree" in p:
                v, st = r if isinstance(r, tuple) else (r, st)
                if not isinstance(v, VH):
                    raise Unsupported("collected map")
                return VH(v.e, v.set, True), st
            return r
        if p == OPTION:
            return mrun(m, st, "collect_option", [x])
        if p == RESULT:
            return mrun(m, st, "collect_result", [x])
        if p == "std::string::String":
            return leaf("str", "<collected>"), st
    if t["k"] in ("param", "alias"):
        return mrun(m, st, "collect_vec", [x])
    return NotImplemented


@bi(IT + "sum")
def _sum(m, st, a, i):
    t = i.f["args"][-1]
    if t["k"] == "adt":
        for im, path in m.impls.get(("std::iter::Sum", "sum"), []):
            if unify_(im["self"], t):
                return m.run(m.bodies[path], a, {}, st)
        if t["path"] == OPTION or t["path"] == RESULT:
            return mrun(m, st, "sum_option" if t["path"] == OPTION else "sum_result", a)
    return mrun(m, st, "sum", a)


@bi(IT + "product")
def _prod(m, st, a, i):
    t = i.f["args"][-1]
    if t["k"] == "adt" and (t["path"] == OPTION or t["path"] == RESULT):
        return mrun(m, st, "product_option" if t["path"] == OPTION else "product_result", a)
    return mrun(m, st, "product", a)


def unify_(p, t):
    return M_.unify(p, t, {})


@bi(IT + "size_hint")
def _size_hint(m, st, a, i):
    try:
        n = _itlen(m, st, a, i)
    except Unsupported:     # a hint only: the lower bound of filtering adaptors is 0, the upper one arbitrary
        return tup(ZERO, some(mono(var("hint", "i", True)))), st
    if isinstance(n, tuple):
        n, st = n
    return tup(n, some(n)), st


@bi(IT + "try_fold", IT + "try_for_each")
def _try_fold(m, st, a, i):
    t = i.dt
    p = t["path"] if t and t["k"] == "adt" else ""
    k = "option" if p == OPTION else "result" if p == RESULT else "flow" if p.endswith("ControlFlow") else None
    if k is None:
        raise Unsupported("try_fold")
    return mrun(m, st, i.f["path"].split("::")[-1] + "_" + k, a)


@bi("core::array::<impl [T; N]>::map", "std::array::<impl [T; N]>::map")
def _array_map(m, st, a, i):
    return mrun(m, st, "array_map", a)


@bi("std::array::from_fn", "core::array::from_fn")
def _array_from_fn(m, st, a, i):
    t = i.dt
    n = t["n"] if t and t["k"] == "array" else None
    if not isinstance(n, int):
        try:
            n = int(n)
        except (TypeError, ValueError):
            raise Unsupported("array length")
    return mrun(m, st, "array_from_fn", [const(n), a[0]])


@bi("std::mem::take")
def _mem_take(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    old = m.deref_all(r, st)
    t = i.f["args"][0] if i.f["args"] else i.dt
    if t is None or t["k"] in ("param", "alias"):
        t = i.dt
    if t["k"] in ("param", "alias"):
        raise Unsupported("mem::take of an unknown type")
    if t["k"] == "adt" and t["path"] in m.adts:
        z, st = m.invoke({"path": "std::default::Default::default", "trait": "std::default::Default", "name": "default", "args": [t]}, [], st, i.span, i.fn, t, [])
    else:
        z = zero_of(t)
    m.write(m.locs_of_ref(r), z, st)
    return old, st


@bi(VEC + "splice")
def _splice(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    lo, hi = rng_bounds(m, st, a[1], m.ref_len(r, st))
    return mrun(m, st, "vec_splice", [r, VS("std::ops::Range", (lo, hi)), a[2]])


@bi(SL + "copy_within")
def _copy_within(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    lo, hi = rng_bounds(m, st, a[1], m.ref_len(r, st))
    return mrun(m, st, "slice_copy_within", [r, VS("std::ops::Range", (lo, hi)), a[2]])


# ---------------------------------------------------------------- conversions

@bi("std::convert::Into::into", "std::convert::From::from", "model::x::from")
def _into(m, st, a, i):
    if i.f["path"].endswith("into"):
        dst = i.f["args"][1] if len(i.f["args"]) > 1 else i.dt
        src = i.f["args"][0]
    else:
        dst = i.f["args"][0]
        src = i.f["args"][1] if len(i.f["args"]) > 1 else (i.at[0] if i.at else None)
    x = a[0]
    if dst["k"] == "param" or dst["k"] == "alias":
        if i.dt is not None and i.dt["k"] not in ("param", "alias"):
            dst = i.dt
    # user conversions
    cands = []
    v = m.deref_all(x, st)
    for im, path in m.impls.get(("std::convert::From", "from"), []):
        if M_.unify(im["self"], dst, {}) and dst["k"] not in ("param", "alias"):
            cands.append((im, path, im["targs"][1]))
    cands2 = [c for c in cands if src is not None and M_.unify(c[2], src, {})]
    if src is None or src["k"] in ("param", "alias"):
        cands2 = [c for c in cands if match_val(m, c[2], x, st)]
    if len(cands2) > 1:
        c3 = [c for c in cands2 if match_val(m, c[2], x, st)]
        cands2 = c3 or cands2
        c3 = [c for c in cands2 if c[2]["k"] != "param"]
        cands2 = c3 or cands2
    for im, path in m.impls.get(("std::convert::Into", "into"), []):
        if src is not None and M_.unify(im["self"], src, {}) and M_.unify(im["targs"][1], dst, {}):
            return m.run(m.bodies[path], [x], {}, st)
    if cands2:
        if not (src is not None and src == dst):
            b = m.bodies[cands2[0][1]]
            env = {}
            M_.unify(cands2[0][0]["self"], dst, env)
            if src is not None:
                M_.unify(cands2[0][2], src, env)
            return m.run(b, [x], {k: t for k, t in env.items() if t["k"] not in ("param", "alias")}, st)
    if isinstance(v, (VL, VA)):
        return v, st
    if isinstance(x, Node) and not (isinstance(x, Leaf) and x.kind == "ref"):
        return x, st
    if dst["k"] == "adt" and dst["path"] == OPTION and not (isinstance(x, VE) and x.tag == OPTION):
        return some(x), st
    return x, st


def match_val(m, t, x, st):
    v = m.deref_all(x, st)
    isref = v is not x
    if t["k"] == "ref":
        return isref and match_val(m, t["e"], v, st)
    if isref and not isinstance(v, Node):
        return False
    if t["k"] == "adt":
        if t["path"] == "std::vec::Vec" or t["path"] == "std::boxed::Box":
            return isinstance(v, (VL, VA))
        return isinstance(v, (VS, VE)) and v.tag == t["path"]
    if t["k"] in ("slice", "array"):
        return isinstance(v, (VL, VA))
    if t["k"] == "tuple":
        return isinstance(v, VS) and v.tag == "()" and len(v.f) == len(t["e"]) and all(match_val(m, p, q, st) for p, q in zip(t["e"], v.f))
    if t["k"] in ("int", "float"):
        return isinstance(v, Node) and is_num(v)
    return t["k"] == "param"


@bi("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def _try_into(m, st, a, i):
    dst = i.f["args"][1] if i.f["path"].endswith("try_into") else i.f["args"][0]
    for im, path in m.impls.get(("std::convert::TryFrom", "try_from"), []):
        if M_.unify(im["self"], dst, {}) and match_val(m, im["targs"][1], a[0], st):
            return m.run(m.bodies[path], [a[0]], {}, st)
    for im, path in m.impls.get(("std::convert::TryInto", "try_into"), []):
        if M_.unify(im["targs"][1], dst, {}) and match_val(m, im["self"], a[0], st):
            return m.run(m.bodies[path], [a[0]], {}, st)
    v = m.deref_all(a[0], st)
    if dst["k"] == "ref":
        dst = dst["e"]
        v2 = a[0]
    else:
        v2 = v
    if dst["k"] == "array" and isinstance(v, (VL, VA)):
        n = dst["n"]
        if not isinstance(n, int):
            raise Unsupported("array length")
        ok = cmp("eq", m.ref_len(a[0], st) if v is not a[0] else v.len, const(n), "i")
        if isinstance(v, VL) and ok is TRUE and v2 is v:
            v2 = VL(v.items[:n])
        if ok is TRUE:
            return VE(RESULT, variant(0), {0: (v2,)})
        return VE(RESULT, ite(ok, variant(0), variant(1)), {0: (v2,), 1: (v,)})
    if dst["k"] == "int":
        lo, hi = M_.RANGES.get(dst["n"], (-2 ** 127, 2 ** 127))
        ok = m.under(and_(ge(v, const(lo)), le(v, const(hi))), st)
        k = int_val(v)
        if k is None:
            # representability of an unknown size in a wide type is taken for granted
            ok = m.under(ge(v, const(lo)), st) if lo == 0 else TRUE
        if ok is TRUE:
            return VE(RESULT, variant(0), {0: (v,)})
        return VE(RESULT, ite(ok, variant(0), variant(1)), {0: (v,), 1: (leaf("str", "TryFromIntError"),)})
    raise Unsupported("try_into %s" % dst["k"])


@bi("std::ops::Try::branch")
def _branch(m, st, a, i):
    v = a[0]
    tag = v.tag if isinstance(v, VE) else None
    if isinstance(v, VI):
        raise Unsupported("? on mixed value")
    return mrun(m, st, "option_branch" if tag == OPTION else "result_branch", a)


@bi("std::ops::FromResidual::from_residual")
def _residual(m, st, a, i):
    v = a[0]
    if v.tag == OPTION:
        return NONE, st
    e = v.pay[1][0]
    dst = i.f["args"][0]
    if dst["k"] == "adt" and dst["path"] == RESULT:
        src = i.f["args"][1]
        et = src["args"][1] if src["k"] == "adt" and len(src["args"]) > 1 else None
        if et is not None and dst["args"][1] != et:
            e, st = m.invoke({"path": "std::convert::From::from", "trait": "std::convert::From", "name": "from", "args": [dst["args"][1], et]}, [e], st, i.span, i.fn, dst["args"][1], [et])
        return VE(RESULT, variant(1), {1: (e,)}), st
    return v, st


@bi("std::ops::Try::from_output")
def _fromout(m, st, a, i):
    return a[0], st


@bi(OPT + "expect")
def _oexpect(m, st, a, i):
    return mrun(m, st, "option_unwrap", [a[0]])


@bi(RES + "expect")
def _rexpect(m, st, a, i):
    return mrun(m, st, "result_unwrap", [a[0]])


@bi(OPT + "unwrap_or_default", RES + "unwrap_or_default")
def _uod(m, st, a, i):
    t = i.dt
    z = zero_of(t)
    return mrun(m, st, "option_unwrap_or" if a[0].tag == OPTION else "result_unwrap_or", [a[0], z])


@bi("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def _callfn(m, st, a, i):
    args = list(a[1].f) if isinstance(a[1], VS) else [a[1]]
    return m.call_value(a[0], args, st, i.span, i.fn)


# ---------------------------------------------------------------- panics, formatting, environment

@bi("std::rt::begin_panic", "std::rt::panic_fmt", "core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::assert_failed",
    "core::panicking::unimplemented_default_msg", "core::panicking::panic_explicit", "core::panicking::panic_display", "core::panicking::unreachable_display",
    "core::panicking::panic_str_2015", "core::panicking::panic_nounwind", "core::option::expect_failed", "std::process::exit", "std::process::abort",
    "core::panicking::panic_const::panic_const_div_by_zero", "core::panicking::todo_default_msg", "core::panicking::panic_default_msg", "core::panicking::unreachable_default_msg", "core::panicking::panic_str_literal")
def _panic(m, st, a, i):
    kind = "panic"
    if i.f["path"].endswith("assert_failed"):
        kind = "assert"
    if a and isinstance(a[0], Leaf) and a[0].kind == "str":
        kind = "panic:" + a[0].v[:60]
    if st.pc is not FALSE:
        pc = m.simp(st.pc)
        if pc is not FALSE:
            m.panics.append(M_.Panic(pc, kind, i.span, i.fn))
    st.pc = FALSE
    return BOT, st


def opaque(name):
    def f(m, st, a, i):
        return leaf("str", name), st
    return f


for p in ("core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_lower_exp",
          "std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst", "std::fmt::Arguments::<'a>::new", "std::fmt::format",
          "std::string::ToString::to_string", "std::time::Instant::now", "std::time::Instant::elapsed", "std::string::String::as_str", "std::string::String::new",
          "std::fmt::Arguments::<'a>::new_const", "std::fmt::Arguments::<'a>::new_v1", "std::string::String::from", "std::alloc::handle_alloc_error"):
    BUILTINS[p] = opaque("<" + p.split("::")[-1] + ">")


@bi("std::io::_eprint", "std::io::_print", "std::string::String::push_str", "std::string::String::push", "std::mem::drop", "std::mem::forget")
def _unit(m, st, a, i):
    return UNIT


@bi("std::time::Duration::as_millis", "std::time::Duration::as_secs_f64", "std::time::Duration::as_secs")
def _time(m, st, a, i):
    return mono(atom("var", ("time", True), "i"))


@bi("fastrand::Rng::with_seed")
def _rng(m, st, a, i):
    m.rng = 0       # a seeded generator: every restart gives the same (arbitrary) sequence
    return VS("rng", (ZERO,))


@bi("fastrand::Rng::f64")
def _rngf(m, st, a, i):
    m.rng += 1
    return mono(var("rng%d" % m.rng, "r", True))


# ---------------------------------------------------------------- floats and integers

def fm(names, g):
    def single(m, st, a, i):
        return app("f32", (g(m, st, a, i),), "r")
    for n in names.split():
        for p in F64:
            BUILTINS[p + n] = g
            BUILTINS[p.replace("f64", "f32") + n] = g if n.startswith("is_") else single


def f1(g):
    return lambda m, st, a, i: g(m.deref_all(a[0], st))


fm("abs", f1(lambda x: absr(x, "r")))
fm("sqrt", f1(sqrt))
fm("sin", f1(lambda x: trig("sin", x)))
fm("cos", f1(lambda x: trig("cos", x)))
for _n in "tan exp ln log10 log2 asin acos atan sinh cosh tanh round floor ceil trunc fract cbrt exp2".split():
    fm(_n, f1(lambda x, n=_n: app(n, (x,), "r")))
fm("recip", f1(inv))
fm("to_radians", f1(lambda x: mul(x, div(mono(atom("app", ("pi",), "r")), const(180)))))
fm("max", lambda m, st, a, i: ite(rgt(a[1], a[0]), a[1], a[0]))
fm("min", lambda m, st, a, i: ite(rgt(a[0], a[1]), a[1], a[0]))
fm("atan2 powf hypot copysign rem_euclid", lambda m, st, a, i: app(i.f["path"].split("::")[-1], tuple(a), "r"))
fm("hypot", lambda m, st, a, i: sqrt(add(mul(a[0], a[0]), mul(a[1], a[1]))))
fm("mul_add", lambda m, st, a, i: add(mul(a[0], a[1]), a[2]))
fm("is_nan is_infinite", lambda m, st, a, i: FALSE)
fm("is_finite is_normal", lambda m, st, a, i: TRUE)
fm("signum", f1(lambda x: ite(rge(x, ZERO), ONE, const(-1))))
fm("is_sign_negative", f1(lambda x: rgt(ZERO, x)))
fm("is_sign_positive", f1(lambda x: rge(x, ZERO)))


def trig(n, x):
    def f(p):
        c = const_val(p)
        if c == 0:
            return ZERO if n == "sin" else ONE
        if c is not None and abs(c) < 1000:
            return const(Fraction(getattr(math, n)(float(c))).limit_denominator(10 ** 15))
        if p.t and p.t[0][1] < 0:
            q = pscale(p, -1)
            r = mono(atom("app", (n, q), "r"))
            return pscale(r, -1) if n == "sin" else r
        return mono(atom("app", (n, p), "r"))
    return ap(n, f, x)


def powi(m, st, a, i):
    k = int_val(a[1])
    if k is None:
        return app("powi", tuple(a), "r")
    x = m.deref_all(a[0], st)
    r = ONE
    for _ in range(abs(k)):
        r = mul(r, x)
    return r if k >= 0 else inv(r)


fm("powi", powi)


def powf(m, st, a, i):
    c = const_val(a[1]) if isinstance(a[1], Poly) else None
    if c is not None and c.denominator == 1 and abs(c) <= 12:
        return powi(m, st, [a[0], const(int(c))], i)
    if c == Fraction(1, 2):
        return sqrt(m.deref_all(a[0], st))
    return app("powf", tuple(a), "r")


fm("powf", powf)
fm("to_degrees", f1(lambda x: mul(x, div(const(180), mono(atom("app", ("pi",), "r"))))))
fm("copysign", lambda m, st, a, i: ite(rge(a[1], ZERO), absr(a[0], "r"), neg(absr(a[0], "r"))))
fm("fract", f1(lambda x: sub(x, app("trunc", (x,), "r"))))


def sin_cos(m, st, a, i):
    return tup(trig("sin", a[0]), trig("cos", a[0]))


fm("sin_cos", sin_cos)


def fclamp(m, st, a, i):
    m.require(st, rge(a[2], a[1]), "clamp", i.span, i.fn)
    return ite(rgt(a[1], a[0]), a[1], ite(rgt(a[0], a[2]), a[2], a[0]))


fm("clamp", fclamp)

for _t in "usize u8 u16 u32 u64 isize i8 i16 i32 i64".split():
    for _p in ("core::num::<impl %s>::" % _t, "std::num::<impl %s>::" % _t):
        BUILTINS[_p + "abs"] = lambda m, st, a, i: absr(a[0], "i")
        BUILTINS[_p + "unsigned_abs"] = lambda m, st, a, i: absr(a[0], "i")
        BUILTINS[_p + "signum"] = lambda m, st, a, i: ite(gt(a[0], ZERO), ONE, ite(lt(a[0], ZERO), const(-1), ZERO))
        BUILTINS[_p + "abs_diff"] = lambda m, st, a, i: absr(sub(a[0], a[1]), "i")
        BUILTINS[_p + "saturating_sub"] = lambda m, st, a, i: ite(ge(a[0], a[1]), sub(a[0], a[1]), ZERO) if "impl u" in i.f["path"] else sub(a[0], a[1])
        BUILTINS[_p + "saturating_add"] = lambda m, st, a, i: add(a[0], a[1])
        BUILTINS[_p + "wrapping_add"] = lambda m, st, a, i: wrapadd(a, i)
        BUILTINS[_p + "overflowing_add"] = lambda m, st, a, i: tup(add(a[0], a[1]), FALSE)
        BUILTINS[_p + "overflowing_sub"] = lambda m, st, a, i: tup(wrapsub(a, i), B(False) if "impl u" not in i.f["path"] else lt(a[0], a[1]))
        _w = int(_t[1:]) if _t[1:].isdigit() else 64
        for _c, _g in (("leading_zeros", lambda k, w=_w: w - k.bit_length()), ("count_zeros", lambda k, w=_w: w - bin(k).count("1")),
                       ("trailing_ones", lambda k: (~k & (k + 1)).bit_length() - 1), ("next_power_of_two", lambda k: 1 << max(k - 1, 0).bit_length()),
                       ("isqrt", math.isqrt), ("swap_bytes", lambda k, w=_w: int.from_bytes(k.to_bytes(w // 8, "little"), "big")),
                       ("reverse_bits", lambda k, w=_w: int(bin(k)[2:].zfill(w)[::-1], 2)),
                       ("trailing_zeros", lambda k, w=_w: (k & -k).bit_length() - 1 if k else w), ("count_ones", lambda k: bin(k).count("1")), ("ilog2", lambda k: k.bit_length() - 1)):
            BUILTINS[_p + _c] = lambda m, st, a, i, g=_g: bits(g, a[0])
        BUILTINS[_p + "is_power_of_two"] = lambda m, st, a, i: ap("pow2?", lambda p: B(bin(bits(lambda k: k, p, raw=True)).count("1") == 1), a[0])
        BUILTINS[_p + "saturating_mul"] = BUILTINS[_p + "wrapping_mul"] = lambda m, st, a, i: mul(a[0], a[1])
        BUILTINS[_p + "next_multiple_of"] = lambda m, st, a, i: mul(floordiv(sub(add(a[0], a[1]), ONE), a[1]), a[1])
        BUILTINS[_p + "wrapping_sub"] = lambda m, st, a, i: wrapsub(a, i)
        BUILTINS[_p + "checked_sub"] = lambda m, st, a, i: option(m.under(ge(a[0], a[1]), st), sub(a[0], a[1])) if "impl u" in i.f["path"] else some(sub(a[0], a[1]))
        BUILTINS[_p + "checked_add"] = lambda m, st, a, i: some(add(a[0], a[1]))
        BUILTINS[_p + "checked_mul"] = lambda m, st, a, i: some(mul(a[0], a[1]))
        BUILTINS[_p + "checked_div"] = lambda m, st, a, i: option(not_(eq(a[1], ZERO)), floordiv(a[0], a[1]))
        BUILTINS[_p + "pow"] = powi
        BUILTINS[_p + "rem_euclid"] = lambda m, st, a, i: mod(a[0], a[1])
        BUILTINS[_p + "div_euclid"] = lambda m, st, a, i: floordiv(a[0], a[1])
        BUILTINS[_p + "div_ceil"] = lambda m, st, a, i: floordiv(sub(add(a[0], a[1]), ONE), a[1])
        BUILTINS[_p + "is_multiple_of"] = lambda m, st, a, i: eq(mod(a[0], a[1]), ZERO)


def bits(g, x, raw=False):
    def leaf(p):
        k = int_val(p)
        if k is None or k < 0:
            raise Unsupported("bits of an arbitrary number")
        return g(k) if raw else const(g(k))
    return leaf(x) if raw else ap(("bits", g), leaf, x)


def wrapadd(a, i):
    s = add(a[0], a[1])
    if "impl u" not in i.f["path"]:
        return s
    w = {"8": 8, "6": 16, "2": 32}.get(i.f["path"].split("impl u")[1].split(">")[0][-1], 64)
    def f(p):
        k = dict((mn, c) for mn, c in p.t).get((), 0) if isinstance(p, Poly) else 0
        return psub(p, const(2 ** w)) if k >= 2 ** (w - 1) else p
    return ap(("wrapadd", w), f, s)


def wrapsub(a, i):
    if "impl u" not in i.f["path"]:
        return sub(a[0], a[1])
    return ite(ge(a[0], a[1]), sub(a[0], a[1]), add(sub(a[0], a[1]), const(2 ** 64)))


# ---------------------------------------------------------------- hash maps

def flat_key(m, st, k):
    v = m.deref_all(k, st)
    out = []
    def go(x):
        x = m.deref_all(x, st)
        if isinstance(x, Node):
            out.append(x)
        elif isinstance(x, VS):
            for y in x.f:
                go(y)
        elif isinstance(x, VE):
            out.append(x.disc)
            for kk in sorted(x.pay):
                for y in x.pay[kk]:
                    go(y)
        elif isinstance(x, VL):
            if int_val(x.len) is None:
                raise Unsupported("map key")
            for y in x.items:
                go(y)
        else:
            raise Unsupported("map key %s" % type(x).__name__)
    go(v)
    def strip(x):
        x = m.deref_all(x, st)
        if isinstance(x, VS):
            return VS(x.tag, [strip(y) for y in x.f])
        return x
    return tuple(out), strip(v)


def key_eq(m, a, b):
    r = TRUE
    for x, y in zip(a, b):
        r = and_(r, cmp("eq", x, y, "i") if is_num(x) and is_num(y) else cmp("eq", x, y, "o"))
        if r is FALSE:
            return FALSE
    return m.simp(r)


def key_lift(fk):
    """a diagram in a key component: not supported as entry key"""
    return any(isinstance(x, Ite) for x in fk)


NEWS = ("std::collections::HashMap::<K, V>::new", "std::collections::HashMap::<K, V>::with_capacity",
        "std::collections::HashMap::<K, V, S>::new", "std::collections::BTreeMap::<K, V>::new")
for n in NEWS:
    BUILTINS[n] = lambda m, st, a, i: VH({}, False, "BTree" in i.f["path"])
for n in ("std::collections::HashSet::<T>::new", "std::collections::HashSet::<T>::with_capacity", "std::collections::BTreeSet::<T>::new"):
    BUILTINS[n] = lambda m, st, a, i: VH({}, True, "BTree" in i.f["path"])


def map_find(m, v, fk):
    """[(cond, entry key)] of entries that may equal fk (ignoring presence)"""
    if fk in v.e:
        return [(TRUE, fk)]
    out = []
    for k in v.e:
        c = key_eq(m, fk, k)
        if c is not FALSE:
            out.append((c, k))
    return out


def map_get(m, st, r, key):
    v = m.deref_all(r, st)
    fk, kv = flat_key(m, st, key)
    if isinstance(v, VI):
        raise Unsupported("mixed map")
    pres, val = FALSE, BOT
    for c, k in map_find(m, v, fk):
        pr = m.under(and_(c, v.e[k][1]), st)
        if pr is FALSE:
            continue
        ref = m.extend_ref(r, ("mk", k))
        val = ref if val is BOT else merge(pr, ref, val)
        pres = or_(pres, pr)
    return option(pres, val), st


def key_cases(m, st, fk, kv):
    """[(condition, constant key, key value)] of a key whose components are finite choices of constants, else None"""
    cs = [(TRUE, ())]
    for x in fk:
        ls = [l for l in leaves_of(x) if l is not BOT]
        if not all(isinstance(l, Poly) and const_val(l) is not None for l in ls):
            return None
        cs = [(and_(c, d), k + (l,)) for c, k in cs for l in ls for d in (cmp("eq", x, l, "i") if len(ls) > 1 else TRUE,)]
        cs = [(m.under(c, st), k) for c, k in cs]
        cs = [(c, k) for c, k in cs if c is not FALSE]
        if len(cs) > 200:
            return None
    def fill(x, it):
        if isinstance(x, Node):
            return next(it)
        if isinstance(x, VS):
            return VS(x.tag, [fill(y, it) for y in x.f])
        raise Unsupported("map insert at undetermined key")
    return [(c, k, fill(kv, iter(k))) for c, k in cs]


def map_insert(m, st, r, key, val):
    """-> previous value option"""
    v = m.deref_all(r, st)
    fk, kv = flat_key(m, st, key)
    if key_lift(fk):
        cases = key_cases(m, st, fk, kv)
        if cases is None or any(const_val(x) is None for k in v.e for x in k):
            raise Unsupported("map insert at undetermined key")
        e = dict(v.e)
        pres, old = FALSE, BOT
        for c, k, kvk in cases:
            if k in e:
                kk, p, x = e[k]
                pr = m.under(and_(c, p), st)
                if pr is not FALSE:
                    old = x if old is BOT else merge(pr, x, old)
                    pres = or_(pres, pr)
                e[k] = (kk, or_(p, c), val if (c is TRUE or x is BOT) else merge(c, val, x))
            else:
                e[k] = (kvk, c, val)
        upd(m, st, r, lambda w: VH(e, v.set, v.srt))
        return option(pres, old) if pres is not FALSE else NONE
    hits = map_find(m, v, fk)
    e = dict(v.e)
    pres, old = FALSE, BOT
    exact = False
    covered = FALSE
    for c, k in hits:
        kk, p, x = e[k]
        pr = and_(c, p)
        if pr is not FALSE:
            old = x if old is BOT else merge(pr, x, old)
            pres = or_(pres, pr)
        e[k] = (kk, or_(p, c) if k == fk else p, val if (c is TRUE or x is BOT) else merge(c, val, x))
        if k == fk:
            e[k] = (kk, TRUE, val)
            exact = True
        covered = or_(covered, pr)
    if not exact:
        if key_lift(fk):
            raise Unsupported("map insert at undetermined key")
        e[fk] = (kv, not_(covered), val)
    upd(m, st, r, lambda w: VH(e, v.set, v.srt))
    pres = m.under(pres, st)
    return option(pres, old) if pres is not FALSE else NONE


def hm(names, g):
    for n in names.split():
        for base in (HM, "std::collections::HashMap::<K, V, S>::", "std::collections::BTreeMap::<K, V, A>::"):
            BUILTINS[base + n] = g


def hs(names, g):
    for n in names.split():
        for base in (HS, "std::collections::HashSet::<T, S>::", "std::collections::BTreeSet::<T, A>::"):
            BUILTINS[base + n] = g


hm("insert", lambda m, st, a, i: map_insert(m, st, m.ref_to_value(a[0], st), a[1], a[2]))
hm("get get_mut", lambda m, st, a, i: map_get(m, st, m.ref_to_value(a[0], st), a[1]))
hm("contains_key", lambda m, st, a, i: (is_variant(map_get(m, st, m.ref_to_value(a[0], st), a[1])[0], 1), st))
hm("len", lambda m, st, a, i: m.len_of(m.deref_all(a[0], st)))
hm("is_empty", lambda m, st, a, i: cmp("eq", m.len_of(m.deref_all(a[0], st)), ZERO, "i"))
hm("clear", lambda m, st, a, i: (upd(m, st, m.ref_to_value(a[0], st), lambda w: VH({}, w.set, w.srt)), UNIT)[1])
hs("len", BUILTINS[HM + "len"])
hs("is_empty", BUILTINS[HM + "is_empty"])
hs("clear", BUILTINS[HM + "clear"])
hs("contains", lambda m, st, a, i: (is_variant(map_get(m, st, m.ref_to_value(a[0], st), a[1])[0], 1), st))
hs("insert", lambda m, st, a, i: not_(is_variant(map_insert(m, st, m.ref_to_value(a[0], st), a[1], UNIT), 1)))


def map_remove(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    v = m.deref_all(r, st)
    fk, kv = flat_key(m, st, a[1])
    e = dict(v.e)
    pres, old = FALSE, BOT
    for c, k in map_find(m, v, fk):
        kk, p, x = e[k]
        pr = and_(c, p)
        if pr is FALSE:
            continue
        old = x if old is BOT else merge(pr, x, old)
        pres = or_(pres, pr)
        e[k] = (kk, and_(p, not_(c)), x)
        if e[k][1] is FALSE:
            del e[k]
    upd(m, st, r, lambda w: VH(e, v.set, v.srt))
    if v.set:
        return pres
    return option(pres, old) if pres is not FALSE else NONE


hm("remove", map_remove)
hs("remove", map_remove)


def map_retain(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    v = m.deref_all(r, st)
    ks = list(v.e)
    if m.maporder < 0:
        ks.reverse()
    for k in ks:
        kv, p, x = m.deref_all(r, st).e[k]
        c = m.under(p, st)
        if c is FALSE:
            continue
        s1 = st.fork(and_(st.pc, c))
        args = [m.extend_ref(r, ("mkk", k))] + ([] if v.set else [m.extend_ref(r, ("mk", k))])
        keep, s1 = m.call_value(a[1], args, s1, i.span, i.fn)
        keep = b2b(keep)
        def g(w, k=k, keep=keep, c=c):
            e = dict(w.e)
            kv, p, x = e[k]
            p2 = and_(p, or_(not_(c), keep))
            if p2 is FALSE:
                del e[k]
            else:
                e[k] = (kv, p2, x)
            return VH(e, w.set, w.srt)
        upd(m, s1, r, g)
        st = s1 if c is TRUE else M_.merge_states(s1, st.fork(and_(st.pc, not_(c))))
    return UNIT, st


hm("retain", map_retain)
hs("retain", map_retain)


def set_entries(m, st, x):
    r = m.ref_to_value(x, st)
    v = m.deref_all(r, st)
    out = []
    for k in sorted(v.e, key=lambda k: tuple((0, int_val(x)) if isinstance(x, Poly) and int_val(x) is not None else (1, x.id) for x in k)):
        out.append((r, k, m.under(v.e[k][1], st), v))
    if m.maporder < 0 and not v.srt:
        out.reverse()
    return out


def set_op(kind):
    def f(m, st, a, i):
        x, y = set_entries(m, st, a[0]), set_entries(m, st, a[1])
        out = VL(())
        def has(s, k):
            return or_(*[and_(p, key_eq(m, k, q)) for _, q, p, _ in s]) if s else FALSE
        for r, k, p, v in x:
            c = TRUE if kind == "union" else has(y, k) if kind == "intersection" else not_(has(y, k))
            out = push_cond(out, m.extend_ref(r, ("mkk", k)), m.under(and_(p, c), st))
        if kind in ("union", "symmetric_difference"):
            for r, k, p, v in y:
                out = push_cond(out, m.extend_ref(r, ("mkk", k)), m.under(and_(p, not_(has(x, k))), st))
        return mrun(m, st, "vec_into_iter", [out])
    return f


for _n in "union intersection difference symmetric_difference".split():
    hs(_n, set_op(_n))


def set_rel(kind):
    def f(m, st, a, i):
        x, y = set_entries(m, st, a[0]), set_entries(m, st, a[1])
        if kind == "is_superset":
            x, y = y, x
        r = TRUE
        for _, k, p, _ in x:
            inn = or_(*[and_(q, key_eq(m, k, l)) for _, l, q, _ in y]) if y else FALSE
            r = and_(r, or_(not_(p), not_(inn) if kind == "is_disjoint" else inn))
        return r
    return f


for _n in "is_subset is_superset is_disjoint".split():
    hs(_n, set_rel(_n))


def set_take(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    v = m.deref_all(r, st)
    fk, kv = flat_key(m, st, a[1])
    c = map_remove(m, st, a, i)
    return option(m.under(c, st), kv)


hs("take", set_take)


def map_end(first, pop):
    def f(m, st, a, i):
        r = m.ref_to_value(a[0], st)
        v = m.deref_all(r, st)
        q = seq_of_map(m, st, r, v, "iter", not pop)
        n = int_val(q.len)
        if n is None:
            raise Unsupported("end of a map with uncertain entries")
        if n == 0:
            return NONE
        x = q.items[0 if first else n - 1]
        if pop:
            key = x if v.set else x.f[0]
            map_remove(m, st, [a[0], key], i)
        return some(x)
    return f


for _n, _a in (("first_key_value", (True, False)), ("last_key_value", (False, False)), ("pop_first", (True, True)), ("pop_last", (False, True))):
    BUILTINS["std::collections::BTreeMap::<K, V, A>::" + _n] = map_end(*_a)
for _n, _a in (("first", (True, False)), ("last", (False, False)), ("pop_first", (True, True)), ("pop_last", (False, True))):
    BUILTINS["std::collections::BTreeSet::<T, A>::" + _n] = map_end(*_a)


def map_getkv(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    g, st = map_get(m, st, r, a[1])
    fk, kv = flat_key(m, st, a[1])
    c = is_variant(g, 1)
    if c is FALSE:
        return NONE, st
    return option(c, tup(m.temp(kv, st), g.pay[1][0])), st


hm("get_key_value", map_getkv)
hm("remove_entry", lambda m, st, a, i: (lambda o, kv: NONE if o is NONE else option(is_variant(o, 1), tup(kv, o.pay[1][0])))(map_remove(m, st, a, i), flat_key(m, st, a[1])[1]))


@bi("std::string::String::len", "core::str::<impl str>::len")
def _strlen(m, st, a, i):
    x = m.deref_all(a[0], st)
    if isinstance(x, Leaf) and x.kind == "str" and not x.v.startswith("<"):
        return const(len(x.v.encode()))
    return mono(var("strlen", "i", True))


@bi(HM + "entry", "std::collections::HashMap::<K, V, S>::entry", "std::collections::BTreeMap::<K, V, A>::entry")
def _entry(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    g, st = map_get(m, st, r, a[1])
    c = m.under(is_variant(g, 1), st)
    e = VS("entry", (r, a[1]))
    tag = "std::collections::%s::Entry" % ("btree_map" if "BTree" in i.f["path"] else "hash_map")
    return VE(tag, ite(c, variant(0), variant(1)), {0: (e,), 1: (e,)}), st


def entry_of(m, st, x):
    v = m.deref_all(x, st)
    if isinstance(v, VE):
        p = v.pay
        return p[0][0] if 0 in p else p[1][0]
    if not isinstance(v, VS):
        raise Unsupported("mixed map entry")
    return v


def _occupied(m, st, a, i):
    e = entry_of(m, st, a[0])
    n = i.f["path"].split("::")[-1]
    if n == "key":
        return m.temp(e.f[1], st)
    if n == "remove":
        v = map_remove(m, st, [e.f[0], e.f[1]], i)
        return v.pay[1][0]
    g, st = map_get(m, st, e.f[0], e.f[1])
    x = g.pay[1][0]
    if n == "insert":
        old = m.deref_all(x, st)
        m.write(m.locs_of_ref(x), a[1], st)
        return old, st
    return x, st


def _vacant(m, st, a, i):
    e = entry_of(m, st, a[0])
    if i.f["path"].endswith("key"):
        return m.temp(e.f[1], st)
    map_insert(m, st, e.f[0], e.f[1], a[1])
    g, st = map_get(m, st, e.f[0], e.f[1])
    return g.pay[1][0], st


for _k in ("hash_map", "btree_map"):
    for _g in ("<'a, K, V, A>", "<'a, K, V>", "<'_, K, V>"):
        for _n in "get get_mut into_mut insert remove key".split():
            BUILTINS["std::collections::%s::OccupiedEntry::%s::%s" % (_k, _g, _n)] = _occupied
        for _n in "insert key".split():
            BUILTINS["std::collections::%s::VacantEntry::%s::%s" % (_k, _g, _n)] = _vacant


ENT = "std::collections::hash_map::Entry::<'a, K, V, A>::"


@bi(ENT + "or_insert", "std::collections::hash_map::Entry::<'a, K, V>::or_insert", "std::collections::btree_map::Entry::<'a, K, V, A>::or_insert")
def _or_insert(m, st, a, i):
    return mrun(m, st, "entry_or_insert", [*entry_of(m, st, a[0]).f, a[1]])


@bi(ENT + "or_default", "std::collections::hash_map::Entry::<'a, K, V>::or_default", "std::collections::btree_map::Entry::<'a, K, V, A>::or_default")
def _or_default(m, st, a, i):
    t = i.dt
    z = zero_of(t["e"] if t and t["k"] == "ref" else None)
    return mrun(m, st, "entry_or_insert", [*entry_of(m, st, a[0]).f, z])


@bi(ENT + "or_insert_with", "std::collections::hash_map::Entry::<'a, K, V>::or_insert_with", "std::collections::btree_map::Entry::<'a, K, V, A>::or_insert_with")
def _or_insert_with(m, st, a, i):
    return mrun(m, st, "entry_or_insert_with", [*entry_of(m, st, a[0]).f, a[1]])


@bi(ENT + "and_modify", "std::collections::hash_map::Entry::<'a, K, V>::and_modify", "std::collections::btree_map::Entry::<'a, K, V, A>::and_modify")
def _and_modify(m, st, a, i):
    g, st = map_get(m, st, *entry_of(m, st, a[0]).f)
    c = m.under(is_variant(g, 1), st)
    if c is FALSE:
        return a[0], st
    s1 = st.fork(and_(st.pc, c))
    v, s1 = m.call_value(a[1], [g.pay[1][0]], s1, i.span, i.fn)
    s2 = st.fork(and_(st.pc, not_(c)))
    return a[0], M_.merge_states(s1, s2)


# ---------------------------------------------------------------- images

@bi("image::ImageBuffer::<P, std::vec::Vec<<P as image::Pixel>::Subpixel>>::from_pixel")
def _img(m, st, a, i):
    return VS("image", (a[0], a[1], a[2], VL(())))


@bi("image::ImageBuffer::<P, Container>::put_pixel")
def _put(m, st, a, i):
    r = m.ref_to_value(a[0], st)
    v = m.deref_all(r, st)
    ok = and_(ge(a[1], ZERO), lt(a[1], v.f[0]), ge(a[2], ZERO), lt(a[2], v.f[1]))
    m.require(st, ok, "pixel outside image", i.span, i.fn)
    upd(m, st, r, lambda w: VS(w.tag, w.f[:3] + (push_cond(w.f[3], tup(a[1], a[2], a[3])),)))
    return UNIT


@bi("image::ImageBuffer::<P, std::vec::Vec<<P as image::Pixel>::Subpixel>>::new")
def _imgnew(m, st, a, i):
    return VS("image", (a[0], a[1], VS("image::Rgb", (VL((ZERO, ZERO, ZERO)),)), VL(())))


def image_pixel(m, img, x, y):
    """what the image holds at (x, y): the last write there"""
    ws = img.f[3]
    if not isinstance(ws, VL):
        raise Unsupported("image")
    n = int_val(ws.len)
    out = img.f[2]
    for k, w in enumerate(ws.items):
        c = and_(eq(w.f[0], x), eq(w.f[1], y))
        if n is None:
            c = and_(c, lt(const(k), ws.len))
        out = merge(c, w.f[2], out)
    return out


def pixel_ref(m, st, r, x, y, mut, i):
    v = m.deref_all(r, st)
    ok = and_(ge(x, ZERO), lt(x, v.f[0]), ge(y, ZERO), lt(y, v.f[1]))
    m.require(st, ok, "pixel outside image", i.span, i.fn)
    px = image_pixel(m, v, x, y)
    if not mut:
        return m.temp(px, st)
    n = v.f[3].len
    upd(m, st, r, lambda w: VS(w.tag, w.f[:3] + (push_cond(w.f[3], tup(x, y, px)),)))
    for e in (("f", 3), ("i", n), ("f", 2)):
        r = m.extend_ref(r, e)
    return r


@bi("image::ImageBuffer::<P, Container>::get_pixel")
def _getpix(m, st, a, i):
    return pixel_ref(m, st, m.ref_to_value(a[0], st), a[1], a[2], False, i)


@bi("image::ImageBuffer::<P, Container>::get_pixel_mut")
def _getpixm(m, st, a, i):
    return pixel_ref(m, st, m.ref_to_value(a[0], st), a[1], a[2], True, i)


@bi("image::ImageBuffer::<P, Container>::save")
def _save(m, st, a, i):
    m.saved.append((st.pc, m.deref_all(a[0], st)))
    return VE(RESULT, variant(0), {0: (UNIT,)})


@bi("image::ImageBuffer::<P, Container>::width")
def _iw(m, st, a, i):
    return m.deref_all(a[0], st).f[0]


@bi("image::ImageBuffer::<P, Container>::height")
def _ih(m, st, a, i):
    return m.deref_all(a[0], st).f[1]


@bi("image::ImageBuffer::<P, Container>::dimensions")
def _id(m, st, a, i):
    v = m.deref_all(a[0], st)
    return tup(v.f[0], v.f[1])


@bi("std::sync::atomic::Atomic::<u32>::fetch_add", "std::sync::atomic::Atomic::<usize>::fetch_add", "std::sync::atomic::Atomic::<u64>::fetch_add",
    "std::sync::atomic::AtomicU32::fetch_add", "std::sync::atomic::AtomicUsize::fetch_add")
def _ticket(m, st, a, i):
    """a counter of its own: every call gives a number not given before"""
    if int_val(a[1]) == 0:
        raise Unsupported("counter read")
    m.ticket = getattr(m, "ticket", 0) + 1
    return const(m.ticket)

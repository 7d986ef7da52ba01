"""Text as a value: literal characters and printed numbers.  Formatting, scanning and the parser
combinators of `nom` over such texts (used by the obligations about the file formats)."""
import re
from fractions import Fraction
from terms import *
from values import *
import machine as M_
from builtins_ import BUILTINS, mrun, match_val

TEXT = {}
NUMSTART = set("0123456789+-.infaNIFA")      # characters a printed or accepted number can begin with
NUMCONT = set("0123456789.eE")               # characters that would prolong one


def tx(*names):
    def d(f):
        for n in names:
            TEXT[n] = f
        return f
    return d


def mk_text(ps):
    out = []
    for p in ps:
        if p[0] == "l":
            if not p[1]:
                continue
            if out and out[-1][0] == "l":
                out[-1] = ("l", out[-1][1] + p[1])
                continue
        out.append(p)
    if not out:
        return leaf("str", "")
    if len(out) == 1 and out[0][0] == "l":
        return leaf("str", out[0][1])
    return leaf("text", tuple(out))


def pieces(x):
    if isinstance(x, Leaf) and x.kind == "str":
        return (("o", x.v),) if x.v.startswith("<") and x.v.endswith(">") else (("l", x.v),) if x.v else ()
    if isinstance(x, Leaf) and x.kind == "text":
        return x.v
    raise Unsupported("text %r" % (x,))


def is_text(x):
    return isinstance(x, Leaf) and x.kind in ("str", "text")


def txt(m, st, a):
    v = m.deref_all(a, st)
    if isinstance(v, (Leaf, Ite)) and not (isinstance(v, Leaf) and not is_text(v)):
        return v
    raise Unsupported("text %r" % (v,))


def plain(x):
    if isinstance(x, Leaf) and x.kind == "str":
        return x.v
    raise Unsupported("a literal text")


def forked(m, st, x, f):
    """f(text, state) -> (value, state), over the cases of a conditional text"""
    if isinstance(x, Ite):
        c = mk(x.c, TRUE, FALSE)
        s1, s2 = st.fork(and_(st.pc, c)), st.fork(and_(st.pc, not_(c)))
        if m.simp(s1.pc) is FALSE:
            return forked(m, s2, x.lo, f)
        if m.simp(s2.pc) is FALSE:
            return forked(m, s1, x.hi, f)
        a, s1 = forked(m, s1, x.hi, f)
        b, s2 = forked(m, s2, x.lo, f)
        if s1.pc is FALSE:
            return b, s2
        if s2.pc is FALSE:
            return a, s1
        return merge(c, a, b), M_.merge_states(s1, s2)
    if x is BOT:
        st.pc = FALSE
        return BOT, st
    return f(x, st)


def cat(a, b):
    def f(x, y):
        if x is BOT or y is BOT:
            return BOT
        return mk_text(pieces(x) + pieces(y))
    return ap_leafy2(f, a, b)


def ap_leafy2(f, a, b):
    return M_.ap_leafy(lambda x: M_.ap_leafy(lambda y: f(x, y), b), a)


# ---------------------------------------------------------------- printing

class Spec:
    __slots__ = ("flags", "width", "prec")

    def __init__(self, flags=None, width=None, prec=None):
        self.flags, self.width, self.prec = flags, width, prec

    def default(self):
        return self.flags is None and self.width is None and self.prec is None


def rounded(x, p):
    """the number a text with p decimals stands for (ties do not matter to any claim)"""
    k = 10 ** p
    return scale(app("floor", [add(scale(x, Fraction(k)), const(Fraction(1, 2)))], "r"), Fraction(1, k))


def scale(x, k):
    return mul(x, const(k))


def print_num(v, t, sp, debug):
    isf = t is not None and t["k"] == "float"
    if sp.width is not None or (sp.flags is not None and sp.flags & ~0x20200000 & 0x1fffff not in (0, 0x20)):
        raise Unsupported("padded number")
    if sp.width is not None:
        raise Unsupported("padded number")
    def f(x):
        if x is BOT:
            return BOT
        c = const_val(x)
        if not isf and c is not None:
            return leaf("str", str(int(c)))
        if isf and sp.prec is not None:
            return mk_text([("n", rounded(x, sp.prec), "p")])
        return mk_text([("n", x, "f" if isf else "i")])
    return M_.ap_leafy(f, v)


def show_value(m, st, x, t, sp, debug=False):
    """the text of a value under Display -> (text, state)"""
    while t is not None and t["k"] == "ref":
        t = t["e"]
    v = m.deref_all(x, st)
    if isinstance(v, VI):
        c = v.c
        s1, s2 = st.fork(and_(st.pc, c)), st.fork(and_(st.pc, not_(c)))
        a, s1 = show_value(m, s1, v.a, t, sp, debug)
        b, s2 = show_value(m, s2, v.b, t, sp, debug)
        return ite(c, a, b), M_.merge_states(s1, s2)
    if debug and not (t is not None and t["k"] == "float"):
        return leaf("str", "<debug>"), st
    if is_text(v) or (isinstance(v, Ite) and leaf_text(v)):
        if sp.width is not None or sp.prec is not None:
            raise Unsupported("padded text")
        return v, st
    if isinstance(v, Node):
        if t is not None and t["k"] in ("int", "float"):
            return print_num(v, t, sp, debug), st
        if t is not None and t["k"] == "char":
            return ap_chr(v), st
        raise Unsupported("printed %r" % (t,))
    if isinstance(v, (VS, VE)):
        for im, path in m.impls.get(("std::fmt::Display", "fmt"), []):
            s = im["self"]
            if s["k"] == "adt" and s["path"] == v.tag:
                buf = m.temp(leaf("str", ""), st)
                r, st = m.run(m.bodies[path], [x if not isinstance(x, Value) else m.temp(x, st), buf], {}, st)
                return m.deref_all(buf, st), st
    return leaf("str", "<value>"), st


def leaf_text(v):
    while isinstance(v, Ite):
        v = v.hi if v.hi is not BOT else v.lo
    return is_text(v)


def ap_chr(v):
    def f(x):
        if x is BOT:
            return BOT
        k = int_val(x)
        if k is None:
            raise Unsupported("character")
        return leaf("str", chr(k))
    return M_.ap_leafy(f, v)


@tx("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_lower_exp", "core::fmt::rt::Argument::<'_>::new_upper_exp")
def _arg(m, st, a, i):
    k = i.f["path"].split("_", 1)[1] if "new_" in i.f["path"] else ""
    return VS("fmtarg", (a[0], (i.f["args"][0],), i.f["path"].split("::")[-1]))


@tx("core::fmt::rt::Argument::<'_>::from_usize")
def _argn(m, st, a, i):
    return VS("fmtarg", (a[0], ({"k": "int", "n": "usize"},), "usize"))


@tx("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def _args_str(m, st, a, i):
    return VS("fmtargs", (txt(m, st, a[0]),)), st


@tx("std::fmt::Arguments::<'a>::new")
def _args(m, st, a, i):
    t = m.deref_all(a[0], st)
    if not (isinstance(t, Leaf) and t.kind == "str" and t.v.startswith("b[")):
        raise Unsupported("format template")
    bs = [int(x) for x in t.v[2:-1].split(",")]
    ags = m.deref_all(a[1], st)
    items = [m.deref_all(x, st) for x in ags.items]
    out, k, n = leaf("str", ""), 0, 0
    while k < len(bs):
        c = bs[k]
        k += 1
        if c == 0:
            break
        if c <= 0x80:
            if c == 0x80:
                c = bs[k] | bs[k + 1] << 8
                k += 2
            out = cat(out, leaf("str", bytes(bs[k:k + c]).decode()))
            k += c
            continue
        sp = Spec()
        if c != 0xC0:
            if c & 1:
                sp.flags = bs[k] | bs[k + 1] << 8 | bs[k + 2] << 16 | bs[k + 3] << 24
                k += 4
            if c & 2:
                sp.width = bs[k] | bs[k + 1] << 8
                k += 2
            if c & 4:
                sp.prec = bs[k] | bs[k + 1] << 8
                k += 2
            if c & 8:
                n = bs[k] | bs[k + 1] << 8
                k += 2
            for bit, f in ((16, "width"), (32, "prec")):
                if c & bit:
                    w = m.deref_all(items[getattr(sp, f)].f[0], st)
                    w = int_val(w) if isinstance(w, Poly) else None
                    if w is None:
                        raise Unsupported("width of a printed value")
                    setattr(sp, f, w)
        ar = items[n]
        n += 1
        dbg = ar.f[2] == "new_debug"
        if ar.f[2] not in ("new_debug", "new_display"):
            raise Unsupported("format " + ar.f[2])
        s, st = show_value(m, st, ar.f[0], ar.f[1][0], sp, dbg)
        out = cat(out, s)
    return VS("fmtargs", (out,)), st


@tx("std::fmt::format", "std::fmt::format::format_inner")
def _format(m, st, a, i):
    return a[0].f[0]


@tx("std::hint::must_use")
def _must(m, st, a, i):
    return a[0]


@tx("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt")
def _write_fmt(m, st, a, i):
    return append(m, st, a[0], a[1].f[0])


@tx("std::fmt::Formatter::<'a>::write_str", "std::fmt::Write::write_str")
def _write_str(m, st, a, i):
    return append(m, st, a[0], txt(m, st, a[1]))


@tx("std::fmt::Write::write_char")
def _write_chr(m, st, a, i):
    return append(m, st, a[0], ap_chr(a[1]))


def append(m, st, dst, t):
    v = m.deref_all(dst, st)
    if not (isinstance(v, (Leaf, Ite))):
        raise Unsupported("write to %r" % (v,))
    r = m.ref_to_value(dst, st)
    m.write(m.locs_of_ref(r), cat(v, t), st)
    return VE(RESULT, variant(0), {0: (UNIT,)}), st


@tx("std::string::String::push_str", "std::ops::AddAssign::add_assign", "std::string::String::push")
def _push(m, st, a, i):
    v = m.deref_all(a[0], st)
    if not (isinstance(v, Node) and leaf_text(v)):
        return NotImplemented
    t = ap_chr(a[1]) if i.f["path"].endswith("::push") else txt(m, st, a[1])
    _, st = append(m, st, a[0], t)
    return UNIT, st


@tx("std::ops::Add::add")
def _add(m, st, a, i):
    v = a[0]
    if not (isinstance(v, Node) and leaf_text(v)):
        return NotImplemented
    return cat(v, txt(m, st, a[1]))


@tx("std::string::String::new", "std::string::String::with_capacity")
def _new(m, st, a, i):
    return leaf("str", "")


@tx("std::string::String::as_str", "std::string::String::as_mut_str", "std::string::String::into_boxed_str", "std::string::String::as_ref")
def _as_str(m, st, a, i):
    return txt(m, st, a[0])


@tx("std::ops::Deref::deref", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow")
def _deref(m, st, a, i):
    v = m.deref_all(a[0], st)
    if isinstance(v, Node) and leaf_text(v):
        return v, st
    return NotImplemented


@tx("std::convert::From::from", "std::convert::Into::into", "std::borrow::ToOwned::to_owned", "std::clone::Clone::clone", "core::str::<impl str>::to_string", "std::str::<impl str>::to_owned",
    "std::str::<impl str>::into_string", "core::str::<impl str>::to_owned")
def _own(m, st, a, i):
    v = m.deref_all(a[0], st)
    if isinstance(v, Node) and leaf_text(v):
        dt = i.dt
        if dt is not None and dt["k"] == "adt" and dt["path"] != "std::string::String":
            return NotImplemented
        return v, st
    return NotImplemented


@tx("std::string::ToString::to_string")
def _to_string(m, st, a, i):
    v = m.deref_all(a[0], st)
    if isinstance(v, (VS, VE)):
        for im, path in m.impls.get(("std::string::ToString", "to_string"), []):
            s = im["self"]
            if s["k"] == "adt" and s["path"] == v.tag:
                return m.run(m.bodies[path], [a[0]], {}, st)
    t = i.f["args"][0] if i.f.get("args") else None
    return show_value(m, st, a[0], t, Spec())


@tx("std::iter::Extend::extend")
def _extend(m, st, a, i):
    v = m.deref_all(a[0], st)
    if not (isinstance(v, Node) and leaf_text(v)):
        return NotImplemented
    t, st = joined(m, st, a[1], i, leaf("str", ""))
    _, st = append(m, st, a[0], t)
    return UNIT, st


def listed(m, st, x, i):
    v = m.deref_all(x, st)
    if isinstance(v, VL):
        return v, st
    x, st = m.invoke({"path": "std::iter::IntoIterator::into_iter", "trait": "std::iter::IntoIterator", "name": "into_iter", "args": [{"k": "param", "n": "?"}]}, [x], st, i.span, i.fn)
    r = mrun(m, st, "collect_vec", [x])
    v, st = r if isinstance(r, tuple) else (r, st)
    v = m.deref_all(v, st)
    if not isinstance(v, VL) or int_val(v.len) is None:
        raise Unsupported("texts of unknown number")
    return v, st


def joined(m, st, x, i, sep):
    v, st = listed(m, st, x, i)
    out = leaf("str", "")
    for k in range(int_val(v.len)):
        it = m.deref_all(v.items[k], st)
        if isinstance(it, Poly):
            it = ap_chr(it)
        if k:
            out = cat(out, sep)
        out = cat(out, it)
    return out, st


@tx("std::slice::<impl [T]>::join", "std::slice::<impl [T]>::concat")
def _join(m, st, a, i):
    v = m.deref_all(a[0], st)
    if not (isinstance(v, VL) and (int_val(v.len) == 0 or is_text(m.deref_all(v.items[0], st)))):
        return NotImplemented
    return joined(m, st, a[0], i, txt(m, st, a[1]) if len(a) > 1 else leaf("str", ""))


@tx("std::iter::Iterator::collect")
def _collect(m, st, a, i):
    t = i.dt
    if t and t["k"] == "adt" and t["path"] == "std::string::String":
        return joined(m, st, a[0], i, leaf("str", ""))
    return NotImplemented


# ---------------------------------------------------------------- looking at texts

def first_char(p):
    return p[1][0] if p[0] == "l" else None


def text_eq(x, y):
    """diagram: are two texts equal"""
    a, b = list(pieces(x)), list(pieces(y))
    out = TRUE
    while a or b:
        if not a or not b:
            r = a or b
            if any(p[0] == "l" or p[0] == "n" for p in r):
                return FALSE
            raise Unsupported("comparison with an unknown text")
        p, q = a.pop(0), b.pop(0)
        if p[0] == "o" or q[0] == "o":
            if p == q:
                continue
            raise Unsupported("comparison with an unknown text")
        if p[0] == "l" and q[0] == "l":
            n = min(len(p[1]), len(q[1]))
            if p[1][:n] != q[1][:n]:
                return FALSE
            if p[1][n:]:
                a.insert(0, ("l", p[1][n:]))
            if q[1][n:]:
                b.insert(0, ("l", q[1][n:]))
            continue
        if p[0] == "n" and q[0] == "n":
            if p[2] == "p" or q[2] == "p":
                raise Unsupported("comparison of rounded texts")
            out = and_(out, eq(p[1], q[1]))
            continue
        l = p if p[0] == "l" else q
        if l[1][0] not in NUMSTART:
            return FALSE
        raise Unsupported("a printed number against a literal")
    return out


def cut_prefix(x, s):
    """rest of the text after the literal prefix s, or None when it does not begin so"""
    ps = list(pieces(x))
    while s:
        if not ps:
            return None
        p = ps.pop(0)
        if p[0] == "o":
            raise Unsupported("unknown text")
        if p[0] == "n":
            if s[0] not in NUMSTART:
                return None
            raise Unsupported("a printed number against a literal")
        n = min(len(p[1]), len(s))
        if p[1][:n] != s[:n]:
            return None
        s = s[n:]
        if p[1][n:]:
            ps.insert(0, ("l", p[1][n:]))
    return mk_text(ps)


def pattern_of(m, st, a):
    v = m.deref_all(a, st)
    if isinstance(v, Poly) and int_val(v) is not None:
        return chr(int_val(v))
    if is_text(v):
        return plain(v)
    raise Unsupported("text pattern")


def split_lit(x, sep):
    """pieces of the text between occurrences of the literal sep (never inside a printed number)"""
    if sep and sep[0] in NUMCONT | NUMSTART or not sep:
        if any(p[0] != "l" for p in pieces(x)):
            raise Unsupported("separator that occurs in numbers")
    out, cur = [], []
    for p in pieces(x):
        if p[0] == "o":
            raise Unsupported("unknown text")
        if p[0] != "l":
            cur.append(p)
            continue
        parts = p[1].split(sep)
        for k, s in enumerate(parts):
            if k:
                out.append(mk_text(cur))
                cur = []
            cur.append(("l", s))
    return out + [mk_text(cur)]


S = "core::str::<impl str>::"
S2 = "std::str::<impl str>::"


def veq_text(m, st, a, i, neg):
    x, y = m.deref_all(a[0], st), m.deref_all(a[1], st)
    if isinstance(x, Node) and isinstance(y, Node) and leaf_text(x) and leaf_text(y):
        r = ap_leafy2(lambda p, q: BOT if p is BOT or q is BOT else text_eq(p, q), x, y)
        return (not_(r) if neg else r), st
    return NotImplemented


TEXT["std::cmp::PartialEq::eq"] = lambda m, st, a, i: veq_text(m, st, a, i, False)
TEXT["std::cmp::PartialEq::ne"] = lambda m, st, a, i: veq_text(m, st, a, i, True)


def unary(f):
    def g(m, st, a, i):
        return M_.ap_leafy(lambda x: BOT if x is BOT else f(x), txt(m, st, a[0])), st
    return g


def empty_text(x):
    ps = pieces(x)
    if any(p[0] in ("l", "n") for p in ps):
        return FALSE
    if ps:
        raise Unsupported("unknown text")
    return TRUE


TEXT[S + "is_empty"] = TEXT["std::string::String::is_empty"] = unary(empty_text)


def tlen(x):
    ps = pieces(x)
    if all(p[0] == "l" for p in ps):
        return const(sum(len(p[1].encode()) for p in ps))
    raise Unsupported("length of a printed number")


TEXT[S + "len"] = TEXT["std::string::String::len"] = unary(tlen)


@tx(S + "starts_with")
def _starts(m, st, a, i):
    s = pattern_of(m, st, a[1])
    return M_.ap_leafy(lambda x: BOT if x is BOT else B(cut_prefix(x, s) is not None), txt(m, st, a[0])), st


@tx(S + "strip_prefix")
def _strip(m, st, a, i):
    s = pattern_of(m, st, a[1])
    def f(x, st):
        r = cut_prefix(x, s)
        return (NONE if r is None else some(r)), st
    return forked(m, st, txt(m, st, a[0]), f)


@tx(S + "ends_with")
def _ends(m, st, a, i):
    s = pattern_of(m, st, a[1])
    def f(x):
        if x is BOT:
            return BOT
        ps = pieces(x)
        if not ps:
            return B(not s)
        if ps[-1][0] == "l" and (len(ps[-1][1]) >= len(s) or not ps[-1][1].endswith(s[-len(ps[-1][1]):])):
            return B(ps[-1][1].endswith(s))
        if ps[-1][0] == "n" and s and s[-1] not in "0123456789fNn":
            return FALSE
        raise Unsupported("end of a text")
    return M_.ap_leafy(f, txt(m, st, a[0])), st


@tx(S + "trim", S + "trim_start", S + "trim_end", S + "trim_left", S + "trim_right")
def _trim(m, st, a, i):
    w = i.f["path"].split("::")[-1]
    def f(x):
        if x is BOT:
            return BOT
        ps = list(pieces(x))
        if w in ("trim", "trim_start", "trim_left"):
            while ps and ps[0][0] == "l":
                s = ps[0][1].lstrip()
                if s:
                    ps[0] = ("l", s)
                    break
                ps.pop(0)
        if w in ("trim", "trim_end", "trim_right"):
            while ps and ps[-1][0] == "l":
                s = ps[-1][1].rstrip()
                if s:
                    ps[-1] = ("l", s)
                    break
                ps.pop()
        return mk_text(ps)
    return M_.ap_leafy(f, txt(m, st, a[0])), st


def iter_texts(m, st, items):
    return mrun(m, st, "vec_into_iter", [VL(items)])


@tx(S + "split", S + "split_terminator", S + "lines", S + "split_whitespace")
def _split(m, st, a, i):
    w = i.f["path"].split("::")[-1]
    def f(x, st):
        if w == "lines":
            xs = split_lit(x, "\n")
            if xs[-1] is leaf("str", ""):
                xs = xs[:-1]
            if any(p[0] == "l" and "\r" in p[1] for q in xs for p in pieces(q)):
                raise Unsupported("carriage return")
        elif w == "split_whitespace":
            ps = [("l", re.sub(r"\s+", " ", p[1])) if p[0] == "l" else p for p in pieces(x)]
            xs = [q for q in split_lit(mk_text(ps), " ") if q is not leaf("str", "")]
        else:
            xs = split_lit(x, pattern_of(m, st, a[1]))
            if w == "split_terminator" and xs[-1] is leaf("str", ""):
                xs = xs[:-1]
        return iter_texts(m, st, xs)
    return forked(m, st, txt(m, st, a[0]), f)


@tx(S + "split_once")
def _split_once(m, st, a, i):
    s = pattern_of(m, st, a[1])
    def f(x, st):
        xs = split_lit(x, s)
        if len(xs) == 1:
            return NONE, st
        rest = xs[1]
        for y in xs[2:]:
            rest = cat(cat(rest, leaf("str", s)), y)
        return some(tup(xs[0], rest)), st
    return forked(m, st, txt(m, st, a[0]), f)


def substr(x, lo, hi):
    """bytes lo..hi; both inside the leading literal part (hi None: to the end) -> text or None when out of range"""
    ps = list(pieces(x))
    head = ps[0][1] if ps and ps[0][0] == "l" else ""
    if any(ord(c) > 127 for c in head):
        raise Unsupported("non-ASCII text")
    whole = len(ps) <= (1 if head else 0)
    if lo > len(head) or (hi is not None and hi > len(head)):
        if whole:
            return None
        raise Unsupported("position inside a printed number")
    if hi is not None:
        return leaf("str", head[lo:hi]) if lo <= hi else None
    return mk_text([("l", head[lo:])] + ps[1:] if head else ps)


def range_of(m, st, r):
    r = m.deref_all(r, st)
    n = r.tag.split("::")[-1]
    g = [int_val(m.deref_all(q, st)) for q in r.f[:2]]
    if any(q is None for q in g):
        raise Unsupported("text range")
    if n == "RangeFrom":
        return g[0], None
    if n == "RangeTo":
        return 0, g[0]
    if n == "Range":
        return g[0], g[1]
    raise Unsupported("text range " + n)


@tx("std::ops::Index::index")
def _index(m, st, a, i):
    v = m.deref_all(a[0], st)
    if not (isinstance(v, Node) and leaf_text(v)):
        return NotImplemented
    lo, hi = range_of(m, st, a[1])
    def f(x, st):
        r = substr(x, lo, hi)
        if r is None:
            m.panics.append(M_.Panic(m.simp(st.pc), "text range", i.span, i.fn))
            st.pc = FALSE
            return BOT, st
        return r, st
    return forked(m, st, v, f)


@tx(S + "get")
def _get(m, st, a, i):
    lo, hi = range_of(m, st, a[1])
    def f(x, st):
        r = substr(x, lo, hi)
        return (NONE if r is None else some(r)), st
    return forked(m, st, txt(m, st, a[0]), f)


FLOAT = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")


@tx(S + "parse", "std::str::FromStr::from_str")
def _parse(m, st, a, i):
    t = i.f["args"][0] if i.f.get("args") else None
    if t is None or t["k"] in ("param", "alias"):
        dt = i.dt
        if dt and dt["k"] == "adt" and dt["path"] == RESULT and dt["args"]:
            t = dt["args"][0]
    if t is None:
        return NotImplemented
    if t["k"] == "adt":
        for im, path in m.impls.get(("std::str::FromStr", "from_str"), []):
            s = im["self"]
            if s["k"] == "adt" and s["path"] == t["path"]:
                return forked(m, st, txt(m, st, a[0]), lambda x, s2: m.run(m.bodies[path], [x], {}, s2))
        if t["path"] == "std::string::String":
            return VE(RESULT, variant(0), {0: (txt(m, st, a[0]),)}), st
        return NotImplemented
    bad = VE(RESULT, variant(1), {1: (leaf("str", "<parse error>"),)})
    def f(x, st):
        ps = pieces(x)
        if any(p[0] == "o" for p in ps):
            raise Unsupported("unknown text")
        if t["k"] == "float":
            if len(ps) == 1 and ps[0][0] == "n":
                return VE(RESULT, variant(0), {0: (ps[0][1],)}), st
            if all(p[0] == "l" for p in ps):
                s = plain(x)
                if FLOAT.match(s):
                    return VE(RESULT, variant(0), {0: (const(M_.snap(Fraction(s))),)}), st
                if s.lower().lstrip("+-") in ("inf", "infinity", "nan"):
                    raise Unsupported("infinite number")
                return bad, st
        elif t["k"] == "int":
            if len(ps) == 1 and ps[0][0] == "n" and ps[0][2] == "i":
                return VE(RESULT, variant(0), {0: (ps[0][1],)}), st
            if all(p[0] == "l" for p in ps):
                s = plain(x)
                lo, hi = M_.RANGES.get(t["n"], (-2 ** 127, 2 ** 127))
                if re.match(r"[+-]?\d+$" if lo < 0 else r"\+?\d+$", s) and lo <= int(s) <= hi:
                    return VE(RESULT, variant(0), {0: (const(int(s)),)}), st
                return bad, st
        # a number with something that can never be part of one next to it
        if any(p[0] == "l" and any(c not in "0123456789+-.eE" for c in p[1]) for p in ps):
            return bad, st
        raise Unsupported("parse of %r" % (x,))
    return forked(m, st, txt(m, st, a[0]), f)


# ---------------------------------------------------------------- parser combinators of nom

ERR = "nom::Err"


def p_ok(rest, v):
    return VE(RESULT, variant(0), {0: (tup(rest, v),)})


def p_err(x, kind):
    return VE(RESULT, variant(1), {1: (VE(ERR, variant(1), {1: (VS("nom::error::Error", (x, leaf("str", "<%s>" % kind))),)}),)})


def pyfn(f):
    return VS("pyfn", (f,))


def parser(f):
    """a parser from f(machine, state, text) -> (result, state)"""
    def g(m, st, args):
        return forked(m, st, txt(m, st, args[0]), lambda x, s: f(m, s, x))
    return pyfn(g)


def run(m, st, p, x):
    """-> (ok?, rest or error result, value, state); the outcome must not depend on values"""
    r, st = m.call_value(p, [x], st)
    if st.pc is FALSE:
        return None, None, None, st
    if not isinstance(r, VE) or not isinstance(r.disc, Leaf):
        d = m.under(r.disc, st) if isinstance(r, VE) else None
        if not isinstance(d, Leaf):
            raise Unsupported("outcome of a parser depends on values")
        r = VE(r.tag, d, r.pay)
    if r.disc is variant(0):
        o = r.pay[0][0]
        return True, o.f[0], o.f[1], st
    return False, r, None, st


def recoverable(r):
    e = r.pay[1][0]
    e = e if isinstance(e, VE) else None
    return e is None or e.disc is variant(1)


class Stop(Exception):
    pass


def seq(f):
    """a parser running sub-parsers through go(p, text); the first failure is its result"""
    def g(m, st, x):
        box = [st]
        def go(p, x):
            ok, rest, v, box[0] = run(m, box[0], p, x)
            if ok is None:
                raise Stop(BOT)
            if not ok:
                raise Stop(rest)
            return rest, v
        try:
            r = f(m, go, x)
        except Stop as e:
            r = e.args[0]
        return r, box[0]
    return parser(g)


N = "nom::"
TEXT[N + "sequence::preceded"] = lambda m, st, a, i: seq(lambda m, go, x: p_ok(*go(a[1], go(a[0], x)[0])))


def n_terminated(p, q):
    def f(m, go, x):
        r, v = go(p, x)
        return p_ok(go(q, r)[0], v)
    return seq(f)


TEXT[N + "sequence::terminated"] = lambda m, st, a, i: n_terminated(a[0], a[1])


def n_delimited(p, q, s):
    def f(m, go, x):
        r, v = go(q, go(p, x)[0])
        return p_ok(go(s, r)[0], v)
    return seq(f)


TEXT[N + "sequence::delimited"] = lambda m, st, a, i: n_delimited(*a)


def n_tuple(ps):
    def f(m, go, x):
        out = []
        for p in ps:
            x, v = go(p, x)
            out.append(v)
        return p_ok(x, tup(*out))
    return seq(f)


TEXT[N + "sequence::tuple"] = lambda m, st, a, i: n_tuple(m.deref_all(a[0], st).f)
TEXT[N + "sequence::pair"] = lambda m, st, a, i: n_tuple(a)


def n_seppair(p, q, s):
    def f(m, go, x):
        r, v = go(p, x)
        r, w = go(s, go(q, r)[0])
        return p_ok(r, tup(v, w))
    return seq(f)


TEXT[N + "sequence::separated_pair"] = lambda m, st, a, i: n_seppair(*a)


def n_alt(ps):
    def f(m, st, x):
        r = None
        for p in ps:
            ok, r, v, st = run(m, st, p, x)
            if ok is None:
                return BOT, st
            if ok:
                return p_ok(r, v), st
            if not recoverable(r):
                return r, st
        return r, st
    return parser(f)


TEXT[N + "branch::alt"] = lambda m, st, a, i: n_alt(m.deref_all(a[0], st).f)


def n_map(p, f):
    def g(m, st, x):
        ok, r, v, st = run(m, st, p, x)
        if ok is None:
            return BOT, st
        if not ok:
            return r, st
        w, st = m.call_value(f, [v], st)
        return p_ok(r, w), st
    return parser(g)


TEXT[N + "combinator::map"] = lambda m, st, a, i: n_map(a[0], a[1])


def n_map_res(p, f, what):
    def g(m, st, x):
        ok, r, v, st = run(m, st, p, x)
        if ok is None:
            return BOT, st
        if not ok:
            return r, st
        w, st = m.call_value(f, [v], st)
        if st.pc is FALSE:
            return BOT, st
        w = m.deref_all(w, st)
        d = m.under(w.disc, st)
        good = variant(0) if w.tag == RESULT else variant(1)
        if d is good:
            return p_ok(r, w.pay[good.v][0]), st
        if isinstance(d, Leaf):
            return p_err(x, what), st
        raise Unsupported("outcome of a parser depends on values")
    return parser(g)


TEXT[N + "combinator::map_res"] = lambda m, st, a, i: n_map_res(a[0], a[1], "MapRes")
TEXT[N + "combinator::map_opt"] = lambda m, st, a, i: n_map_res(a[0], a[1], "MapOpt")


def n_verify(p, f):
    def g(m, st, x):
        ok, r, v, st = run(m, st, p, x)
        if ok is None or not ok:
            return (BOT if ok is None else r), st
        w, st = m.call_value(f, [m.temp(v, st)], st)
        w = m.under(b2b(w), st)
        if w is TRUE:
            return p_ok(r, v), st
        if w is FALSE:
            return p_err(x, "Verify"), st
        raise Unsupported("outcome of a parser depends on values")
    return parser(g)


TEXT[N + "combinator::verify"] = lambda m, st, a, i: n_verify(a[0], a[1])


def n_value(c, p):
    return n_map(p, pyfn(lambda m, st, a: (c, st)))


TEXT[N + "combinator::value"] = lambda m, st, a, i: n_value(a[0], a[1])


def n_opt(p):
    def g(m, st, x):
        ok, r, v, st = run(m, st, p, x)
        if ok is None:
            return BOT, st
        if ok:
            return p_ok(r, some(v)), st
        return (p_ok(x, NONE) if recoverable(r) else r), st
    return parser(g)


TEXT[N + "combinator::opt"] = lambda m, st, a, i: n_opt(a[0])


def n_all(p):
    def g(m, st, x):
        ok, r, v, st = run(m, st, p, x)
        if ok is None or not ok:
            return (BOT if ok is None else r), st
        return (p_ok(r, v) if empty_text(r) is TRUE else p_err(r, "Eof")), st
    return parser(g)


TEXT[N + "combinator::all_consuming"] = lambda m, st, a, i: n_all(a[0])


def n_seplist(sep, p, least):
    def g(m, st, x):
        items = []
        ok, r, v, st = run(m, st, p, x)
        if ok is None:
            return BOT, st
        if not ok:
            return (p_ok(x, VL(())) if least == 0 and recoverable(r) else r), st
        items.append(v)
        x = r
        while True:
            ok, r, _, st = run(m, st, sep, x)
            if ok is None:
                return BOT, st
            if not ok:
                return (p_ok(x, VL(items)) if recoverable(r) else r), st
            if r is x:
                return p_err(x, "SeparatedList"), st
            ok, r2, v, st = run(m, st, p, r)
            if ok is None:
                return BOT, st
            if not ok:
                return (p_ok(x, VL(items)) if recoverable(r2) else r2), st
            items.append(v)
            x = r2
    return parser(g)


TEXT[N + "multi::separated_list0"] = lambda m, st, a, i: n_seplist(a[0], a[1], 0)
TEXT[N + "multi::separated_list1"] = lambda m, st, a, i: n_seplist(a[0], a[1], 1)


def n_many(p, least, most=None):
    def g(m, st, x):
        items = []
        while most is None or len(items) < most:
            ok, r, v, st = run(m, st, p, x)
            if ok is None:
                return BOT, st
            if not ok:
                return (p_ok(x, VL(items)) if recoverable(r) and len(items) >= least else r), st
            if r is x:
                return p_err(x, "Many"), st
            items.append(v)
            x = r
        return p_ok(x, VL(items)), st
    return parser(g)


TEXT[N + "multi::many0"] = lambda m, st, a, i: n_many(a[0], 0)
TEXT[N + "multi::many1"] = lambda m, st, a, i: n_many(a[0], 1)


def n_count(m, st, a, i):
    n = int_val(a[1])
    if n is None:
        raise Unsupported("number of repetitions")
    return n_many(a[0], n, n)


TEXT[N + "multi::count"] = n_count


def n_tag(m, st, a, i):
    s = plain(txt(m, st, a[0]))
    def f(m, st, x):
        r = cut_prefix(x, s)
        return (p_err(x, "Tag") if r is None else p_ok(r, leaf("str", s))), st
    return parser(f)


TEXT[N + "bytes::complete::tag"] = n_tag


def n_char(m, st, a, i):
    c = chr(int_val(a[0]))
    def f(m, st, x):
        r = cut_prefix(x, c)
        return (p_err(x, "Char") if r is None else p_ok(r, const(ord(c)))), st
    return parser(f)


TEXT[N + "character::complete::char"] = n_char


def run_of(ok, least, what):
    """longest run of characters of a class at the start"""
    def f(m, st, args):
        def g(x, st):
            ps = list(pieces(x))
            head = ps[0][1] if ps and ps[0][0] == "l" else ""
            n = 0
            while n < len(head) and ok(head[n]):
                n += 1
            if n == len(head) and len(ps) > (1 if head else 0):
                nx = ps[1 if head else 0]
                if nx[0] == "o" or ok("0"):
                    raise Unsupported("a run of characters up to a printed number")
            if n < least:
                return p_err(x, what), st
            return p_ok(mk_text(([("l", head[n:])] + ps[1:]) if head else ps), leaf("str", head[:n])), st
        return forked(m, st, txt(m, st, args[0]), g)
    return f


def leafp(path, f):
    TEXT[path] = lambda m, st, a, i: f(m, st, a)


C = N + "character::complete::"
for nm, ok in (("alphanumeric", lambda c: c.isalnum() and ord(c) < 128 or c.isalpha()), ("alpha", lambda c: c.isalpha()), ("digit", lambda c: c in "0123456789"),
               ("space", lambda c: c in " \t"), ("multispace", lambda c: c in " \t\r\n")):
    leafp(C + nm + "1", run_of(ok, 1, nm))
    leafp(C + nm + "0", run_of(ok, 0, nm))


def n_line(m, st, args):
    def g(x, st):
        ps, out = list(pieces(x)), []
        while ps:
            p = ps.pop(0)
            if p[0] == "l":
                k = min([q for q in (p[1].find("\n"), p[1].find("\r")) if q >= 0] or [-1])
                if k >= 0:
                    if p[1][k] == "\r" and p[1][k:k + 2] != "\r\n":
                        return p_err(x, "Tag"), st
                    out.append(("l", p[1][:k]))
                    return p_ok(mk_text([("l", p[1][k:])] + ps), mk_text(out)), st
            out.append(p)
        return p_ok(leaf("str", ""), mk_text(out)), st
    return forked(m, st, txt(m, st, args[0]), g)


leafp(C + "not_line_ending", n_line)


def n_lit(ss, what):
    def f(m, st, args):
        def g(x, st):
            for s in ss:
                r = cut_prefix(x, s)
                if r is not None:
                    return p_ok(r, leaf("str", s)), st
            return p_err(x, what), st
        return forked(m, st, txt(m, st, args[0]), g)
    return f


leafp(C + "line_ending", n_lit(("\n", "\r\n"), "CrLf"))


def n_newline(m, st, args):
    r, st = n_lit(("\n",), "Char")(m, st, args)
    return (p_ok(r.pay[0][0].f[0], const(10)) if isinstance(r, VE) and r.disc is variant(0) else r), st


leafp(C + "newline", n_newline)


def n_eof(m, st, args):
    return forked(m, st, txt(m, st, args[0]), lambda x, st: ((p_ok(x, x) if empty_text(x) is TRUE else p_err(x, "Eof")), st))


leafp(N + "combinator::eof", n_eof)


def follows(ps, what):
    """nothing after a printed number may prolong it"""
    if ps and (ps[0][0] != "l" or ps[0][1][0] in NUMCONT):
        raise Unsupported("a printed number runs into " + repr(ps[0]))


def n_uint(bits):
    def f(m, st, args):
        def g(x, st):
            ps = list(pieces(x))
            if ps and ps[0][0] == "n":
                if ps[0][2] != "i":
                    raise Unsupported("an integer read from a printed real")
                follows(ps[1:], "i")
                return p_ok(mk_text(ps[1:]), ps[0][1]), st
            head = ps[0][1] if ps and ps[0][0] == "l" else ""
            k = re.match(r"[0-9]*", head).end()
            if k == len(head) and len(ps) > (1 if head else 0):
                raise Unsupported("digits up to a printed number")
            if k == 0 or int(head[:k]) >= 2 ** bits:
                return p_err(x, "Digit"), st
            return p_ok(mk_text([("l", head[k:])] + ps[1:]), const(int(head[:k]))), st
        return forked(m, st, txt(m, st, args[0]), g)
    return f


for _n, _b in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 128)):
    leafp(C + _n, n_uint(_b))


def n_double(m, st, args):
    def g(x, st):
        ps = list(pieces(x))
        if ps and ps[0][0] == "n":
            follows(ps[1:], "f")
            return p_ok(mk_text(ps[1:]), ps[0][1]), st
        head = ps[0][1] if ps and ps[0][0] == "l" else ""
        k = re.match(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", head)
        if k is None:
            if re.match(r"(?i)inf|nan", head) or (head in ("+", "-", ".", "+.", "-.") and len(ps) > 1):
                raise Unsupported("number")
            return p_err(x, "Float"), st
        if k.end() == len(head) and len(ps) > 1:
            raise Unsupported("digits up to a printed number")
        return p_ok(mk_text([("l", head[k.end():])] + ps[1:]), const(M_.snap(Fraction(k.group(0))))), st
    return forked(m, st, txt(m, st, args[0]), g)


leafp(N + "number::complete::double", n_double)
leafp(N + "number::complete::float", n_double)


@tx(N + "Parser::parse", N + "internal::Parser::parse")
def _p_parse(m, st, a, i):
    p = m.deref_all(a[0], st)
    return m.call_value(a[0] if isinstance(p, VS) and isinstance(p.tag, tuple) else p, [a[1]], st)


@tx(N + "error::Error::<I>::new")
def _nerr(m, st, a, i):
    return VS("nom::error::Error", (a[0], a[1]))


def table():
    """the primitive operations with those on texts in front of them"""
    out = dict(BUILTINS)
    for k, f in TEXT.items():
        g = BUILTINS.get(k)
        if g is None:
            out[k] = f
        else:
            def h(m, st, a, i, f=f, g=g):
                r = f(m, st, a, i)
                return g(m, st, a, i) if r is NotImplemented else r
            out[k] = h
    return out

"""Composite abstract values: structs, enums, arrays (index functions), matrices, maps, sequences."""
from terms import *


class Value:
    __slots__ = ()


class VS(Value):
    """struct / tuple / closure"""
    __slots__ = ("tag", "f")

    def __init__(self, tag, f):
        self.tag, self.f = tag, tuple(f)

    def __repr__(self):
        return "%s%r" % (self.tag if isinstance(self.tag, str) else self.tag[:2], self.f)


class VE(Value):
    """enum: disc = diagram over variant leaves; pay[v] = tuple of field values"""
    __slots__ = ("tag", "disc", "pay")

    def __init__(self, tag, disc, pay):
        self.tag, self.disc, self.pay = tag, disc, pay

    def __repr__(self):
        return "%s{%r %r}" % (self.tag.split("::")[-1], self.disc, self.pay)


class VA(Value):
    """array / vec / slice: elements body[var], 0 <= var < len"""
    __slots__ = ("len", "v", "body")

    def __init__(self, len_, v, body):
        self.len, self.v, self.body = len_, v, body

    def __repr__(self):
        return "[%s => %r; len %r]" % (self.v, self.body, self.len)

    def at(self, i):
        return vsubst(self.body, {self.v: i})


class VL(Value):
    """array with explicit element slots; slots at or beyond len are meaningless"""
    __slots__ = ("items", "len")

    def __init__(self, items, len_=None):
        self.items = tuple(items)
        self.len = const(len(self.items)) if len_ is None else len_

    def __repr__(self):
        n = int_val(self.len)
        return "%r%s" % (list(self.items), "" if n == len(self.items) else "(len %r)" % self.len)


class VH(Value):
    """hash map / set with explicit entries: key (flat tuple of terms) -> (key value, present, value)"""
    __slots__ = ("e", "set", "srt")

    def __init__(self, e, set_=False, srt=False):
        self.e, self.set, self.srt = e, set_, srt      # srt: iterated in ascending key order

    def __repr__(self):
        return "Map{%s}" % ", ".join("%r%s: %r" % (k, "" if p is TRUE else "?%r" % (p,), v) for k, (kv, p, v) in self.e.items())


class VX(Value):
    """abstract matrix: body over (vi, vj); kind gen|lower|upper|dict|env"""
    __slots__ = ("rows", "cols", "vi", "vj", "body", "ty", "kind")

    def __init__(self, rows, cols, vi, vj, body, ty, kind="gen"):
        self.rows, self.cols, self.vi, self.vj, self.body, self.ty, self.kind = rows, cols, vi, vj, body, ty, kind

    def __repr__(self):
        return "Mat{%r x %r; (%s,%s) => %r}" % (self.rows, self.cols, self.vi, self.vj, self.body)

    def at(self, i, j):
        return subst(self.body, {self.vi: i, self.vj: j})


class VM(Value):
    """hash map / set: keys flattened to scalars kv; present and value over kv.
    dom names the enumeration of its entries when it has a symbolic origin"""
    __slots__ = ("kv", "pres", "val", "kshape", "len")

    def __init__(self, kv, pres, val, kshape, len_):
        self.kv, self.pres, self.val, self.kshape, self.len = tuple(kv), pres, val, kshape, len_

    def __repr__(self):
        return "Map{%s => %r : %r}" % (self.kv, self.pres, self.val)


class VQ(Value):
    """sequence (iterator): src descriptor, remaining index range [pos, end)"""
    __slots__ = ("src", "pos", "end")

    def __init__(self, src, pos, end):
        self.src, self.pos, self.end = src, pos, end

    def __repr__(self):
        return "Seq{%r [%r..%r)}" % (self.src, self.pos, self.end)


class VI(Value):
    """conditional value with incompatible shapes"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "VI(%r ? %r : %r)" % (self.c, self.a, self.b)


class Unsupported(Exception):
    pass


OPTION = "std::option::Option"
RESULT = "std::result::Result"
ORDERING = "std::cmp::Ordering"
UNIT = VS("()", ())


def variant(i):
    return leaf("variant", i)


def some(v):
    return VE(OPTION, variant(1), {1: (v,)})


NONE = VE(OPTION, variant(0), {})


def option(c, v):
    """Some(v) when c else None"""
    if c is TRUE:
        return some(v)
    if c is FALSE:
        return NONE
    return VE(OPTION, ite(c, variant(1), variant(0)), {1: (v,)})


def is_variant(e, i):
    def f(x):
        if x is BOT:
            return BOT
        return B(x is variant(i))
    return ap(("isv", i), f, e.disc)


def tup(*xs):
    return VS("()", xs)


def merge(c, a, b):
    """value that is a when c, else b"""
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is BOT:
        return b
    if b is BOT:
        return a
    if isinstance(a, (Poly, Ite, Leaf)) and isinstance(b, (Poly, Ite, Leaf)):
        return ite(c, a, b)
    if isinstance(a, VS) and isinstance(b, VS) and a.tag == b.tag and len(a.f) == len(b.f):
        return VS(a.tag, [merge(c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, VE) and isinstance(b, VE) and a.tag == b.tag:
        pay = {}
        for k in set(a.pay) | set(b.pay):
            x, y = a.pay.get(k), b.pay.get(k)
            if x is None:
                pay[k] = y
            elif y is None:
                pay[k] = x
            else:
                # when only one side can be variant k the other's payload is irrelevant
                ax, by = is_variant(a, k), is_variant(b, k)
                if ax is FALSE:
                    pay[k] = y
                elif by is FALSE:
                    pay[k] = x
                else:
                    pay[k] = tuple(merge(c, p, q) for p, q in zip(x, y))
        return VE(a.tag, ite(c, a.disc, b.disc), pay)
    if isinstance(a, VA) and isinstance(b, VA):
        if a.v is b.v:
            return VA(ite(c, a.len, b.len), a.v, merge(c, a.body, b.body))
        v = fresh("i", "i", True)
        return VA(ite(c, a.len, b.len), v, merge(c, a.at(mono(v)), b.at(mono(v))))
    if isinstance(a, VL) and isinstance(b, VL):
        n, m_ = len(a.items), len(b.items)
        items = [merge(c, a.items[i], b.items[i]) if i < n and i < m_ else (a.items[i] if i < n else b.items[i]) for i in range(max(n, m_))]
        return VL(items, ite(c, a.len, b.len))
    if isinstance(a, VH) and isinstance(b, VH):
        e = {}
        for k in list(a.e) + [k for k in b.e if k not in a.e]:
            x, y = a.e.get(k), b.e.get(k)
            if x is None:
                e[k] = (y[0], and_(not_(c), y[1]), y[2])
            elif y is None:
                e[k] = (x[0], and_(c, x[1]), x[2])
            else:
                e[k] = (x[0], ite(c, x[1], y[1]), x[2] if y[1] is FALSE else y[2] if x[1] is FALSE else merge(c, x[2], y[2]))
        return VH(e, a.set, a.srt)
    if isinstance(a, VX) and isinstance(b, VX):
        vi, vj = fresh("r", "i", True), fresh("c", "i", True)
        return VX(ite(c, a.rows, b.rows), ite(c, a.cols, b.cols), vi, vj,
                  ite(c, a.at(mono(vi), mono(vj)), b.at(mono(vi), mono(vj))), a.ty, a.kind)
    if isinstance(a, VM) and isinstance(b, VM) and len(a.kv) == len(b.kv):
        m = {x: mono(y) for x, y in zip(b.kv, a.kv)}
        return VM(a.kv, ite(c, a.pres, subst(b.pres, m)), merge(c, a.val, vsubst(b.val, m)), a.kshape, ite(c, a.len, b.len))
    if isinstance(a, VQ) and isinstance(b, VQ) and same_src(a.src, b.src):
        return VQ(a.src, ite(c, a.pos, b.pos), ite(c, a.end, b.end))
    return VI(c, a, b)


def same_src(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_src(x, y) for x, y in zip(a, b))
    if isinstance(a, Value) and isinstance(b, Value):
        return same_value(a, b)
    return type(a) == type(b) and not isinstance(a, Node) and a == b


def same_value(a, b):
    """cheap structural identity"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, VS):
        return a.tag == b.tag and len(a.f) == len(b.f) and all(same_value(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, VE):
        return a.tag == b.tag and a.disc is b.disc and set(a.pay) == set(b.pay) and all(
            all(same_value(x, y) for x, y in zip(a.pay[k], b.pay[k])) for k in a.pay)
    if isinstance(a, VA):
        return a.len is b.len and (same_value(a.body, b.body) if a.v is b.v else same_value(a.body, b.at(mono(a.v))))
    if isinstance(a, VL):
        return a.len is b.len and len(a.items) == len(b.items) and all(same_value(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, VH):
        return set(a.e) == set(b.e) and all(a.e[k][1] is b.e[k][1] and same_value(a.e[k][2], b.e[k][2]) for k in a.e)
    if isinstance(a, VX):
        return a.rows is b.rows and a.cols is b.cols and a.body is b.at(mono(a.vi), mono(a.vj))
    if isinstance(a, VM):
        m = {x: mono(y) for x, y in zip(b.kv, a.kv)}
        return len(a.kv) == len(b.kv) and a.pres is subst(b.pres, m) and same_value(a.val, vsubst(b.val, m))
    if isinstance(a, VQ):
        return a.pos is b.pos and a.end is b.end and same_src(a.src, b.src)
    if isinstance(a, VI):
        return a.c is b.c and same_value(a.a, b.a) and same_value(a.b, b.b)
    return False


def vmap(x, f):
    """apply f: Term->Term to every scalar inside"""
    if isinstance(x, Node):
        return f(x)
    if isinstance(x, tuple):
        return tuple(vmap(y, f) for y in x)
    if isinstance(x, VS):
        return VS(vmap(x.tag, f) if isinstance(x.tag, tuple) and x.tag and x.tag[0] == "closure" else x.tag, [vmap(y, f) for y in x.f])
    if isinstance(x, VE):
        return VE(x.tag, f(x.disc), {k: tuple(vmap(y, f) for y in v) for k, v in x.pay.items()})
    if isinstance(x, VA):
        return VA(f(x.len), x.v, vmap(x.body, f))
    if isinstance(x, VL):
        return VL([vmap(y, f) for y in x.items], f(x.len))
    if isinstance(x, VH):
        return VH({k: (kv, f(p), vmap(v, f)) for k, (kv, p, v) in x.e.items()}, x.set, x.srt)
    if isinstance(x, VX):
        return VX(f(x.rows), f(x.cols), x.vi, x.vj, f(x.body), x.ty, x.kind)
    if isinstance(x, VM):
        return VM(x.kv, f(x.pres), vmap(x.val, f), x.kshape, f(x.len))
    if isinstance(x, VQ):
        return VQ(vmap(x.src, f), f(x.pos), f(x.end))
    if isinstance(x, VI):
        c = f(x.c)
        if c is TRUE:
            return vmap(x.a, f)
        if c is FALSE:
            return vmap(x.b, f)
        return VI(c, vmap(x.a, f), vmap(x.b, f))
    return x


def vsubst(x, m, fm=None):
    if isinstance(x, Node):
        return subst(x, m, fm)
    if x is UNIT:
        return x
    r = Rewriter(m, fm)
    return vmap(x, r.term)


def vfree(x):
    out = set()
    def f(t):
        out.update(t.fv)
        return t
    vmap(x, f)
    return out

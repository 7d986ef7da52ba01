"""Term domain of the value graph.

A scalar value is a multi-terminal decision diagram (Ite nodes over ordered atomic conditions) whose
leaves are polynomials with rational coefficients over interned atoms, booleans, references or
function items.  Everything is hash-consed, so equal normal forms are the same object."""
from fractions import Fraction
from functools import reduce
import math
import itertools

_ids = itertools.count(1)


class Node:
    __slots__ = ()


class Atom(Node):
    __slots__ = ("kind", "args", "sort", "id", "fv", "ht", "flags")

    def __repr__(self):
        return show_atom(self)


class Poly(Node):
    __slots__ = ("t", "id", "fv", "ht", "d")

    def __repr__(self):
        return show(self)


class Leaf(Node):
    """non-numeric leaf: kind in bool, ref, fn, str ..."""
    __slots__ = ("kind", "v", "id", "fv", "ht")

    def __repr__(self):
        return show(self)


class CAtom(Node):
    __slots__ = ("kind", "p", "c", "o", "id", "fv", "ht")

    def __repr__(self):
        return show_c(self)


class Ite(Node):
    __slots__ = ("c", "hi", "lo", "id", "fv", "ht")

    def __repr__(self):
        return show(self)


_atoms, _polys, _leaves, _catoms, _ites = {}, {}, {}, {}, {}
EMPTY = frozenset()


def _args_fv(args):
    fv, ht = EMPTY, 0
    for a in args:
        if isinstance(a, (Poly, Ite, Leaf, Atom, CAtom)):
            fv |= a.fv
            ht = max(ht, a.ht)
        elif isinstance(a, tuple):
            f, h = _args_fv(a)
            fv |= f
            ht = max(ht, h)
    return fv, ht


def atom(kind, args, sort):
    k = (kind, args, sort)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort, a.id = kind, args, sort, next(_ids)
        fv, ht = _args_fv(args)
        if kind == "var":
            fv = frozenset((a,))
        elif kind == "app" and isinstance(args[0], str) and args[0].startswith("%"):
            fv = fv | frozenset((args[0],))
        elif kind == "bind":
            ht = max(ht, args[1])
        a.fv, a.ht = fv, ht
        _atoms[k] = a
    return a


_vc = itertools.count(1)


def fresh(name="v", sort="i", nonneg=False):
    return atom("var", ("%s'%d" % (name, next(_vc)), nonneg), sort)


def var(name, sort="i", nonneg=False):
    return atom("var", (name, nonneg), sort)


def mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=_mkey)
    t = tuple(items)
    p = _polys.get(t)
    if p is None:
        p = Poly()
        p.t, p.id = t, next(_ids)
        fv, ht = EMPTY, 0
        for m, _ in t:
            for a, _e in m:
                fv |= a.fv
                ht = max(ht, a.ht)
        p.fv, p.ht = fv, ht
        p.d = None
        _polys[t] = p
    return p


def _mkey(it):
    return [(a.id, e) for a, e in it[0]]


def const(c):
    return mkpoly({(): Fraction(c)}) if c else ZERO


def mono(a, e=1):
    return mkpoly({((a, e),): Fraction(1)})


ZERO = mkpoly({})
ONE = mkpoly({(): Fraction(1)})


def P(x):
    if isinstance(x, Atom):
        return mono(x)
    if isinstance(x, (int, Fraction)):
        return const(x)
    return x


def is_const(p):
    return isinstance(p, Poly) and (not p.t or (len(p.t) == 1 and p.t[0][0] == ()))


def const_val(p):
    if not isinstance(p, Poly):
        return None
    if not p.t:
        return Fraction(0)
    if len(p.t) == 1 and p.t[0][0] == ():
        return p.t[0][1]
    return None


def int_val(p):
    c = const_val(p)
    if c is not None and c.denominator == 1:
        return int(c)
    return None


_addc, _mulc = {}, {}


def padd(a, b, k=1):
    if b is ZERO or k == 0:
        return a
    key = (a.id, b.id, k)
    r = _addc.get(key)
    if r is None:
        d = dict(a.t)
        for m, c in b.t:
            d[m] = d.get(m, 0) + c * k
        r = _addc[key] = mkpoly(d)
    return r


def psub(a, b):
    return padd(a, b, -1)


def pscale(a, k):
    if k == 1:
        return a
    return mkpoly({m: c * k for m, c in a.t})


def mono_mul(m1, m2):
    """-> (monomial, extra poly or None)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
        elif a.kind == "sqrt" and (e >= 2 or e < 0):
            q = e // 2
            r = e - 2 * q
            if r:
                d[a] = r
            else:
                del d[a]
            x = ppow(a.args[0], q)
            extra = x if extra is None else pmul(extra, x)
        elif a.kind == "ind" and e != 1:
            d[a] = 1
    return tuple(sorted(d.items(), key=lambda it: it[0].id)), extra


def _cancel(p, q):
    """p times a single term holding the inverse of p"""
    if len(q.t) != 1 or len(p.t) < 2:
        return None
    m, c = q.t[0]
    for i, (x, e) in enumerate(m):
        if x.kind == "inv" and e > 0 and len(x.args[0].t) == len(p.t):
            k = p.t[0][1]
            if pscale(p, 1 / k) is x.args[0]:
                return mkpoly({tuple(m[:i] + (((x, e - 1),) if e > 1 else ()) + m[i + 1:]): c * k})
    return None


def pmul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if b.id < a.id:
        a, b = b, a
    key = (a.id, b.id)
    r = _mulc.get(key)
    if r is None:
        r = _mulc[key] = _cancel(a, b) or _cancel(b, a)
    if r is None:
        d, extras = {}, []
        for m1, c1 in a.t:
            for m2, c2 in b.t:
                m, ex = mono_mul(m1, m2)
                if ex is None:
                    d[m] = d.get(m, 0) + c1 * c2
                else:
                    extras.append((mkpoly({m: c1 * c2}), ex))
        r = mkpoly(d)
        for p, ex in extras:
            r = padd(r, pmul(p, ex))
        _mulc[key] = r
    return r


def pinv(p):
    if not p.t:
        return mono(atom("app", ("div0",), "r"))
    if len(p.t) == 1:
        m, c = p.t[0]
        r = mkpoly({tuple((a, -e) for a, e in m if a.kind not in ("sqrt",)): 1 / c})
        for a, e in m:
            if a.kind == "sqrt":  # 1/sqrt(q)^e = sqrt(q)^e * (1/q)^e
                for _ in range(e):
                    r = pmul(r, pmul(mono(a), pinv(a.args[0])))
        return r
    c = p.t[0][1]
    q = pscale(p, 1 / c)
    return mkpoly({((atom("inv", (q,), "r"), 1),): 1 / c})


def ppow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return ppow(pinv(p), -n)
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def psqrt(p):
    c = const_val(p)
    if c is not None and c >= 0:
        import math
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return const(Fraction(a, b))
    return mono(atom("sqrt", (p,), "r"))


# ---------------------------------------------------------------- leaves and conditions

def leaf(kind, v):
    k = (kind, v)
    l = _leaves.get(k)
    if l is None:
        l = Leaf()
        l.kind, l.v, l.id = kind, v, next(_ids)
        l.fv, l.ht = _args_fv((v,)) if isinstance(v, tuple) else (EMPTY, 0)
        _leaves[k] = l
    return l


TRUE, FALSE = leaf("bool", True), leaf("bool", False)
BOT = leaf("bot", None)


def B(b):
    return TRUE if b else FALSE


_base_order = {}


def _catom(kind, p, c=0):
    k = (kind, p, c)
    x = _catoms.get(k)
    if x is None:
        x = CAtom()
        x.kind, x.p, x.c, x.id = kind, p, c, next(_ids)
        b = _base_order.setdefault(p, len(_base_order))
        x.o = (b, {"ge": 0, "eq": 1, "gt": 2, "b": 3}[kind], c)
        x.fv, x.ht = p.fv, p.ht
        _catoms[k] = x
    return x


def mk(c, hi, lo):
    # implied pruning between conditions on the same base
    if c.kind == "ge":
        while isinstance(lo, Ite) and lo.c.kind == "ge" and lo.c.p is c.p:
            lo = lo.lo
    elif c.kind == "eq":
        while isinstance(hi, Ite) and hi.c.kind == "gt" and hi.c.p is c.p:
            hi = hi.lo
    if hi is lo:
        return hi
    if hi is BOT:
        return lo
    if lo is BOT:
        return hi
    k = (c.id, hi.id, lo.id)
    t = _ites.get(k)
    if t is None:
        t = Ite()
        t.c, t.hi, t.lo, t.id = c, hi, lo, next(_ids)
        t.fv = c.fv | hi.fv | lo.fv
        t.ht = max(c.ht, hi.ht, lo.ht)
        _ites[k] = t
    return t


_apc = {}


class TooBig(Exception):
    pass


def ap(key, f, *ts):
    """lift f over the decision diagrams ts"""
    top = None
    for t in ts:
        if isinstance(t, Ite) and (top is None or t.c.o < top.o):
            top = t.c
    if top is None:
        return f(*ts)
    k = (key,) + tuple(t.id for t in ts)
    r = _apc.get(k)
    if r is None:
        if len(_ites) > 3000000:
            raise TooBig()
        hi = ap(key, f, *[t.hi if isinstance(t, Ite) and t.c is top else t for t in ts])
        lo = ap(key, f, *[t.lo if isinstance(t, Ite) and t.c is top else t for t in ts])
        if isinstance(hi, Ite) and not top.o < hi.c.o or isinstance(lo, Ite) and not top.o < lo.c.o:
            # f brought in conditions that come before the one split on
            r = ite(mk(top, TRUE, FALSE), hi, lo)
        else:
            r = mk(top, hi, lo)
        _apc[k] = r
    return r


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if c is BOT:
        return BOT
    k = ("ite", c.id, a.id, b.id)
    r = _apc.get(k)
    if r is None:
        top = c.c
        for t in (a, b):
            if isinstance(t, Ite) and t.c.o < top.o:
                top = t.c
        g = lambda t, h: (t.hi if h else t.lo) if isinstance(t, Ite) and t.c is top else t
        r = _apc[k] = mk(top, ite(g(c, 1), g(a, 1), g(b, 1)), ite(g(c, 0), g(a, 0), g(b, 0)))
    return r


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def _num(x):
    return isinstance(x, Poly)


def _strict(f):
    def g(*a):
        for x in a:
            if x is BOT:
                return BOT
            if not isinstance(x, Poly):
                return mono(atom("app", ("nonnum",) + tuple(a), "o"))
        return f(*a)
    return g


_sadd, _ssub, _smul = _strict(padd), _strict(psub), _strict(pmul)


def add(a, b):
    return ap("+", _sadd, a, b)


def sub(a, b):
    return ap("-", _ssub, a, b)


def mul(a, b):
    return ap("*", _smul, a, b)


def neg(a):
    return sub(ZERO, a)


_sinv = _strict(pinv)


def inv(a):
    return ap("inv", _sinv, a)


def div(a, b):
    return mul(a, inv(b))


_ssqrt = _strict(psqrt)


def sqrt(a):
    return ap("sqrt", _ssqrt, a)


def add_all(xs):
    return reduce(add, xs, ZERO)


# atomic comparisons -------------------------------------------------------------------

def _ge0_int(p):
    """integer polynomial p >= 0"""
    c0 = const_val(p)
    if c0 is not None:
        return B(c0 >= 0)
    d = dict(p.t)
    k = d.pop((), Fraction(0))
    if all(nonneg_atom(a) and e > 0 for m in d for a, e in m):
        if k >= 0 and all(c >= 0 for c in d.values()):
            return TRUE
        if k < 0 and all(c <= 0 for c in d.values()):
            return FALSE
    from math import gcd, lcm, floor, ceil
    den = 1
    for c in d.values():
        den = lcm(den, c.denominator)
    g = 0
    for c in d.values():
        g = gcd(g, int(c * den))
    s = Fraction(den, g)
    base = mkpoly({m: c * s for m, c in d.items()})
    k = k * s
    # base + k >= 0  <=> base >= -k <=> base >= ceil(-k)
    if base.t[0][1] > 0:
        return mk(_catom("ge", base, ceil(-k)), TRUE, FALSE)
    # -nb >= ceil(-k)  <=> nb <= -ceil(-k) <=> not (nb >= -ceil(-k)+1)
    nb = pscale(base, -1)
    return mk(_catom("ge", nb, -ceil(-k) + 1), FALSE, TRUE)


def _norm_real(p):
    c = p.t[0][1]
    return pscale(p, 1 / c), c > 0


def _gt0_real(p):
    c0 = const_val(p)
    if c0 is not None:
        return B(c0 > 0)
    # sqrt(q) > 0 etc. stay opaque
    q, pos = _norm_real(p)
    gt = mk(_catom("gt", q), TRUE, FALSE)
    if pos:
        return gt_with_eq(q, False, gt)
    return and_(not_(mk(_catom("eq", q), TRUE, FALSE)), not_(gt))


def gt_with_eq(q, _x, gt):
    # gt under eq is False: canonical form has eq tested first
    return mk(_catom("eq", q), FALSE, gt)


def _eq0_real(p):
    c0 = const_val(p)
    if c0 is not None:
        return B(c0 == 0)
    q, _ = _norm_real(p)
    return mk(_catom("eq", q), TRUE, FALSE)


def psort(p):
    for m, _ in p.t:
        for a, _e in m:
            if a.sort != "i" or a.kind == "inv" or _e < 0:
                return "r"
    return "i"


def _cmp(op, sort):
    def f(a, b):
        if a is BOT or b is BOT:
            return BOT
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            if op == "eq":
                if a is b:
                    return TRUE
                if isinstance(a, Leaf) and isinstance(b, Leaf) and a.kind == b.kind and a.kind in ("bool", "str", "fn", "variant"):
                    return FALSE
            return mk(_catom("b", mono(atom("app", ("cmp_" + op, a, b), "b"))), TRUE, FALSE)
        if op == "eq" and a is b:
            return TRUE
        d = psub(a, b)
        if sort == "o":
            c0 = const_val(d)
            if c0 == 0:
                return TRUE
            return mk(_catom("b", mono(atom("app", ("cmp_" + op, a, b), "b"))), TRUE, FALSE)
        if sort == "i":
            if op == "ge":
                return _ge0_int(d)
            return and_(_ge0_int(d), _ge0_int(pscale(d, -1)))
        if op == "ge":  # a >= b  <=> not b > a
            return not_(_gt0_real(pscale(d, -1)))
        if op == "gt":
            return _gt0_real(d)
        return _eq0_real(d)
    return f


_cmpf = {}


def cmp(op, a, b, sort):
    k = (op, sort)
    f = _cmpf.get(k)
    if f is None:
        f = _cmpf[k] = _cmp(op, sort)
    return ap("cmp" + op + sort, f, a, b)


def ge(a, b):
    return cmp("ge", a, b, "i")


def lt(a, b):
    return not_(ge(a, b))


def le(a, b):
    return ge(b, a)


def gt(a, b):
    return not_(ge(b, a))


def eq(a, b):
    return cmp("eq", a, b, "i")


def rgt(a, b):
    return cmp("gt", a, b, "r")


def rge(a, b):
    return cmp("ge", a, b, "r")


def req(a, b):
    return cmp("eq", a, b, "r")


def bvar(p):
    """boolean condition from an opaque atom/poly"""
    p = P(p)
    return mk(_catom("b", p), TRUE, FALSE)


def b2b(t):
    """Term leaf -> boolean diagram: opaque boolean polys become conditions"""
    def f(x):
        if x is TRUE or x is FALSE or x is BOT:
            return x
        if isinstance(x, Poly):
            c = const_val(x)
            if c is not None:
                return B(c != 0)
            return bvar(x)
        return bvar(mono(atom("app", ("asbool", x), "b")))
    return ap("b2b", f, t)


def imin(a, b):
    return ite(le(a, b), a, b)


def imax(a, b):
    return ite(ge(a, b), a, b)


def absr(x, sort="r"):
    c = cmp("ge", x, ZERO, sort)
    return ite(c, x, neg(x))


# applications ---------------------------------------------------------------------------

def app(f, args, sort):
    """uninterpreted application; lifts over diagrams in args"""
    args = tuple(args)
    def g(*a):
        if any(x is BOT for x in a):
            return BOT
        if f in FOLD and len(a) == 1 and isinstance(a[0], Poly):
            c = const_val(a[0])
            if c is not None:
                return const(FOLD[f](c))
            c = _ground(a[0])
            if c is not None and abs(2 * c - round(2 * c)) > Fraction(1, 10 ** 20):
                return const(FOLD[f](c))
        return mono(atom("app", (f,) + a, sort))
    return ap(("app", f, sort), g, *args)


def _ground(p, d=0):
    """a number made of square roots of numbers only, to 40 digits"""
    if not isinstance(p, Poly) or d > 6:
        return None
    s = Fraction(0)
    for m, c in p.t:
        for a, e in m:
            if a.kind != "sqrt" or e < 0:
                return None
            q = _ground(a.args[0], d + 1)
            if q is None or q < 0:
                return None
            c = c * Fraction(math.isqrt(q.numerator * 10 ** 80 // q.denominator), 10 ** 40) ** e
        s += c
    return s


def _nearest(c):
    """to the nearest whole number, halves away from zero"""
    q = abs(c)
    k = q.numerator // q.denominator
    if q - k >= Fraction(1, 2):
        k += 1
    return k if c >= 0 else -k


def _trunc(c):
    k = abs(c).numerator // abs(c).denominator
    return k if c >= 0 else -k


INTS = {"usize": (0, 2 ** 64 - 1), "u64": (0, 2 ** 64 - 1), "u32": (0, 2 ** 32 - 1), "u16": (0, 65535), "u8": (0, 255)}
FOLD = {"round": _nearest, "floor": lambda c: c.numerator // c.denominator, "ceil": lambda c: -((-c.numerator) // c.denominator),
        "trunc": _trunc, "trunc:s": _trunc}
def single(c):
    """the nearest single precision number"""
    import struct
    try:
        return Fraction(struct.unpack("f", struct.pack("f", float(c)))[0])
    except OverflowError:
        return c


FOLD["f32"] = single
for _n, _b in (("u8", 8), ("u16", 16), ("i8", 8), ("i16", 16)):
    FOLD["wrap:" + _n] = lambda c, m=1 << _b, h=0 if _n[0] == "u" else 1 << (_b - 1): (int(c) + h) % m - h
for _n, (_l, _h) in INTS.items():
    FOLD["trunc:" + _n] = lambda c, l=_l, h=_h: max(l, min(h, _trunc(c)))


def floordiv(a, b):
    def f(x, y):
        if not (_num(x) and _num(y)):
            return BOT
        cx, cy = const_val(x), const_val(y)
        if cy is not None and cy > 0:
            if cx is not None:
                return const(cx // cy)
            if cy == 1:
                return x
            # split off the part divisible by y
            d, rest = {}, {}
            for m, c in x.t:
                q = (c / cy)
                if q.denominator == 1 and m != ():
                    d[m] = q
                elif m == ():
                    fl = c // cy
                    if fl:
                        d[()] = fl
                    rest[()] = c - fl * cy
                else:
                    rest[m] = c
            r = mkpoly(rest)
            if r is ZERO:
                return mkpoly(d)
            if const_val(r) is not None:
                return padd(mkpoly(d), const(const_val(r) // cy))
            return padd(mkpoly(d), mono(atom("fdiv", (r, y), "i")))
        # symbolic divisor: split off exact multiples
        if len(y.t) == 1 and y.t[0][1] == 1:
            ym = dict(y.t[0][0])
            d, rest = {}, {}
            for m, c in x.t:
                md = dict(m)
                if all(md.get(a, 0) >= e for a, e in ym.items()):
                    for a, e in ym.items():
                        md[a] -= e
                        if md[a] == 0:
                            del md[a]
                    mm = tuple(sorted(md.items(), key=lambda it: it[0].id))
                    d[mm] = d.get(mm, 0) + c
                else:
                    rest[m] = c
            r = mkpoly(rest)
            if r is ZERO:
                return mkpoly(d)
            return padd(mkpoly(d), mono(atom("fdiv", (r, y), "i")))
        return mono(atom("fdiv", (x, y), "i"))
    return ap("fdiv", f, a, b)


def mod(a, b):
    return sub(a, mul(b, floordiv(a, b)))


# binders ---------------------------------------------------------------------------------

def bv(level, i=0, sort="i"):
    return atom("bv", (level, i), sort)


def ht_of(x):
    if isinstance(x, tuple):
        return max([ht_of(y) for y in x], default=0)
    return x.ht if isinstance(x, Node) else 0


def mk_bind(tag, vars_, parts, outer, sort, funcs=()):
    """canonical binder: vars_ (fresh Var atoms) and funcs (fresh %-names) are bound in parts"""
    level = 1 + ht_of(tuple(parts))
    m = {v: mono(bv(level, i, v.sort)) for i, v in enumerate(vars_)}
    fm = {f: "@%d.%d" % (level, i) for i, f in enumerate(funcs)}
    parts = tuple(subst_any(p, m, fm) for p in parts)
    return atom("bind", (tag, level, parts, tuple(outer), tuple(v.sort for v in vars_), len(funcs)), sort)


def open_bind(a, names=None):
    """-> (fresh vars, fresh funcs, parts, outer)"""
    tag, level, parts, outer, sorts, nf = a.args
    vs = [fresh("b", s) for s in sorts]
    fs = ["%%f%d" % next(_vc) for _ in range(nf)]
    m = {bv(level, i, s): mono(v) for i, (s, v) in enumerate(zip(sorts, vs))}
    fm = {"@%d.%d" % (level, i): f for i, f in enumerate(fs)}
    return vs, fs, tuple(_open(p, m, fm, level) for p in parts), outer


def _open(p, m, fm, level):
    if isinstance(p, tuple):
        return tuple(_open(x, m, fm, level) for x in p)
    return subst_bv(p, m, fm)


# substitution ------------------------------------------------------------------------------

class Rewriter:
    """m: atom -> Term; fm: function name -> new name or callable(args)->Term"""

    def __init__(self, m, fm=None, bvs=False):
        self.m, self.fm, self.bvs = m, fm or {}, bvs
        self.keys = frozenset(m) | frozenset(self.fm)
        self.memo = {}

    def hit(self, x):
        if self.bvs:
            return x.ht > 0 or True
        return not self.keys.isdisjoint(x.fv)

    def term(self, t):
        if not isinstance(t, Node):
            if isinstance(t, tuple):
                return tuple(self.term(x) for x in t)
            return t
        if not self.hit(t):
            return t
        r = self.memo.get(t.id)
        if r is not None:
            return r
        if isinstance(t, Poly):
            r = self.poly(t)
        elif isinstance(t, Ite):
            c = self.cond(t.c)
            if c is TRUE:
                r = self.term(t.hi)
            elif c is FALSE:
                r = self.term(t.lo)
            else:
                r = ite(c, self.term(t.hi), self.term(t.lo))
        elif isinstance(t, Leaf):
            r = self.leaf(t)
        elif isinstance(t, Atom):
            r = self.atom(t)
        else:
            raise TypeError(t)
        self.memo[t.id] = r
        return r

    def leaf(self, l):
        if isinstance(l.v, tuple):
            v2 = self.term(l.v)
            flat = []
            def collect(x):
                if isinstance(x, tuple):
                    for y in x:
                        collect(y)
                elif isinstance(x, Ite):
                    flat.append(x)
            collect(v2)
            if not flat:
                return leaf(l.kind, v2)
            def f(*ts):
                it = dict(zip([x.id for x in flat], ts))
                def rb(x):
                    if isinstance(x, tuple):
                        return tuple(rb(y) for y in x)
                    if isinstance(x, Ite):
                        return it[x.id]
                    return x
                return leaf(l.kind, rb(v2))
            return ap(("leaf", l.id, v2), f, *flat)
        return l

    def cond(self, c):
        if not self.hit(c):
            return mk(c, TRUE, FALSE)
        k = ("c", c.id)
        r = self.memo.get(k)
        if r is None:
            p = self.term(c.p)
            if c.kind == "ge":
                r = ge(p, const(c.c))
            elif c.kind == "eq":
                r = req(p, ZERO)
            elif c.kind == "gt":
                r = rgt(p, ZERO)
            else:
                r = b2b(p)
                a = single_atom(c.p)
                if a is not None and a.kind == "app" and str(a.args[0]).startswith("cmp_"):
                    op = a.args[0][4:]
                    x, y = self.term(a.args[1]), self.term(a.args[2])
                    r = cmp(op, x, y, "o")
            self.memo[k] = r
        return r

    def poly(self, p):
        acc = ZERO
        keep = {}
        for m, c in p.t:
            if not any(self.hit(a) for a, _ in m):
                keep[m] = c
                continue
            t = const(c)
            for a, e in m:
                if self.hit(a):
                    x = self.atom(a)
                    for _ in range(abs(e)):
                        t = mul(t, x if e > 0 else inv(x))
                else:
                    t = mul(t, mono(a, e))
            acc = add(acc, t)
        return add(mkpoly(keep), acc) if keep else acc

    def atom(self, a):
        if a in self.m:
            return self.m[a]
        if not self.hit(a):
            return mono(a)
        r = self.memo.get(a.id)
        if r is not None:
            return r
        r = self.atom2(a)
        self.memo[a.id] = r
        return r

    def atom2(self, a):
        k = a.kind
        if k in ("var", "bv"):
            return mono(a)
        if k == "app":
            args = [self.term(x) for x in a.args[1:]]
            f = a.args[0]
            g = self.fm.get(f) if isinstance(f, str) else None
            if g is not None:
                if callable(g):
                    return g(*args)
                f = g
            return rebuild_app(f, args, a.sort)
        if k == "inv":
            return inv(self.term(a.args[0]))
        if k == "sqrt":
            return sqrt(self.term(a.args[0]))
        if k == "fdiv":
            return floordiv(self.term(a.args[0]), self.term(a.args[1]))
        if k == "ind":
            c = self.term(a.args[0])
            return ind(c)
        if k == "S":
            return self.bind_sum(a)
        if k == "bind":
            tag, level, parts, outer, sorts, nf = a.args
            nouter = tuple(self.term(x) for x in outer)
            if self.keys.isdisjoint(_args_fv(parts)[0]) and not self.bvs:
                nparts = parts
                return lift_bind(tag, level, nparts, nouter, sorts, nf, a.sort)
            if self.bvs:
                nparts = tuple(self.term(x) for x in parts)
                # levels unchanged when renaming bound variables only
                lv = max(level, 1 + ht_of(nparts)) if ht_of(nparts) >= level else level
                if lv != level:
                    m = {bv(level, i, s): mono(bv(lv, i, s)) for i, s in enumerate(sorts)}
                    fm = {"@%d.%d" % (level, i): "@%d.%d" % (lv, i) for i in range(nf)}
                    nparts = tuple(subst_bv(x, m, fm) for x in nparts)
                return lift_bind(tag, lv, nparts, nouter, sorts, nf, a.sort)
            vs, fs, p2, _ = open_bind(a)
            p2 = tuple(self.term(x) for x in p2)
            na = mk_bind(tag, vs, p2, (), a.sort, fs)
            return lift_bind(tag, na.args[1], na.args[2], nouter, sorts, nf, a.sort)
        raise TypeError(a)

    def bind_sum(self, a):
        # S atom: args (level, body, x): formal sum_{0<=b<x} body(b)
        level, body, x = a.args
        x2 = self.term(x)
        if not self.bvs and self.keys.isdisjoint(body.fv):
            return ap(("S", body.id), lambda xx: isum_poly(level, body, xx), x2)
        v = fresh("s")
        b2 = subst_bv(body, {bv(level): mono(v)}, {})
        b2 = self.term(b2)
        return isum(v, b2, x2)


def lift_bind(tag, level, parts, outer, sorts, nf, sort):
    def f(*o):
        if any(x is BOT for x in o):
            return BOT
        h = BIND_HOOK.get(tag)
        if h:
            r = h(level, parts, o, sorts, nf, sort)
            if r is not None:
                return r
        return mono(atom("bind", (tag, level, parts, tuple(o), sorts, nf), sort))
    return ap(("bind", tag, level, tuple(_idof(p) for p in parts), sort), f, *outer)


BIND_HOOK = {}


def _idof(p):
    if isinstance(p, tuple):
        return tuple(_idof(x) for x in p)
    return p.id if isinstance(p, Node) else p


REBUILD = {}


def rebuild_app(f, args, sort):
    h = REBUILD.get(f)
    if h is not None:
        return h(*args)
    return app(f, args, sort)


def subst(t, m, fm=None):
    if not m and not fm:
        return t
    return Rewriter(m, fm).term(t)


def subst_any(p, m, fm):
    if isinstance(p, tuple):
        return tuple(subst_any(x, m, fm) for x in p)
    return subst(p, m, fm)


def subst_bv(t, m, fm):
    r = Rewriter(m, fm, bvs=True)
    return r.term(t)


# sums ---------------------------------------------------------------------------------------

def ind(c):
    """0/1 indicator polynomial of a boolean diagram (multilinear canonical form)"""
    if c is TRUE:
        return ONE
    if c is FALSE or c is BOT:
        return ZERO
    h, l = ind(c.hi), ind(c.lo)
    a = mono(atom("ind", (mk(c.c, TRUE, FALSE),), "i"))
    return padd(pmul(a, psub(h, l)), l)


def flat(t):
    """diagram -> single polynomial with indicator atoms"""
    if isinstance(t, Poly):
        return t
    if isinstance(t, Ite):
        a = mono(atom("ind", (mk(t.c, TRUE, FALSE),), "i"))
        h, l = flat(t.hi), flat(t.lo)
        return padd(pmul(a, psub(h, l)), l)
    if t is BOT:
        return ZERO
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return mono(atom("app", ("nonnum", t), "o"))


_faul = {
    0: lambda x: x,
    1: lambda x: pscale(pmul(x, psub(x, ONE)), Fraction(1, 2)),
    2: lambda x: pscale(pmul(pmul(x, psub(x, ONE)), psub(pscale(x, 2), ONE)), Fraction(1, 6)),
    3: lambda x: pscale(pmul(pmul(x, x), pmul(psub(x, ONE), psub(x, ONE))), Fraction(1, 4)),
}


def isum_poly(level, body, x):
    """formal sum of a canonical body (in bv(level)) up to polynomial x"""
    if x is BOT or not isinstance(x, Poly):
        return BOT
    d = dict(x.t)
    k = d.pop((), Fraction(0))
    base = mkpoly(d)
    if k.denominator != 1 or abs(k) > 64:
        return mono(atom("S", (level, body, x), "r"))
    k = int(k)
    b = bv(level)
    r = ZERO if base is ZERO else mono(atom("S", (level, body, base), "r"))
    def at(q):
        return subst_bv(body, {b: q}, {})
    for j in range(k):
        r = add(r, at(padd(base, const(j))))
    for j in range(k, 0):
        r = sub(r, at(padd(base, const(j))))
    return r


def isum(v, body, x):
    """formal sum_{0<=v<x} body, v a Var atom"""
    body = flat(body)
    out = ZERO
    for m, c in body.t:
        inner, outer = [], []
        for a, e in m:
            (inner if v in a.fv else outer).append((a, e))
        coef = mkpoly({tuple(outer): c})
        if not inner:
            s = x
        elif len(inner) == 1 and inner[0][0] is v and inner[0][1] in (1, 2, 3):
            s = ap(("faul", inner[0][1]), _strict(_faul[inner[0][1]]), x)
        else:
            bp = mkpoly({tuple(inner): Fraction(1)})
            level = 1 + bp.ht
            cb = subst(bp, {v: mono(bv(level))})
            if not isinstance(cb, Poly):
                cb = flat(cb)
            s = ap(("S", cb.id), lambda xx: isum_poly(level, cb, xx), x)
        out = add(out, mul(coef, s))
    return out


def find_split(t, v, seen=None):
    """a condition inside diagram t that is linear in v with coefficient +-1 -> (cond, bound, sense)"""
    if not isinstance(t, Ite) or v not in t.fv:
        return None
    if t.c.kind == "ge" and v in t.c.p.fv:
        r = lin_in(t.c.p, v)
        if r is not None:
            k, rest = r
            if k == 1:      # v + rest >= c  <=> v >= c - rest
                return t.c, psub(const(t.c.c), rest), True
            if k == -1:     # -v + rest >= c <=> v <= rest - c <=> not v >= rest - c + 1
                return t.c, padd(psub(rest, const(t.c.c)), ONE), False
    return find_split(t.hi, v) or find_split(t.lo, v)


def lin_in(p, v):
    """p = k*v + rest with k rational, rest free of v -> (k, rest) else None"""
    k, rest = Fraction(0), {}
    for m, c in p.t:
        if m == ((v, 1),):
            k = c
        elif any(v in a.fv for a, _ in m):
            return None
        else:
            rest[m] = c
    return k, mkpoly(rest)


def restrict_c(t, c, val):
    """cofactor of diagram by condition c"""
    if not isinstance(t, Ite):
        return t
    if t.c is c:
        return t.hi if val else t.lo
    if t.c.o > c.o:
        return t
    k = ("rc", t.id, c.id, val)
    r = _apc.get(k)
    if r is None:
        r = _apc[k] = mk(t.c, restrict_c(t.hi, c, val), restrict_c(t.lo, c, val))
    return r


def sum_range(v, lo, hi, body, ctx=None):
    """sum_{lo<=v<hi} body; empty when hi<=lo"""
    nonempty = ge(hi, lo)
    if ctx is not None:
        nonempty = ctx.simp(nonempty)
    if nonempty is FALSE:
        return ZERO
    def go(lo, hi, body, ctx):
        if body is ZERO:
            return ZERO
        if ctx is not None:
            c2 = ctx.assume(ge(mono(v), lo)).assume(lt(mono(v), hi))
            body = c2.simp(body)
        sp = find_split(body, v)
        if sp is not None:
            c, t, sense = sp
            h, l = restrict_c(body, c, True), restrict_c(body, c, False)
            up, dn = (h, l) if sense else (l, h)
            m = ite(ge(t, lo), ite(le(t, hi), t, hi), lo)
            if ctx is not None:
                m = ctx.simp(m)
            return add(go(m, hi, up, ctx), go(lo, m, dn, ctx))
        return sub(isum(v, body, hi), isum(v, body, lo))
    r = go(lo, hi, body, ctx if ctx is None else ctx.assume(nonempty))
    return ite(nonempty, r, ZERO)


def poly_atoms(p):
    return {a for m, _ in p.t for a, _e in m}


def mk2(c, hi, lo):
    return ite(mk(c, TRUE, FALSE), hi, lo)


def shallow(p, m):
    """replace top-level atoms of a polynomial"""
    acc, keep = ZERO, {}
    for mo, c in p.t:
        if not any(a in m for a, _ in mo):
            keep[mo] = c
            continue
        t = const(c)
        for a, e in mo:
            x = m.get(a)
            if x is None:
                t = mul(t, mono(a, e))
            else:
                for _ in range(abs(e)):
                    t = mul(t, x if e > 0 else inv(x))
        acc = add(acc, t)
    return add(mkpoly(keep), acc)


def cofactor_restrict(f, c):
    """Coudert-Madre restrict: f simplified given that c holds"""
    if c is TRUE or not isinstance(f, Ite):
        return f
    if c is FALSE or not isinstance(c, Ite):
        return f
    k = ("cr", f.id, c.id)
    r = _apc.get(k)
    if r is not None:
        return r
    if c.c.o < f.c.o:
        if c.hi is FALSE:
            r = cofactor_restrict(f, c.lo)
        elif c.lo is FALSE:
            r = cofactor_restrict(f, c.hi)
        else:
            r = cofactor_restrict(f, or_(c.hi, c.lo))
    elif c.c is f.c:
        if c.hi is FALSE:
            r = cofactor_restrict(f.lo, c.lo)
        elif c.lo is FALSE:
            r = cofactor_restrict(f.hi, c.hi)
        else:
            r = mk(f.c, cofactor_restrict(f.hi, c.hi), cofactor_restrict(f.lo, c.lo))
    else:
        r = mk(f.c, cofactor_restrict(f.hi, c), cofactor_restrict(f.lo, c))
    _apc[k] = r
    return r


def single_atom(p):
    if isinstance(p, Poly) and len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1:
        return p.t[0][0][0][0]
    return None


# context: linear facts ------------------------------------------------------------------------

class Ctx:
    __slots__ = ("facts", "bools", "memo", "bad")

    def __init__(self, facts=(), bools=None):
        self.facts = tuple(facts)   # (Poly, strict, isint)
        self.bools = bools or {}
        self.memo = {}
        self.bad = False

    def with_c(self, c, val):
        k = ("w", c.id, val)
        r = self.memo.get(k)
        if r is not None:
            return r
        f = list(self.facts)
        b = self.bools
        if c.kind == "ge":
            if val:
                f.append((psub(c.p, const(c.c)), False, True))
            else:
                f.append((psub(const(c.c - 1), c.p), False, True))
        elif c.kind == "eq":
            if val:
                f.append((c.p, False, False))
                f.append((pscale(c.p, -1), False, False))
            b = dict(b)
            b[c] = val
        elif c.kind == "gt":
            f.append((c.p, True, False) if val else (pscale(c.p, -1), False, False))
            b = dict(b)
            b[c] = val
        else:
            b = dict(b)
            b[c] = val
        r = Ctx(f, b)
        self.memo[k] = r
        return r

    def assume(self, t):
        """add a boolean diagram as fact (conjunctive parts only)"""
        c = self
        while isinstance(t, Ite):
            if t.lo is FALSE:
                c = c.with_c(t.c, True)
                t = t.hi
            elif t.hi is FALSE:
                c = c.with_c(t.c, False)
                t = t.lo
            else:
                d = c.decide(t.c)
                if d is None:
                    # try: one branch infeasible?
                    break
                t = t.hi if d else t.lo
        if t is FALSE:
            c = Ctx(c.facts, c.bools)
            c.bad = True
        return c

    def decide(self, c):
        if self.bad:
            return True
        if c in self.bools:
            return self.bools[c]
        k = ("d", c.id)
        if k in self.memo:
            return self.memo[k]
        r = None
        if c.kind == "ge":
            if self.entails(psub(c.p, const(c.c)), False, True):
                r = True
            elif self.entails(psub(const(c.c - 1), c.p), False, True):
                r = False
        elif c.kind == "gt":
            if self.entails(c.p, True, False):
                r = True
            elif self.entails(pscale(c.p, -1), False, False):
                r = False
        elif c.kind == "eq":
            if self.entails(c.p, True, False) or self.entails(pscale(c.p, -1), True, False):
                r = False
            elif self.entails(c.p, False, False) and self.entails(pscale(c.p, -1), False, False):
                r = True
        self.memo[k] = r
        return r

    def entails(self, p, strict, isint):
        """facts |= p >= 0 (or > 0)"""
        c = const_val(p)
        if c is not None:
            if (c > 0 if strict else c >= 0):
                return True
        if not isint and not self.facts:
            return _real_pos(p, strict)
        if isint:
            negp = (psub(const(-1), p), False, True)
        else:
            if _real_pos(p, strict):
                return True
            negp = (pscale(p, -1), not strict, False)
        return infeasible(self.facts, negp)

    def infeasible(self):
        if self.bad:
            return True
        k = "inf"
        if k not in self.memo:
            f = self.sharp()
            self.memo[k] = infeasible(f, None) or quotients_infeasible(f)
        return self.memo[k]

    def sharp(self):
        """the facts, strict where the bound itself is excluded"""
        ne = set()
        for c, v in self.bools.items():
            if c.kind == "eq" and not v:
                ne.add(c.p)
                ne.add(pscale(c.p, -1))
        if not ne:
            return self.facts
        lead = {pscale(p, 1 / abs(p.t[0][1])) for p in ne if p.t}
        return tuple((p, True, i) if not s and not i and p.t and pscale(p, 1 / abs(p.t[0][1])) in lead else (p, s, i) for p, s, i in self.facts)

    def deep(self, t):
        """simplify conditions, and division atoms, under this context"""
        t = self.simp(t)
        if isinstance(t, Ite):
            return mk2(t.c, self.with_c(t.c, True).deep(t.hi), self.with_c(t.c, False).deep(t.lo))
        if isinstance(t, Poly):
            m = {}
            for a in poly_atoms(t):
                if a.kind == "fdiv":
                    x, y = a.args
                    if self.entails(x, False, True) and self.entails(psub(psub(y, ONE), x), False, True):
                        m[a] = ZERO
                elif a.kind == "ind":
                    c = self.simp(a.args[0])
                    if c is TRUE:
                        m[a] = ONE
                    elif c is FALSE:
                        m[a] = ZERO
                elif a.kind == "app" and any(isinstance(x, (Poly, Ite)) for x in a.args[1:]):
                    na = [self.deep(x) if isinstance(x, (Poly, Ite)) else x for x in a.args[1:]]
                    if any(x is not y for x, y in zip(na, a.args[1:])):
                        m[a] = rebuild_app(a.args[0], na, a.sort)
            if m:
                return shallow(t, m)
        return t

    def simp(self, t, depth=0):
        if not isinstance(t, Ite):
            return t
        k = ("s", t.id)
        r = self.memo.get(k)
        if r is not None:
            return r
        d = self.decide(t.c)
        if d is True:
            r = self.simp(t.hi)
        elif d is False:
            r = self.simp(t.lo)
        else:
            r = mk(t.c, self.with_c(t.c, True).simp(t.hi), self.with_c(t.c, False).simp(t.lo))
        self.memo[k] = r
        return r


def _real_pos(p, strict):
    """syntactic positivity: sums of even powers / sqrt / nonneg atoms with positive coefficients"""
    any_pos = False
    for m, c in p.t:
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0 or a.kind == "sqrt" or (a.kind == "var" and a.args[1]) or a.flags_nonneg():
                continue
            return False
        if m == ():
            any_pos = True
    return any_pos if strict else True


def _flags_nonneg(self):
    if self.kind == "app":
        return self.args[0] in NONNEG or (isinstance(self.args[0], str) and self.args[0].endswith(".len")) or self.sort == "u"
    if self.kind == "bind":
        return self.args[0] in NONNEG
    return self.kind in ("sqrt", "ind")


Atom.flags_nonneg = _flags_nonneg


def nonneg_atom(a):
    return (a.kind == "var" and a.args[1]) or a.flags_nonneg()



NONNEG = {"first", "len", "exp"}
ATOM_FACTS = []   # functions atom -> list of (Poly, strict, isint)


def _auto_facts(atoms):
    out = []
    for a in atoms:
        if (a.kind == "var" and a.args[1]) or a.flags_nonneg():
            out.append((mono(a), False, a.sort == "i"))
        if a.kind == "ind":
            out.append((psub(ONE, mono(a)), False, True))
        if a.kind == "fdiv":
            x, y = a.args
            if const_val(y) is not None and const_val(y) > 0:
                r = psub(x, pmul(y, mono(a)))
                out.append((r, False, True))
                out.append((psub(psub(y, ONE), r), False, True))
        for f in ATOM_FACTS:
            out.extend(f(a))
    return out


def infeasible(facts, extra):
    cons = list(facts)
    if extra is not None:
        cons.append(extra)
    # relevant subset by shared monomials
    if extra is not None and extra[0].t:
        want = set(m for m, _ in extra[0].t if m)
        sel = [extra]
        rest = list(facts)
        seen_atoms = set()
        changed = True
        while changed:
            changed = False
            ats = set(a for m in want for a, _ in m) - seen_atoms
            seen_atoms |= ats
            for fct in _auto_facts(ats):
                rest.append(fct)
            nr = []
            for fct in rest:
                ms = set(m for m, _ in fct[0].t if m)
                if ms & want:
                    sel.append(fct)
                    if not ms <= want:
                        want |= ms
                    changed = True
                else:
                    nr.append(fct)
            rest = nr
        # include constant-contradictory facts
        sel += [f for f in facts if const_val(f[0]) is not None]
        cons = sel
        # nonlinear help: products of facts
        nl = [m for m in want if sum(e for _, e in m) > 1]
        if nl and len(cons) < 24:
            extra_p = []
            cc = [c for c in cons if c is not extra]
            cc += _auto_facts(set(a for m in want for a, _ in m))
            cc = list(dict.fromkeys(cc))[:16]
            allm = set(m for f in cons for m, _ in f[0].t)
            for i in range(len(cc)):
                for j in range(i, len(cc)):
                    pr = pmul(cc[i][0], cc[j][0])
                    if len(pr.t) <= 8 and any(m in nl for m, _ in pr.t):
                        extra_p.append((pr, False, cc[i][2] and cc[j][2]))
            cons = cons + extra_p[:40]
    else:
        ats = set(a for f in cons for m, _ in f[0].t for a, _ in m)
        auto = _auto_facts(ats)
        nl = {m for f in cons if f[2] for m, _ in f[0].t if sum(e for _, e in m) > 1}
        if nl and len(cons) + len(auto) < 24:
            cc = list(dict.fromkeys([f for f in cons + auto if f[2]]))[:16]
            more = []
            for i in range(len(cc)):
                for j in range(i, len(cc)):
                    pr = pmul(cc[i][0], cc[j][0])
                    if len(pr.t) <= 8 and any(m in nl for m, _ in pr.t):
                        more.append((pr, False, True))
            auto = auto + more[:40]
        cons = cons + auto
    return fm_infeasible(cons)


def quotients_infeasible(facts):
    """bounds on quotients, multiplied by their divisors where the sign of these is known"""
    facts = list(facts)
    found = False
    for a in sorted({a for p, _, _ in facts for m, _ in p.t for a, _ in m if a.kind == "inv"}, key=lambda a: a.id):
        q = a.args[0]
        base = [f for f in facts if not any(x is a for m, _ in f[0].t for x, _ in m)]
        if infeasible(base, (pscale(q, -1), False, False)):
            s = 1
        elif infeasible(base, (q, False, False)):
            s = -1
        else:
            continue
        out = []
        for p, st, ii in facts:
            k = max([e for m, _ in p.t for x, e in m if x is a], default=0)
            if k <= 0 or k > 3:
                out.append((p, st, ii))
                continue
            r = ZERO
            for m, c in p.t:
                e = sum(e for x, e in m if x is a)
                r = padd(r, pmul(mkpoly({tuple((x, y) for x, y in m if x is not a): c}), ppow(q, k - e)))
            out.append((pscale(r, s ** k), st, False))
            found = True
        facts = out
    return found and infeasible(facts, None)


def fm_infeasible(cons, limit=600):
    rows = []
    seen = set()
    for p, strict, isint in cons:
        d = dict(p.t)
        k = d.pop((), Fraction(0))
        if not d:
            if k < 0 or (strict and k == 0):
                return True
            continue
        r = (tuple(sorted(((m, c) for m, c in d.items()), key=lambda x: _mkey(x))), k, strict)
        if r not in seen:
            seen.add(r)
            rows.append((d, k, strict, isint))
    def norm(d, k, strict, isint):
        if isint:
            from math import gcd, lcm, floor
            den = 1
            for c in d.values():
                den = lcm(den, c.denominator)
            g = 0
            for c in d.values():
                g = gcd(g, abs(int(c * den)))
            s = Fraction(den, g)
            d = {m: c * s for m, c in d.items()}
            k = k * s
            k = Fraction(floor(k))
        else:
            s = None
            for c in d.values():
                s = abs(c) if s is None else s
            d = {m: c / s for m, c in d.items()}
            k = k / s
        return d, k, strict, isint
    rows = [norm(*r) for r in rows]
    while rows:
        cnt = {}
        for d, k, s, i in rows:
            for m, c in d.items():
                x = cnt.setdefault(m, [0, 0])
                x[0 if c > 0 else 1] += 1
        m = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1], _mkey((m, 0))))
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        ng = [r for r in rows if r[0].get(m, 0) < 0]
        keep = {}
        for r in rows:
            if m not in r[0]:
                kk = frozenset(r[0].items())
                o = keep.get(kk)
                if o is None or (r[1], not r[2]) < (o[1], not o[2]):
                    keep[kk] = r
        for a in pos:
            for b in ng:
                ca, cb = a[0][m], -b[0][m]
                d = {}
                for mm, c in a[0].items():
                    d[mm] = d.get(mm, 0) + c * cb
                for mm, c in b[0].items():
                    d[mm] = d.get(mm, 0) + c * ca
                d = {mm: c for mm, c in d.items() if c != 0}
                k = a[1] * cb + b[1] * ca
                st = a[2] or b[2]
                ii = a[3] and b[3]
                if not d:
                    if k < 0 or (st and k == 0):
                        return True
                    continue
                r = norm(d, k, st, ii)
                kk = frozenset(r[0].items())
                o = keep.get(kk)
                if o is None or (r[1], not r[2]) < (o[1], not o[2]):
                    keep[kk] = r
        rows = list(keep.values())
        if len(rows) > limit:
            return False
    return False


# display ----------------------------------------------------------------------------------------

def show_atom(a, d=0):
    k = a.kind
    if d > 12:
        return "..."
    if k == "var":
        return a.args[0]
    if k == "bv":
        return "b%d.%d" % a.args if a.args[1] else "b%d" % a.args[0]
    if k == "app":
        return "%s(%s)" % (a.args[0], ", ".join(show(x, d + 1) for x in a.args[1:]))
    if k == "inv":
        return "1/(%s)" % show(a.args[0], d + 1)
    if k == "sqrt":
        return "sqrt(%s)" % show(a.args[0], d + 1)
    if k == "fdiv":
        return "(%s div %s)" % (show(a.args[0], d + 1), show(a.args[1], d + 1))
    if k == "ind":
        return "[%s]" % show(a.args[0], d + 1)
    if k == "S":
        return "SUM{b%d<%s}(%s)" % (a.args[0], show(a.args[2], d + 1), show(a.args[1], d + 1))
    if k == "bind":
        return "%s#%d{%s}(%s)" % (a.args[0], a.args[1], "; ".join(show(x, d + 1) for x in a.args[2]), ", ".join(show(x, d + 1) for x in a.args[3]))
    return "%s%s" % (k, a.args)


def show_c(c, d=0):
    if c.kind == "ge":
        return "%s >= %d" % (show(c.p, d), c.c)
    if c.kind == "gt":
        return "%s > 0" % show(c.p, d)
    if c.kind == "eq":
        return "%s == 0" % show(c.p, d)
    return show(c.p, d)


def show(t, d=0):
    if d > 12:
        return "..."
    if isinstance(t, Poly):
        if not t.t:
            return "0"
        out = []
        for m, c in t.t:
            f = "*".join(show_atom(a, d + 1) + ("^%d" % e if e != 1 else "") for a, e in m)
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append("-" + f)
            else:
                out.append("%s*%s" % (c, f))
        return " + ".join(out)
    if isinstance(t, Ite):
        return "(if %s then %s else %s)" % (show_c(t.c, d + 1), show(t.hi, d + 1), show(t.lo, d + 1))
    if isinstance(t, Leaf):
        if t.kind == "bool":
            return str(t.v).lower()
        return "%s:%s" % (t.kind, show(t.v, d + 1) if isinstance(t.v, tuple) else t.v)
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    if isinstance(t, Atom):
        return show_atom(t, d)
    return str(t)

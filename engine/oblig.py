"""Obligations: evaluation of the client programs in /verif/spec and judgement of their claims."""
import time
from terms import *
from values import *
import machine as M_
from machine import Machine, State
import builtins_
from builtins_ import BUILTINS, bi
import ident

SPEC = "verif_spec::p::"


class Claim:
    __slots__ = ("pc", "what", "kind", "a", "b", "span", "fn")

    def __init__(self, pc, what, kind, a, b, span, fn):
        self.pc, self.what, self.kind, self.a, self.b, self.span, self.fn = pc, what, kind, a, b, span, fn


def _s(x):
    return x.v if isinstance(x, Leaf) and x.kind == "str" else "?"


def spec(name):
    return bi("bugi::" + SPEC + name)


@spec("sym")
def _sym(m, st, a, i):
    return mono(var(_s(a[0]), "r"))


@spec("symn")
def _symn(m, st, a, i):
    return mono(var(_s(a[0]), "i", True))


@spec("symb")
def _symb(m, st, a, i):
    return bvar(mono(var(_s(a[0]), "b")))


@spec("syms")
def _syms(m, st, a, i):
    n = int_val(a[1])
    if n is None:
        raise Unsupported("symbolic length")
    return VL([mono(var("%s%d" % (_s(a[0]), k), "r")) for k in range(n)])


@spec("assume")
def _assume(m, st, a, i):
    st.pc = m.simp(and_(st.pc, b2b(a[0])))
    return UNIT


@spec("same")
def _same(m, st, a, i):
    m.claims.append(Claim(st.pc, _s(a[0]), "same", a[1], a[2], i.span, i.fn))
    return UNIT


@spec("near")
def _near(m, st, a, i):
    m.claims.append(Claim(st.pc, _s(a[0]), "near", a[1], a[2], i.span, i.fn))
    return UNIT


@spec("equal")
def _equal(m, st, a, i):
    m.claims.append(Claim(st.pc, _s(a[0]), "equal", m.resolve(a[1], st), m.resolve(a[2], st), i.span, i.fn))
    return UNIT


@spec("holds")
def _holds(m, st, a, i):
    m.claims.append(Claim(st.pc, _s(a[0]), "holds", b2b(a[1]), TRUE, i.span, i.fn))
    return UNIT


@spec("unreachable")
def _unr(m, st, a, i):
    m.claims.append(Claim(st.pc, _s(a[0]), "holds", FALSE, TRUE, i.span, i.fn))
    st.pc = FALSE
    return BOT


@spec("may_panic")
def _mayp(m, st, a, i):
    m.lenient = True
    return UNIT


@spec("strict")
def _strict(m, st, a, i):
    m.lenient = False
    m.panics.clear()
    return UNIT


@spec("writes")
def _writes(m, st, a, i):
    return m.deref_all(a[0], st).f[3]


def last_image(m):
    if not m.saved:
        raise Unsupported("no image was written")
    return m.saved[-1][1]


@spec("saved")
def _saved(m, st, a, i):
    return const(len(m.saved))


@spec("size")
def _size(m, st, a, i):
    v = last_image(m)
    return tup(v.f[0], v.f[1])


@spec("pixel")
def _pixel(m, st, a, i):
    return builtins_.image_pixel(m, last_image(m), a[0], a[1])


@spec("call")
def _call(m, st, a, i):
    b = m.bodies.get("bugi::" + _s(a[0]))
    args = list(m.deref_all(a[1], st).f)
    if b is None or b["argc"] != len(args) or b["generics"]:
        raise Unsupported("no function " + _s(a[0]))
    return m.run(b, args, {}, st)


@spec("call_with")
def _call_with(m, st, a, i):
    b = m.bodies.get("bugi::" + _s(a[0]))
    args = list(m.deref_all(a[1], st).f)
    if b is None or b["argc"] != len(args) or len(b["generics"]) != 1:
        raise Unsupported("no function " + _s(a[0]))
    return m.run(b, args, {b["generics"][0]: i.f["args"][0]}, st)


@spec("rounds")
def _rounds(m, st, a, i):
    m.cutoff = int_val(a[0])
    return UNIT


@spec("rounding")
def _rounding(m, st, a, i):
    m.ieee = b2b(a[0]) is TRUE
    return UNIT


@spec("contract")
def _contract(m, st, a, i):
    b = m.bodies.get("bugi::" + _s(a[0]))
    c = m.bodies.get("bugi::verif_spec::" + _s(a[1]))
    if b is None or c is None or b["argc"] != c["argc"]:
        raise Unsupported("no function " + _s(a[0]))
    m.contracts[b["path"]] = c
    return UNIT


class Result:
    def __init__(self, name, shape):
        self.name, self.shape = name, shape
        self.claims = self.decided = self.undecided = 0
        self.open = []
        self.bad = []        # (key, text)
        self.notes = []
        self.used = {}
        self.wall = 0.0
        self.error = None


def describe(cs, s):
    vs = sorted(((a.args[0], v) for a, v in s.val.items() if a.kind == "var"), key=lambda x: x[0])
    return ", ".join("%s=%s" % (n, v if not isinstance(v, float) else "%.6g" % v) for n, v in vs[:14])


NEAR = Fraction(1, 10 ** 9)


def judge_scalar(pc, a, b, near=False):
    if a is b:
        return None
    if isinstance(a, Value) or isinstance(b, Value):
        return ("violation", [], None, None)
    def f(x, y):
        if x is BOT or y is BOT:
            return leaf("undef", None)
        if isinstance(x, Poly) and isinstance(y, Poly):
            return psub(x, y)
        return ZERO if x is y else leaf("differ", (x, y))
    d = ap("judge", f, cofactor_restrict(a, pc), cofactor_restrict(b, pc))
    def bad(l):
        if isinstance(l, Poly):
            if near and all(abs(c) <= NEAR for _, c in l.t):
                return False
            z = ident.is_zero(l)
            if near and z is False and any(a.kind == "inv" for m, _ in l.t for a, _ in m):
                return None
            return None if z is None else not z
        if l.kind in ("differ", "undef"):
            return True
        return False
    return ident.refute(pc, d, bad, exact=not near)


def judge(m, c):
    """-> list of (text-suffix, outcome)"""
    out = []
    def go(a, b, where, pc):
        if isinstance(a, Node) and isinstance(b, Node):
            out.append((where, judge_scalar(pc, a, b, c.kind == "near"), a, b))
        elif isinstance(a, VI):
            go(a.a, b, where, and_(pc, a.c))
            go(a.b, b, where, and_(pc, not_(a.c)))
        elif isinstance(b, VI):
            go(a, b.a, where, and_(pc, b.c))
            go(a, b.b, where, and_(pc, not_(b.c)))
        elif pc is FALSE:
            return
        elif isinstance(a, VS) and isinstance(b, VS) and a.tag == b.tag and len(a.f) == len(b.f):
            for k, (x, y) in enumerate(zip(a.f, b.f)):
                go(x, y, where + ".%d" % k, pc)
        elif isinstance(a, VL) and isinstance(b, VL):
            out.append((where + ".len", judge_scalar(pc, a.len, b.len), a.len, b.len))
            for k in range(min(len(a.items), len(b.items))):
                q = and_(pc, gt(a.len, const(k)))
                if q is not FALSE:
                    go(a.items[k], b.items[k], where + "[%d]" % k, q)
        elif isinstance(a, VE) and isinstance(b, VE) and a.tag == b.tag:
            out.append((where + ".variant", judge_scalar(pc, a.disc, b.disc), a.disc, b.disc))
            for k in set(a.pay) & set(b.pay):
                q = and_(pc, is_variant(a, k), is_variant(b, k))
                if q is FALSE:
                    continue
                for n, (x, y) in enumerate(zip(a.pay[k], b.pay[k])):
                    go(x, y, where + ".%d" % n, q)
        elif isinstance(a, VH) and isinstance(b, VH):
            for k in set(a.e) | set(b.e):
                pa = a.e[k][1] if k in a.e else FALSE
                pb = b.e[k][1] if k in b.e else FALSE
                out.append((where + "{%r}" % (k,), judge_scalar(pc, pa, pb), pa, pb))
                if k in a.e and k in b.e and not a.set:
                    q = and_(pc, pa, pb)
                    if q is not FALSE:
                        go(a.e[k][2], b.e[k][2], where + "{%r}" % (k,), q)
        else:
            out.append((where, ("violation", [], None, None), a, b))
    go(c.a, c.b, "", c.pc)
    return out


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Runner:
    def __init__(self, prog, model):
        self.prog, self.model = prog, model

    def machine(self):
        return Machine(self.prog, self.model)

    def run(self, name, args, maporder=1, panics_ok=False):
        """analyse one obligation at one shape"""
        r = Result(name, args)
        t0 = time.time()
        m = self.machine()
        m.maporder = maporder
        m.claims = []
        m.lenient = False
        m.Claim = Claim
        m.track = name.startswith("c01::")
        if name.startswith(("c18::", "c19::")):
            import text
            m.builtins = text.table()
        m.resolve = lambda v, st: resolve(m, v, st)
        b = m.bodies.get("bugi::verif_spec::" + name)
        if b is None:
            r.error = "no such obligation " + name
            return r
        st = State({}, TRUE)
        try:
            m.run(b, [const(a) if not isinstance(a, bool) else B(a) for a in args], {}, st)
        except (Unsupported, TooBig, RecursionError) as e:
            r.error = "%s: %s" % (type(e).__name__, e)
            import traceback
            r.tb = traceback.format_exc()
        r.used = m.used
        r.panics = m.panics
        if not m.lenient and not panics_ok:
            for p in m.panics:
                r.claims += 1
                o = ident.refute(p.pc, TRUE, lambda l: True)
                if o is None:
                    r.decided += 1
                elif o[0] == "violation":
                    r.bad.append(("%s:panic:%s:%s" % (name, p.fn, p.kind),
                                  "panic (%s) reachable in %s at %s%s" % (p.kind, p.fn, p.span, "" if o[3] is None else " e.g. when " + describe(o[1], o[3]))))
                else:
                    r.undecided += 1
                    r.open.append("panic %s at %s when %s" % (p.kind, p.span, short(p.pc)))
        for c in m.claims:
            for where, o, a, b2 in judge(m, c):
                r.claims += 1
                if o is None:
                    r.decided += 1
                elif o[0] == "violation":
                    ex = "" if o[3] is None else "; e.g. at " + describe(o[1], o[3])
                    r.bad.append(("%s:%s" % (name, c.what), "%s%s: computed %s, required %s%s" % (c.what, where, short(a), short(b2), ex)))
                else:
                    r.undecided += 1
                    r.open.append("%s%s" % (c.what, where))
        r.wall = time.time() - t0
        return r


def resolve(m, v, st):
    """follow references inside a value"""
    v = m.deref_all(v, st)
    if isinstance(v, VS):
        return VS(v.tag, [resolve(m, x, st) for x in v.f])
    if isinstance(v, VL):
        return VL([resolve(m, x, st) for x in v.items], v.len)
    if isinstance(v, VE):
        return VE(v.tag, v.disc, {k: tuple(resolve(m, x, st) for x in p) for k, p in v.pay.items()})
    return v

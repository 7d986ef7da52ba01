"""Identity of terms as algebraic expressions, and refinement of reported differences."""
import random
from fractions import Fraction
from terms import *
from terms import _ites

PR = (1 << 89) - 1        # prime, = 3 mod 4
_primes = [PR]


def _isprime(n):
    for q in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return False
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for b in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(b, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def prime(k):
    """primes = 3 mod 4 near 2^89: constants whose root is needed are squares modulo some of them"""
    k %= 512
    while len(_primes) <= k:
        n = _primes[-1] - 4
        while not _isprime(n):
            n -= 4
        _primes.append(n)
    return _primes[k]


class NoRoot(Exception):
    pass


class Mod:
    """evaluation of terms in a prime field: equal normal forms agree everywhere; different rational
    functions of degree d agree with probability at most d/2^89 per point"""

    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.p = prime(seed // 2)
        self.val = {}
        self.memo = {}

    def num(self, c):
        PR = self.p
        return c.numerator * pow(c.denominator, -1, PR) % PR

    def atom(self, a):
        r = self.memo.get(a.id)
        if r is None:
            r = self.memo[a.id] = self.atom2(a)
        return r

    def key(self, k):
        PR = self.p
        r = self.val.get(k)
        if r is None:
            r = self.val[k] = self.rnd.randrange(2, PR)
        return r

    def atom2(self, a):
        PR = self.p
        if a.kind == "inv":
            v = self.poly(a.args[0])
            if v == 0:
                raise NoRoot()
            return pow(v, -1, PR)
        if a.kind == "sqrt":
            v = self.poly(a.args[0])
            r = pow(v, (PR + 1) // 4, PR)
            if r * r % PR != v:
                raise NoRoot()
            return r
        if a.kind == "app" and a.args[0] in ("sin", "cos"):
            t = self.key(("trig", self.term(a.args[1])))
            d = pow(1 + t * t, -1, PR)
            return (2 * t if a.args[0] == "sin" else 1 - t * t) * d % PR
        if a.kind == "app":
            k = []
            for x in a.args[1:]:
                k.append(self.term(x))
            return self.key(("app", a.args[0]) + tuple(k))
        return self.key(("id", a.id))

    def poly(self, p):
        PR = self.p
        r = self.memo.get(p.id)
        if r is not None:
            return r
        s = 0
        for m, c in p.t:
            x = self.num(c)
            for a, e in m:
                v = self.atom(a)
                if e < 0 and v == 0:
                    raise NoRoot()
                x = x * pow(v, e, PR) % PR
            s += x
        r = self.memo[p.id] = s % PR
        return r

    def term(self, t):
        if isinstance(t, Poly):
            return self.poly(t)
        return ("t", t.id)


def has_quot(p, seen=None):
    for m, _ in p.t:
        for a, e in m:
            if a.kind in ("inv", "sqrt", "app") or e < 0:
                return True
    return False


_z = {}


def is_zero(p):
    """p identically zero as an expression over its atoms"""
    if p is ZERO:
        return True
    if not isinstance(p, Poly):
        return None
    if const_val(p) is not None:
        return False
    if not has_quot(p):
        return False
    r = _z.get(p.id)
    if r is None:
        good = 0
        r = True
        for seed in range(4000):
            try:
                v = Mod(seed).poly(p)
            except NoRoot:
                continue
            if v != 0:
                r = False
                break
            good += 1
            if good >= 3:
                break
        if good == 0 and r:
            r = None
        _z[p.id] = r
    return r


# ---------------------------------------------------------------- witnesses of feasibility

class Sample:
    """a float point of the input space, for discarding infeasible combinations of conditions"""

    def __init__(self, seed, fixed=None):
        self.rnd = random.Random(seed)
        self.unit = seed % 3 == 2           # every third point lies in the unit cube
        # some points are tiny or huge, all coordinates alike or each on its own; there sums that cancel
        # in floating point are not evaluated at all
        self.scale = {4: (-20, -5), 7: (3, 9), 10: None}.get(seed % 12, (0, 0))
        self.strict = self.scale != (0, 0)
        if self.strict and self.scale is not None:
            self.scale = Fraction(10) ** self.rnd.randrange(*self.scale)
        self.val = dict(fixed or {})
        self.memo = {}

    def base(self, a):
        v = self.val.get(a)
        if v is None:
            if a.sort == "i" or (a.kind == "var" and a.sort == "b"):
                v = self.rnd.randrange(0, 9)
            else:
                v = Fraction(self.rnd.randrange(-100, 400), 399) if self.unit else Fraction(self.rnd.randrange(-300, 301), self.rnd.choice((7, 16, 60, 100)))
                if a.kind == "var" and a.args[1]:
                    v = abs(v) + Fraction(1, 128)
                if self.strict:
                    v *= self.scale if self.scale is not None else Fraction(10) ** self.rnd.choice((0, 0, -6, -13))
            self.val[a] = v
        return v

    def atom(self, a):
        r = self.memo.get(a.id)
        if r is None:
            r = self.memo[a.id] = self.atom2(a)
        return r

    def atom2(self, a):
        import math
        if a.kind == "inv":
            v = self.poly(a.args[0])
            if v == 0:
                raise NoRoot()
            return 1 / v if isinstance(v, float) else Fraction(1) / v
        if a.kind == "sqrt":
            v = self.poly(a.args[0])
            if v < 0:
                raise NoRoot()
            return math.sqrt(v)
        if a.kind == "fdiv":
            x, y = self.term(a.args[0]), self.term(a.args[1])
            if y == 0:
                raise NoRoot()
            return math.floor(x / y)
        if a.kind == "app":
            f = a.args[0]
            xs = [self.term(x) for x in a.args[1:]]
            try:
                if f.startswith("trunc:"):
                    v = int(xs[0])
                    return max(INTS[f[6:]][0], min(INTS[f[6:]][1], v)) if f[6:] in INTS else v
                if f == "f32" or f.startswith("wrap:"):
                    return FOLD[f](xs[0])
                if f in ("sin", "cos", "tan", "exp", "floor", "ceil", "log10", "atan", "asin", "acos", "atan2", "sinh", "cosh", "tanh"):
                    return getattr(math, f)(*xs)
                if f == "ln":
                    return math.log(xs[0])
                if f == "log2":
                    return math.log2(xs[0])
                if f == "round":
                    return math.floor(abs(xs[0]) + 0.5) * (1 if xs[0] >= 0 else -1)
                if f == "powf":
                    return xs[0] ** xs[1]
                if f == "pi":
                    return math.pi
                if f == "tdiv":
                    return int(Fraction(xs[0]) / xs[1])
            except (ValueError, ZeroDivisionError, OverflowError):
                raise NoRoot()
            raise NoRoot()
        return self.base(a)

    def poly(self, p):
        r = self.memo.get(p.id)
        if r is None:
            s = Fraction(0)
            size = 0.0
            for m, c in p.t:
                x = c
                for a, e in m:
                    v = self.atom(a)
                    if e < 0 and v == 0:
                        raise NoRoot()
                    x = x * v ** e
                s = s + x
                if self.strict:
                    size += abs(float(x))
            if self.strict and isinstance(s, float) and abs(s) <= 1e-7 * size:
                raise NoRoot()
            r = self.memo[p.id] = s
        return r

    def cond(self, c):
        v = self.poly(c.p)
        if self.strict and isinstance(v, float) and c.kind in ("ge", "gt") and abs(v - (c.c if c.kind == "ge" else 0)) <= 1e-7 * max(abs(v), abs(c.c if c.kind == "ge" else 0)):
            raise NoRoot()
        if c.kind == "ge":
            return v >= c.c
        if c.kind == "gt":
            return v > 0
        if c.kind == "eq":
            return v == 0 or (not self.strict and isinstance(v, float) and abs(v) < 1e-12)
        return v % 2 >= 1

    def term(self, t):
        while isinstance(t, Ite):
            t = t.hi if self.cond(t.c) else t.lo
        if isinstance(t, Poly):
            return self.poly(t)
        return t


def strip(p):
    """drop factors that cannot be zero (reciprocals) from p in p == 0"""
    if not isinstance(p, Poly) or not p.t:
        return p
    p = _clear(p)
    common = None
    for m, _ in p.t:
        inv = {a: e for a, e in m if a.kind == "inv" and e > 0}
        common = inv if common is None else {a: min(e, inv[a]) for a, e in common.items() if a in inv}
        if not common:
            return p
    out = {}
    for m, c in p.t:
        d = dict(m)
        for a, e in common.items():
            d[a] -= e
            if not d[a]:
                del d[a]
        out[tuple(sorted(d.items(), key=lambda x: x[0].id))] = c
    return mkpoly(out)


def alternatives(eqs, limit=64):
    """conjunction of p == 0 as a disjunction of conjunctions, splitting products of atoms"""
    out = [[]]
    for p in eqs:
        p = strip(p)
        fs = [p]
        if isinstance(p, Poly) and len(p.t) == 1 and len(p.t[0][0]) > 1:
            fs = [mono(a) for a, _ in p.t[0][0]]
        elif isinstance(p, Poly) and len(p.t) > 1:
            # common atom of all monomials
            com = set(a for a, e in p.t[0][0] if e > 0)
            for m, _ in p.t[1:]:
                com &= set(a for a, e in m if e > 0)
            if com:
                rest = p
                fs = []
                for a in com:
                    fs.append(mono(a))
                    rest = pmul(rest, mono(a, -1))
                fs.append(rest)
        if len(out) * len(fs) > limit:
            fs = [p]
        out = [o + [f] for o in out for f in fs]
    return out


def solve_eqs(eqs):
    """substitution making the given polynomials zero, when each is linear in some atom with constant
    coefficient; None when that fails"""
    m = {}
    for p in eqs:
        q = subst(p, m) if m else p
        if not isinstance(q, Poly):
            return None
        if q is ZERO:
            continue
        pick = None
        for mo, c in q.t:
            if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].kind == "var":
                a = mo[0][0]
                if all(a not in dict(m2) and a not in fvs(m2) for m2, _ in q.t if m2 != mo):
                    pick = (a, c)
                    break
        if pick is None:
            return None
        a, c = pick
        val = padd(mono(a), pscale(q, -1 / c))
        m = {k: subst(v, {a: val}) for k, v in m.items()}
        m[a] = val
    return m


def _clear(p):
    """multiply by atoms until no exponent is negative (the atoms are divisors of defined quotients)"""
    low = {}
    for m, _ in p.t:
        for a, e in m:
            if e < 0:
                low[a] = min(low.get(a, 0), e)
    if low:
        p = pmul(p, mkpoly({tuple(sorted(((a, -e) for a, e in low.items()), key=lambda x: x[0].id)): Fraction(1)}))
    return p


def _order(m):
    return (sum(e for _, e in m), sorted(((a.id, e) for a, e in m), reverse=True))


def vanishes(p, eqs, steps=400):
    """p is a combination of the polynomials eqs (which are zero here): division with remainder"""
    if not isinstance(p, Poly):
        return False
    p = _clear(p)
    ds = []
    for e in eqs:
        if not isinstance(e, Poly) or e is ZERO:
            continue
        e = _clear(e)
        lm = max((m for m, _ in e.t), key=_order)
        ds.append((dict(lm), dict(e.t)[lm], e))
    for _ in range(steps):
        if p is ZERO or is_zero(p):
            return True
        for m, c in sorted(p.t, key=lambda x: _order(x[0]), reverse=True):
            dm = dict(m)
            hit = None
            for lm, lc, e in ds:
                if all(dm.get(a, 0) >= k for a, k in lm.items()):
                    q = tuple(sorted(((a, k - lm.get(a, 0)) for a, k in dm.items() if k != lm.get(a, 0)), key=lambda x: x[0].id))
                    hit = psub(p, pmul(mkpoly({q: c / lc}), e))
                    break
            if hit is not None:
                p = hit
                break
        else:
            return False
    return False


def solve_generic(eqs):
    """as solve_eqs, but accepting non-constant coefficients (valid where those are not zero): only for witnesses"""
    m = {}
    for p in eqs:
        q = subst(p, m) if m else p
        if not isinstance(q, Poly):
            return None
        if q is ZERO:
            continue
        pick = None
        for mo, c in q.t:
            for a, e in mo:
                if e != 1 or a.kind != "var" or a.sort != "r":
                    continue
                co, rest, ok = {}, {}, True
                for m2, c2 in q.t:
                    d = dict(m2)
                    if a in d:
                        if d.pop(a) != 1 or a in fvs(tuple(d.items())):
                            ok = False
                            break
                        co[tuple(sorted(d.items(), key=lambda x: x[0].id))] = c2
                    elif a in fvs(m2):
                        ok = False
                        break
                    else:
                        rest[m2] = c2
                if ok:
                    pick = (a, mkpoly(co), mkpoly(rest))
                    break
            if pick:
                break
        if pick is None:
            return None
        a, co, rest = pick
        val = pscale(pmul(rest, pinv(co)), Fraction(-1))
        m = {k: subst(v, {a: val}) for k, v in m.items()}
        m[a] = val
    return m


def fvs(mono_):
    out = set()
    for a, _ in mono_:
        out |= set(a.fv)
    return out


def paths(t, limit=4000):
    """(conditions, leaf) pairs of a diagram"""
    out = []
    def go(t, cs):
        if len(out) > limit:
            raise TooBig()
        if isinstance(t, Ite):
            go(t.hi, cs + [(t.c, True)])
            go(t.lo, cs + [(t.c, False)])
        else:
            out.append((cs, t))
    go(t, [])
    return out


def confirmed(l, s, exactly=False):
    """the leaf (a difference) is really nonzero at the sample point"""
    if not isinstance(l, Poly):
        return True
    try:
        tot, size, exact = Fraction(0), 0.0, True
        for m, c in l.t:
            x = c
            for a, e in m:
                v = s.atom(a)
                if e < 0 and v == 0:
                    return False
                x = x * v ** e
            if isinstance(x, complex):
                return False
            exact = exact and not isinstance(x, float)
            size += abs(float(x))
            tot = tot + x
        return tot != 0 if exact else not exactly and abs(tot) > 1e-9 * size
    except (NoRoot, OverflowError, TypeError, ZeroDivisionError):
        return False


def feasible(cs, m, tries=400, leaf_=None):
    """a sample point satisfying conditions cs (after the equalities m have been substituted)"""
    for seed in range(tries):
        s = Sample(seed)
        try:
            if m:
                for a, v in m.items():
                    s.val[a] = x = s.term(v)
                    if a.kind == "var" and a.args[1] and x < 0:
                        raise NoRoot()
                    if a.sort == "i" and (x != int(x) or x < 0):
                        raise NoRoot()
            if all(s.cond(c) == v for c, v in cs) and (leaf_ is None or confirmed(leaf_, s)):
                return s
        except (NoRoot, OverflowError, TypeError, ZeroDivisionError):
            continue
    return None


FINE = leaf("fine", None)


def refute(pc, bad, leafbad, tries=600, exact=True):
    """find how `bad` (a diagram; leafbad(leaf) -> True when the leaf breaks the obligation) can be reached
    under pc.  -> None (obligation decided to hold), ("undecided", ...), or ("violation", conditions, leaf, point)"""
    if pc is FALSE or bad is BOT:
        return None
    t = ite(pc, bad, FINE) if pc is not TRUE else bad
    if t is FINE:
        return None
    # cheap global sampling first
    badleaf = {}
    def lb(l, m=None):
        if m:
            l = subst(l, m)
            if isinstance(l, Ite):
                return None
        k = l.id
        if k not in badleaf:
            badleaf[k] = leafbad(l)
        return badleaf[k]
    # which leaves are bad at all
    leaves = {}
    def coll(x, seen):
        if x.id in seen:
            return
        seen.add(x.id)
        if isinstance(x, Ite):
            coll(x.hi, seen)
            coll(x.lo, seen)
        elif x is not FINE and x is not BOT:
            leaves[x.id] = x
    coll(t, set())
    bads = {i for i, l in leaves.items() if lb(l) is not False and lb(l) is not None}
    und = {i for i, l in leaves.items() if lb(l) is None}
    if not bads and not und:
        return None
    for seed in range(tries):
        s = Sample(seed)
        x = t
        cs = []
        try:
            while isinstance(x, Ite):
                v = s.cond(x.c)
                cs.append((x.c, v))
                x = x.hi if v else x.lo
        except (NoRoot, OverflowError, TypeError, ZeroDivisionError):
            continue
        if x.id in und and exact and isinstance(x, Poly) and not any(v and c.kind == "eq" for c, v in cs) and confirmed(x, s, True):
            return ("violation", cs, x, s)      # no identity is known, but at this point the two sides are different rationals
        if x.id in bads:
            # an equality taken by chance narrows the region: re-check there
            eqs = [c.p for c, v in cs if v and c.kind == "eq"]
            if eqs:
                fine = False
                for alt in alternatives(eqs):
                    if all(const_val(strip(s_)) is None for s_ in alt) and all(s.poly(q) == 0 for q in alt):
                        m = solve_eqs(alt)
                        if m is None or not lb(x, m) or vanishes(x, alt):
                            fine = True
                            break
                if fine:
                    continue
            if not confirmed(x, s):
                continue
            return ("violation", cs, x, s)
    if not bads:
        return ("undecided", len(und))
    # directed: enumerate ways to a bad leaf
    res = None
    n = 0
    ctx0 = Ctx()
    stack = [(t, (), ctx0)]
    while stack:
        x, cs, ctx = stack.pop()
        n += 1
        if n > 20000:
            return ("undecided", "size")
        if isinstance(x, Ite):
            d = ctx.decide(x.c)
            if d is not False:
                stack.append((x.hi, cs + ((x.c, True),), ctx.with_c(x.c, True) if d is None else ctx))
            if d is not True:
                stack.append((x.lo, cs + ((x.c, False),), ctx.with_c(x.c, False) if d is None else ctx))
            continue
        if x.id not in bads:
            continue
        if ctx.infeasible():
            continue
        eqs = [c.p for c, v in cs if v and c.kind == "eq"]
        done = True
        for alt in alternatives(eqs):
            m = {}
            if alt:
                if any(const_val(q) not in (None, 0) for q in alt if isinstance(q, Poly)) or vanishes(x, alt):
                    continue
                m = solve_eqs(alt)
                if m is None:
                    m = solve_generic(alt)
                if m is None:
                    done = False
                    continue
                b = lb(x, m)
                if not b:
                    if b is None:
                        done = False
                    continue
            s = feasible(cs, m, 300, x)
            if s is not None:
                return ("violation", cs, x, s)
            done = False
        if not done:
            res = res or ("undecided", "no witness")
    return res

"""Obligations of the geometry modules: C20 and C21."""
from itertools import product
import random
from table import obl


@obl("C20")
def c20(th):
    out = [("c20::orientation", ()), ("c20::circle", ()), ("c20::sphere", ()), ("c20::barycentric", ()), ("c20::triangle", ()), ("c20::corners", ()), ("c20::centre", ())]
    out += [("c20::translation", (k,)) for k in range(3)]
    for kind in range(3):
        for k in range(12 if th else 5):
            out += [("c20::through", (kind, k, s, 0, f)) for s in (0, 1, 6, 10) for f in range(4) if th or s == 0 or (k + f) % 2 == 0]
    out += [("c20::half_planes", (k, t)) for k in range(12 if th else 7) for t in (False, True)]
    out += [("c20::flat_point", (d, w)) for d in (0, 1, 3) for w in range(4)]
    out += [("c20::centre_units", (k, s)) for k in range(12 if th else 5) for s in (0, 2, 4, 6, 10)]
    # degenerate positions of points with whole coordinates, with the rounding of the arithmetic
    rnd = random.Random(20)
    for k in range(200 if th else 40):
        q = rnd.sample(range(12), 4)
        out.append(("c20::grid", (rnd.randrange(9),) + tuple(sorted(q[:3])) + (q[3],)))
    for k in range(120 if th else 24):
        out.append(("c20::grid_space", (0, rnd.randrange(9)) + tuple(rnd.sample(range(30), 4))))
        out.append(("c20::grid_space", (1, rnd.randrange(9)) + tuple(rnd.sample(range(48), 4))))
    # the determinant the predicates are made of
    out += [("c06::" + n, a) for n, a in ()]
    return out


@obl("C21")
def c21(th):
    out = [("c21::conversions", ())]
    for n in range(4):
        out += [("c21::build", (n,)), ("c21::arithmetic", (n,)), ("c21::metric", (n,)), ("c21::algebra", (n,))]
        out += [("c21::direction", (n,))] if n else []
        out += [("c21::write", (n, i)) for i in range(n)]
        out += [("c21::outside", (n, i, w)) for i in range(n, 5) for w in (False, True)]
        out += [("c21::equality", (n, m)) for m in range(4)] + [("c21::mixed_dot", (n, m)) for m in range(4)]
        out += [("c21::mixed", (n, m, w)) for m in range(4) if m != n for w in range(3)]
    out += [("c21::too_many", (n,)) for n in (4, 5, 7)]
    return out

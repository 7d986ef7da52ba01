"""Obligations of the mesher: C24 and C25."""
from table import obl, both


@obl("C24")
def c24(th):
    out = []
    for n in (0, 3, 4, 5):
        for k in range(n or 3):
            for fd in (0, 1, 2):
                for cd in (0, 1, 2):
                    out.append(("c24::split", (n, k, fd, cd, 1 + (n + k + fd + cd) % 4)))
    for n in (3, 4):
        for k in range(n):
            for pc in (1, 2, 3, 5) + ((4, 7) if th else ()):
                for fd, cd in ((0, 0), (1, 1), (2, 0), (0, 2), (2, 1)):
                    out.append(("c24::divide", (n, k, pc, fd, cd, 1 + (n + k + pc) % 4)))
    out += [("c24::corner", (p, a, b)) for p in (0, 2, 3) for a in (1, 2, 3) for b in (1, 2, 3)]
    out += [("c24::point_support", (k, c)) for k in range(4) for c in (1, 2, 3, 4)]
    return list(both(out))


@obl("C25")
def c25(th):
    out = [("c25::one", (r,)) for r in range(3)]
    out += [("c25::two", (s,)) for s in range(3)]
    out += [("c25::removal", (s, r, w)) for s in range(3) for r in range(3) for w in (0, 1)]
    out += [("c25::wall", (k, 4)) for k in range(4)]
    out += [("c25::wrapped", (n, b)) for n in (3, 4, 5) for b in (False, True)]
    # the others exceed the time limit of the quick tier
    quick = {0: (0, 2, 3, 5, 6, 8), 1: (1, 2, 3, 4, 5, 8), 2: (2, 5, 8)}
    out += [("c25::inserted", (s, f)) for s in range(3) for f in (range(9) if th else quick[s])]
    return list(both(out))

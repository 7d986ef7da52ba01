"""Obligations of the element module: C12 to C17."""
from itertools import product, permutations
from table import obl, both


def trips(n):
    return list(permutations(range(n), 3))


@obl("C12")
def c12(th):
    out = []
    for w in range(3):
        out += [("c12::stiffness", (w,)), ("c12::thickness", (w,)), ("c12::strain_matrix", (w,))]
        for turn in range(2):
            out += [("c12::uniform", (w, turn, r)) for r in (False, True)]
    out += [("c13::rigid", (w, t)) for w in range(3) for t in range(2)]
    out += [("c16::node_stress", (0, w)) for w in range(3)]
    return out


@obl("C13")
def c13(th):
    out = []
    for w, t in product(range(3), range(2)):
        out += [("c13::stiffness", (w, t)), ("c13::mass", (w, t)), ("c13::rigid", (w, t)), ("c13::even", (w, t))]
        out += [("c13::line_force", (w, t, m, n)) for m, n in permutations(range(3), 2) if th or w == 0 or m < n]
    perms = list(permutations(range(3)))
    for kind, w in product(range(2), range(3)):
        out += [("c13::renumbered", (kind, w) + q) for q in (perms if th or w == 0 else perms[1:3] + perms[5:])]
    out += [("c13::edge_query", (m, n)) for m, n in product(range(4), repeat=2)]
    out += [("c13::lookup", q + (m,)) for q in perms for m in range(4)]
    # through the assembly and the rule the integrals are made with
    out += [("c14::triangle", ()), ("c14::triangle_mat", (2, 2)), ("c14::segment", (2, 2, 2)), ("c14::segment", (2, 2, 3)), ("c14::segment_mixed", (2,))]
    out += [("c12::stiffness", (w,)) for w in range(3)] + [("c12::strain_matrix", (w,)) for w in range(3)]
    out += [("c16::loads", (1, 0, 0, 0, 112)), ("c16::loads", (2, 0, 0, 0, 102)), ("c16::loads", (7, 0, 1, 1, 12113))]
    return out


@obl("C14")
def c14(th):
    out = [("c14::triangle", ()), ("c14::triangle_points", ())]
    out += [("c14::triangle_mat", (r, s)) for r, s in product(range(1, 4), repeat=2)]
    for order in range(1, 5):
        out += [("c14::segment", (order, dim, deg)) for dim in (1, 2, 3) for deg in range(2 * order)]
        out += [("c14::segment_points", (order,))] + ([("c14::segment_mixed", (order,))] if order > 1 else [])
    out += [("c14::no_such_rule", (n,)) for n in (0, 5, 6, 50)]
    return out


@obl("C15")
def c15(th):
    out = []
    for n in (1, 3, 4, 6):
        out += [("c15::kind", (n, False)), ("c15::kind", (n, True)), ("c15::equivalent", (n,)), ("c15::invariant", (n,)), ("c15::arithmetic", (n,))]
        out += [("c15::mean", (n, k)) for k in range(5)]
    out += [("c15::tensor", (n,)) for n in (1, 3, 6)] + [("c15::no_tensor", ())]
    out += [("c15::mixed", (m, n)) for m, n in product((1, 3, 4, 6), repeat=2) if m != n]
    out += [("c15::bad_length", (n, r)) for n in (2, 5, 7, 8, 9) for r in (False, True)]
    out += [("c15::not_flat", q) for q in ((2, 2), (2, 3), (3, 2), (3, 3), (2, 6))]
    out += [("c15::mean_number", (k,)) for k in range(8 if th else 6)]
    return out


@obl("C16")
def c16(th):
    out = []
    for kind in range(2):
        for q in ((0, 0, 2, 0), (1, 0, 1, 1), (2, 0, 4, 0), (3, 0, 3, 0), (4, 1, 2, 0), (5, 0, 0, 0), (6, 0, 1, 0), (7, 0, 2, 1), (8, 0, 3, 1)):
            if th or q[0] in (1, 2, 4, 5, 6):
                out += [("c16::assembled", (kind,) + q)]
        out += [("c16::assembled", (kind, 1, 2, 2, 0)), ("c16::scattered", (kind, 7))]
        if th:
            out += [("c16::assembled", (kind, 9, c, 3, t)) for c in range(3) for t in range(2)]
            out += [("c16::scattered", (kind, w)) for w in range(10)]
    loads = [(0, 0, 0, 7, 10112), (1, 0, 0, 15, 112), (1, 0, 0, 5, 121), (1, 0, 1, 8, 1010213), (2, 0, 0, 3, 12001), (4, 0, 0, 4, 1022324),
             (6, 0, 0, 1, 101), (8, 0, 1, 127, 1120145), (3, 1, 0, 16, 1041424), (5, 2, 0, 1, 123), (7, 0, 1, 0, 1211213), (1, 0, 0, 0, 103), (0, 0, 0, 0, 1), (0, 0, 0, 1, 10110)]
    out += both([("c16::loads", q) for q in loads])
    if th:
        out += both([("c16::loads", (9, 0, 0, 85, 1600123456450)), ("c16::loads", (9, 2, 1, 42, 1616263))])
    cons = {0: (1320, 1132, 1023), 1: (13320, 13012, 10313, 11133), 2: (13300,), 4: (133030, 120313), 3: (130001,)}
    for w, cs in cons.items():
        for k, c in enumerate(cs):
            for how in range(3):
                if th or how == k % 3 or w == 0:
                    out += [("c16::displacements", (w, k % 3, (1 << (len(str(c)) - 1)) - 1 if k % 2 == 0 else 5, c, how))]
    sl = [("c16::slanted", q) for q in ((0, 0, 1304, 0), (0, 1, 1340, 1), (0, 2, 1031 + 3, 2), (1, 0, 13040, 1), (2, 1, 10344, 2))]
    out += sl
    out += [("c16::modes", q) for q in ((0, 0, 1320, 1, False), (0, 1, 1320, 3, True), (0, 2, 1031, 2, False), (1, 0, 13020, 2, False), (2, 1, 10333, 0, True), (0, 0, 1332, 1, True))]
    if th:
        out += [("c16::modes", (w, k % 3, c, want, k % 2 == 0)) for w, cs in cons.items() for k, c in enumerate(cs) for want in (1, 3)]
    out += [("c16::deformed", q) for q in ((0, 1000), (0, 1320), (1, 13020), (3, 112030), (5, 10132), (8, 11230012))]
    out += [("c16::node_stress", q) for q in (((5, 0), (7, 0), (2, 1)) if not th else tuple((w, c) for w in range(10) for c in range(3)))]
    out += [("c16::listing", (w,)) for w in range(10)]
    out += [("c16::tiny", (kind, c, e)) for kind in range(2) for c in range(3) for e in ((0, 9) if not th else (0, 3, 5, 9, 12))]
    out += [("c15::mean", (3, k)) for k in range(4)] + [("c15::arithmetic", (3,))]
    out += [("c13::lookup", (2, 0, 1, m)) for m in range(4)] + [("c13::line_force", (0, t, m, n)) for t in range(2) for m, n in permutations(range(3), 2)]
    return out


def seqs(k, digits):
    for n in range(k + 1):
        for q in product(digits, repeat=n):
            yield int("1" + "".join(map(str, q)))


@obl("C17")
def c17(th):
    out = [("c17::plain", (1, int("1" + "".join("0%d" % d for d in q)))) for n in range(5 if th else 4) for q in product(range(4), repeat=n)]
    out += [("c17::plain", (2, 1110213)), ("c17::plain", (3, 1212202)), ("c17::plain", (3, 10011220122)), ("c17::plain", (4, 133322110))]
    out += [("c17::slanted", (s,)) for s in seqs(4 if th else 3, range(5))]
    out += [("c17::struck", (c,)) for c in range(5)]
    for s in seqs(4 if th else 3, range(5)):
        out += [("c17::motion", (s,)), ("c17::force", (s,))]
    full = lambda n: (1 << (4 * n * n)) - 1
    for s in seqs(3 if th else 2, range(5)):
        out += [("c17::matrix", (s, full(len(str(s)) - 1)))]
    for s in (1044, 1404, 1123, 1414, 1340, 1034, 1240, 14320):
        n = len(str(s)) - 1
        out += [("c17::matrix", (s, full(n))), ("c17::matrix", (s, 0xa53c96f00ff1 & full(n) | 1 << (4 * n * n - 1)))]
    out += [("c17::wrong_length", q) for q in ((10, 0), (10, 1), (10, 3), (13, 0), (13, 1), (14, 3), (1044, 5), (1044, 7))]
    out += [("c16::deformed", q) for q in ((0, 1320), (1, 13020), (5, 10132))]
    out += [("c16::displacements", (0, 0, 4, c, 0)) for c in (1320, 1132, 1023)] + [("c16::slanted", (0, 0, 1304, 0)), ("c16::slanted", (1, 0, 13040, 1))]
    return out

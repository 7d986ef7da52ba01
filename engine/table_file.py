"""Obligations about the file formats."""
from itertools import product
from table import obl, both

# constraints of four nodes in base five (free x y xy angle)
CONS = [0, 1, 4, 25 * 3 + 2, 4 + 5 * 4 + 25 * 4 + 125 * 4, 125 * 2 + 4, 125 * 4 + 25 * 1 + 5 * 3, 5 * 2 + 25 * 2, 625 - 1 - 3]


@obl("C18")
def c18(th):
    for k in range(1, 5):
        yield "c18::constraint_text", (k,)
    for a, b in product(range(5), repeat=2):
        if a != b:
            yield "c18::constraint_distinct", (a, b)
    for k in range(2):
        yield "c18::material_text", (k,)


@obl("C18")
def c18_mesh(th):
    def gen():
        for m, c in product(range(2), range(3)):
            yield "c18::mesh_round_trip", (m, c, 3, 1, 1 + 5 * 3, 1, 2)
        for k in CONS:
            yield "c18::mesh_round_trip", (0, 1, 4, 3, k, 0, 0)
        for f in range(16) if th else (1, 2, 5, 8, 10, 15):
            yield "c18::mesh_round_trip", (1, 0, 4, 1, 2, f, 0)
            yield "c18::mesh_round_trip", (1, 2, 4, 1, 0, 0, f)
        for e in range(8):
            yield "c18::mesh_round_trip", (0, 0, 4, e, 3, 1, 1)
        yield "c18::mesh_round_trip", (0, 1, 11, 7, 3 + 5 ** 10 * 4, 1 << 10, 1 << 9)
        yield "c18::mesh_round_trip", (0, 2, 12, 0, 4 * 5 ** 11 + 2 * 5 ** 9, 4095, 4095)
        if th:
            for k in range(0, 625, 7):
                yield "c18::mesh_round_trip", (0, 1, 4, 0, k, k % 16, (k // 3) % 16)
            yield "c18::mesh_round_trip", (1, 1, 101, 7, 5 ** 100 * 3 % 2 ** 62, 1 << 60, 1 << 61)
    return both(gen())


@obl("C18")
def c18_bound(th):
    def gen():
        for c, k, l in product(range(3), range(1, 5), range(8)):
            if th or (c + k + l) % 3 == 0 or l in (3, 6, 7):
                yield "c18::boundary_read", (c, k, l)
    return both(gen())


@obl("C19")
def c19(th):
    for n in "constraint_refused material_refused mesh_baseline mesh_bad_header mesh_bad_record mesh_bad_nodes bound_baseline bound_bad_record".split():
        yield "c19::" + n, ()
    for w, n in product(range(6), range(8)):
        yield "c19::mesh_bad_node", (w, n)
    for n, e, f in product(range(2), (False, True), (False, True)):
        yield "c19::mesh_dimensions", (n, e, f)
    confs = [(3, 27, 3, 1), (0, 4, 0, 2)] + ([(7, 624, 15, 15), (1, 0, 1, 0)] if th else [])
    for c in confs:
        for k in range(52 if th else 40):
            yield "c19::mesh_truncated", c + (k,)
            yield "c19::mesh_cut_line", c + (k,)
            yield "c19::mesh_line_missing", c + (k,)
    for w in range(5):
        for k in range(40):
            if th or k % 2 == w % 2:
                yield "c19::mesh_unknown_record", (w, k)

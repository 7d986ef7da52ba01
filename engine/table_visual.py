"""Obligations of the drawing module: C22 and C23."""
import random
from table import obl


@obl("C22")
def c22(th):
    out = []
    for r in range(0, 9 if th else 7):
        for f in (0, 1):
            out += [("c22::lines", (ox, oy, r, f)) for ox, oy in ((0, 0), (3, -2))] + [("c22::pixel_lines", (r + 2, r, r, f))]
    out += [("c22::long_line", q) for q in ((3, 5, 300, 12), (300, 12, 3, 5), (-7, 250, 2, -200), (0, 0, 255, 254), (0, 255, 254, 0), (17, 0, 18, 240), (5, 90, 260, 91), (9, 9, 137, 73), (9, 9, 73, 137), (40, 200, 40, 3))]
    out += [("c22::covered", q) for q in ((1791907, 0, 0), (1722227, 0, 0), (1722227, 200, 1), (1232864, 0, 3), (1055526, 0, 2), (1515669, 90, 0), (1287338, 7, 1), (1186374, 0, 3), (1626852, 0, 0), (1464111, 240, 2), (1373217, 0, 1), (1003104, 0, 0))]
    if th:
        rnd = random.Random(22)
        out += [("c22::covered", (rnd.randrange(1000000, 2000000), rnd.randrange(0, 240), rnd.randrange(4))) for _ in range(300)]
        out += [("c22::large", q) for q in ((3, 4, 60, 11, 20, 70), (200, 190, 255, 200, 231, 255), (0, 0, 40, 1, 80, 3), (9, 90, 50, 10, 40, 41))]
    out += [("c22::large", q) for q in ((3, 4, 30, 11, 20, 40), (230, 250, 255, 255, 241, 221), (0, 0, 40, 1, 80, 3))]
    out += [("c22::seen", ()), ("c22::usual", ())] + [("c22::deformed", q) for q in ((1, 20), (8, 24), (3, 17))]
    out += [("c22::dot", c) for c in ((0, 0), (0, 5), (5, 0), (7, 9), (1, 1), (255, 255))]
    tr = [1003104, 1000703, 1125083, 1990937, 1503159, 1405060, 1121419, 1900990, 1280436]
    # the corners in every order
    for t in tr[: 9 if th else 6]:
        d = str(t)[1:]
        c = [d[0:2], d[2:4], d[4:6]]
        if (int(c[1][0]) - int(c[0][0])) * (int(c[2][1]) - int(c[0][1])) == (int(c[1][1]) - int(c[0][1])) * (int(c[2][0]) - int(c[0][0])):
            continue
        for p in ((0, 1, 2), (1, 0, 2), (2, 0, 1)):
            out.append(("c22::triangle", (int("1" + "".join(c[q] for q in p)),)))
    for kind in range(17):
        out += [("c22::pixels", (kind, 0, s)) for s in ((10, 37, 256) if th or kind % 3 == 0 else (10, 51))]
    for kind in range(17, 23):
        out += [("c22::pixels", (kind, k, 64)) for k in range(8 if th else 3)]
    out += [("c22::pixels", (k, 0, s)) for k in (0, 2, 5, 6, 7, 9, 12) for s in (1, 2, 3, 5, 6)]
    out += [("c22::anywhere", (d, a, s)) for d in (1, 2) for a in range(d) for s in (5, 16, 25)]
    for mesh in (True, False):
        for mode in range(8):
            out.append(("c22::picture", (5, 0, 14, mesh, 1011320, 1012, mode)))
            out.append(("c22::picture", (4, 0, 16, mesh, 1011220 if mode % 2 else 10117, 1012, mode)))
            if th or mode in (1, 3, 6):
                out.append(("c22::picture", (17, mode, 18, mesh, 1011223, 1012123, mode)))
    out += [("c22::refused", (w,)) for w in range(5)]
    return out


@obl("C23")
def c23(th):
    from itertools import permutations
    out = [("c23::hot", ()), ("c23::rgb", ()), ("c23::total", ())]
    for n in (3, 4):
        for p in permutations(range(n)):
            o = int("".join(map(str, p)))
            for ties in range((1 << (n - 1)) - 1):
                if n == 3 or th or ties in (0, 1, 4, 5):
                    out += [("c23::normal", (n, o, ties, 0))]
        out += [("c23::normal", (n, o, 0, m)) for m in (1, 2, 3)]
        out += [("c23::within", (n, int("3210"[-n:]), t)) for t in range(1 << (n - 1))]
        out += [("c23::equal_values", (n, m)) for m in range(4)]
    return out

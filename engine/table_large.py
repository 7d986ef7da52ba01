"""larger shapes: a handful of sizes and patterns beyond the exhaustively covered small ones"""
import random
from table import obl, both


def bigpats(r, c, k, density=4, seed=0, lower=None):
    rnd = random.Random(r * 100 + c + seed)
    out = []
    for _ in range(k):
        b = 0
        for i in range(r):
            for j in range(c):
                if rnd.randrange(density) == 0 and (lower is None or (j <= i) == lower):
                    b |= 1 << (i * c + j)
        out.append(b)
    return out


def band(n, lo, hi):
    return sum(1 << (i * n + j) for i in range(n) for j in range(n) if i - lo <= j <= i + hi)


def diag(n):
    return band(n, 0, 0)


BIG = ((7, 9), (12, 2), (1, 15), (8, 8), (5, 11))


@obl("C02")
def c02(th):
    for r, c in BIG:
        for tr in (False, True):
            yield "c02::linear_read", (r, c, tr)
            for i, j in ((0, 0), (r - 1, c - 1), (r // 2, c // 3), (r - 1, 0), (r, 0), (0, c), (c, r), (r // 3, c - 1)):
                yield "c02::linear_write", (r, c, tr, i, j)
                yield "c02::linear_iwrite", (r, c, tr, i, j)
        yield "c02::linear_zeros", (r, c)
        yield "c02::linear_layout_eq", (r, c)
    for n in (7, 9, 12):
        for k in ("lower", "upper", "diag"):
            yield "c02::%s_read" % k, (n,)
            for i, j in ((n - 1, n - 1), (n - 1, 0), (0, n - 1), (n // 2, n // 2 - 1), (n // 2, n - 2), (n, 1), (2, n)):
                yield "c02::%s_write" % k, (n, i, j)
                yield "c02::%s_iwrite" % k, (n, i, j)
    for r, c in ((6, 7), (7, 6), (4, 11), (9, 5)):
        for b in bigpats(r, c, 4) + bigpats(r, c, 2, 2) + bigpats(r, c, 2, 9):
            yield from both([("c02::dict_read", (r, c, b)), ("c02::csr_read", (r, c, b))])
            for i, j in ((0, 0), (r - 1, c - 1), (r // 2, c // 2), (r - 1, 1)):
                for k in ("dict", "csr"):
                    yield "c02::%s_write" % k, (r, c, b, i, j)
                    yield "c02::%s_iwrite" % k, (r, c, b, i, j)
    for n in (6, 7):
        for b in bigpats(n, n, 4) + bigpats(n, n, 2, 12) + [band(n, 2, 2), band(n, 0, 3)]:
            yield from both([("c02::env_read", (n, b | diag(n))), ("c02::bienv_read", (n, b))])
            for i, j in ((n - 1, n - 2), (n - 1, 0), (2, 2), (0, n - 1), (4, 3)):
                for k, bb in (("env", b), ("bienv", b | diag(n))):
                    yield "c02::%s_write" % k, (n, bb, i, j)
                    yield "c02::%s_iwrite" % k, (n, bb, i, j)


@obl("C03")
def c03(th):
    for r, c in BIG[:3] + ((6, 6),):
        for tr in (False, True):
            yield "c03::plain_linear", (r, c, tr)
            yield "c03::transpose_linear", (r, c, tr)
            yield "c03::norm", (r, c, tr)
            for i, j in ((0, 0), (min(r, c) - 1, 0), (min(r, c) - 1, min(r, c) // 2)):
                yield "c03::edits_linear", (r, c, tr, i, j)
            for t2 in (False, True):
                yield "c03::sums", (r, c, tr, t2)
        if c <= 3:
            yield "c03::build", (r, c)
    yield "c03::build", (9, 3)
    for n in (6, 9):
        yield "c03::plain_triangles", (n,)
        yield "c03::eye", (n,)
        for a, b in ((0, n - 1), (n - 1, 0), (n - 2, 3), (2, 2), (n, 0)):
            yield "c03::rotation", (n, a, b)
        yield "c03::dots", (n + 3,)
        yield "c03::average", (n + 4,)
    for r, c in ((6, 7), (4, 9)):
        for b in bigpats(r, c, 3):
            yield from both([("c03::plain_sparse", (r, c, b)), ("c03::flat_forms", (r, c, b))])
    for n in (6, 7):
        for b in bigpats(n, n, 2) + [band(n, 2, 1)]:
            yield "c03::plain_env", (n, b)
            yield "c03::flat_env", (n, b)
            yield "c03::norm_forms", (n, b)
            yield "c03::mul_env", (n, b)
    for n, k, m in ((5, 6, 4), (2, 9, 3), (7, 1, 7), (4, 5, 8)):
        for t1, t2 in ((False, False), (True, False), (False, True), (True, True)):
            yield "c03::mul_linear", (n, k, m, t1, t2)
        for b in bigpats(n, k, 2):
            yield "c03::mul_csr", (n, k, m, b)


@obl("C04")
def c04(th):
    for r, c in ((6, 7), (9, 4), (5, 10)):
        for b in bigpats(r, c, 4) + bigpats(r, c, 2, 12):
            yield from both([("c04::to_dense", (r, c, b)), ("c04::to_csr", (r, c, b)), ("c04::transposed", (r, c, b))])
            for rev in (False, True):
                yield "c04::labeled", (r, c, b, rev)
    for n in (6, 7):
        for b in bigpats(n, n, 4) + bigpats(n, n, 2, 12) + [band(n, 2, 2), 1 << (n * n - n) | 1 << (n - 1)]:
            yield from both([("c04::to_bienv", (n, b)), ("c04::edges", (n, b)), ("c04::to_lower", (n, b | diag(n)))])
            for keep in (0x5a, 0x2f, 0x11):
                yield "c04::mask", (n, b, keep % (1 << n))
            for code in (5, 313, 77, 701, 1234):
                yield "c04::permuted", (n, b, code)
            for code in (313, 1234):
                yield "c04::chain", (n, b, code)
        for b1, b2 in zip(bigpats(n, n, 4), bigpats(n, n, 4, 3, 7)):
            yield "c04::add_scaled", (n, b1, b2)
    for n, k, m in ((5, 6, 4), (3, 9, 2)):
        for b1, b2 in zip(bigpats(n, k, 3, 3), bigpats(k, m, 3, 3, 5)):
            yield from both([("c04::mul", (n, k, m, b1, b2))])


@obl("C05")
def c05(th):
    for n in (6, 7):
        for b in bigpats(n, n, 3, 5) + [band(n, 1, 1), band(n, 2, 2)]:
            for k in ("forward", "backward", "env_solve", "env_transposed", "mul_vec"):
                yield "c05::" + k, (n, b)
            for z in (1, 1 << (n - 1), 0x2a, 0x15, 6 << (n - 4)):
                yield "c05::env_transposed_zero", (n, b, z % (1 << n))
            for s, e in ((0, n), (1, n), (2, n - 1), (3, n), (n - 1, n), (0, 4), (4, 6)):
                yield "c05::env_sub", (n, b, s, e)
            yield "c05::inv_low", (n, b)
            yield "c05::inv_upp", (n, b)
    for n in (8, 12):
        yield "c05::diag_solve", (n,)
        if n == 8:
            yield "c05::diag_facts", (n,)


@obl("C09")
def c09(th):
    for n in (7, 8, 9, 10):
        m = n * (n - 1) // 2
        rnd = random.Random(n)
        codes = [sum(1 << k for k in range(m) if rnd.randrange(d) == 0) for d in (2, 4, 7, 12)]
        codes.append(sum(1 << (i * (i - 1) // 2 + i - 1) for i in range(1, n)))       # a path
        codes.append(sum(1 << (i * (i - 1) // 2) for i in range(1, n)))               # a star
        codes.append(sum(1 << (i * (i - 1) // 2 + i - 2) for i in range(2, n)))       # two paths
        for k, b in enumerate(codes):
            yield "c09::adjacency", (n, b, k % 4)
            yield "c09::adjacency", (n, b, 4 + k % 2)
            yield "c09::reorder", (n, b, (k + 1) % 4)
            yield "c09::lists", (n, b)
            yield "c09::periph", (n, b)
            yield "c09::masked", (n, b, (0x5a3 * (k + 1)) % (1 << n))
            for root in (0, n - 1, n // 2):
                yield "c09::far", (n, b, root)
        for code in (17, 1234, 40321):
            yield "c09::perm", (n, code)


@obl("C10")
def c10(th):
    for n in (6, 7):
        for b in bigpats(n, n, 3, 5) + [band(n, 2, 2)]:
            yield "c10::first", (n, b)
        yield "c10::exact", (n,)
        for b in (0x1555, 0x2b0f):
            yield "c10::zero", (n, b)
            for mi in (0, 1):
                yield "c10::stop", (n, b, 1, 10, mi)


@obl("C11")
def c11(th):
    for n in (6, 8):
        for b in (0x1555, 0x2b0f, 0):
            for mb in (0, 0x1105):
                for num in (9, 14, 20, 33, 77):
                    yield "c11::count_fixed", (n, b, mb & b, num)
    for b in bigpats(6, 6, 2) + [band(6, 2, 2)]:
        yield "c11::quotient", (6, b)
        for cnt in (1, 3):
            yield "c11::deflate", (6, b, cnt)

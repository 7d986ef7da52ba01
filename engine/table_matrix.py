from table import obl, both, pos, shapes, pats
from itertools import product


@obl("C01")
def c01(th):
    for mode in range(4):
        for tr in (False, True):
            yield "c01::linear", (tr, mode)
            yield "c01::diagonal", (mode, tr)
        yield "c01::lower", (mode,)
        yield "c01::upper", (mode,)
        for n in range(4):
            yield "c01::diagonal_list", (n, mode)
        for r, c in ((1, 6), (2, 3), (3, 2), (6, 1), (2, 4), (6, 0), (0, 6), (2, 2)):
            for how in range(3):
                if r * c == 6:
                    yield "c01::constant", (r, c, how, mode)
        for r, c in ((1, 1), (1, 3), (2, 3), (3, 2), (2, 2)) + (((3, 3), (4, 2)) if th else ()):
            for how in range(18):
                yield "c01::linear_built", (how, r, c, mode)
        for r, c in ((1, 1), (2, 2), (2, 3), (3, 2), (0, 2), (2, 0)):
            yield "c01::csr_zeros", (r, c, mode)
            for b in list(pats(r * c, False))[:: 1 if th or r * c < 4 else 3]:
                yield "c01::csr", (r, c, b, mode)
                yield "c01::csr_flat", (r, c, b, mode)
                if mode in (0, 2):
                    for how in range(4):
                        yield "c01::dictionary", (r, c, b, how, mode)
        for at in (1, 100, 11100, 1001101, 11001, 120, 102, 12101, 1100011, 1111100):
            for r, c in ((1, 1), (2, 2), (3, 2)):
                yield "c01::csr_labeled", (r, c, at if len(str(at)) % 2 else at * 10, mode)
        for n in (1, 2, 3):
            for b in list(pats(n * n, False))[:: 1 if th else 3]:
                yield "c01::env", (n, b, mode)
                yield "c01::env_flat", (n, b, mode)
                yield "c01::env_half", (n, b, mode)
                yield "c01::bienv", (n, b, mode)
        for e in (1, 11, 10, 12, 111, 112, 101, 110, 113, 121, 131, 1123, 1111, 1012, 1102, 1120, 1122, 1113, 1133, 1213, 1321, 1114, 11234, 11111):
            yield "c01::env_any", (e, mode)
            if mode == 0:
                yield "c01::env_any_row", (e,)


@obl("C02")
def c02_dense(th):
    for r, c in shapes(3):
        for tr in (False, True):
            yield "c02::linear_read", (r, c, tr)
            for i, j in pos(r, c):
                yield "c02::linear_write", (r, c, tr, i, j)
                yield "c02::linear_iwrite", (r, c, tr, i, j)
                if i >= r or j >= c:
                    yield "c02::linear_oob", (r, c, tr, i, j)
        yield "c02::linear_zeros", (r, c)
        yield "c02::linear_layout_eq", (r, c)
        for n in range(0, r * c + 3):
            if n != r * c:
                yield "c02::linear_flat_bad", (r, c, n)
    for n in range(1, 5):
        yield "c02::linear_from_vec", (n,)


@obl("C02")
def c02_equality(th):
    for r, c in ((0, 0), (1, 1), (1, 3), (2, 2), (2, 3), (3, 1), (0, 2)):
        for k in range(4):
            yield "c02::equal_iff", (k, r, c)
    for k in (4, 5, 6):
        for n in range(1, 4):
            yield "c02::equal_iff", (k, n, n)
    yield "c02::equal_iff", (7, 2, 3)
    for r, c, b, i, j in ((2, 2, 15, 0, 1), (2, 2, 9, 1, 0), (2, 3, 0x2d, 1, 2), (3, 3, 0x153, 2, 1), (3, 3, 0x1ff, 2, 2), (1, 3, 0, 0, 2)):
        for k in range(3 if r == c else 2):
            yield from both([("c02::sparse_equal", (k, r, c, b, i, j))])
    for k in range(6):
        for n, m in product(range(0 if k == 0 else 1, 4), repeat=2):
            yield "c02::unequal_shapes", (k, n, m)


@obl("C02")
def c02_triangles(th):
    for n in range(1, 6 if th else 5):
        for k in ("lower", "upper", "diag"):
            yield "c02::%s_read" % k, (n,)
            if n > 3 and not th:
                continue
            for i, j in pos(n, n, 2):
                yield "c02::%s_write" % k, (n, i, j)
                yield "c02::%s_iwrite" % k, (n, i, j)
                if i >= n or j >= n:
                    yield "c02::%s_oob" % k, (n, i, j)
        yield "c02::triangle_eq", (n,)
        for i in range(n):
            yield "c02::diag_one", (n, i)


@obl("C02")
def c02_const(th):
    for r, c in ((1, 6), (2, 3), (3, 2), (6, 1)):
        yield "c02::const6_read", (r, c)
        for i, j in pos(r, c):
            yield "c02::const6_write", (r, c, i, j)
            yield "c02::const6_iwrite", (r, c, i, j)
            if i >= r or j >= c:
                yield "c02::const6_oob", (r, c, i, j)
    for r, c in ((2, 2), (2, 4), (1, 1), (3, 3)):
        for which in range(2):
            yield "c02::const6_bad", (r, c, which, r * c)
    for n in (0, 5, 7):
        yield "c02::const6_bad", (2, 3, 0, n)
    yield "c02::const6_eq", ()


@obl("C02")
def c02_sparse(th):
    for r, c in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3)):
        yield "c02::csr_zeros", (r, c)
        for b in pats(r * c, th):
            yield from both([("c02::dict_read", (r, c, b)), ("c02::csr_read", (r, c, b))])
        for b in pats(r * c, False)[:: 1 if th else 5]:
            for i, j in pos(r, c):
                for k in ("dict", "csr"):
                    yield "c02::%s_write" % k, (r, c, b, i, j)
                    yield "c02::%s_iwrite" % k, (r, c, b, i, j)
                    if i >= r or j >= c:
                        yield "c02::%s_oob" % k, (r, c, b, i, j)


@obl("C02")
def c02_envelopes(th):
    for n in (1, 2, 3):
        dg = sum(1 << (k * n + k) for k in range(n))
        for b in pats(n * n, th):
            yield from both([("c02::env_read", (n, b | dg)), ("c02::bienv_read", (n, b))])
        for b in list(pats(n * n, False))[:: 1 if th else 5]:
            for i, j in pos(n, n):
                if j <= i < n:
                    for k in range(n):
                        yield "c02::env_row_write", (n, b, i, k)
                for k, bb in (("env", b), ("bienv", b | dg)):
                    yield "c02::%s_write" % k, (n, bb, i, j)
                    yield "c02::%s_iwrite" % k, (n, bb, i, j)
                    if i >= n or j >= n:
                        yield "c02::%s_oob" % k, (n, bb, i, j)


@obl("C03")
def c03_views(th):
    for r, c in shapes(4 if th else 3):
        for tr in (False, True):
            yield "c03::views_linear", (r, c, tr)
            yield "c03::transpose_linear", (r, c, tr)
            yield "c03::norm", (r, c, tr)
            for i in range(c, c + 2):
                yield "c03::row_oob", (r, c, i, True)
            for i in range(r, r + 2):
                yield "c03::row_oob", (r, c, i, False)
    for r, c in ((0, 0), (0, 2), (2, 0), (0, 1), (1, 0)):
        for tr in (False, True):
            yield "c03::empty_dims", (r, c, tr)
    for n in range(1, 5):
        for k in ("lower", "upper", "diag"):
            yield "c03::views_" + k, (n,)
    yield "c03::views_const", ()
    for r, c in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3)):
        for b in pats(r * c, th):
            yield from both([("c03::views_dict", (r, c, b)), ("c03::views_csr", (r, c, b)), ("c03::flat_forms", (r, c, b))])
    for n in (1, 2, 3):
        for b in pats(n * n, th):
            yield "c03::views_env", (n, b)
            yield "c03::views_bienv", (n, b)
            yield "c03::flat_env", (n, b)
            yield "c03::norm_forms", (n, b)
            yield "c03::mul_env", (n, b)
            if n < 3 or th:
                yield from both([("c03::mul_forms", (n, b))])


@obl("C03")
def c03_edits(th):
    for r, c in shapes(3):
        for tr in (False, True):
            for i, j in pos(max(r, c), max(r, c), 0):
                yield "c03::edits_linear", (r, c, tr, i, j)
            for ln in range(0, 5):
                if ln != c:
                    yield "c03::edit_bad", (r, c, tr, 0, ln, 0)
                if ln != r:
                    yield "c03::edit_bad", (r, c, tr, 1, ln, 0)
            yield "c03::edit_bad", (r, c, tr, 0, c, r)
            yield "c03::edit_bad", (r, c, tr, 1, r, c)
            yield "c03::edit_bad", (r, c, tr, 2, 0, r)
            yield "c03::edit_bad", (r, c, tr, 3, 0, c)
    for i, j in pos(3, 3, 0):
        yield "c03::edits_const", (i, j)
    for b in pats(4, th):
        for i, j in pos(2, 2, 0):
            yield "c03::edits_dict", (2, 2, b, i, j)
    for b in pats(6, th)[::3]:
        yield "c03::edits_dict", (2, 3, b, 1, 0)


@obl("C03")
def c03_arith(th):
    for r, c in shapes(3):
        for t1 in (False, True):
            for t2 in (False, True):
                yield "c03::sums", (r, c, t1, t2)
        yield "c03::build", (r, c)
        for r2, c2 in shapes(3):
            if (r2, c2) != (r, c):
                for w in range(6):
                    yield "c03::sums_bad", (r, c, r2, c2, w)
    yield "c03::sums_const", ()
    for b1 in pats(4, th)[::2]:
        for b2 in pats(4, th)[::3]:
            yield "c03::sums_dict", (2, 2, b1, b2)
    for w in range(7):
        yield "c03::build_bad", (w,)
    for w, n in ((0, 0), (0, 5), (0, 7), (1, 0), (1, 5), (1, 7), (2, 3), (2, 5), (2, 0)):
        yield "c03::flat_bad", (w, n)
    for w, n in ((3, 4), (3, 9), (4, 1), (4, 3)) + tuple((5, k + 8 * e) for k in range(8) for e in (0, 2, 7, 12, 20)):
        yield "c03::flat_bad", (w, n)
    for n in range(1, 5):
        yield "c03::eye", (n,)
    for n in range(2, 5):
        for a in range(n + 1):
            for b in range(n + 1):
                yield "c03::rotation", (n, a, b)
    for n in range(1, 4):
        for k in range(1, 4):
            for m in range(1, 4):
                for t1, t2 in ((False, False), (True, False), (False, True), (True, True)):
                    if n * k * m <= 12 or th or not (t1 and t2):
                        yield "c03::mul_linear", (n, k, m, t1, t2)
                for b in pats(n * k, False)[::7]:
                    yield "c03::mul_csr", (n, k, m, b)
                for k2 in range(1, 4):
                    if k2 != k and m < 3:
                        yield "c03::mul_bad", (n, k, k2, m, 0)
                        yield "c03::mul_bad", (n, k, k2, m, 1)
    for n in range(0, 6):
        yield "c03::dots", (n,)
        yield "c03::average", (n,)
    yield "c03::average_many", (300,)


def fact(n):
    return n * fact(n - 1) if n else 1


def reaches(n, b):
    for i in range(n):
        row = [j for j in range(n) if b >> (i * n + j) & 1]
        if not row or not (row[0] <= i <= row[-1]):
            return False
    return True


@obl("C04")
def c04_forms(th):
    for r, c in ((1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4)):
        for b in pats(r * c, th):
            yield from both([("c04::to_dense", (r, c, b)), ("c04::to_csr", (r, c, b)), ("c04::transposed", (r, c, b))])
            for rev in (False, True):
                yield "c04::labeled", (r, c, b, rev)
    for n in (1, 2, 3) + ((4,) if th else ()):
        dg = sum(1 << (k * n + k) for k in range(n))
        for b in pats(n * n, th):
            yield from both([("c04::to_bienv", (n, b)), ("c04::edges", (n, b))])
        for b in range(1 << (n * n)) if n < 4 else pats(16, th):
            if not reaches(n, b):
                yield "c04::lower_refused", (n, b)
        for b in pats(n * n, th, count=60):
            yield from both([("c04::to_lower", (n, b | dg))])
            for keep in range(1 << n):
                if n < 3 or th or keep in (5, 3, 7, 0, 6):
                    yield "c04::mask", (n, b, keep)
            for code in range(fact(n)):
                yield "c04::permuted", (n, b, code)
        for b in list(pats(n * n, False))[::3]:
            for code in range(fact(n)):
                yield "c04::chain", (n, b, code)
    for n in (4, 5):
        full = (1 << (n * n)) - 1
        for b in (0, full, 0x2d5a16b & full, 0x1842a41 & full, 0x1b6d0f3 & full):
            yield from both([("c04::to_lower", (n, b)), ("c04::to_bienv", (n, b))])
            for code in ((0, 5, 11, 23) if n == 4 else (1, 37, 100, 119)):
                yield "c04::chain", (n, b, code)


@obl("C04")
def c04_ops(th):
    for a in range(0, 3):
        for b in range(0, 4):
            for c in range(0, 5):
                yield "c04::from_env", (a, b, c)
    for r, c, n in ((2, 2, 3), (2, 2, 1), (2, 2, 0), (2, 3, 2), (2, 3, 3), (3, 2, 3), (3, 2, 2)):
        yield "c04::mask_bad", (r, c, n)
    for n, k, m in ((1, 1, 1), (2, 2, 2), (2, 3, 2), (3, 2, 1), (1, 3, 2), (3, 3, 3)):
        for b1 in list(pats(n * k, False))[:: 1 if th else 3]:
            for b2 in list(pats(k * m, False))[:: 1 if th else 5]:
                yield from both([("c04::mul", (n, k, m, b1, b2))])
        for k2 in range(1, 5):
            if k2 != k:
                yield "c04::mul_bad", (n, k, k2, m)
    for n in (1, 2, 3):
        for b1 in list(pats(n * n, False))[:: 1 if th else 2]:
            for b2 in list(pats(n * n, False))[:: 1 if th else 3]:
                yield "c04::add_scaled", (n, b1, b2)


@obl("C05")
def c05(th):
    for n in range(1, 6 if th else 5):
        for b in pats(n * n, th and n < 4):
            for k in ("forward", "backward", "env_solve", "env_transposed", "mul_vec"):
                yield "c05::" + k, (n, b)
            if n < 4:
                yield "c05::inv_low", (n, b)
                yield "c05::inv_upp", (n, b)
            for z in range(1, 1 << n):
                if n < 3 or th or z in (1, 2, 5, 4, 6, 12, 8, 14, (1 << n) - 1):
                    yield "c05::env_transposed_zero", (n, b, z)
        for b in list(pats(n * n, False))[::3]:
            for s in range(n + 1):
                for e in range(s, n + 1):
                    yield "c05::env_sub", (n, b, s, e)
        for s in range(n + 2):
            for e in range(s, n + 3):
                if e > n and e > s:
                    yield "c05::env_sub_bad", (n, s, e)
        for k in range(0, 5):
            if k != n:
                for up in (False, True):
                    yield "c05::sub_bad", (n, k, up)
                yield "c05::diag_bad", (n, k)
            for l in range(0, 5):
                if k != n or l != n:
                    yield "c05::mul_vec_bad", (n, k, l)
                    for w in range(3):
                        yield "c05::env_bad", (n, k, l, w)
        yield "c05::diag_solve", (n,)
        yield "c05::diag_facts", (n,)


@obl("C06")
def c06(th):
    for n in (1, 2, 3):
        for tr in (False, True):
            for b in pats(n * n, th):
                if bin(b).count("1") <= (7 if th else 6):
                    yield "c06::elim", (n, tr, b)
                    yield "c06::dets", (n, tr, b)
                yield "c06::lu", (n, tr, b)
                if n < 3 and not tr:
                    yield from both([("c06::elim_sparse", (n, b))])
            yield "c06::inv", (n, tr)
        for col in range(n):
            for cp in range(n):
                if n < 3 or th or (col, cp) in ((0, 0), (1, 1), (1, 0), (2, 0)):
                    yield "c06::elim_singular", (n, col, cp)
            yield "c06::det_zero", (n, col)
        for neg in range(1 << n):
            for code in range(fact(n)):
                yield "c06::elim_order", (n, code, neg)
                if n == 3:
                    yield "c06::det_order", (code, neg)
        for r, c in shapes(3):
            if r != c or r != n:
                for k in (1, 2):
                    if r != c or n != r:
                        yield "c06::elim_bad", (r, c, n, k)
            elif r == c == n:
                yield "c06::elim_bad", (r, c, n, 2)
    for b in (0xffff, 0x7bde, 0xf5af, 0x8c63, 0x9f35):
        yield "c06::lu", (4, False, b)
        yield "c06::lu", (4, True, b)
    for r, c in shapes(3):
        if r != c:
            yield "c06::lu_bad", (r, c)
            yield "c06::det_bad", (r, c)
            yield "c06::inv_bad", (r, c)
    for n in (2, 3, 4):
        for code in range(fact(n)):
            yield "c06::det_perm", (n, code)
    for n in (4, 5, 6, 7, 8):
        for code in range(12 if th else 4):
            for tr in (False, True):
                yield "c06::elim_large", (n, code + n, tr)
                yield "c06::det_large", (n, code + n, tr)
            yield "c06::lu_large", (n, code)
            if n < 7:
                yield "c06::inv_large", (n, code)
    for n in (1, 2, 3, 4):
        for exp in (3, 5, 8, 12, 16, 20):
            for code in range(4 if th else 2):
                for up in (False, True):
                    yield "c06::units", (n, code + n, exp, up)
    yield "c06::elim_const", ()
    yield "c06::inv_forms", ()


def lowbits(n, few=False):
    """patterns that differ only in the strict lower triangle"""
    cells = [(i, j) for i in range(n) for j in range(i)]
    full = 1 << len(cells)
    codes = range(full) if full <= 64 and not few else sorted({0, full - 1, 0x2b % full, 0x15 % full, 0x16d % full, 0x2a5 % full, 0x3c1 % full, 0x111 % full, 0x5a2b % full, 0x1204 % full, 0x7e3f % full})
    for c in codes:
        yield sum(1 << (i * n + j) for k, (i, j) in enumerate(cells) if c >> k & 1)


@obl("C07")
def c07(th):
    for n in (1, 2, 3, 4) + ((5,) if th else ()):
        for b in lowbits(n):
            for k in ("chol", "ldl", "ll_solve", "ldl_solve"):
                if n < 4 or k in ("chol", "ldl") or th or (k == "ldl_solve" and b in list(lowbits(n))[::4]) or b in list(lowbits(n))[1::9]:
                    yield "c07::" + k, (n, b)
    for cells in ([(1, 0), (2, 1), (3, 2), (4, 3)], [(4, 0), (2, 1)], [(3, 1), (4, 2), (2, 0)], [(2, 0), (3, 0), (4, 2)]):
        yield "c07::ldl", (5, sum(1 << (i * 5 + j) for i, j in cells))
        yield "c07::chol", (5, sum(1 << (i * 5 + j) for i, j in cells))
    for n in (6, 7, 8, 9, 10) + ((12, 15) if th else ()):
        for c in (5, 137, 4021, 90210) if th or n in (7, 9) else (5 + n, 137 * n):
            for at in (n - 1, 4):
                yield "c07::chol_big", (n, c, at)
                yield "c07::ldl_big", (n, c, at - (at == 4))
    for n in range(1, 4):
        for k in range(0, 5):
            for l in range(0, 5):
                if k != n or l != n:
                    yield "c07::ll_bad", (n, k, l)
                    yield "c07::ldl_bad", (n, n, k, l)
        for d in range(1, 5):
            if d != n:
                yield "c07::ldl_bad", (n, d, n, n)


def systems(th):
    for n in (1, 2, 3, 4, 5, 6) + ((7,) if th else ()):
        full = 1 << (n * (n - 1) // 2)
        codes = range(full) if full <= 8 or (th and n < 5) else sorted({x % full for x in (0, full - 1, 0x2b, 0x15, 0x16d, 0x2a5, 0x5a2b, 0x1204, 0x08, 0x21, 0x412, 0x33, 0x110)})
        for b in codes:
            yield n, b


@obl("C08")
def c08(th):
    for k, (n, b) in enumerate(systems(th)):
        for which in range(3):
            for how in range(5):
                if n < 4 or th or (how + k + which) % 3 == 0:
                    yield from both([("c08::solve", (which, n, b, how))])
            if which != 1:
                yield from both([("c08::solve_reduced", (which, n, b, (k + which) % 5))])
                yield from both([("c08::solve_skew", (which, n, b, (k + which + 2) % 5, True))])
                yield "c08::solve_skew", (which, n, b, (k + which + 1) % 5, False)
        if n < 5:
            yield "c08::solve_whole", (0, n, b)
        yield from both([("c08::envelopes", (n, b))])
    for r, c, rr, rc in product(range(1, 4), range(1, 4), range(0, 4), range(0, 3)):
        if r != c or rr != r or rc != 1:
            yield "c08::shape_bad", (r, c, rr, rc)
    for r, c in shapes(3):
        if r != c:
            for mass in (False, True):
                yield "c08::km_bad", (r, c, mass)
    for w in range(3):
        for second in (False, True):
            for i, j in pos(2, 2, 2):
                if (w < 2 and (i > 1 or j > 1)) or (w == 2 and i > 1):
                    yield "c08::add_bad", (2, i, j, w, second)
    for w in range(6):
        yield "c08::missing", (w,)


@obl("C09")
def c09(th):
    for n in range(0, 6):
        yield "c09::any_graph", (n, 0, 0)
    for f, b in ((0x7fe0, 0x5280), (0x7f81, 0x1200), (0x3ff0, 0x0850), (0x5fb5, 0x4a21), (0x6ddb, 0x2009)):
        yield "c09::any_graph", (6, f, b)
    for n in range(0, 7 if th else 6):
        full = 1 << (n * (n - 1) // 2)
        codes = range(full) if full <= 64 else sorted({x % full for x in (0, full - 1, 0x2b, 0x15, 0x16d, 0x2a5, 0x5a2b, 0x1204, 0x08, 0x21, 0x412, 0x33, 0x110, 0x81, 0x224, 0x3c0)} | {(1 << k) - 1 for k in range(0, n * (n - 1) // 2, 3)})
        for b in codes:
            for style in range(6):
                if n < 4 or style == b % 4 or style == 4 + b % 2 or th:
                    yield "c09::adjacency", (n, b, style)
                    yield "c09::reorder", (n, b, style)
            yield "c09::lists", (n, b)
            if n:
                yield "c09::periph", (n, b)
            for keep in {0, (1 << n) - 1, 5 % (1 << n), 6 % (1 << n), 9 % (1 << n)}:
                yield "c09::masked", (n, b, keep)
            for root in range(n):
                if n < 5 or root in (0, 3) or th:
                    yield "c09::far", (n, b, root)
    for n in range(0, 5):
        for code in range(fact(n)):
            yield "c09::perm", (n, code)
    for a, b, c in product(range(5), repeat=3):
        if sorted((a, b, c)) != [0, 1, 2]:
            yield "c09::perm_bad", (a, b, c)
    for n in range(4):
        for k in range(5):
            if k != n:
                yield "c09::slice_bad", (n, k)
        for i, j in pos(n, n, 2):
            if i >= n or j >= n:
                yield "c09::edge_bad", (n, i, j)
        for v in range(n, n + 2):
            for w in range(4):
                yield "c09::node_bad", (n, v, w)


@obl("C10")
def c10(th):
    yield "c10::relaxation", ()
    for n in (1, 2, 3, 4):
        for b in pats(n * n, th and n < 4):
            yield "c10::first", (n, b)
        yield "c10::exact", (n,)
        for at in range(n):
            yield "c10::no_diag", (n, at)
        full = 1 << (n * (n - 1) // 2)
        for b in sorted({x % full for x in (0, full - 1, 0x2b, 0x15, 0x16d)}):
            yield "c10::zero", (n, b)
            for num, den in ((1, 1), (1, 2), (1, 10), (1, 1000)):
                for mi in range(0, 3 if not th else 5):
                    yield "c10::stop", (n, b, num, den, mi)
    for r, c, rr, rc in product(range(1, 4), range(1, 4), range(0, 4), range(0, 3)):
        if r != c or rr != r or rc != 1:
            yield "c10::bad", (r, c, rr, rc)
    for n, b in systems(th):
        yield from both([("c08::solve", (2, n, b, b % 5))])
        yield "c08::solve_reduced", (2, n, b, b % 5)


@obl("C11")
def c11(th):
    for n in range(1, 5):
        yield "c11::count_diag", (n,)
        full = 1 << (n * (n - 1) // 2)
        for b in sorted({x % full for x in (0, full - 1, 0x2b, 0x15, 0x16d, 0x08, 0x21, 0x12)}):
            for mb in sorted({0, full - 1, 0x2b % full}):
                for num in (0, 9, 14, 20, 33, 77, 140) if not th else range(0, 150, 5):
                    yield "c11::count_fixed", (n, b, mb, num)
                if n < 4:
                    yield "c11::iterate_once", (n, b, mb)
                if b == 0 and mb == 0:
                    for t in (1, 2, 3):
                        yield "c11::iterate_more", (n, b, mb, t)
                if n < 3:
                    for t in (1, 2):
                        yield "c11::iterate_times", (n, b, mb, t)
                    for t in (2, 3):
                        yield "c11::iterate", (n, b, mb, 1, t)
                        yield "c11::iterate", (n, b, mb, 9, t)
            if n < 4 and (b == 0 or th):
                yield "c11::iterate_proportional", (n, b)
    yield "c11::iterate", (3, 5, 1, 1, 2)
    for q in ((2, 0, 0, 0), (2, 0, 0, 20), (2, 2, 0, 3)):
        yield "c11::accepts", q
    yield "c11::mass_too_wide", ()
    codes = {1: (0, 7), 2: (0x12, 0x21, 0x9, 0x90, 0xf1), 3: (0x271, 0x321, 0x123, 0x5f1, 0x1f2), 4: (0x9271, 0x4321, 0x1c3a, 0x2468, 0xc0bd, 0xcd01), 5: (0xecd01, 0xfedcb, 0x1ba98)}
    for n in range(1, 6):
        for c in codes[n]:
            for w in range(0, n + 1):
                for tw in (False, True):
                    yield "c11::search", (n, c, w, tw)
        yield "c11::too_many", (n,)
        yield "c11::none", (n,)
    for n in (1, 2, 3):
        for b in pats(n * n, th):
            yield "c11::quotient", (n, b)
            for cnt in range(0, 3):
                yield "c11::deflate", (n, b, cnt)

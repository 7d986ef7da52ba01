"""Which obligations decide which property, and at which shapes."""
from itertools import product

PROOF = set()
ASSUME = [
    "floating-point numbers are read as real numbers (rounding, overflow and NaN propagation are outside the analysed semantics)",
    "standard-library containers, iterators and closures behave as their documented contracts (re-stated in /verif/model and engine/builtins_.py)",
    "shapes, sparsity patterns and positions are the constants listed per obligation; element values are arbitrary",
]
EXPLAIN = {
    "*": "Obligations are client functions of the crate's public interface, type-checked with the crate. One value-flow analysis computes, for every program point, "
         "a normal form of each value in terms of the arbitrary input values (states are joined where control flow joins; no path is enumerated, no solver is called), "
         "and each claim compares two normal forms under the condition of the point it is made at. A claim counts as violated only with a witness assignment of the abstract condition.",
}

T = {}


def obl(pid):
    def d(f):
        T.setdefault(pid, []).append(f)
        return f
    return d


def obligations(pid, tier):
    out = []
    for f in T.get(pid, []):
        out += [(n, tuple(a), o) for n, a, o in norm(f(tier == "thorough"))]
    return out


def norm(xs):
    for x in xs:
        yield (x[0], x[1], x[2] if len(x) > 2 else {})


def both(xs):
    """both iteration orders of hash containers"""
    for n, a, o in norm(xs):
        yield n, a, o
        yield n, a, dict(o, maporder=-1)


def pos(r, c, beyond=1):
    return product(range(r + beyond), range(c + beyond))


def shapes(m):
    return product(range(1, m + 1), repeat=2)


def pats(n, thorough, extra=(), count=24):
    """sparsity patterns as bit sets"""
    if n <= 4 or (thorough and n <= 9):
        return range(1 << n)
    full = (1 << n) - 1
    s = {0, full, full >> 1, full & ~1, 0x5555 & full, 0xaaaa & full, 0x16d & full, 0x93 & full, 0x11c & full}
    x = 12345 + n
    while len(s) < count:
        x = (x * 1103515245 + 12345) & 0x7fffffff
        s.add((x >> 8) & full)
    return sorted(s | set(extra))


import table_matrix  # noqa: E402,F401
import table_large  # noqa: E402,F401
import table_element  # noqa: E402,F401
import table_space  # noqa: E402,F401
import table_visual  # noqa: E402,F401
import table_mesh  # noqa: E402,F401
import table_file  # noqa: E402,F401

"""Value-flow evaluation of MIR: one pass over each control-flow graph in topological order, states
merged at every join (no path enumeration), calls inlined, library operations through /verif/model."""
import re
import json
from terms import *
from values import *

SIGNED = {"isize", "i8", "i16", "i32", "i64", "i128"}
STD_ENUMS = {"std::option::Option", "std::result::Result", "std::cmp::Ordering", "std::ops::ControlFlow",
             "std::collections::hash_map::Entry", "std::ops::Bound"}


def snap(x):
    """a literal of 14 or more digits that spells a small fraction stands for that fraction"""
    if x.denominator > 10 ** 13:
        y = x.limit_denominator(1000)
        if y and abs(x - y) <= abs(x) * Fraction(2, 10 ** 15):
            return y
    return x


def rounded(real, exact):
    """operation that rounds to double precision when both operands are constants"""
    def f(a, b):
        x, y = const_val(a), const_val(b)
        if x is None or y is None or abs(x) > 2 ** 900 or abs(y) > 2 ** 900:
            return real(a, b)
        try:
            return const(Fraction(float(exact(x, y))))
        except (OverflowError, ZeroDivisionError):
            return real(a, b)
    return f


ROUNDED = {"Add": rounded(add, lambda x, y: x + y), "Sub": rounded(sub, lambda x, y: x - y),
           "Mul": rounded(mul, lambda x, y: x * y), "Div": rounded(div, lambda x, y: x / y)}


class State:
    __slots__ = ("c", "pc")

    def __init__(self, c, pc):
        self.c, self.pc = c, pc

    def fork(self, pc=None):
        return State(dict(self.c), self.pc if pc is None else pc)


def merge_states(a, b):
    if a is None or a.pc is FALSE:
        return b
    if b is None or b.pc is FALSE:
        return a
    pc = or_(a.pc, b.pc)
    c = cofactor_restrict(a.pc, pc)
    out = {}
    ca, cb = a.c, b.c
    for k, v in ca.items():
        w = cb.get(k)
        if w is None:
            out[k] = v
        elif v is w:
            out[k] = v
        else:
            out[k] = merge(c, v, w)
    for k, v in cb.items():
        if k not in out:
            out[k] = v
    return State(out, pc)


class Frame:
    __slots__ = ("id", "body", "genv", "cfg", "depth", "promo")


class CFG:
    """reducible control-flow graph with loop nest, clean-up blocks removed"""

    def __init__(self, body):
        self.succ = {}
        bl = body["blocks"]
        def succs(t):
            k = t["k"]
            if k == "goto" or k == "drop" or k == "assert":
                return [t["t"]]
            if k == "switch":
                return [x[1] for x in t["ts"]] + ([t["else"]] if t["else"] is not None else [])
            if k == "call":
                return [t["t"]] if t["t"] is not None else []
            return []
        seen, order = set(), []
        stack = [(0, iter(succs(bl[0]["te"])))]
        seen.add(0)
        self.succ[0] = list(dict.fromkeys(succs(bl[0]["te"])))
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    self.succ[s] = list(dict.fromkeys(succs(bl[s]["te"])))
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        self.rpo = {n: i for i, n in enumerate(order)}
        self.order = order
        pred = {n: [] for n in order}
        for n in order:
            for s in self.succ[n]:
                pred[s].append(n)
        self.pred = pred
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for n in order[1:]:
                new = None
                for p in pred[n]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while self.rpo[a] > self.rpo[b]:
                                    a = idom[a]
                                while self.rpo[b] > self.rpo[a]:
                                    b = idom[b]
                            new = a
                if idom.get(n) != new:
                    idom[n] = new
                    changed = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.dom = dom
        self.loops = {}
        for n in order:
            for s in self.succ[n]:
                if self.rpo[s] <= self.rpo[n]:
                    if not dom(s, n):
                        raise Unsupported("irreducible control flow")
                    nodes = self.loops.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x not in nodes:
                            nodes.add(x)
                            st.extend(pred[x])


def subst_ty(t, g):
    k = t["k"]
    if k == "param":
        return g.get(t["n"], t)
    if k in ("adt", "closure"):
        return dict(t, args=[subst_ty(x, g) for x in t["args"]])
    if k in ("ref", "ptr", "slice", "array"):
        n = dict(t, e=subst_ty(t["e"], g))
        if k == "array" and isinstance(t.get("n"), str):
            v = g.get(t["n"])
            if v is not None:
                n["n"] = v.get("v")
        return n
    if k == "tuple":
        return dict(t, e=[subst_ty(x, g) for x in t["e"]])
    if k == "cst" and isinstance(t.get("v"), str) and t["v"] in g:
        return g[t["v"]]
    if k == "alias" and t.get("a"):
        return dict(t, a=dict(t["a"], args=[subst_ty(x, g) for x in t["a"]["args"]]))
    if k == "fndef":
        return t
    return t


def unify(p, t, env):
    """pattern p (params free) against t -> bool"""
    if p["k"] == "param":
        if p["n"] in env and env[p["n"]] != t:
            return env[p["n"]].get("k") in ("alias", "param") or t.get("k") in ("alias", "param")
        env[p["n"]] = t
        return True
    if t["k"] in ("alias", "param"):
        return True   # unknown: compatible
    if p["k"] == "alias":
        return True
    if p["k"] != t["k"]:
        return False
    k = p["k"]
    if k == "adt":
        return p["path"] == t["path"] and len(p["args"]) == len(t["args"]) and all(unify(a, b, env) for a, b in zip(p["args"], t["args"]))
    if k in ("ref", "ptr"):
        return unify(p["e"], t["e"], env)
    if k == "slice":
        return unify(p["e"], t["e"], env)
    if k == "array":
        if isinstance(p.get("n"), str):
            env[p["n"]] = {"k": "cst", "v": t.get("n")}
        elif p.get("n") != t.get("n") and isinstance(t.get("n"), int):
            return False
        return unify(p["e"], t["e"], env)
    if k == "tuple":
        return len(p["e"]) == len(t["e"]) and all(unify(a, b, env) for a, b in zip(p["e"], t["e"]))
    if k in ("int", "float"):
        return p["n"] == t["n"]
    if k == "cst":
        if isinstance(p.get("v"), str):
            env[p["v"]] = t
            return True
        return p.get("v") == t.get("v") or isinstance(t.get("v"), str)
    if k == "closure":
        return p["path"] == t["path"]
    return True


def usize():
    return {"k": "int", "n": "usize"}


class Panic:
    __slots__ = ("pc", "kind", "span", "fn")

    def __init__(self, pc, kind, span, fn):
        self.pc, self.kind, self.span, self.fn = pc, kind, span, fn

    def __repr__(self):
        return "panic[%s @%s in %s] when %r" % (self.kind, self.span, self.fn, self.pc)


class Machine:
    MAXITER = 200
    MAXDEPTH = 70

    def __init__(self, prog, model, ctx=None):
        self.prog, self.model = prog, model
        self.bodies = {}
        for p in (prog, model):
            for b in p["bodies"]:
                if b["path"] in self.bodies:
                    b2 = self.bodies[b["path"]]
                    self.bodies.setdefault(b["path"] + "#dup", b)
                    continue
                self.bodies[b["path"]] = b
        self.adts = {a["path"]: a for p in (prog, model) for a in p["adts"]}
        self.impls = {}
        for p in (prog, model):
            for im in p["impls"]:
                for n, path in im["items"]:
                    self.impls.setdefault((im["trait"], n), []).append((im, path))
        self.trait_impls = {}
        for p in (prog, model):
            for im in p["impls"]:
                self.trait_impls.setdefault(im["trait"], []).append(im)
        self.cfgs = {}
        self.fid = 0
        self.ctx = ctx or Ctx()
        self.panics = []
        self.used = {}          # analysed function path -> times
        self.maporder = 1
        self.contracts = {}     # function path -> body stating its contract
        self.ieee = False       # operations on constants round to double precision
        self.loop_hook = None
        self.cutoff = None
        self.depth = 0
        self.globals = {}
        self.rng = 0
        self.track = False     # claim that unchecked accesses stay inside
        self.saved = []        # images written out
        self.nloops = 0
        self.notes = []
        from builtins_ import BUILTINS, MODEL
        self.builtins, self.modelmap = BUILTINS, MODEL

    # ------------------------------------------------------------------ helpers
    def simp(self, c):
        return self.ctx.simp(c)

    def under(self, c, st):
        """condition c simplified under the state's path condition"""
        if c is TRUE or c is FALSE:
            return c
        c = cofactor_restrict(c, st.pc)
        return self.simp(c)

    def panic(self, st, cond, kind, span, fn):
        """cond: condition (within st.pc) under which the panic happens; st continues without it"""
        cond = self.under(cond, st)
        if cond is FALSE:
            return
        pc = self.simp(and_(st.pc, cond))
        if pc is FALSE:
            return
        self.panics.append(Panic(pc, kind, span, fn))
        st.pc = self.simp(and_(st.pc, not_(cond)))

    def require(self, st, cond, kind, span="", fn=""):
        self.panic(st, not_(cond), kind, span, fn)

    def is_enum(self, path):
        a = self.adts.get(path)
        if a is not None:
            return a["kind"] == "Enum"
        return path in STD_ENUMS

    # ------------------------------------------------------------------ locations
    def locs_of_ref(self, v):
        """ref value -> [(cond, cell, path)] or None when not a reference"""
        if isinstance(v, Leaf):
            if v.kind == "ref":
                return [(TRUE, v.v[0], v.v[1:])]
            return None
        if isinstance(v, Ite):
            out = {}
            ok = [True]
            def leaves(t, acc):
                if t in acc:
                    return
                acc.add(t)
                if isinstance(t, Ite):
                    leaves(t.hi, acc)
                    leaves(t.lo, acc)
            acc = set()
            leaves(v, acc)
            ls = [t for t in acc if not isinstance(t, Ite) and t is not BOT]
            if not ls or not all(isinstance(t, Leaf) and t.kind == "ref" for t in ls):
                return None
            ls.sort(key=lambda t: t.id)
            res = []
            for l in ls:
                c = ap(("isleaf", l.id), lambda x, l=l: B(x is l), v)
                res.append((c, l.v[0], l.v[1:]))
            return res
        return None

    def place(self, fr, p, st):
        locs = [(TRUE, (fr.id, p["l"]), ())]
        for e in p["p"]:
            k = e[0]
            if k == "deref":
                new = []
                for c, cell, path in locs:
                    v = self.read1(cell, path, st)
                    r = self.locs_of_ref(v) if not isinstance(v, Value) else None
                    if r is None and isinstance(v, VI):
                        r = self.vi_locs(v)
                    if r is None:
                        new.append((c, cell, path))      # Box / str: transparent
                    else:
                        for c2, cell2, path2 in r:
                            cc = and_(c, c2) if (c is not TRUE or c2 is not TRUE) else TRUE
                            if cc is not FALSE:
                                new.append((cc, cell2, path2))
                locs = new
            else:
                if k == "f":
                    el = ("f", e[1])
                elif k == "dc":
                    el = ("dc", e[1])
                elif k == "i":
                    el = ("i", st.c[(fr.id, e[1])])
                elif k == "ci":
                    if e[3]:
                        n = self.len_of(self.read(locs, st))
                        el = ("i", sub(n, const(e[1])))
                    else:
                        el = ("i", const(e[1]))
                elif k == "sub":
                    n = self.len_of(self.read(locs, st))
                    el = ("sl", const(e[1]), sub(sub(n, const(e[2])), const(e[1])) if e[3] else const(e[2] - e[1]))
                else:
                    raise Unsupported("projection %s" % e[0])
                locs = [(c, cell, path + (el,)) for c, cell, path in locs]
        return locs

    def vi_locs(self, v):
        if isinstance(v, VI):
            a, b = self.vi_locs(v.a), self.vi_locs(v.b)
            if a is None or b is None:
                return None
            return [(and_(v.c, c), x, y) for c, x, y in a] + [(and_(not_(v.c), c), x, y) for c, x, y in b]
        if isinstance(v, Node):
            return self.locs_of_ref(v)
        return None

    def read1(self, cell, path, st):
        v = st.c.get(cell)
        if v is None:
            v = self.globals.get(cell)
            if v is None:
                return BOT
        return self.project(v, path)

    def project(self, v, path):
        i, n = 0, len(path)
        while i < n:
            if v is BOT:
                return BOT
            if isinstance(v, VI):
                rest = path[i:]
                return merge(v.c, self.project(v.a, rest), self.project(v.b, rest))
            e = path[i]
            k = e[0]
            if k == "f":
                if isinstance(v, VS):
                    if e[1] >= len(v.f):
                        raise Unsupported("field %d of %r" % (e[1], v.tag))
                    v = v.f[e[1]]
                elif isinstance(v, VX):
                    raise Unsupported("field of abstract matrix")
                else:
                    raise Unsupported("field of %s" % type(v).__name__)
            elif k == "dc":
                if not isinstance(v, VE):
                    raise Unsupported("downcast of %r" % (v,))
                nx = path[i + 1] if i + 1 < n else None
                if nx is None or nx[0] != "f":
                    raise Unsupported("bare downcast")
                pl = v.pay.get(e[1])
                if pl is None:
                    return BOT
                v = pl[nx[1]]
                i += 1
            elif k == "i":
                v = self.elem(v, e[1])
            elif k == "sl":
                # slice view: fold following index
                if i + 1 < n and path[i + 1][0] == "i":
                    v = self.elem(v, add(e[1], path[i + 1][1]))
                    i += 1
                elif i + 1 < n and path[i + 1][0] == "sl":
                    e2 = path[i + 1]
                    path = path[:i] + (("sl", add(e[1], e2[1]), e2[2]),) + path[i + 2:]
                    n = len(path)
                    continue
                else:
                    v = self.slice_value(v, e[1], e[2])
            elif k == "mk":
                if e[1] not in v.e:
                    return BOT
                v = v.e[e[1]][2]
            elif k == "mkk":
                if e[1] not in v.e:
                    return BOT
                v = v.e[e[1]][0]
            else:
                raise Unsupported("path %s" % (e,))
            i += 1
        return v

    def slice_value(self, v, s, l):
        si, li = int_val(s), int_val(l)
        if isinstance(v, VL) and si is not None and li is not None:
            return VL(v.items[si:si + li])
        if isinstance(v, VL):
            n = len(v.items)
            return VL([self.elem(v, add(s, const(k))) for k in range(n)], l)
        if isinstance(v, VA):
            w = fresh("i", "i", True)
            return VA(l, w, v.at(add(s, mono(w))))
        raise Unsupported("slice of %s" % type(v).__name__)

    def elem(self, v, idx):
        if v is BOT or idx is BOT:
            return BOT
        if isinstance(v, VL):
            k = int_val(idx)
            if k is not None:
                if 0 <= k < len(v.items):
                    return v.items[k]
                return BOT
            r = BOT
            for j in range(len(v.items) - 1, -1, -1):
                c = self.simp(eq(idx, const(j)))
                if c is FALSE:
                    continue
                r = v.items[j] if r is BOT else merge(c, v.items[j], r)
            return r
        if isinstance(v, VA):
            return v.at(idx)
        if isinstance(v, VI):
            return merge(v.c, self.elem(v.a, idx), self.elem(v.b, idx))
        raise Unsupported("index of %s" % (type(v).__name__,))

    def read(self, locs, st):
        v = None
        for c, cell, path in reversed(locs):
            x = self.read1(cell, path, st)
            v = x if v is None else merge(c, x, v)
        if v is None:
            return BOT
        return v

    def write(self, locs, val, st):
        for c, cell, path in locs:
            old = st.c.get(cell)
            if not path:
                nv = val
                st.c[cell] = nv if (c is TRUE or old is None) else merge(c, nv, old)
            else:
                if old is None:
                    if cell in self.globals:
                        raise Unsupported("write to constant")
                    old = BOT
                st.c[cell] = self.update(old, path, val, c)

    def update(self, v, path, val, c):
        if not path:
            return val if c is TRUE else merge(c, val, v)
        e = path[0]
        k = e[0]
        rest = path[1:]
        if isinstance(v, VI):
            return VI(v.c, self.update(v.a, path, val, c), self.update(v.b, path, val, c))
        if k == "f":
            if isinstance(v, VS):
                f = list(v.f)
                if e[1] >= len(f):
                    raise Unsupported("field write")
                f[e[1]] = self.update(f[e[1]], rest, val, c)
                return VS(v.tag, f)
            if v is BOT:
                f = [BOT] * (e[1] + 1)
                f[e[1]] = self.update(BOT, rest, val, c)
                return VS("?", f)
            raise Unsupported("field write to %s" % type(v).__name__)
        if k == "dc":
            if not isinstance(v, VE):
                if v is BOT:
                    return BOT
                raise Unsupported("downcast write")
            fi = rest[0][1]
            pl = v.pay.get(e[1])
            if pl is None:
                return v
            pl = list(pl)
            pl[fi] = self.update(pl[fi], rest[1:], val, c)
            pay = dict(v.pay)
            pay[e[1]] = tuple(pl)
            return VE(v.tag, v.disc, pay)
        if k == "sl":
            if rest and rest[0][0] == "i":
                return self.update(v, (("i", add(e[1], rest[0][1])),) + rest[1:], val, c)
            if rest and rest[0][0] == "sl":
                e2 = rest[0]
                return self.update(v, (("sl", add(e[1], e2[1]), e2[2]),) + rest[1:], val, c)
            raise Unsupported("whole-slice write")
        if k == "i":
            idx = e[1]
            if v is BOT:
                return BOT
            if isinstance(v, VL):
                kx = int_val(idx)
                items = list(v.items)
                if kx is not None:
                    if 0 <= kx < len(items):
                        items[kx] = self.update(items[kx], rest, val, c)
                    return VL(items, v.len)
                for j in range(len(items)):
                    cj = and_(self.simp(eq(idx, const(j))), c)
                    if cj is FALSE:
                        continue
                    items[j] = self.update(items[j], rest, val, cj)
                return VL(items, v.len)
            if isinstance(v, VA):
                cj = and_(eq(mono(v.v), idx), c)
                return VA(v.len, v.v, self.update(v.body, rest, val, cj))
            raise Unsupported("index write to %s" % type(v).__name__)
        if k == "mk":
            if e[1] not in v.e:
                return v
            en = dict(v.e)
            kv, p, x = en[e[1]]
            en[e[1]] = (kv, p, self.update(x, rest, val, c))
            return VH(en, v.set, v.srt)
        raise Unsupported("write path %s" % (e,))

    def mkref(self, locs):
        r = None
        for c, cell, path in reversed(locs):
            l = self.refleaf(cell, path)
            r = l if r is None else ite(c, l, r)
        return BOT if r is None else r

    def refleaf(self, cell, path):
        """references with decision-diagram indices are lifted"""
        path = norm_path(path)
        for i, e in enumerate(path):
            for j, x in enumerate(e):
                if isinstance(x, Ite):
                    def f(t, i=i, j=j, e=e):
                        if t is BOT:
                            return BOT
                        return self.refleaf(cell, path[:i] + (e[:j] + (t,) + e[j + 1:],) + path[i + 1:])
                    return ap_leafy(f, x)
        return leaf("ref", (cell,) + path)

    def oob(self, st, r, idx, i):
        """claim: an unchecked access stays inside the storage"""
        if not self.track:
            return
        n = self.ref_len(r, st)
        ok = and_(ge(idx, ZERO), lt(idx, n))
        self.claims.append(self.Claim(st.pc, "unchecked access in %s stays inside the storage" % i.fn.replace("bugi::", ""), "holds", ok, TRUE, i.span, i.fn))

    def extend_ref(self, r, el):
        """ref value -> ref with one more path element"""
        def f(x):
            if x is BOT:
                return BOT
            if isinstance(x, Leaf) and x.kind == "ref":
                return self.refleaf(x.v[0], x.v[1:] + (el,))
            raise Unsupported("extend %r" % (x,))
        if isinstance(r, VI):
            return VI(r.c, self.extend_ref(r.a, el), self.extend_ref(r.b, el))
        if not isinstance(r, Ite):
            return f(r)
        return ap_leafy(f, r)

    def deref(self, v, st):
        """value behind a reference (or the value itself)"""
        n = 0
        if isinstance(v, VI):
            return merge(v.c, self.deref(v.a, st), self.deref(v.b, st))
        if isinstance(v, Value):
            return v
        l = self.locs_of_ref(v)
        if l is None:
            return v
        return self.read(l, st)

    def deref_all(self, v, st):
        while True:
            w = self.deref(v, st)
            if w is v:
                return v
            v = w

    def ref_to_value(self, v, st):
        """follow references until the next dereference yields a non-reference; returns that ref"""
        while True:
            if isinstance(v, Value):
                return v
            l = self.locs_of_ref(v)
            if l is None:
                return v
            w = self.read(l, st)
            if isinstance(w, Node) and self.locs_of_ref(w) is not None:
                v = w
                continue
            return v

    def temp(self, v, st):
        """store v in a fresh cell and return a reference to it"""
        self.fid += 1
        cell = ("t", self.fid)
        st.c[cell] = v
        return leaf("ref", (cell,))

    def len_of(self, v):
        if v is BOT:
            return BOT
        if isinstance(v, (VL, VA)):
            return v.len
        if isinstance(v, VI):
            return ite(v.c, self.len_of(v.a), self.len_of(v.b))
        if isinstance(v, VH):
            r = ZERO
            for k, (kv, p, x) in v.e.items():
                r = add(r, ite(p, ONE, ZERO))
            return r
        raise Unsupported("length of %s" % (type(v).__name__,))

    def ref_len(self, r, st):
        def f(x):
            if x is BOT:
                return BOT
            if isinstance(x, Leaf) and x.kind == "ref":
                if x.v[-1] and isinstance(x.v[-1], tuple) and x.v[-1][0] == "sl":
                    return x.v[-1][2]
                return self.len_of(self.deref(self.read1(x.v[0], x.v[1:], st), st))
            if isinstance(x, Leaf) and x.kind == "str":
                return const(len(x.v))
            raise Unsupported("len of %r" % (x,))
        if isinstance(r, VI):
            return ite(r.c, self.ref_len(r.a, st), self.ref_len(r.b, st))
        if isinstance(r, Value):
            return self.len_of(r)
        return ap_leafy(f, r)

    # ------------------------------------------------------------------ operands
    def operand(self, fr, o, st):
        p = o.get("cp") or o.get("mv")
        if p is not None:
            if not p["p"]:
                v = st.c.get((fr.id, p["l"]))
                return BOT if v is None else v
            return self.read(self.place(fr, p, st), st)
        return self.constant(fr, o["c"], st)

    def constant(self, fr, c, st):
        k = c["k"]
        if k == "val":
            return self.constval(c["v"], c["ty"])
        if k == "fn":
            f = c["f"]
            g = dict(f, args=[subst_ty(a, fr.genv) for a in f["args"]])
            if "rargs" in f:
                g["rargs"] = [subst_ty(a, fr.genv) for a in f["rargs"]]
            return fnval(g)
        if k == "const":
            if c.get("v") is not None:
                return self.constval(c["v"], c["ty"])
            key = ("const", c["path"], repr([subst_ty(a, fr.genv) for a in c["args"]]))
            if key not in self.globals:
                b = self.const_body(c, fr)
                genv = dict(zip(b["generics"], [subst_ty(a, fr.genv) for a in c["args"]]))
                s2 = State({}, TRUE)
                v, s2 = self.run(b, [], genv, s2)
                self.adopt(s2)
                self.globals[key] = v
            return self.globals[key]
        if k == "static":
            key = ("static", c["path"])
            if key not in self.globals:
                v, s2 = self.run(self.const_body(dict(c, args=[]), fr), [], {}, State({}, TRUE))
                r = self.temp(v, s2)
                self.adopt(s2)
                self.globals[key] = r
            return self.globals[key]
        if k == "promoted":
            key = ("promo", c["path"], c["i"], repr(sorted(fr.genv.items(), key=lambda x: x[0]))) 
            if key not in self.globals:
                b = self.bodies[c["path"]] if c["path"] in self.bodies else None
                if b is None:
                    raise Unsupported("promoted of " + c["path"])
                pb = b["promoted"][c["i"]]
                pb.setdefault("path", c["path"] + "#promoted%d" % c["i"])
                pb.setdefault("generics", b["generics"])
                s2 = State({}, TRUE)
                v, s2 = self.run(pb, [], fr.genv, s2, keep=True)
                self.adopt(s2)
                self.globals[key] = v
            return self.globals[key]
        if k == "tyc":
            v = c["v"]
            if isinstance(v, str) and v[:1] == '"':
                try:
                    return leaf("str", json.loads(v))
                except ValueError:
                    return leaf("str", "<%s>" % v)
            if isinstance(v, str):
                g = fr.genv.get(v)
                v = g.get("v") if g else v
            if isinstance(v, (int, str)) and not isinstance(v, bool):
                try:
                    return const(int(v))
                except ValueError:
                    # a length not known from the types: the array stored in the receiver
                    me = st.c.get((fr.id, 1))
                    me = self.deref_all(me, st) if me is not None else None
                    for x in (me.f if isinstance(me, VS) else ()):
                        if isinstance(x, VL):
                            return const(len(x.items))
                    raise Unsupported("const generic %s in %s" % (v, fr.body["path"]))
            return B(v)
        if k == "opaque":
            t = c["ty"]
            return leaf("str", c.get("dbg", "?"))
        raise Unsupported("constant " + k)

    def const_body(self, c, fr):
        if c["path"] in self.bodies:
            return self.bodies[c["path"]]
        # associated const of a trait: look through impls
        name = c["path"].split("::")[-1]
        for (tr, n), lst in self.impls.items():
            if n == name and tr is not None and c["path"] == tr + "::" + name:
                t0 = subst_ty(c["args"][0], fr.genv)
                for im, path in lst:
                    if unify(im["self"], t0, {}):
                        return self.bodies[path]
        raise Unsupported("constant " + c["path"])

    def adopt(self, s2):
        for k, v in s2.c.items():
            self.globals.setdefault(k, v)

    def constval(self, v, ty):
        k = ty["k"]
        if k == "bool":
            return B(v)
        if k in ("int", "char"):
            return const(int(v))
        if k == "float":
            if v in ("NaN", "inf", "-inf"):
                return mono(atom("app", ("f64:" + v,), "r"))
            return const(Fraction(float(v)) if self.ieee else snap(Fraction(v)))
        if v == "zst":
            if k == "tuple":
                return UNIT
            if k == "fndef":
                return fnval(ty["f"])
            if k == "closure":
                return VS(("closure", ty["path"], ()), ())
            if k == "adt":
                if self.is_enum(ty["path"]):
                    return VE(ty["path"], variant(0), {})
                return VS(ty["path"], ())
            if k == "array":
                return VL(())
            return UNIT
        if isinstance(v, str):
            return leaf("str", v)
        if isinstance(v, dict) and "bytes" in v:
            return leaf("str", "b" + repr(v["bytes"]))
        raise Unsupported("constant of type " + k)

    # ------------------------------------------------------------------ evaluation
    def cfg(self, body):
        c = self.cfgs.get(id(body))
        if c is None:
            c = self.cfgs[id(body)] = CFG(body)
        return c

    def run(self, body, args, genv, st, keep=False):
        """inline a body -> (return value, state)"""
        if self.depth > self.MAXDEPTH:
            raise Unsupported("recursion depth")
        self.depth += 1
        if self.contracts and body["path"] in self.contracts:
            by = self.contracts[body["path"]]
            genv = {n: genv[o] for n, o in zip(by["generics"], body["generics"]) if o in genv}
            body = by
        self.used[body["path"]] = self.used.get(body["path"], 0) + 1
        fr = Frame()
        self.fid += 1
        fr.id, fr.body, fr.genv, fr.cfg = self.fid, body, genv, self.cfg(body)
        for i, a in enumerate(args):
            st.c[(fr.id, i + 1)] = a
        try:
            back, exits = self.region(fr, 0, None, st)
        finally:
            self.depth -= 1
        out = exits.get("return")
        if out is None:
            st = State(dict(st.c), FALSE)
            return BOT, st
        rv = out.c.get((fr.id, 0), UNIT)
        if not keep:
            for l in range(len(body["locals"])):
                out.c.pop((fr.id, l), None)
        return rv, out

    def region(self, fr, entry, nodes, st):
        """evaluate the acyclic region (loops inside collapsed) -> (state on back edges to entry, exits)"""
        cfg = fr.cfg
        pend = {entry: st}
        exits = {}
        back = None
        order = [n for n in cfg.order if nodes is None or n in nodes]
        first = True
        for n in order:
            s = pend.pop(n, None)
            if s is None or s.pc is FALSE:
                continue
            if n in cfg.loops and not (n == entry and nodes is not None):
                outs = self.loop(fr, n, s)
            else:
                outs = self.block(fr, n, s)
            for t, s2 in outs:
                if s2.pc is FALSE:
                    continue
                if nodes is not None and t == entry:
                    back = merge_states(back, s2)
                elif t == "return" or (nodes is not None and t not in nodes):
                    exits[t] = merge_states(exits.get(t), s2)
                else:
                    pend[t] = merge_states(pend.get(t), s2)
        return back, exits

    def loop(self, fr, h, st):
        nodes = fr.cfg.loops[h]
        self.nloops += 1
        if self.loop_hook is not None:
            r = self.loop_hook(self, fr, h, nodes, st)
            if r is not None:
                return r
        exits = {}
        cur = st
        n = 0
        while True:
            back, ex = self.region(fr, h, nodes, cur)
            for t, s in ex.items():
                exits[t] = merge_states(exits.get(t), s)
            if back is None or back.pc is FALSE:
                break
            n += 1
            if self.cutoff is not None and n >= self.cutoff and back.pc is not st.pc and exits:
                break       # bounded: the obligation asked for the outcomes of the first rounds only
            if n > (self.MAXITER if back.pc is not st.pc else 5000):
                raise Unsupported("loop bound in %s" % fr.body["path"])
            cur = back
        return list(exits.items())

    def block(self, fr, n, st):
        b = fr.body["blocks"][n]
        for s in b["st"]:
            if s["k"] == "a":
                v = self.rvalue(fr, s["r"], st, s.get("s"), s["p"])
                if st.pc is FALSE:
                    return []
                p = s["p"]
                if not p["p"]:
                    st.c[(fr.id, p["l"])] = v
                else:
                    self.write(self.place(fr, p, st), v, st)
            elif s["k"] == "sd":
                locs = self.place(fr, s["p"], st)
                v = self.read(locs, st)
                if isinstance(v, VE):
                    self.write(locs, VE(v.tag, variant(s["v"]), v.pay), st)
                else:
                    raise Unsupported("set discriminant")
        t = b["te"]
        k = t["k"]
        if k in ("goto", "drop"):
            return [(t["t"], st)]
        if k == "return":
            return [("return", st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "assert":
            c = b2b(self.operand(fr, t["c"], st))
            if not t["e"]:
                c = not_(c)
            self.panic(st, not_(c), t["m"], t["s"], fr.body["path"])
            return [(t["t"], st)]
        if k == "switch":
            return self.switch(fr, t, st)
        if k == "call":
            v, st = self.call(fr, t, st)
            if t["t"] is None or st.pc is FALSE:
                return []
            p = t["d"]
            if not p["p"]:
                st.c[(fr.id, p["l"])] = v
            else:
                self.write(self.place(fr, p, st), v, st)
            return [(t["t"], st)]
        raise Unsupported("terminator " + k)

    def switch(self, fr, t, st):
        d = self.operand(fr, t["d"], st)
        if d is BOT:
            raise Unsupported("switch on undefined value in %s (%s)" % (fr.body["path"], t["s"]))
        isb = t["dt"]["k"] == "bool"
        conds = []
        rest = TRUE
        for val, tgt in t["ts"]:
            if isb:
                c = b2b(d)
                if val == 0:
                    c = not_(c)
            else:
                v = val
                if t["dt"]["k"] == "int" and t["dt"]["n"] in SIGNED:
                    bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}[t["dt"]["n"]]
                    if v >= 1 << (bits - 1):
                        v -= 1 << bits
                c = ap(("sweq", v), lambda x, v=v: BOT if x is BOT else eq(x, const(v)), d)
            conds.append((and_(rest, c), tgt))
            rest = and_(rest, not_(c))
        if t["else"] is not None:
            conds.append((rest, t["else"]))
        live = []
        for c, tgt in conds:
            c = self.under(c, st)
            if c is FALSE or c is BOT:
                continue
            live.append((c, tgt))
        out = []
        for i, (c, tgt) in enumerate(live):
            if fr.body["blocks"][tgt]["te"]["k"] == "unreachable" and not fr.body["blocks"][tgt]["st"]:
                continue
            if c is TRUE:
                pc = st.pc
            else:
                pc = self.simp(and_(st.pc, c))
                if pc is FALSE:
                    continue
            out.append((tgt, State(dict(st.c), pc)))
        return out

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, fr, r, st, span, dst):
        k = r["k"]
        if k == "use":
            return self.operand(fr, r["o"], st)
        if k == "ref":
            locs = self.place(fr, r["p"], st)
            # reborrow of a transparent value that is itself not addressable stays what it is
            p = r["p"]["p"]
            if p and p[-1][0] == "deref":
                v = None
                if len(locs) == 1 and locs[0][1] == (fr.id, r["p"]["l"]) and len(p) == 1:
                    v = st.c.get((fr.id, r["p"]["l"]))
                    if isinstance(v, Leaf) and v.kind in ("str", "text"):
                        return v
            return self.mkref(locs)
        if k == "bin":
            return self.binop(fr, r["op"], self.operand(fr, r["a"], st), self.operand(fr, r["b"], st), r["t"], st, span)
        if k == "un":
            a = self.operand(fr, r["a"], st)
            if r["op"] == "Not":
                if r["t"]["k"] == "bool":
                    return not_(b2b(a))
                raise Unsupported("bitwise not")
            if r["op"] == "Neg":
                return neg(a)
            if r["op"] == "PtrMetadata":
                return self.ref_len(a, st)
            raise Unsupported("unary " + r["op"])
        if k == "cast":
            return self.cast(fr, r, st)
        if k == "disc":
            v = self.read(self.place(fr, r["p"], st), st)
            return self.disc(v)
        if k == "agg":
            ops = [self.operand(fr, o, st) for o in r["ops"]]
            ak = r["ak"]
            if ak == "tuple":
                return VS("()", ops) if ops else UNIT
            if ak == "array":
                return VL(ops)
            if ak == "adt":
                if self.is_enum(r["path"]):
                    return VE(r["path"], variant(r["v"]), {r["v"]: tuple(ops)})
                return VS(r["path"], ops)
            if ak == "closure":
                env = tuple(sorted(((k2, v2) for k2, v2 in fr.genv.items()), key=lambda x: x[0]))
                return VS(("closure", r["path"], HashEnv(env)), ops)
            raise Unsupported("aggregate")
        if k == "repeat":
            v = self.operand(fr, r["o"], st)
            n = r["n"]
            if isinstance(n, str):
                g = fr.genv.get(n)
                n = g.get("v") if g else None
            if n is None:
                raise Unsupported("repeat length")
            return VL([v] * int(n))
        raise Unsupported("rvalue " + k)

    def disc(self, v):
        if v is BOT:
            return BOT
        if isinstance(v, VI):
            return ite(v.c, self.disc(v.a), self.disc(v.b))
        if not isinstance(v, VE):
            raise Unsupported("discriminant of %r" % (type(v).__name__,))
        if v.tag == ORDERING:
            mp = {0: -1, 1: 0, 2: 1}
        else:
            a = self.adts.get(v.tag)
            mp = {i: x["disc"] for i, x in enumerate(a["variants"])} if a else None
        def f(x):
            if x is BOT:
                return BOT
            if not (isinstance(x, Leaf) and x.kind == "variant"):
                raise Unsupported("discriminant leaf")
            return const(x.v if mp is None else mp[x.v])
        return ap(("disc", v.tag), f, v.disc)

    def binop(self, fr, op, a, b, t, st, span):
        if a is BOT or b is BOT:
            return BOT
        fl = t["k"] == "float"
        sort = "r" if fl else "i"
        if fl and self.ieee and op in ROUNDED:
            return ap(("ieee", op), ROUNDED[op], a, b)
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            r = sub(a, b)
            if not fl and t.get("n") not in SIGNED and t["k"] == "int":
                self.panic(st, not_(ge(a, b)), "underflow", span, fr.body["path"])
                r = cofactor_restrict(r, st.pc)
            return r
        if op == "Mul":
            return mul(a, b)
        if op == "MulWithOverflow":
            return VS("()", (mul(a, b), FALSE))
        if op == "AddWithOverflow":
            return VS("()", (add(a, b), FALSE))
        if op == "SubWithOverflow":
            return VS("()", (sub(a, b), not_(ge(a, b)) if t.get("n") not in SIGNED else FALSE))
        if op == "Div":
            if fl:
                return div(a, b)
            if t["n"] in SIGNED:
                return intdiv_trunc(a, b)
            return floordiv(a, b)
        if op == "Rem":
            if fl:
                return app("fmod", (a, b), "r")
            if t["n"] in SIGNED:
                return sub(a, mul(b, intdiv_trunc(a, b)))
            return mod(a, b)
        if op in ("Eq", "Ne"):
            if t["k"] == "bool":
                c = ite(b2b(a), b2b(b), not_(b2b(b)))
            elif t["k"] in ("int", "float", "char"):
                c = cmp("eq", a, b, sort)
            else:
                c = cmp("eq", a, b, "o")
            return c if op == "Eq" else not_(c)
        if op == "Lt":
            return rgt(b, a) if fl else lt(a, b)
        if op == "Le":
            return rge(b, a) if fl else le(a, b)
        if op == "Gt":
            return rgt(a, b) if fl else gt(a, b)
        if op == "Ge":
            return rge(a, b) if fl else ge(a, b)
        if op == "Cmp":
            return ordering_of(a, b, sort)
        if t["k"] == "bool" and op in ("BitAnd", "BitOr", "BitXor"):
            a, b = b2b(a), b2b(b)
            return and_(a, b) if op == "BitAnd" else or_(a, b) if op == "BitOr" else ite(a, not_(b), b)
        if op == "BitAnd":
            k = int_val(b)
            if k is not None and (k + 1) & k == 0:
                return mod(a, const(k + 1))
            ka = int_val(a)
            if ka is not None and (ka + 1) & ka == 0:
                return mod(b, const(ka + 1))
        if op in ("Shl", "ShlUnchecked"):
            k = int_val(b)
            if k is not None:
                return mul(a, const(2 ** k))
        if op in ("Shr", "ShrUnchecked"):
            k = int_val(b)
            if k is not None:
                return floordiv(a, const(2 ** k))
        if op in ("BitAnd", "BitOr", "BitXor"):
            ka, kb = int_val(a), int_val(b)
            if ka is not None and kb is not None:
                return const({"BitAnd": ka & kb, "BitOr": ka | kb, "BitXor": ka ^ kb}[op])
            return app(op, (a, b), "i")
        raise Unsupported("operator " + op)

    def cast(self, fr, r, st):
        ck = r["ck"]
        if ck == "BoxDerefTransmute":
            p = r["o"].get("cp") or r["o"].get("mv")
            base = dict(p, p=p["p"][:-1])
            v = self.read(self.place(fr, base, st), st)
            if isinstance(v, VS) and v.tag == "UBox":
                return self.mkref(self.place(fr, p, st))
            return self.mkref(self.place(fr, base, st))
        v = self.operand(fr, r["o"], st)
        if v is BOT:
            return BOT
        if ck.startswith("PointerCoercion") or ck.startswith("PtrToPtr") or ck == "Transmute":
            return v
        if ck in ("IntToFloat", "FloatToFloat"):
            return app("f32", (v,), "r") if r["t"].get("n") == "f32" else v
        if ck == "FloatToInt":
            return f2i(v, r["t"]["n"])
        if ck == "IntToInt":
            if r["from"]["k"] == "bool":
                return ite(b2b(v), ONE, ZERO)
            tn = r["t"].get("n")
            bits = {"usize": 64, "u64": 64, "u32": 32, "u16": 16, "u8": 8, "isize": 64, "i64": 64, "i32": 32, "i16": 16, "i8": 8}.get(tn, 128)
            def f(x):
                k = int_val(x)
                if k is None:
                    return app("wrap:" + tn, (x,), "i") if bits < 32 and r["from"].get("n") in ("usize", "u64", "u32", "isize", "i64", "i32", "u16", "i16") and r["from"]["n"] != tn else x
                k %= 1 << bits
                if tn in SIGNED and k >= 1 << (bits - 1):
                    k -= 1 << bits
                return const(k)
            if r["from"]["k"] == "adt":
                v = self.disc(v) if isinstance(v, VE) else v
            return ap(("i2i", tn), f, v)
        raise Unsupported("cast " + ck)

    # ------------------------------------------------------------------ calls
    def call(self, fr, t, st):
        fo = t["f"]
        args = [self.operand(fr, a, st) for a in t["a"]]
        span = t["s"]
        if "c" in fo and fo["c"]["k"] == "fn":
            f = fo["c"]["f"]
            f2 = dict(f, args=[subst_ty(a, fr.genv) for a in f["args"]])
            if "rargs" in f:
                f2["rargs"] = [subst_ty(a, fr.genv) for a in f["rargs"]]
            return self.invoke(f2, args, st, span, fr.body["path"], subst_ty(t["dt"], fr.genv), [subst_ty(a, fr.genv) for a in t["at"]])
        fv = self.operand(fr, fo, st)
        return self.call_value(fv, args, st, span, fr.body["path"])

    def call_value(self, fv, args, st, span="", fn=""):
        """call a function-like value with positional args"""
        ref = fv
        v = self.deref_all(fv, st)
        if isinstance(v, VI):
            s1 = st.fork(and_(st.pc, v.c))
            s2 = st.fork(and_(st.pc, not_(v.c)))
            a, s1 = self.call_value(v.a, args, s1, span, fn) if s1.pc is not FALSE else (BOT, s1)
            b, s2 = self.call_value(v.b, args, s2, span, fn) if s2.pc is not FALSE else (BOT, s2)
            if s1.pc is FALSE:
                return b, s2
            if s2.pc is FALSE:
                return a, s1
            return merge(v.c, a, b), merge_states(s1, s2)
        if isinstance(v, VS) and isinstance(v.tag, tuple) and v.tag[0] == "closure":
            body = self.bodies.get(v.tag[1])
            if body is None:
                raise Unsupported("closure " + v.tag[1])
            genv = dict(v.tag[2].env) if isinstance(v.tag[2], HashEnv) else {}
            byref = body["locals"][1]["t"]["k"] in ("ref", "ptr")
            isref = not isinstance(ref, Value) and self.locs_of_ref(ref) is not None
            if byref:
                while isref:
                    inner = self.deref(ref, st)
                    if isinstance(inner, Value):
                        break
                    ref = inner
                env = ref if isref else self.temp(ref, st)
            else:
                env = v
            return self.run(body, [env] + list(args), genv, st)
        if isinstance(v, Leaf) and v.kind == "fn":
            return self.invoke(FNS[v.v], list(args), st, span, fn, None, None)
        if isinstance(v, VS) and v.tag == "pyfn":
            return v.f[0](self, st, args)
        raise Unsupported("call of %r" % (v,))

    def invoke(self, f, args, st, span="", fn="", dt=None, at=None):
        path = f["path"]
        # user-supplied override
        h = self.builtins.get(path)
        if h is not None:
            r = h(self, st, args, Info(f, span, fn, dt, at))
            if r is not NotImplemented:
                return r if isinstance(r, tuple) else (r, st)
        # resolved local or model body
        rp = f.get("rpath")
        if rp is not None and rp in self.bodies:
            b = self.bodies[rp]
            return self.run(b, self.adapt(b, args, f), dict(zip(b["generics"], f.get("rargs", []))), st)
        tr = f.get("trait")
        if tr is None:
            b = self.bodies.get(path)
            if b is not None:
                return self.run(b, self.adapt(b, args, f), dict(zip(b["generics"], f["args"])), st)
        else:
            r = self.trait_call(f, args, st, span, fn, dt, at)
            if r is not None:
                return r
        m = self.modelmap.get(path)
        if m is not None:
            b = self.bodies["model::" + m]
            return self.run(b, args, {}, st)
        raise Unsupported("call %s" % path)

    def adapt(self, b, args, f):
        return args

    def tag_of(self, v, st):
        """type path of the value behind references, for dispatch"""
        v = self.deref_all(v, st)
        if isinstance(v, VI):
            return self.tag_of(v.a, st)
        if isinstance(v, VS):
            return v.tag
        if isinstance(v, VE):
            return v.tag
        if isinstance(v, (VL, VA)):
            return "[]"
        if isinstance(v, VH):
            return "{}"
        return None

    def trait_call(self, f, args, st, span, fn, dt, at):
        tr, name = f["trait"], f["name"]
        t0 = f["args"][0] if f["args"] else None
        cands = self.impls.get((tr, name), [])
        base = t0
        while base is not None and base["k"] in ("ref",) and not any(im["self"]["k"] == "ref" for im, _ in cands):
            base = base["e"]
        pick = None
        # by runtime value
        tag = self.tag_of(args[0], st) if args else None
        if isinstance(tag, str) and self.first_is_self(f):
            hits = []
            for im, path in cands:
                s = im["self"]
                while s["k"] == "ref":
                    s = s["e"]
                if s["k"] == "adt" and s["path"] == tag:
                    hits.append((im, path))
            pick = self.choose(hits, f, st, args, at)
            if pick is None and not hits:
                d = self.default_method(tr, name, tag)
                if d is not None:
                    b, im = d
                    return self.run(b, args, self.default_env(b, f, im, base), st)
        if pick is None and t0 is not None and t0["k"] not in ("alias", "param"):
            hits = [(im, path) for im, path in cands if unify(im["self"], t0, {})]
            if not hits and base is not t0:
                hits = [(im, path) for im, path in cands if unify(im["self"], base, {})]
            pick = self.choose(hits, f, st, args, at)
            if pick is None and not hits and t0["k"] == "adt":
                d = self.default_method(tr, name, t0["path"])
                if d is not None:
                    b, im = d
                    return self.run(b, args, self.default_env(b, f, im, t0), st)
        if pick is not None:
            im, path = pick
            b = self.bodies.get(path)
            if b is None:
                raise Unsupported("no body for " + path)
            if im.get("derived") and name == "clone":
                return self.deref_all(args[0], st), st
            env = {}
            tt = t0 if (t0 is not None and t0["k"] not in ("param", "alias")) else None
            if tt is not None:
                if not unify(im["self"], tt, env) and base is not None:
                    env = {}
                    unify(im["self"], base, env)
            for p, q in zip((im.get("targs") or [])[1:], f["args"][1:]):
                unify(p, q, env)
            own = len(b["generics"]) - len(im["generics"])
            if own > 0:
                for n, a in zip(b["generics"][-own:], f["args"][-own:]):
                    env[n] = a
            return self.run(b, args, {k: v for k, v in env.items() if v["k"] not in ("param", "alias")}, st)
        return None

    def first_is_self(self, f):
        return f["name"] not in ("from", "from_iter", "default", "zeros", "from_flat", "from_residual", "from_output", "sum", "product", "eye", "rotation", "from_rows", "from_points_row", "row_vec", "col_vec", "from_str")or f["trait"] in ("std::iter::Iterator",)

    def choose(self, hits, f, st, args, at):
        if not hits:
            return None
        if len(hits) == 1:
            return hits[0]
        # several impls of one trait for one type: pick by trait arguments, then by exact self type
        best = []
        for im, path in hits:
            env = {}
            if all(unify(p, q, env) for p, q in zip(im.get("targs") or [], f["args"])):
                best.append((im, path))
        if len(best) == 1:
            return best[0]
        pool = best or hits
        strict = [(im, path) for im, path in pool if not any(x["k"] == "param" for x in (im.get("targs") or []))]
        if len(strict) == 1:
            return strict[0]
        if len(args) > 1:
            # discriminate by the tag of the second argument
            tag = self.tag_of(args[1], st)
            h2 = []
            for im, path in pool:
                ta = im.get("targs") or []
                if len(ta) > 1:
                    x = ta[1]
                    while x["k"] == "ref":
                        x = x["e"]
                    if x["k"] == "adt" and x["path"] == tag:
                        h2.append((im, path))
                    elif x["k"] in ("float", "int") and tag is None:
                        h2.append((im, path))
                    elif x["k"] == "tuple" and tag == "()":
                        h2.append((im, path))
            if len(h2) >= 1:
                return h2[0]
        return pool[0]

    def default_method(self, tr, name, tag):
        b = self.bodies.get(tr + "::" + name)
        if b is None:
            return None
        for im in self.trait_impls.get(tr, []):
            s = im["self"]
            if s["k"] == "adt" and s["path"] == tag:
                return b, im
        return None

    def default_env(self, b, f, im, t0):
        env = dict(zip(b["generics"], f["args"]))
        s = env.get("Self")
        if s is None or s["k"] in ("param", "alias", "ref"):
            env["Self"] = t0 if t0 is not None and t0["k"] == "adt" else im["self"]
        if env["Self"]["k"] in ("param", "alias"):
            env["Self"] = im["self"]
        return {k: v for k, v in env.items() if v["k"] not in ("param", "alias")}


class Info:
    __slots__ = ("f", "span", "fn", "dt", "at")

    def __init__(self, f, span, fn, dt, at):
        self.f, self.span, self.fn, self.dt, self.at = f, span, fn, dt, at


class HashEnv:
    """generic environment carried by a closure value; compares by content"""
    __slots__ = ("env", "key")

    def __init__(self, env):
        self.env = env
        self.key = repr(env)

    def __eq__(self, o):
        return isinstance(o, HashEnv) and self.key == o.key

    def __hash__(self):
        return hash(self.key)


FNS = []
_fnkey = {}


def fnval(f):
    k = repr(f)
    i = _fnkey.get(k)
    if i is None:
        i = _fnkey[k] = len(FNS)
        FNS.append(f)
    return leaf("fn", i)


def ap_leafy(f, t):
    """lift f over a diagram without memo key (f is a closure)"""
    memo = {}
    def go(x):
        if isinstance(x, Ite):
            r = memo.get(x.id)
            if r is None:
                h, l = go(x.hi), go(x.lo)
                r = memo[x.id] = h if l is BOT else l if h is BOT else ite(mk(x.c, TRUE, FALSE), h, l)
            return r
        return f(x)
    return go(t)


def norm_path(path):
    out = []
    for e in path:
        if out and out[-1][0] == "sl" and e[0] == "i":
            out[-1] = ("i", add(out[-1][1], e[1]))
        elif out and out[-1][0] == "sl" and e[0] == "sl":
            out[-1] = ("sl", add(out[-1][1], e[1]), e[2])
        else:
            out.append(e)
    return tuple(out)


def intdiv_trunc(a, b):
    def f(x, y):
        i, j = int_val(x), int_val(y)
        if i is not None and j:
            q = abs(i) // abs(j)
            return const(q if (i < 0) == (j < 0) else -q)
        return mono(atom("app", ("tdiv", x, y), "i"))
    return ap("tdiv", f, a, b)


RANGES = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2 ** 32 - 1), "usize": (0, 2 ** 64 - 1), "u64": (0, 2 ** 64 - 1),
          "i32": (-2 ** 31, 2 ** 31 - 1), "isize": (-2 ** 63, 2 ** 63 - 1), "i64": (-2 ** 63, 2 ** 63 - 1)}


def f2i(v, n):
    lo, hi = RANGES.get(n, (-2 ** 127, 2 ** 127))
    def f(x):
        c = const_val(x)
        if c is not None:
            k = int(c)     # truncation toward zero
            return const(max(lo, min(hi, k)))
        if isinstance(x, Poly) and psort(x) == "i" and all(c.denominator == 1 for _, c in x.t):
            return x
        return app("trunc:" + ("s" if n in SIGNED else n), (x,), "i")
    return ap(("f2i", n), f, v)


def ordering_of(a, b, sort):
    """std::cmp::Ordering value of two scalars"""
    if sort == "r":
        e = req(a, b)
        l = rgt(b, a)
    else:
        e = cmp("eq", a, b, sort)
        l = not_(cmp("ge", a, b, sort)) if sort == "i" else None
        if l is None:
            raise Unsupported("ordering of opaque values")
    return VE(ORDERING, ite(e, variant(1), ite(l, variant(0), variant(2))), {})

"""Classical rules over the extracted program: property id -> list of functions (prog, info) -> (violations, coverage)."""
import json
import re

RULES = {}
UNSAFE = re.compile(r"unchecked|ptr::(read|write|copy|offset|add|sub|swap|replace)|from_raw|transmute|set_len|as_mut_ptr|as_ptr")


def bodies(prog):
    b = prog["bodies"]
    return b if isinstance(b, list) else list(b.values())


def callee(t):
    c = t["f"].get("c") if isinstance(t.get("f"), dict) else None
    f = c.get("f") if isinstance(c, dict) else None
    return f.get("path") if isinstance(f, dict) else None


def unchecked_sites(prog, info):
    """inventory: every call of an operation without bounds check, and whether an obligation's analysis went through its function"""
    used = info.get("used", {})
    seen, missed = [], []
    for b in bodies(prog):
        if "verif_spec" in b["path"] or not b["path"].startswith(("bugi::", "<")):
            continue
        for blk in b["blocks"]:
            t = blk["te"]
            p = callee(t) if t["k"] == "call" else None
            if p and UNSAFE.search(p) and p.startswith(("std::", "core::", "alloc::")) and not p.endswith("_unsafe"):
                s = "%s calls %s at %s" % (b["path"].replace("bugi::", ""), p.split("::")[-1], t.get("s"))
                (seen if b["path"] in used else missed).append(s)
    return [], {"rule": "inventory of unchecked operations: each must be reached by an obligation, which claims that the index is inside the storage",
                "sites": sorted(seen), "call_sites": len(seen) + len(missed), "outside_the_obligations": sorted(missed)}


RULES["C01"] = [unchecked_sites]


# ---------------------------------------------------------------- C26: the command line
def _succ(te):
    k = te["k"]
    if k == "switch":
        return [t for _, t in te["ts"]] + [te["else"]]
    return [te["t"]] if te.get("t") is not None else []


def _acyclic_reach(b):
    """blocks reachable from each block without taking a back edge of the depth-first tree"""
    succ = [_succ(x["te"]) for x in b["blocks"]]
    state, back, st = {}, set(), [(0, iter(succ[0]))]
    state[0] = 1
    while st:
        n, it = st[-1]
        for m in it:
            if m not in state:
                state[m] = 1
                st.append((m, iter(succ[m])))
                break
            if state[m] == 1:
                back.add((n, m))
        else:
            state[n] = 2
            st.pop()
    memo = {}
    def reach(n):
        if n not in memo:
            memo[n] = {n}
            s, w = {n}, [n]
            while w:
                x = w.pop()
                for m in succ[x]:
                    if (x, m) not in back and m not in s:
                        s.add(m)
                        w.append(m)
            memo[n] = s
        return memo[n]
    return reach


def _operand_local(o):
    for k in ("mv", "cp"):
        if k in o:
            return o[k]["l"], o[k]["p"]
    return None, None


class Flow:
    """where a local's value comes from, through copies, references, casts and projections"""
    def __init__(self, b):
        self.b = b
        self.defs = {}
        for n, blk in enumerate(b["blocks"]):
            for s in blk["st"]:
                if s["k"] == "a" and not s["p"]["p"]:
                    self.defs.setdefault(s["p"]["l"], []).append(("st", n, s))
            t = blk["te"]
            if t["k"] == "call" and t.get("d") and not t["d"]["p"]:
                self.defs.setdefault(t["d"]["l"], []).append(("call", n, t))

    def origin(self, o, depth=0):
        """-> ('const', v) | ('call', block, te) | ('param', local) | None"""
        if "c" in o:
            c = o["c"]
            v = c.get("v")
            if c.get("k") == "tyc" and isinstance(v, str) and v[:1] == '"':
                try:
                    return ("const", json.loads(v))
                except ValueError:
                    return None
            return ("const", v) if c.get("k") == "val" else None
        l, _ = _operand_local(o)
        if l is None or depth > 40:
            return None
        ds = self.defs.get(l, [])
        if not ds:
            return ("param", l)
        if len(ds) != 1:
            return None
        kind, n, d = ds[0]
        if kind == "call":
            return ("call", n, d)
        r = d["r"]
        if r["k"] == "use":
            return self.origin(r["o"], depth + 1)
        if r["k"] == "ref":
            return self.origin({"cp": r["p"]}, depth + 1)
        if r["k"] == "cast" and "o" in r:
            return self.origin(r["o"], depth + 1)
        return None


def _norm(s):
    return "".join(c for c in s.lower() if c.isalnum())


def _words(j, out):
    """identifiers named in a piece of MIR: callee paths, type paths, closures"""
    if isinstance(j, dict):
        if isinstance(j.get("path"), str):
            out.add(j["path"])
        for k, v in j.items():
            if k != "s":
                _words(v, out)
    elif isinstance(j, list):
        for v in j:
            _words(v, out)


def _parses(text, ty):
    try:
        if ty.get("k") == "float":
            float(text)
        elif ty.get("k") == "int":
            v = int(text)
            n = ty.get("n", "")
            bits = {"u8": 8, "u16": 16, "u32": 32}.get(n, 64)
            return 0 <= v < 2 ** bits if n.startswith("u") else -2 ** (bits - 1) <= v < 2 ** (bits - 1)
        elif ty.get("k") == "bool":
            return text in ("true", "false")
    except ValueError:
        return False
    return True


def command_line(prog, info):
    import os, re as _re
    import extract as X
    path = os.path.join(X.REPO, "src", "cli.yml")
    cov = {"rule": "options queried = options declared; choices lead to the item of that name; defaults parse; malformed values are errors", "sites": []}
    bn = info.get("bin")
    if bn is None or not os.path.exists(path):
        cov["not_analysed"] = "the program's own crate (main.rs) is not there or does not type-check"
        return [], cov
    import yaml
    try:
        doc = yaml.safe_load(open(path))
    except yaml.YAMLError as e:
        return [("description", "the command-line description is not valid: " + str(e)[:300])], cov
    declared = {}
    viol = []
    def bad(key, text):
        viol.append((key, text))
    for sub in doc.get("subcommands") or []:
        for name, d in sub.items():
            args = {}
            for a in (d or {}).get("args") or []:
                for an, ad in a.items():
                    if an in args:
                        bad("twice:%s:%s" % (name, an), "option %s of %s is declared twice" % (an, name))
                    args[an] = ad or {}
            declared[name] = args
            for f in ("short", "long", "index"):
                seen = {}
                for an, ad in args.items():
                    v = ad.get(f)
                    if v is not None:
                        if v in seen:
                            bad("clash:%s:%s:%s" % (name, f, v), "%s and %s of %s share %s %s" % (seen[v], an, name, f, v))
                        seen[v] = an
    B = {b["path"]: b for b in (bn["bodies"] if isinstance(bn["bodies"], list) else bn["bodies"].values())}
    main = next((b for p, b in B.items() if p.split("::")[-1] == "main" and p.count("::") == 1), None)
    if main is None:
        cov["not_analysed"] = "no main function"
        return [], cov

    def selections(b):
        """string comparisons with constants: (value origin, constant, block of the equal side, block of the other side)"""
        fl = Flow(b)
        out = []
        for n, blk in enumerate(b["blocks"]):
            t = blk["te"]
            p = callee(t) if t["k"] == "call" else None
            if not p or not (p.endswith("PartialEq::eq") or p.endswith("::eq")):
                continue
            o = [fl.origin(a) for a in t["a"]]
            c = next((x[1] for x in o if x and x[0] == "const" and isinstance(x[1], str)), None)
            v = next((x for x in o if x and x[0] != "const"), None)
            if c is None:
                continue
            nb = b["blocks"][t["t"]]["te"]
            if nb["k"] == "switch" and _operand_local(nb["d"])[0] == t["d"]["l"]:
                z = [x for y, x in nb["ts"] if y in (0, False)]
                if z:
                    out.append((v, c, nb["else"], z[0], t.get("s")))
        return fl, out

    def regions(b, sel):
        reach = _acyclic_reach(b)
        r = {}
        for c, tb, fb in sel:
            r[c] = set(reach(tb))
        res = {}
        for c in r:
            others = set().union(*[r[d] for d in r if d != c]) if len(r) > 1 else set()
            err = reach(sel[-1][2])
            common = others if len(r) > 1 else err
            res[c] = r[c] - common
        return res, reach

    def names_in(b, blocks):
        w = set()
        for n in blocks:
            for s in b["blocks"][n]["st"]:
                _words(s, w)
            _words(b["blocks"][n]["te"], w)
        for p in list(w):
            if "{closure" in p and p in B:
                _words(B[p]["blocks"], w)
        return w

    def reachable_fns(roots):
        seen, w = set(), list(roots)
        while w:
            p = w.pop()
            if p in seen or p not in B:
                continue
            seen.add(p)
            ws = set()
            _words(B[p]["blocks"], ws)
            w += list(ws)
        return seen

    fl, sel = selections(main)
    groups = [(c, tb, fb) for v, c, tb, fb, s in sel if c != ""]
    reg, _ = regions(main, groups) if groups else ({}, None)
    entry = {}
    for c in reg:
        entry[c] = [p for p in names_in(main, reg[c]) if p in B and "{" not in p and p != main["path"]]
    for c in declared:
        if c not in entry or not entry[c]:
            bad("subcommand:%s" % c, "subcommand %s is declared and nothing is run for it" % c)
        elif not any(_norm(c) in _norm(p.split("::")[-1]) for p in entry[c]):
            bad("subcommand:%s" % c, "subcommand %s runs %s" % (c, entry[c]))
    for c in entry:
        if c not in declared:
            bad("subcommand:%s" % c, "subcommand %s is handled and not declared" % c)
    nq = nc = npz = 0
    for sub, fns in entry.items():
        args = declared.get(sub)
        if args is None:
            continue
        asked = set()
        dynamic = False
        for p in sorted(reachable_fns(fns)):
            if p == main["path"]:
                continue
            b = B[p]
            f, sel = selections(b)
            byopt = {}
            for v, c, tb, fb, s in sel:
                if v and v[0] == "call" and "ArgMatches" in (callee(v[2]) or ""):
                    o = f.origin(v[2]["a"][1])
                    if o and o[0] == "const":
                        byopt.setdefault(o[1], []).append((c, tb, fb, s, v[1]))
            for n, blk in enumerate(b["blocks"]):
                t = blk["te"]
                cp = callee(t) if t["k"] == "call" else None
                if not cp:
                    continue
                if "clap::ArgMatches" in cp:
                    o = f.origin(t["a"][1]) if len(t["a"]) > 1 else None
                    m = cp.split("::")[-1]
                    if not o or o[0] != "const":
                        dynamic = True
                        continue
                    nq += 1
                    an = o[1]
                    asked.add(an)
                    cov["sites"].append("%s %s(%s) at %s" % (sub, m, an, t.get("s")))
                    if an not in args:
                        bad("undeclared:%s:%s" % (sub, an), "%s asks for option %s at %s, which is not declared" % (sub, an, t.get("s")))
                        continue
                    ad = args[an]
                    takes = bool(ad.get("takes_value")) or "index" in ad or "value_name" in ad
                    if m.startswith("value") and not takes:
                        bad("kind:%s:%s" % (sub, an), "%s reads a value of option %s, declared as a flag" % (sub, an))
                elif cp.split("::")[-1] in ("unwrap", "expect") and t["a"]:
                    o = f.origin(t["a"][0])
                    if o and o[0] == "call":
                        q = callee(o[2]) or ""
                        if "clap::ArgMatches" in q:
                            k = f.origin(o[2]["a"][1])
                            if k and k[0] == "const" and k[1] in args and not args[k[1]].get("required"):
                                bad("optional:%s:%s" % (sub, k[1]), "option %s of %s is optional and unwrapped at %s" % (k[1], sub, t.get("s")))
                        elif q.endswith("::parse"):
                            bad("malformed:%s:%s" % (sub, t.get("s")), "a value that does not parse panics at %s" % t.get("s"))
                elif cp.endswith("::parse") and t["a"]:
                    npz += 1
                    o = f.origin(t["a"][0])
                    if o and o[0] == "call" and (callee(o[2]) or "").endswith("::unwrap_or"):
                        d = f.origin(o[2]["a"][1])
                        fa = t["f"]["c"]["f"].get("args") or [{}]
                        if d and d[0] == "const" and isinstance(d[1], str) and not _parses(d[1], fa[0]):
                            bad("default:%s:%s" % (sub, t.get("s")), "the default %r is not a %s at %s" % (d[1], fa[0].get("n") or fa[0].get("k"), t.get("s")))
            for an, cs in byopt.items():
                # comparisons of one query, in one group
                for q in sorted({x[4] for x in cs}):
                    grp = [(c, tb, fb) for c, tb, fb, s, qq in cs if qq == q]
                    nc += len(grp)
                    reg, reach = regions(b, grp)
                    for c in reg:
                        w = {_norm(x) for x in names_in(b, reg[c]) if x.startswith("bugi::")}
                        own = any(_norm(c) in x for x in w)
                        wrong = [d for d in reg if d != c and _norm(d) not in _norm(c) and any(_norm(d) in x for x in w)]
                        if not own or wrong:
                            bad("choice:%s:%s:%s" % (sub, an, c), "%s %s=%s does not lead to an item of that name%s" % (sub, an, c, " but to %s" % wrong if wrong else ""))
                    err = set(reach(grp[-1][2]))
                    own_err = err - set().union(*[reach(x[1]) for x in grp])
                    wn = {_norm(x) for x in names_in(b, own_err) if x.startswith("bugi::")}
                    if any(set(reg[c]) & err for c in reg) or any(_norm(c) in x for c in reg for x in wn):
                        bad("unknown:%s:%s" % (sub, an), "an unknown value of %s %s is taken for a known one" % (sub, an))
                    h = args.get(an, {}).get("help") or ""
                    m = _re.search(r"options are ([\w, ]+)", h)
                    if m:
                        doc_names = {x.strip() for x in m.group(1).replace(" and ", ",").split(",") if x.strip()}
                        if doc_names != set(reg):
                            bad("help:%s:%s" % (sub, an), "%s %s documents %s and accepts %s" % (sub, an, sorted(doc_names), sorted(reg)))
                    m = _re.search(r"default is (\w+)", h)
                    if m:
                        blk = b["blocks"]
                        ot = [x for x in cs if x[4] == q][0]
                        none = [t2 for n2, bl in enumerate(blk) if bl["te"]["k"] == "switch" and any(s2["k"] == "a" and s2["r"].get("k") == "disc" and s2["r"]["p"]["l"] == blk[q]["te"]["d"]["l"] for s2 in bl["st"]) for y, t2 in bl["te"]["ts"] if y == 0]
                        if none and m.group(1) in reg and not (set(reach(none[0])) & reg[m.group(1)]):
                            bad("default:%s:%s" % (sub, an), "%s without %s does not run the documented default %s" % (sub, an, m.group(1)))
        if not dynamic:
            for an in args:
                if an not in asked:
                    bad("unused:%s:%s" % (sub, an), "option %s of %s is declared and has no effect" % (an, sub))
    cov.update({"subcommands": sorted(entry), "queries": nq, "choices": nc, "parsed_values": npz})
    return viol, cov


RULES["C26"] = [command_line]

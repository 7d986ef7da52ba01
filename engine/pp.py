"""Pretty-printer for dumped MIR bodies (debugging aid)."""
def ty(t):
    k = t["k"]
    if k in ("int", "float"): return t["n"]
    if k == "adt": return t["path"].split("::")[-1] + ("<%s>" % ",".join(map(ty, t["args"])) if t["args"] else "")
    if k == "ref": return "&" + ("mut " if t["m"] else "") + ty(t["e"])
    if k == "ptr": return "*" + ty(t["e"])
    if k == "tuple": return "(%s)" % ",".join(map(ty, t["e"]))
    if k == "array": return "[%s;%s]" % (ty(t["e"]), t["n"])
    if k == "slice": return "[%s]" % ty(t["e"])
    if k == "param": return t["n"]
    if k == "closure": return "{closure %s}" % t["path"].split("::", 1)[-1]
    if k == "cst": return str(t["v"])
    return t.get("dbg", k)
def place(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e[0] == "deref": s = "(*%s)" % s
        elif e[0] == "f": s += ".%d" % e[1]
        elif e[0] == "i": s += "[_%d]" % e[1]
        elif e[0] == "dc": s += " as v%d" % e[1]
        else: s += str(e)
    return s
def op(o):
    if "cp" in o: return place(o["cp"])
    if "mv" in o: return "move " + place(o["mv"])
    c = o["c"]
    if c["k"] == "fn": return c["f"]["path"] + "<" + ",".join(map(ty, c["f"]["args"])) + ">" + (" => " + c["f"]["rpath"] if "rpath" in c["f"] else "")
    if c["k"] in ("val", "tyc"): return str(c["v"])
    return str({k: v for k, v in c.items() if k not in ("ty",)})
def rv(r):
    k = r["k"]
    if k == "use": return op(r["o"])
    if k == "ref": return "&" + ("mut " if r["m"] else "") + place(r["p"])
    if k == "bin": return "%s(%s, %s)" % (r["op"], op(r["a"]), op(r["b"]))
    if k == "un": return "%s(%s)" % (r["op"], op(r["a"]))
    if k == "disc": return "disc(%s)" % place(r["p"])
    if k == "cast": return "%s as %s [%s]" % (op(r["o"]), ty(r["t"]), r["ck"])
    if k == "agg": return "%s%s v%s(%s)" % (r["ak"], r.get("path", ""), r.get("v"), ", ".join(map(op, r["ops"])))
    if k == "repeat": return "[%s; %s]" % (op(r["o"]), r["n"])
    return str(r)
def body(b, out):
    for i, l in enumerate(b["locals"]): out.append("  let _%d: %s  // %s" % (i, ty(l["t"]), l["n"]))
    for i, bl in enumerate(b["blocks"]):
        if bl["cl"]: continue
        out.append(" bb%d:" % i)
        for s in bl["st"]:
            if s["k"] == "a": out.append("   %s = %s" % (place(s["p"]), rv(s["r"])))
            else: out.append("   " + str(s))
        t = bl["te"]; k = t["k"]
        if k == "goto": out.append("   goto bb%d" % t["t"])
        elif k == "switch": out.append("   switch %s %s else bb%d" % (op(t["d"]), t["ts"], t["else"]))
        elif k == "call": out.append("   %s = call %s(%s) -> bb%s" % (place(t["d"]), op(t["f"]), ", ".join(map(op, t["a"])), t["t"]))
        elif k == "assert": out.append("   assert %s==%s %s -> bb%d" % (op(t["c"]), t["e"], t["m"], t["t"]))
        elif k == "drop": out.append("   drop -> bb%d" % t["t"])
        else: out.append("   " + k)
if __name__ == "__main__":
    import sys
    from extract import extract
    p, i = extract()
    for b in p["bodies"]:
        if all(a in b["path"] for a in sys.argv[1:]):
            out = ["fn %s  generics=%s" % (b["path"], b["generics"])]
            body(b, out)
            for j, q in enumerate(b["promoted"]):
                out.append(" promoted[%d]:" % j); body(q, out)
            print("\n".join(out))

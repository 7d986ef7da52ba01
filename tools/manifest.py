"""writes MANIFEST.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import table, rules
AI = "abstract interpretation of the type-checked MIR (value numbering to polynomial normal forms), obligations as client programs"
NOTE = ("Every claim is decided on the compiler's MIR of the current tree for arbitrary element values at the enumerated shapes, sparsity patterns and positions; "
        "floats are read as reals, std containers by contract; constructs outside the analysed language give no verdict and are listed in the evidence.")
RULE = "classical MIR rules (dataflow, reachability, table comparison)"
RNOTE = "Sound for the rule stated in DESIGN.md over every function body extracted from the current tree; trusts the rustc driver and the call resolution."
NA = json.load(open(os.path.join(V, "tools", "na.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ch, na = [], []
for p in props:
    i = p["id"]
    if i in NA or not (i in table.T or rules.RULES.get(i)):
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
        continue
    ob, ru = i in table.T, bool(rules.RULES.get(i))
    ch.append({"property": i, "quick_cmd": "python3 engine/check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 engine/check.py %s" % i,
               "evidence_file": "evidence/%s.json" % i,
               "technique": "; ".join(([AI] if ob else []) + ([RULE] if ru else [])), "level": "other",
               "level_note": " ".join(([NOTE] if ob else []) + ([RNOTE] if ru else []))})
m = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": ch, "not_applicable": na,
     "notes": "No hooks are needed: the analysis reads the crate through the compiler. Level 'other': static analysis."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(ch), "checks", len(na), "not applicable")

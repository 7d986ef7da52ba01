"""check.py <property id>: decides one property on /repo's current source.  Exit 0 / 1 (+ VIOLATION line) / 2 (no answer)."""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
import extract as X  # noqa: E402

VERIF = X.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
LIMIT = float(os.environ.get("VERIF_OBL_LIMIT", "40" if TIER == "quick" else "240"))
BUDGET = float(os.environ.get("VERIF_BUDGET", "560" if TIER == "quick" else "5400"))


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


RUN = None


def work(job):
    fn, args, opts = job
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try:
        r = RUN.run(fn, args, **opts)
        return (fn, args, opts, r.claims, r.decided, r.undecided, r.bad, r.error, dict(r.used), r.wall)
    except Timeout:
        return (fn, args, opts, 0, 0, 0, [], "time limit", {}, LIMIT)
    except RecursionError:
        return (fn, args, opts, 0, 0, 0, [], "recursion limit", {}, 0.0)
    except Exception as e:      # a construct the analysis does not know: no verdict for this obligation
        return (fn, args, opts, 0, 0, 0, [], "internal: %s: %s" % (type(e).__name__, e), {}, 0.0)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def known(pid):
    out = {}
    p = os.path.join(VERIF, "known", "findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def main():
    global RUN
    t0 = time.time()
    pid = sys.argv[1]
    import table
    import rules
    obl = table.obligations(pid, TIER)[::int(os.environ.get("VERIF_SAMPLE") or 1)]
    rl = rules.RULES.get(pid, [])
    prog = None
    notes = []
    viol = []                    # (key, text)
    if obl:
        try:
            prog, info = X.extract(X.spec_modules())
        except RuntimeError as e:
            print("no answer: " + str(e))
            return 2
        if info["mode"] == "partial" and pid in ("C24", "C25"):
            notes.append("the mesher does not build here: no verdict")
            obl = []
        gone = sorted({j[0] for j in obl} & set(info.get("gone", [])))
        if gone:
            notes.append("the interface these obligations are written against is not there: " + ", ".join(gone))
            obl = [j for j in obl if j[0] not in gone]
    else:
        prog, info = X.extract()
    print("analysed crate: %s, %d function bodies (%s mode, %.1f s)" % (X.REPO, len(prog["bodies"]), info["mode"], info["wall"]), flush=True)
    results = []
    if obl:
        import oblig
        RUN = oblig.Runner(prog, X.extract_model())
        deadline = t0 + BUDGET
        with mp.get_context("fork").Pool(int(os.environ.get("VERIF_JOBS") or min(8, os.cpu_count() or 1))) as pool:
            for r in pool.imap_unordered(work, obl, chunksize=max(1, min(8, len(obl) // 64))):
                results.append(r)
                if time.time() > deadline:
                    pool.terminate()
                    notes.append("time budget reached: %d of %d obligations analysed" % (len(results), len(obl)))
                    break
    used = {}
    per = {}
    errs = {}
    for fn, args, opts, cl, de, un, bad, err, us, wall in results:
        e = per.setdefault(fn, [0, 0, 0, 0, 0, 0.0])
        e[0] += 1
        e[1] += cl
        e[2] += de
        e[3] += un
        e[4] += len(bad)
        e[5] += wall
        for k, v in us.items():
            used[k] = used.get(k, 0) + v
        if err:
            errs.setdefault((fn, err), []).append(args)
        for key, text in bad:
            viol.append((key, "%s%r%s: %s" % (fn, tuple(args), "" if opts.get("maporder", 1) == 1 else " (reverse map order)", text)))
    claims = sum(e[1] for e in per.values())
    decided = sum(e[2] for e in per.values())
    und = sum(e[3] for e in per.values())
    crate_used = {k: v for k, v in used.items() if k.startswith("bugi::") and "verif_spec" not in k}
    info["used"] = crate_used
    rule_cov = []
    for r in rl:
        v, cov = r(prog, info)
        viol += v
        rule_cov.append(cov)
    for fn in sorted(per):
        e = per[fn]
        print("  %-34s instances %4d  claims %6d  decided %6d  undecided %d  violations %d  %.1f s" % (fn, e[0], e[1], e[2], e[3], e[4], e[5]))
    for (fn, err), a in sorted(errs.items()):
        print("  NO VERDICT %s %s (%d instances, e.g. %r)" % (fn, err, len(a), a[0]))
    for cov in rule_cov:
        print("  rule %s: %s" % (cov.get("rule"), json.dumps({k: v for k, v in cov.items() if k not in ("rule", "sites")})))
    for n in notes:
        print("  note: " + n)
    print("functions of the crate analysed: %d" % len(crate_used))
    # group by key
    kn = known(pid)
    groups = {}
    for key, text in viol:
        groups.setdefault(key, []).append(text)
    fresh = {k: v for k, v in groups.items() if k not in kn}
    for k in sorted(groups):
        if k in kn:
            print("KNOWN-FINDING: property=%s %s -- %s" % (pid, k, kn[k]))
    failed = len({(fn, tuple(a)) for fn, a, o, cl, de, un, bad, err, us, w in results if err})
    rc = 0
    if fresh:
        rd = os.path.join(X.BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".txt")
        with open(rp, "w") as f:
            for k in sorted(fresh):
                f.write("[%s] (%d instances)\n" % (k, len(fresh[k])))
                for t in fresh[k][:5]:
                    f.write("    %s\n" % t)
        for k in sorted(fresh)[:20]:
            print("  violated: %s (%d instances): %s" % (k, len(fresh[k]), fresh[k][0][:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    elif obl and (len(results) - failed) * 2 < len(obl):
        print("no answer: only %d of %d obligations could be analysed" % (len(results) - failed, len(obl)))
        rc = 2
    cov = {
        "explanation": "Static analysis of the type-checked crate's MIR (nightly rustc driver). %s Nothing of the crate is executed." % table.EXPLAIN.get(pid, table.EXPLAIN["*"]),
        "obligation_kinds": len(per), "obligation_instances": len(results), "claims": claims, "claims_decided": decided, "claims_undecided": und,
        "instances_without_verdict": failed,
        "functions_analysed": sorted(crate_used), "analysed_mode": info["mode"], "bodies_extracted": len(prog["bodies"]),
        "per_obligation": {k: {"instances": e[0], "claims": e[1], "decided": e[2], "undecided": e[3], "violations": e[4]} for k, e in sorted(per.items())},
        "rules": rule_cov, "known_findings_seen": sorted(k for k in groups if k in kn), "notes": notes,
        "samples": [{"obligation": r[0], "instance": list(r[1]), "claims": r[3], "decided": r[4]} for r in sorted(results, key=lambda r: hashlib.md5(repr((SEED, r[0], r[1])).encode()).hexdigest())[:5]],
    }
    if pid in table.PROOF:
        pass
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "other", "coverage": cov,
          "assumptions": table.ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    print("%s: %d claims, %d decided, %d undecided, %d violation keys (%d known), %.1f s" % (pid, claims, decided, und, len(groups), len(groups) - len(fresh), time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())

"""which planted bugs do the checks catch?   catch.py [ids...]   (works on scratch copies; /repo is not touched)"""
import json, os, subprocess, sys, tempfile, shutil, time
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    m = json.load(open(f"{S}/{i}/meta.json"))
    d = tempfile.mkdtemp(prefix="catch")
    subprocess.run(f"cp -a /repo {d}/repo && cd {d}/repo && git apply {S}/{i}/patch.diff", shell=True, check=True)
    for pid in m["property"].split():
        t = time.time()
        r = subprocess.run(["python3", "/verif/engine/check.py", pid], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_EVIDENCE=d), timeout=900)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        print(f"{i:34} {pid} exit {r.returncode} {time.time()-t:.0f}s {'CAUGHT' if r.returncode == 1 and v else 'MISSED'}", flush=True)
        w = [l for l in r.stdout.splitlines() if l.startswith("  ") or "violat" in l.lower()]
        print("     ", "\n      ".join(x[:200] for x in w[:2]))
    shutil.rmtree(d)

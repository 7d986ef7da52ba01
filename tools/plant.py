"""plant a bug: plant.py FILE.py   where FILE.py defines
   id, property, edits=[(path, old, new)], demo (a rust test module placed inside a scratch copy of the crate), needs, breaks
Confirms in /repo (restored afterwards): applies, stable tests pass, demo fails with the change and passes without it."""
import json, os, subprocess, sys, textwrap
R = "/repo"
DEMO = '''#!/bin/bash
# runs demo.rs as a test module of a scratch copy of the compiled part of the crate
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
. /opt/vp/partial/env.sh
cp -a /opt/vp/partial/crate "$work/crate" || exit 2
cd "$work/crate" || exit 2
cp "$here/demo.rs" src/zz_demo.rs
printf '\\n#[cfg(test)]\\nmod zz_demo;\\n' >> src/lib.rs
mkdir -p test_generated
export CARGO_TARGET_DIR="$work/target"
timeout 250 cargo test --offline --lib zz_demo -- --test-threads 1
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def restore(): sh("git checkout -- .", cwd=R)
def stable():
    sh("bash /opt/vp/test.sh /tmp/plant_out.json")
    base = json.load(open("/opt/vp/BASELINE.json")); out = json.load(open("/tmp/plant_out.json"))
    return base, out
def main(f):
    g = {}; exec(open(f).read(), g)
    d = "/verif/seeded/" + g["id"]; os.makedirs(d, exist_ok=True)
    assert sh("git status --porcelain", cwd=R).stdout == ""
    open(d + "/demo.rs", "w").write(textwrap.dedent(g["demo"]).lstrip()); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=g["property"], needs=g["needs"], what_it_breaks=g["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if not os.environ.get("SKIPCLEAN"):
        r = sh("bash /opt/vp/build.sh && bash %s/demo.sh" % d, cwd=R)
        if r.returncode: print(g["id"], "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:], r.stderr[-2500:]); return 1
    try:
        for p, o, n in g["edits"]:
            s = open(R + "/" + p).read()
            if s.count(o) != 1: print(g["id"], "edit text occurs", s.count(o), "times in", p); return 1
            open(R + "/" + p, "w").write(s.replace(o, n))
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=R).stdout)
        base, out = stable()
        names = base.get("stable") or base.get("passed") or base.get("tests")
        ok = set(out.get("passed") or [])
        miss = [t for t in names if t not in ok]
        if miss: print(g["id"], "stable tests fail:", miss[:8]); return 1
        r = sh("bash %s/demo.sh" % d, cwd=R)
        if r.returncode == 0: print(g["id"], "DEMO PASSES WITH THE CHANGE"); return 1
        if "test result: FAILED" not in r.stdout: print(g["id"], "demo did not run", r.stdout[-800:], r.stderr[-1500:]); return 1
        print(g["id"], "ok")
    finally:
        restore()
    return 0
sys.exit(max(main(f) for f in sys.argv[1:]))

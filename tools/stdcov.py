"""development helper: does the engine know the standard library?  Runs the obligations of tools/stdcov/*.rs
(each states what a library operation does) in a scratch copy of /verif and lists those not fully decided."""
import os, re, shutil, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = "/tmp/stdcov-scratch"
subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "seeded", here + "/", d + "/"], check=True)
bad = 0
for f in sorted(os.listdir(here + "/tools/stdcov")):
    shutil.copy(here + "/tools/stdcov/" + f, d + "/spec/c15.rs")
    fs = ["c15::" + x for x in re.findall(r"^pub fn ([tu]\d+)", open(d + "/spec/c15.rs").read(), re.M)]
    out = subprocess.run(["python3", d + "/tools/one.py"] + fs, capture_output=True, text=True).stdout
    ok = len(re.findall(r"und 0 bad 0 [0-9.]*s $", out, re.M))
    print(f, ok, "of", len(fs))
    for l in out.splitlines():
        if not re.search(r"und 0 bad 0 [0-9.]*s $", l):
            bad += 1
            print("  ", l[:200])
shutil.rmtree(d)
sys.exit(bad > 0)

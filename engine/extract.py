"""Builds the driver when needed, mirrors /repo's current tree into a scratch crate (with a
signatures-only stand-in for the one unavailable dependency), has the compiler type-check it, and
returns the dumped program.  Content-addressed: the same tree is extracted once."""
import fcntl, hashlib, json, os, pickle, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LOCK = "/opt/vp/partial/Cargo.lock.reference"


def _writable(d):
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w%d" % os.getpid())
        open(t, "w").close(); os.remove(t)
        return True
    except OSError:
        return False


if not _writable(BUILD):
    BUILD = tempfile.mkdtemp(prefix="bugi-sa-")


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip().splitlines()[-1]


def _h(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        h.update(open(p, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:20]


def driver():
    src = os.path.join(VERIF, "driver")
    key = _h([os.path.join(src, "Cargo.toml"), os.path.join(src, "src/main.rs")])
    exe = os.path.join(BUILD, "driver", "mirdump-" + key)
    if not os.path.exists(exe):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "driver"))
        env.pop("RUSTFLAGS", None)
        r = run(["cargo", "+nightly", "build", "--offline"], cwd=src, env=env)
        if r.returncode:
            raise RuntimeError("driver build failed:\n" + r.stdout[-4000:])
        shutil.copy(os.path.join(BUILD, "driver", "debug", "mirdump"), exe + ".t%d" % os.getpid())
        os.replace(exe + ".t%d" % os.getpid(), exe)
    return exe


def tree_files():
    out = []
    for top, ds, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            out.append(os.path.join(top, f))
    out.append(os.path.join(REPO, "Cargo.toml"))
    return out


def _blank_spacemath(text):
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        if re.match(r"impl\b.*\bspacemath::.*\{$", lines[i]):
            end = next((j for j in range(i + 1, len(lines)) if lines[j] and not lines[j][0].isspace()), None)
            if end is not None and lines[end] == "}":
                lines[i:end + 1] = [""] * (end + 1 - i)
                i = end
        i += 1
    return "\n".join(lines)


def _mirror(dst, full, spec=()):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for p in tree_files():
        rel = os.path.relpath(p, REPO)
        if rel == "Cargo.toml":
            continue
        if not full and rel.startswith(("src/main.rs", "src/cli.yml", "src/file/", "src/mesher/")):
            continue
        data = open(p, "rb").read()
        if not full and rel.endswith(".rs"):
            t = data.decode("utf-8", "surrogateescape")
            if rel == "src/lib.rs":
                t = re.sub(r"(?m)^(pub )?mod (file|mesher);$", "", t)
            data = _blank_spacemath(t).encode("utf-8", "surrogateescape")
        q = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, "wb").write(data)
    if spec:
        d = os.path.join(dst, "src", "verif_spec")
        os.makedirs(d)
        txt = open(os.path.join(VERIF, "spec", "mod.rs")).read()
        for n in spec:
            shutil.copy(os.path.join(VERIF, "spec", n + ".rs"), d)
            txt += "pub mod %s;\n" % n
        open(os.path.join(d, "mod.rs"), "w").write(txt)
        open(os.path.join(dst, "src", "lib.rs"), "a").write("\n#[allow(warnings)]\npub mod verif_spec;\n")
    man = open(os.path.join(REPO, "Cargo.toml")).read()
    if full:
        man = re.sub(r"(?m)^spacemath *=.*$", 'spacemath = { path = "spacemath" }', man)
        shutil.copytree(os.path.join(VERIF, "stub", "spacemath"), os.path.join(dst, "spacemath"), copy_function=shutil.copy)
    else:
        man = re.sub(r"(?m)^spacemath *=.*$", "", man)
    man += "\n[workspace]\n" + ('members = ["spacemath"]\n' if full else "")
    open(os.path.join(dst, "Cargo.toml"), "w").write(man)
    lock = open(LOCK).read()
    open(os.path.join(dst, "Cargo.lock"), "w").write(lock)


def _check(dst, out, exe, targets):
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    env["RUSTC_WORKSPACE_WRAPPER"] = exe
    env["MIRDUMP_CRATES"] = "bugi,spacemath"
    env["MIRDUMP_OUT"] = out
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    # a warm target directory would skip the wrapper
    fp = os.path.join(BUILD, "target", "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("bugi-", "spacemath-")):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    return run(["cargo", "+nightly", "check", "--offline"] + targets, cwd=dst, env=env)


def spec_modules():
    return sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, "spec")) if f.endswith(".rs") and f != "mod.rs")


def _prune(dst, log):
    """drop the obligations the compiler rejects (the interface they are written against is not there); -> names, or None if the crate itself is at fault"""
    bad = {}
    for err in re.split(r"(?m)^(?=error)", log):
        if not err.startswith(("error[", "error:")):
            continue
        m = re.search(r"--> (\S+?):(\d+):", err)
        if not m:
            continue
        if not m.group(1).startswith("src/verif_spec/c"):
            return None
        bad.setdefault(m.group(1), set()).add(int(m.group(2)))
    gone = []
    for f, nums in bad.items():
        lines = open(os.path.join(dst, f)).read().split("\n")
        for n in sorted(nums):
            i = n - 1
            if not lines[i]:
                continue                # went with an earlier one
            while i > 0 and (not lines[i] or lines[i][0] in " })" or lines[i].startswith("where")):
                i -= 1
            j = i
            if not (lines[i].endswith(";") or lines[i].rstrip().endswith("}")):
                while j + 1 < len(lines) and not lines[j].startswith("}"):
                    j += 1
            m = re.match(r"(?:pub )?fn (\w+)", lines[i])
            gone.append("%s::%s" % (os.path.basename(f)[:-3], m.group(1) if m else lines[i].strip()))
            lines[i:j + 1] = [""] * (j + 1 - i)
        open(os.path.join(dst, f), "w").write("\n".join(lines))
    return gone or None


def extract(spec=()):
    """-> (program dict, info dict)."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        key = hashlib.sha256((_h(tree_files()) + os.path.basename(exe) + _h([os.path.join(VERIF, "stub/spacemath/src/lib.rs")] + ([os.path.join(VERIF, "spec", n + ".rs") for n in list(spec) + ["mod"]] if spec else []))).encode()).hexdigest()[:24]
        cache = os.path.join(BUILD, "mir", key)
        if not os.path.exists(os.path.join(cache, "info.json")):
            tmp = os.path.join(BUILD, "mir", "tmp")
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            dst = os.path.join(BUILD, "crate")
            mode, log = None, ""
            for full in (True, False):
                _mirror(dst, full, spec)
                gone = []
                for _ in range(12):
                    r = _check(dst, tmp, exe, ["--lib", "--bins"] if full else ["--lib"])
                    more = _prune(dst, r.stdout) if r.returncode else None
                    if not more:
                        break
                    gone += more
                if r.returncode == 0 and os.path.exists(os.path.join(tmp, "bugi.json")):
                    mode = "full" if full else "partial"
                    break
                log += "\n".join(l for l in r.stdout.splitlines() if "-L dependency" not in l)[-6000:]
            if mode is None:
                raise RuntimeError("the crate does not type-check:\n" + log)
            json.dump({"mode": mode, "log": log, "gone": sorted(set(gone))}, open(os.path.join(tmp, "info.json"), "w"))
            old = sorted((os.path.join(BUILD, "mir", d) for d in os.listdir(os.path.join(BUILD, "mir")) if d != "tmp"), key=os.path.getmtime)
            for d in old[:-20]:
                shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(cache, ignore_errors=True)
            os.rename(tmp, cache)
        info = json.load(open(os.path.join(cache, "info.json")))
        prog = json.load(open(os.path.join(cache, "bugi.json")))
        ps = os.path.join(cache, "spacemath.json")
        if os.path.exists(ps):
            sp = json.load(open(ps))
            for k in ("bodies", "adts", "impls"):
                prog[k] = prog[k] + sp[k]
        pb = os.path.join(cache, "bugi_bin.json")
        info["bin"] = json.load(open(pb)) if os.path.exists(pb) else None
    info["wall"] = time.time() - t0
    info["key"] = key
    return prog, info


def extract_model():
    """the reference semantics of std operations (/verif/model), through the same driver"""
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        src = os.path.join(VERIF, "model", "src", "lib.rs")
        out = os.path.join(BUILD, "model-" + hashlib.sha256((_h([src]) + os.path.basename(exe)).encode()).hexdigest()[:20])
        if not os.path.exists(os.path.join(out, "model.json")):
            tmp = out + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), MIRDUMP_CRATES="model", MIRDUMP_OUT=tmp)
            r = run([exe, "rustc", "--crate-name", "model", "--edition=2021", "--crate-type=lib", "--emit=metadata", "--out-dir", tmp, src], env=env)
            if not os.path.exists(os.path.join(tmp, "model.json")):
                raise RuntimeError("model extraction failed:\n" + r.stdout[-3000:])
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
        return json.load(open(os.path.join(out, "model.json")))


if __name__ == "__main__":
    p, i = extract()
    print(i["mode"], len(p["bodies"]), "bodies", len(p["adts"]), "adts", len(p["impls"]), "impls", "%.1fs" % i["wall"], i["log"][-3000:])

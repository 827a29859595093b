"""Builds the executor, the LLVM IR of /repo's current tree with the harness, and the standard library's IR."""
import glob, hashlib, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.path.join(V, ".cache")
ENGINE = os.path.join(V, "engine", "target", "release", "vsx")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tree_hash(root, dirs=None):
    """relative path -> sha256 of every source file of the tree"""
    out = {}
    for base, ds, fs in os.walk(root):
        ds[:] = [d for d in ds if d not in (".git", "target", "node_modules", ".venv", "__pycache__")]
        for f in fs:
            p = os.path.join(base, f)
            if f.endswith((".rs", ".toml", ".lock", ".fbs", ".proto", ".c", ".h")) and os.path.isfile(p):
                with open(p, "rb") as h:
                    out[os.path.relpath(p, root)] = hashlib.sha256(h.read()).hexdigest()
    return out


def build_engine():
    r = sh("cargo build --release --offline 2>&1", cwd=os.path.join(V, "engine"))
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:])
        raise SystemExit("engine build failed")


def std_ir():
    d = os.path.join(CACHE, "std")
    if not os.path.isdir(d):
        os.makedirs(CACHE, exist_ok=True)
        t = d + ".tmp"
        if os.path.isdir(t):
            shutil.rmtree(t)
        r = sh([os.path.join(V, "std_ir.sh"), d])
        if r.returncode != 0:
            raise SystemExit("standard library IR: " + r.stderr[-2000:])
    return sorted(glob.glob(d + "/*.ll"))


def crate_of(path):
    d = os.path.dirname(os.path.join(REPO, path))
    while d.startswith(REPO):
        t = os.path.join(d, "Cargo.toml")
        if os.path.exists(t):
            for l in open(t):
                if l.startswith("name"):
                    return l.split("=")[1].strip().strip('"')
        d = os.path.dirname(d)
    return None


def build_ir():
    """-> (list of .ll files, path of the replay binary)"""
    tgt = os.environ.get("VSX_TARGET") or os.path.join(CACHE, "target")
    stamp = os.path.join(tgt, "sources.json")
    now = tree_hash(REPO)
    # cargo goes by modification times; a file whose content changed under an old time is forced here
    try:
        old = json.load(open(stamp))
    except Exception:
        old = None
    if old is not None:
        crates = {crate_of(p) for p in set(now) | set(old) if now.get(p) != old.get(p)}
        for c in crates - {None}:
            for d in glob.glob(f"{tgt}/*/debug/.fingerprint/{c}-*") + glob.glob(f"{tgt}/debug/.fingerprint/{c}-*"):
                shutil.rmtree(d, ignore_errors=True)
    if os.path.exists(stamp):
        os.unlink(stamp)
    r = sh([os.path.join(V, "build_ir.sh"), "--message-format=json"])
    if r.returncode != 0:
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except Exception:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                sys.stdout.write(m["message"]["rendered"][:3000])
        sys.stdout.write(r.stderr[-3000:])
        raise SystemExit("building /repo's tree with the harness failed")
    lls, replay = [], None
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except Exception:
            continue
        if m.get("reason") != "compiler-artifact":
            continue
        kind = m["target"]["kind"]
        if "custom-build" in kind or "proc-macro" in kind:
            continue
        if m["target"]["name"] == "vrt":
            continue
        if m["target"]["name"] == "replay":
            replay = m["executable"]
            continue
        for f in m["filenames"]:
            if not f.endswith(".rlib"):
                continue
            base = os.path.basename(f)[3:-5]
            d = os.path.dirname(f)
            if "/x86_64-unknown-linux-gnu/" not in d + "/":
                continue
            dep = os.path.join(d if d.endswith("deps") else d + "/deps", base)
            dinfo = dep + ".d"
            if not os.path.exists(dinfo):
                # final artifact: look the hashed name up
                continue
            t0 = os.stat(dinfo).st_mtime - 0.5
            cur = [x for x in glob.glob(dep + ".ll") + glob.glob(dep + ".*.rcgu.ll") if os.stat(x).st_mtime >= t0]
            lls += cur
    # the harness library is a workspace member: cargo hard-links it without its hash
    dd = f"{tgt}/x86_64-unknown-linux-gnu/debug/deps"
    hs = sorted(glob.glob(dd + "/vharness-*.d"), key=lambda p: os.stat(p).st_mtime)
    if hs:
        b = hs[-1][:-2]
        t0 = os.stat(hs[-1]).st_mtime - 0.5
        lls += [x for x in glob.glob(b + ".ll") + glob.glob(b + ".*.rcgu.ll") if os.stat(x).st_mtime >= t0]
    lls += extra_ir()
    json.dump(now, open(stamp, "w"))
    return sorted(set(lls)), replay


def extra_ir():
    return sorted(glob.glob(os.path.join(CACHE, "extra", "*.ll")))


def all_ir():
    t = time.time()
    build_engine()
    s = std_ir()
    l, r = build_ir()
    if not r:
        raise SystemExit("no replay binary")
    lst = os.path.join(CACHE, f"ll.{os.getpid()}.txt")
    with open(lst, "w") as f:
        f.write("\n".join(l + s) + "\n")
    return lst, r, time.time() - t, len(l), len(s)


if __name__ == "__main__":
    lst, r, t, a, b = all_ir()
    if len(sys.argv) > 1:
        os.replace(lst, sys.argv[1])
        lst = sys.argv[1]
    else:
        os.unlink(lst)
    print(f"{a} + {b} IR files, replay {r}, {t:.1f} s")

#!/usr/bin/env python3
"""Decides one property: symbolic execution of the real code's LLVM IR, z3 on every branch and assertion.

usage: check.py PROPERTY [quick|thorough] [--only REGEX] [--keep]
"""
import collections, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "drv"))
import build, jobs as J  # noqa: E402

CACHE = build.CACHE


def demangle(n):
    m = re.findall(r"\d+[A-Za-z_$][^.]*", n)
    out, i = [], 3 if n.startswith("_ZN") else None
    if i is None:
        return n
    while i < len(n) and n[i].isdigit():
        j = i
        while n[j].isdigit():
            j += 1
        k = int(n[i:j])
        out.append(n[j:j + k])
        i = j + k
    if out and re.fullmatch(r"h[0-9a-f]{16}", out[-1]):
        out.pop()
    s = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}"), ("..", "::"), ("$BP$", "*"), ("$LP$", "("), ("$RP$", ")"), ("$u5b$", "["), ("$u5d$", "]")):
        s = s.replace(a, b)
    return s


class Native:
    """Runs a harness function natively on recorded inputs."""

    def __init__(self, exe):
        self.exe = exe
        self.dir = os.path.join(V, "evidence", "replay")
        os.makedirs(self.dir, exist_ok=True)
        self.n = 0

    def write(self, name, inputs):
        p = os.path.join(self.dir, name)
        with open(p, "w") as f:
            for w, v in inputs:
                f.write(f"{w} {v}\n")
        return p

    def run(self, fn, args, path, valgrind=False, timeout=60):
        cmd = [self.exe, fn, ",".join(map(str, args)), path]
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=9", "--main-stacksize=268435456"] + cmd
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env={"PATH": os.environ["PATH"], "RUST_BACKTRACE": "0"})
        except subprocess.TimeoutExpired:
            return "timeout", ""
        out = r.stdout.decode("utf8", "replace")
        if valgrind and r.returncode == 9:
            return "memory", r.stderr.decode("utf8", "replace")[-2000:]
        if r.returncode == 0:
            return "ok", out
        if r.returncode == 1:
            return ("assert" if "ASSERT-FAILED" in out else "panic"), out
        if r.returncode in (3, 4):
            return "mismatch", out
        return "crash", out + f"\nexit status {r.returncode}"


def main():
    t_start = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    P = J.PROPS[prop]
    js = P.jobs(tier)
    if os.environ.get("VSX_NEW"):  # development: what has not been timed yet
        js = [j for j in js if j.id not in J.COSTS]
    if only:
        js = [j for j in js if re.search(only, j.id)]
    try:
        lst, exe, t_build, n_ir, n_std = build.all_ir()
    except SystemExit as e:
        print(f"ERROR {prop}: {e}")
        return 2
    total = int(os.environ.get("VSX_TOTAL", P.total(tier)))
    tag = f"{prop}.{os.getpid()}"
    jf, out = os.path.join(CACHE, tag + ".jobs"), os.path.join(CACHE, tag + ".out")
    with open(jf, "w") as f:
        for j in js:
            f.write("\t".join([j.id, j.fn, ",".join(map(str, j.args)), str(min(j.secs, total, int(os.environ.get("VSX_SECS", 9999)))), str(j.max_paths), str(j.max_inst), str(j.rlimit)]) + "\n")
    t1 = time.time()
    r = subprocess.run([build.ENGINE, "run", "--ll-list", lst, "--jobs", jf, "--out", out, "--workers", str(os.cpu_count() or 8), "--total-secs", str(total), "--seed", str(seed)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    t_run = time.time() - t1
    lines = []
    try:
        lines = [json.loads(l) for l in open(out)]
    except Exception as e:  # noqa: BLE001
        print(f"ERROR {prop}: executor output: {e} {r.stderr[-500:]}")
        return 2
    for p in (jf, out, lst):
        os.unlink(p)

    # ---- gather
    by = collections.OrderedDict((j.id, []) for j in js)
    lost = collections.defaultdict(list)
    z3v = "?"
    for l in lines:
        if "end" in l:
            z3v = l["z3"]
        elif "lost" in l:
            lost[l["job"]].append(l["why"])
        else:
            by[l["job"]].append(l)
    K = ("paths_done", "paths_assume", "paths_panic_ok", "paths_viol", "paths_bad", "inst", "forks", "asserts", "sym_branches", "queries", "cache_hits", "solver_us", "unknowns")
    tot = collections.Counter()
    fns = collections.Counter()
    builtins = set()
    rep, viol, samples, incomplete, vacuous = [], [], [], {}, []
    for j in js:
        c = collections.Counter()
        inc = collections.Counter()
        ss = []
        for l in by[j.id]:
            for k in K:
                c[k] += l[k]
            for k, n in l["incomplete"].items():
                inc[k] += n
            for v in l["viol"]:
                viol.append((j, v))
            ss += l["samples"]
            for n, k in l["fns"]:
                fns[n] += k
            builtins.update(l["builtins"])
        for w in lost[j.id]:
            inc[w] += 1
        tot.update(c)
        samples += [(j, s) for s in ss[:4]]
        if inc:
            incomplete[j.id] = dict(inc)
        if c["asserts"] == 0 and not inc:
            vacuous.append(j.id)
        rep.append({"job": j.id, "fn": j.fn, "args": list(j.args), "bound": j.bound, "paths": c["paths_done"] + c["paths_panic_ok"], "asserts": c["asserts"],
                    "branches": c["sym_branches"], "queries": c["queries"], "solver_s": round(c["solver_us"] / 1e6, 2), "complete": not inc})

    if os.environ.get("VSX_COSTS"):  # development: remember what each job costs
        cp = os.path.join(V, "drv", "costs.json")
        costs = json.load(open(cp)) if os.path.exists(cp) else {}
        for j in js:
            t = sum(l["secs"] for l in by[j.id])
            costs[j.id] = round(t if j.id not in incomplete else max(99, t), 1)
        with open(cp, "w") as f:
            f.write("{\n" + ",\n".join(f'"{k}": {v}' for k, v in sorted(costs.items())) + "\n}\n")
    # ---- replay: every counterexample, and samples of passing paths
    nat = Native(exe)
    known = [k for k in J.known_findings() if k["property"] == prop]
    seen_known, confirmed, unconfirmed = {}, [], []
    uniq = collections.OrderedDict()
    for j, v in viol:
        uniq.setdefault((j.fn, v["kind"], v["msg"], tuple(v["trace"][:2]) if v["kind"] != "assert" else ()), []).append((j, v))
    n = 0
    for key, vs in uniq.items():
        ok = False
        for j, v in vs[:6]:
            n += 1
            p = nat.write(f"{prop}-{n}.inputs", v["inputs"])
            st, txt = nat.run(j.fn, j.args, p)
            if st == "ok" and v["kind"] in ("memory", "unreachable"):
                st, txt = nat.run(j.fn, j.args, p, valgrind=True, timeout=300)
            if st in ("assert", "panic", "crash", "memory"):
                msg = v["msg"]
                k = next((k for k in known if k["harness"] == j.fn and (not k.get("args") or list(j.args) in k["args"]) and re.search(k["match"], v["kind"] + ": " + msg + " " + txt)), None)
                if k:
                    seen_known.setdefault(k["id"], (k, p))
                    ok = True
                    continue
                ok = True
                q = os.path.join(nat.dir, f"{prop}-{n}.txt")
                with open(q, "w") as f:
                    f.write(f"property {prop}\nharness {j.fn} arguments {','.join(map(str, j.args))} ({j.bound})\n{v['kind']}: {v['msg']}\n\n")
                    f.write(f"native replay:\n  {exe} {j.fn} {','.join(map(str, j.args))} {p}\nresult: {st}\n{txt}\n\ninputs (bits value):\n")
                    f.writelines(f"  {w} {x}\n" for w, x in v["inputs"])
                    f.write("\ncall stack at the violation:\n" + "".join(f"  {t}\n" for t in v["trace"]))
                confirmed.append((j, v, st, q, txt))
                break
        if not ok:
            unconfirmed.append({"job": vs[0][0].id, "kind": key[1], "msg": key[2], "native": st, "trace": vs[0][1]["trace"][:6], "inputs": vs[0][1]["inputs"]})

    validated, mism = 0, []

    def val(js_):
        i, (j, s) = js_
        p = nat.write(f"{prop}-s{i}.inputs", s["inputs"])
        st, txt = nat.run(j.fn, j.args, p)
        outs = re.findall(r"^OUT (\d+)$", txt, re.M)
        good = st == "ok" and (outs == s["outs"])
        os.unlink(p)
        return good, j, s, st, txt

    with ThreadPoolExecutor(8) as ex:
        for good, j, s, st, txt in ex.map(val, enumerate(samples[:400])):
            if good:
                validated += 1
            else:
                mism.append({"job": j.id, "inputs": s["inputs"], "symbolic": s["end"], "outs": s["outs"], "native": st, "text": txt[:400]})

    # ---- verdict
    mine = {demangle(k): v for k, v in fns.items() if re.search(r"vortex|fastlanes|fsst|roaring", k)}
    enc = sorted(mine.items(), key=lambda x: -x[1])
    done = [r for r in rep if r["complete"]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths_done"] + tot["paths_panic_ok"] + tot["paths_viol"],
            "transitions": tot["sym_branches"],
            "traces_validated_against_impl": validated,
            "samples": [{"job": j.id, "inputs": [f"{w}:{x}" for w, x in s["inputs"]][:64], "outs": s["outs"][:16], "end": s["end"]} for j, s in samples[:12]],
            "explanation": "states = execution paths of the real code explored to the end with symbolic inputs; transitions = branches on symbolic data decided by z3 or by implication; each path stands for every input that takes it; every assertion was decided by z3 for all of them",
            "functions_encoded": len(mine), "functions": [f"{k} ({v})" for k, v in enc[:400]],
            "all_functions_executed": len(fns), "modelled_primitives": sorted(builtins),
            "bounds": P.bounds(tier), "jobs": rep, "jobs_complete": len(done), "jobs_total": len(rep),
            "incomplete": incomplete, "vacuous_jobs": vacuous, "unconfirmed": unconfirmed[:20], "sample_mismatches": mism[:20],
            "assertions_decided": tot["asserts"], "instructions": tot["inst"], "queries": tot["queries"], "query_cache_hits": tot["cache_hits"],
            "solver_s": round(tot["solver_us"] / 1e6, 1), "solver_unknown": tot["unknowns"], "solver": "z3 " + z3v,
            "ir_files": n_ir + n_std, "build_s": round(t_build, 1), "explore_s": round(t_run, 1),
            "exhaustive": not incomplete and not unconfirmed and not mism,
        },
        "assumptions": J.ASSUME + P.assume,
        "wall_s": round(time.time() - t_start, 1), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print(f"{prop} {tier}: {len(done)}/{len(rep)} jobs complete, {c['states']} paths, {c['assertions_decided']} assertions, {c['transitions']} symbolic branches, "
          f"{c['queries']} queries, solver {c['solver_s']} s, {validated}/{min(len(samples), 400)} sampled paths agree natively, build {t_build:.0f} s, explore {t_run:.0f} s")
    for k, v in list(incomplete.items())[: (1000 if only or "-v" in sys.argv else 12)]:
        print(f"  incomplete {k}: {v}")
    for k in vacuous:
        print(f"  vacuous {k}")
    for u in unconfirmed[:8]:
        print(f"  unconfirmed (not reported): {u}")
    for m in mism[:8]:
        print(f"  sample mismatch: {m}")
    if "-v" in sys.argv:
        for x in sorted(rep, key=lambda x: -x["solver_s"])[:40]:
            print("   ", x["job"], x["paths"], "paths", x["asserts"], "asserts", x["queries"], "queries", x["solver_s"], "s", "" if x["complete"] else "INCOMPLETE")
    if "-v" in sys.argv:
        for key, vs in uniq.items():
            print("  violating jobs of", key[0], key[1], key[2][:100], ":", " ".join(sorted({",".join(map(str, j.args)) for j, _ in vs}))[:1500])
    for k, (f, p) in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for k in known:
        if k["id"] not in seen_known and not only:
            print(f"note: known finding {k['id']} was not observed on this tree")
    for j, v, st, q, txt in confirmed:
        print(f"  {j.id} ({j.bound}): {v['kind']}: {v['msg']} [native: {st}]")
        print(f"VIOLATION property={prop} replay={q}")
    if confirmed:
        return 1
    if r.returncode != 0 or tot["asserts"] == 0 or not (tot["paths_done"] + tot["paths_panic_ok"]):
        print(f"ERROR {prop}: nothing was decided: {r.stderr[-800:]}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Run the check of one property: build the harness against /repo's working
tree (sequential and parallel feature sets), run it, merge the results, write
evidence/<id>.json.  Exit 0 held / 1 VIOLATION / 2 error of the check."""
import json, os, re, subprocess, sys, time, pathlib, shutil, threading

V = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(V / "tools"))
from registry import CHECKS  # noqa

TARGET = pathlib.Path(os.environ.get("VERIF_TARGET", V / "sym" / "target"))  # build output
ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RAYON_NUM_THREADS="1")
ENV.pop("RUSTFLAGS", None)
ENV["CARGO_TERM_COLOR"] = "never"


def build(crate, cfg):
    td = TARGET / cfg
    cmd = ["cargo", "build", "--offline", "-p", crate, "--target-dir", str(td)]
    if cfg == "par":
        cmd += ["--features", "parallel"]
    env = dict(ENV)
    env["RUSTFLAGS"] = "-Awarnings --cfg ckb_zkp_verif"
    # one invocation directory per crate keeps features per package
    r = subprocess.run(cmd, cwd=V / "sym" / crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout[-6000:]
    return td / "debug" / crate, ""


def kani_job(pid, crate, limit, t0, results, errors):
    """All Kani harnesses of a crate whose source includes the real file; a
    failed harness' counterexample is run through the same harness natively."""
    d = V / "kani" / crate
    td = TARGET / "kani"
    # always from the current source, whatever its modification time
    for x in (td, TARGET / "kani-replay"):
        shutil.rmtree(x, ignore_errors=True)

    def run(extra, timeout):
        return subprocess.run(["cargo", "kani", "--target-dir", str(td), "--output-format", "terse"] + extra, cwd=d, env=ENV,
                              timeout=max(30, timeout), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout

    try:
        log = run(["-j", "8"], limit - (time.time() - t0))
        done = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", log)
        if not done:
            errors.append(f"kani gave no summary for {crate}:\n{log[-4000:]}")
            return
        good, bad, total = map(int, done.groups())
        times = [float(x) for x in re.findall(r"Verification Time: ([0-9.]+)s", log)]
        covers = sum(int(x) for x in re.findall(r"(\d+) of \d+ cover properties satisfied", log))
        checks = sum(int(x) for x in re.findall(r"\*\* \d+ of (\d+) failed", log))
        src = (d / "src" / "main.rs").read_text()
        r = dict(config="kani", violations=[], inconclusive=[], obligations=total, discharged=good, queries=total, unsat=good,
                 sat=bad, unknown=0, solver_s=sum(times), max_query_s=max(times or [0]), paths=total, decisions=checks,
                 witnesses=covers, replays=0, native=0, samples=[f"{crate}: {good} of {total} harnesses verified, {checks} checks"],
                 functions=re.findall(r"(?m)^//! function: (.*)$", src), bounds=re.findall(r"(?m)^//! bound: (.*)$", src),
                 reduced_bound=[], generic_assumptions=0, assumptions=[])
        if covers == 0:
            r["inconclusive"].append("no accepting run is reachable in any harness")
        names = re.findall(r"(?m)^Verification failed for - (?:.*::)?(\w+)$", log)
        if bad and not names:
            errors.append(f"kani failed without naming a harness:\n{log[-4000:]}")
        if names:
            b = subprocess.run(["cargo", "build", "--offline", "--target-dir", str(TARGET / "kani-replay")], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if b.returncode:
                errors.append(b.stdout[-3000:])
        for n in sorted(set(names))[:4]:
            if r["violations"]:
                break
            pb = run(["--harness", n, "-Z", "concrete-playback", "--concrete-playback=print"], limit - (time.time() - t0))
            failed = re.findall(r"Failed Checks: (.*)", pb)
            # the playback may print several tests (one per failed check)
            tests = []
            for m in re.finditer(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", pb, re.S):
                tests.append([str(int.from_bytes(bytes(int(x) for x in g.split(",") if x.strip()), "little")) for g in re.findall(r"vec!\[([0-9, ]*)\]", m.group(1))])
            hit = None
            for vals in tests:
                q = subprocess.run([str(TARGET / "kani-replay" / "debug" / crate), n] + vals, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
                r["replays"] += 1
                if q.returncode not in (0, 3):
                    hit = (vals, q.stdout)
                    break
            if hit:
                r["violations"].append({"key": f"{pid}/{n}", "what": "; ".join(failed)[:400], "replay": {"harness": n, "values": hit[0], "output": hit[1][-800:]}})
            else:
                r["inconclusive"].append(f"{n}: counterexample did not replay ({'; '.join(failed)[:300]})")
        results.append(r)
    except subprocess.TimeoutExpired:
        errors.append(f"kani did not finish {crate} in time")


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in sys.argv:
        tier = "thorough"
    ENV["VERIF_TIER"] = tier
    ENV["VERIF_SEED"] = str(seed)
    limit = 3600 * 3 if tier == "thorough" else 800
    t0 = time.time()
    spec = CHECKS[pid]
    out = V / "evidence"
    out.mkdir(exist_ok=True)
    work = TARGET / "out"
    work.mkdir(parents=True, exist_ok=True)
    rdir = V / "replays"
    rdir.mkdir(exist_ok=True)
    jobs = []
    errors = []
    known = json.loads((V / "known_findings.json").read_text())["findings"]
    lock = threading.Lock()
    results = []

    def job(crate, cfg):
        b, err = build(crate, cfg)
        if b is None:
            with lock:
                errors.append(f"build of {crate} ({cfg}) failed:\n{err}")
            return
        o = work / f"{pid}.{crate}.{cfg}.json"
        if o.exists():
            o.unlink()
        env = dict(ENV)
        env["SYM_OUT"] = str(o)
        env["SYM_KNOWN"] = "\n".join(f["key"] for f in known if f["property"] == pid)
        left = max(30, limit - (time.time() - t0))
        try:
            r = subprocess.run([str(b), pid], env=env, cwd=V, timeout=left, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            with lock:
                errors.append(f"{crate} ({cfg}) did not finish within {left:.0f} s")
            return
        if not o.exists():
            with lock:
                errors.append(f"{crate} ({cfg}) wrote no result (exit {r.returncode}):\n{r.stdout[-3000:]}")
            return
        with lock:
            results.append(json.loads(o.read_text()))

    for crate in spec.get("kani", []):
        t = threading.Thread(target=kani_job, args=(pid, crate, limit, t0, results, errors))
        t.start()
        jobs.append(t)
    for crate in spec.get("crates", []):
        for cfg in spec.get("configs", ["seq", "par"]):
            t = threading.Thread(target=job, args=(crate, cfg))
            t.start()
            jobs.append(t)
    for t in jobs:
        t.join()

    viol, kn, inc = {}, {}, []
    for r in results:
        for v in r["violations"]:
            k = [f for f in known if f["property"] == pid and f["key"] == v["key"]]
            if k:
                kn[v["key"]] = k[0]["what"]
            else:
                viol.setdefault(v["key"], dict(v, config=r["config"]))
        # an obligation that is a recorded finding may also be left undecided
        for i in r["inconclusive"]:
            inc.append(f"[{r['config']}] {i}")
    S = lambda k: sum(r[k] for r in results)
    uniq = lambda k: sorted({x for r in results for x in r[k]})
    cov = {
        "states": S("paths"),
        "transitions": S("decisions") + S("queries"),
        "traces_validated_against_impl": S("witnesses") + S("replays"),
        "samples": [s for r in results for s in r["samples"]][:12] or ["none"],
        "explanation": "states = symbolic executions (paths) of the real code; transitions = branch decisions forked plus solver queries; traces = concrete or reachability-witness executions of the real code",
        "paths": S("paths"), "branch_decisions": S("decisions"),
        "obligations": S("obligations"), "discharged": S("discharged"),
        "queries": S("queries"), "unsat": S("unsat"), "sat": S("sat"), "unknown": S("unknown"),
        "solver_s": round(S("solver_s"), 3), "max_query_s": round(max([r["max_query_s"] for r in results] or [0]), 3),
        "witness_runs": S("witnesses"), "replayed_models": S("replays"), "native_runs": S("native"),
        "generic_branch_assumptions": S("generic_assumptions"),
        "functions_encoded": uniq("functions"), "bounds": uniq("bounds"),
        "reduced_bound": uniq("reduced_bound"),
        "configurations": sorted({r["config"] for r in results}),
        "inconclusive": inc, "errors": errors, "known_findings": sorted(kn),
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": cov, "assumptions": spec.get("assumptions", []) + uniq("assumptions"),
        "wall_s": round(time.time() - t0, 3), "violations": len(viol),
    }
    (out / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    for k, w in sorted(kn.items()):
        print(f"KNOWN-FINDING: property={pid} {k}: {w}")
    if viol:
        p = rdir / f"{pid}.json"
        p.write_text(json.dumps(list(viol.values()), indent=1))
        for v in viol.values():
            print(f"  {v['key']}: {v['what']} [{v['config']}]")
        print(f"VIOLATION property={pid} replay={p}")
        return 1
    if errors or inc or not results:
        for e in errors + inc:
            print("ERROR:", e)
        return 2
    print(f"{pid}: held; {cov['discharged']} obligations, {cov['queries']} queries, {cov['solver_s']} s solver, {ev['wall_s']} s wall")
    return 0


if __name__ == "__main__":
    sys.exit(main())

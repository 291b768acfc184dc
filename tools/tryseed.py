#!/usr/bin/env python3
"""tryseed.py ID...: validates planted bugs in a scratch copy of /repo (applies,
builds, stable tests pass, demo fails with / passes without), then runs the
property's check against /repo with the patch applied and undoes it."""
import sys, subprocess, pathlib, json, re, os, shutil
env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_INCREMENTAL="1")
S = pathlib.Path("/tmp/seedrepo")
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
stable = set(map(str, json.load(open("/opt/vp/BASELINE.json"))["stable"]))
if not S.exists():
    subprocess.check_call(["cp", "-a", "/repo", str(S)])
for i in [a for a in sys.argv[1:] if not a.startswith("-")]:
    d = pathlib.Path("/verif/seeded") / i
    meta = json.loads((d / "meta.json").read_text())
    res = {}
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD", S)
    if "--checkonly" not in sys.argv:
        r = sh(f"bash {d}/demo.sh", S); res["demo_clean"] = r.returncode
        if r.returncode: print(r.stdout[-2000:])
        a = sh(f"git apply {d}/patch.diff", S); res["apply"] = a.returncode
        if a.returncode: print(a.stdout)
        r = sh(f"bash {d}/demo.sh", S); res["demo_patched"] = r.returncode; res["demo_out"] = r.stdout[-300:]
        r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", S)
        (pathlib.Path("/tmp") / "seedtest.log").write_text(r.stdout)
        c = sh("cargo check --workspace --offline", S); res["check_default"] = c.returncode
        sh("git checkout -q -- .", S)
        out = "/tmp/seedtest.json"
        subprocess.run(["python3", "/opt/vp/results.py", out, "cargo:/tmp/seedtest.log"], env=env, stdout=subprocess.DEVNULL)
        try:
            j = json.load(open(out)); 
            failed = [t for t in stable if t not in set(map(str, j.get("passed", [])))]
        except Exception as e:
            failed = [repr(e)]
        res["stable_missing"] = failed[:5]
        res["tests_rc"] = r.returncode
    # the check, on the patched copy mounted over /repo (a private mount namespace)
    subprocess.check_call(["git", "-C", str(S), "apply", str(d / "patch.diff")])
    try:
        c = subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {S} /repo && cd /verif && exec python3 check.py {meta['property']}"],
                           env=dict(env, VERIF_TARGET="/tmp/seedtarget"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        sh("git checkout -q -- .", S)
    res["check_rc"] = c.returncode
    res["check_out"] = c.stdout[-700:]
    ok = res.get("demo_clean", 0) == 0 and res.get("demo_patched", 1) != 0 and not res.get("stable_missing") and c.returncode == 1
    print("OK " if ok else "BAD", i, json.dumps(res, indent=1))

#!/usr/bin/env python3
"""newseed.py SPEC.py : SPEC defines id, prop, deps, edits=[(file, old, new)],
needs, breaks, demo. Writes /verif/seeded/<id>."""
import sys, pathlib, json, subprocess, runpy
for sp in sys.argv[1:]:
    g = runpy.run_path(sp)
    for s in g["SEEDS"]:
        d = pathlib.Path("/verif/seeded") / s["id"]
        d.mkdir(parents=True, exist_ok=True)
        W = pathlib.Path("/tmp/seedwt")
        subprocess.call(["git", "-C", "/repo", "worktree", "prune"])
        if not W.exists():
            subprocess.check_call(["git", "clone", "-q", "/repo", str(W)])
        subprocess.check_call("git fetch -q origin HEAD && git checkout -q -f FETCH_HEAD", shell=True, cwd=W)
        for f, old, new in s["edits"]:
            p = W / f
            t = p.read_text()
            assert t.count(old) >= 1, (s["id"], f, "not found")
            assert t.count(old) == 1, (s["id"], f, "ambiguous", t.count(old))
            p.write_text(t.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=W, text=True)
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=W)
        (d / "patch.diff").write_text(diff)
        (d / "demo.rs").write_text(s["demo"])
        (d / "meta.json").write_text(json.dumps(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1) + "\n")
        subprocess.check_call(["python3", "/verif/tools/mkseed.py", s["id"], s["deps"]])
        print("wrote", s["id"])

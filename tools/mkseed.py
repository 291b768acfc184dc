#!/usr/bin/env python3
"""mkseed.py ID PROPERTY CRATE[,CRATE..] : assembles /verif/seeded/ID from
/tmp/seed/ID/{patch.diff,demo.rs,meta.json}; CRATE as name=dir[:feature]"""
import sys, pathlib, json, shutil
i, deps = sys.argv[1], sys.argv[2]
d = pathlib.Path("/verif/seeded") / i
d.mkdir(parents=True, exist_ok=True)
T = pathlib.Path("/verif/tools")
s = ""
for c in deps.split(","):
    n, p = c.split("=")
    f = ""
    if ":" in p:
        p, f = p.split(":")
        f = ', features = ["%s"]' % f
    s += f'{n} = {{ path = "@REPO@/{p}"{f} }}\n'
(d / "demo.toml").write_text((T / "demo_template.toml").read_text().replace("@DEPS@\n", s))
shutil.copy(T / "demo_template.sh", d / "demo.sh")
(d / "demo.sh").chmod(0o755)

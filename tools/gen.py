#!/usr/bin/env python3
import json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).parent))
from registry import *
V = pathlib.Path(__file__).resolve().parent.parent
(V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in PROPS))
ids = [p["id"] for p in PROPS]
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=[dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                      evidence_file=f"evidence/{i}.json", technique=CHECKS[i]["technique"], level=CHECKS[i]["level"],
                      level_note=CHECKS[i]["level_note"]) for i in ids if i in CHECKS],
         not_applicable=na,
         notes="Checks build the harness crates in /verif/sym against /repo's working tree (path dependencies), in the default (sequential) and the parallel feature set, and run them.",
         hooks=dict(guard="ckb_zkp_verif", enable="RUSTFLAGS='--cfg ckb_zkp_verif' (set by check.py and setup.sh)",
                    source_commits=HOOKS))
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in PROPS:
    jsonschema.validate(p, s)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(ids), "properties,", len(m["checks"]), "checks")

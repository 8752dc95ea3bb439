#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the bins that exist."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = json.load(open(os.path.join(here, "tools/techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]; b = i.lower()
    have = any(os.path.exists(f"{here}/{c}/src/bin/{b}.rs") for c in ("mc", "mctls"))
    if have:
        t = TECH.get(i, {})
        checks.append({"property": i,
            "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": t.get("technique", "exhaustive bounded exploration of the real code against a reference model"),
            "level": "model_checking",
            "level_note": t.get("note", "Every case of the finite spaces described in DESIGN.md is executed on the real library and compared with an independent reference model; nothing outside those bounds is claimed.")})
    else:
        na.append({"property": i, "reason": TECH.get(i, {}).get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh",
  "hooks": {"guard": "cfg graviola_verif", "enable": "--cfg graviola_verif in mc/.cargo/config.toml and mctls/.cargo/config.toml: exports the trait HashBlock, so that a harness can implement Hash (C10, C11); everything else uses the public API, a custom getrandom back end (--cfg getrandom_backend=\"custom\", a feature of the getrandom crate) and the library's own GRAVIOLA_CPU_DISABLE_* switches", "source_commits": ["70492444f1092c931a2cfd61dbb17bcb3791c811"]},
  "checks": checks, "not_applicable": na,
  "notes": "check.sh PROP quick|thorough|replay FILE rebuilds from /repo's working tree into /verif/target."},
  open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, subprocess
claimed = {}
exec(open("/verif/tools/claims.py").read())
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = {
  "version": 1,
  "setup_cmd": "bash /verif/setup.sh",
  "hooks": {"guard": "cfg(posy_verif)", "enable": "the wrapper crate /verif/posy-lib compiles /repo/src/main.rs as a library; its build.rs emits cargo:rustc-cfg=posy_verif", "source_commits": HOOKS},
  "checks": [], "not_applicable": [],
  "notes": NOTES,
}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, level, note = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash /verif/check.sh {i}", "thorough_cmd": f"env VERIF_TIER=thorough bash /verif/check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet (work in progress)")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("/verif/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])

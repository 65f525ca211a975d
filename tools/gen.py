#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from properties.toml-like records in tools/properties/*.json.
Run by hand after editing a record; the two files it writes are committed."""
import json, glob, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
recs = [json.load(open(f)) for f in sorted(glob.glob(f"{root}/tools/properties/*.json"))]
mods = open(f"{root}/harness/src/props/mod.rs").read()
with open(f"{root}/properties.jsonl", "w") as out:
    for r in recs:
        p = {k: r[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["id"]
        out.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {
        "guard": "cfg nargun_verif (a rustc --cfg flag, set by no build of the program itself)",
        "enable": "RUSTFLAGS='--cfg nargun_verif' and a path dependency on /repo (see build.sh)",
        "source_commits": ["18014b7", "059b860", "2d64a87"],
    },
    "checks": [],
    "not_applicable": [],
    "notes": "Every check: ./check.sh <id> [quick|thorough]; it builds the harness against /repo as it is, then searches generated cases. ./replay.sh FILE re-runs a reported case. VERIF_SEED selects the random choices. See DESIGN.md.",
}
for r in recs:
    i = r["id"]
    if "not_applicable" in r:
        man["not_applicable"].append({"property": i, "reason": r["not_applicable"]})
        continue
    assert f'"{i}"' in mods, f"{i} has no check"
    man["checks"].append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": r["technique"],
        "level": "exploration",
        "level_note": r["level_note"],
    })
json.dump(man, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
print(len(recs), "properties,", len(man["checks"]), "checks")

"""Writes MANIFEST.json from the checks that exist (contracts/ or conform/ present)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "P22": "The distributed attention ring steps exist only as CUDA kernels (no CPU implementation), their source is outside any verifier available here, and no GPU is present to replay; the pieces it shares with other modules (partitioning, redistribution, halo contracts) are covered by P02 and P19.",
}
NOTES = {}
exec(open(os.path.join(V, "tools", "levels.py")).read())
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA: continue
    c = os.path.exists(os.path.join(V, "contracts", p.lower() + ".py")); f = os.path.exists(os.path.join(V, "conform", p.lower() + ".py"))
    if not (c or f):
        NA[p] = "check under construction"; continue
    lev, tech, note = LEVELS[p]
    checks.append(dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough", evidence_file=f"evidence/{p}.json", technique=tech, level=lev, level_note=note))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())], notes="No hooks in /repo: contracts live in /verif/contracts and are checked against the repository source loaded unmodified on every run.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks], sorted(NA))

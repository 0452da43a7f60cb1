#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in sorted(PROPS.values(), key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
checks = []
for p in sorted(PROPS.values(), key=lambda p: p["id"]):
    if p["harness"] is None:
        NA[p["id"]] = p["note"]; continue
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                   "technique": p["technique"], "level": p["level"],
                   "level_note": (p["note"] or "Holds for every execution inside the stated bounds: " + p["bounds"]["quick"] + " (thorough: " + p["bounds"]["thorough"] + "). Inputs outside the alphabet are not covered. Trusts: " + (" ".join(p["assumptions"]) or "the harness.")).strip()})
m = {"version": 1, "setup_cmd": "python3 run.py --build", "hooks": {"guard": "VP_MODEL_CHECKING", "enable": "No hooks are needed: the checks drive the unmodified sources, compiled by run.py with AddressSanitizer.", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "Generated by tools/gen.py from tools/registry.py and tools/p_*.py."}
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(checks), "checks")

# DESIGN.md: the written part with the tables that follow the registry and the planted changes
import glob
props = []
times = json.load(open(os.path.join(V, "tools", "times.json")))
for p in sorted(PROPS.values(), key=lambda p: p["id"]):
    props.append("**%s %s** (`%s`, %s s). %s Quick: %s. [Thorough: %s.] Tests: %s%s\n" % (p["id"], p["title"], p["harness"], times.get(p["id"], "?"), p["explain"], p["bounds"]["quick"], p["bounds"]["thorough"], p["why"],
                 (" Assumes: " + " ".join(p["assumptions"])) if p["assumptions"] else ""))
metas = sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json")))
seeds = ["| change | property | needs | caught by | at first |", "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
for m in metas:
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m)); c = caught.get(n, {})
    seeds.append("| %s | %s | %s | %s | %s |" % (n, d["property"], d["needs"].replace("|", "/").replace("\n", " "), c.get("by", "?"), c.get("first", "caught")))
t = open(os.path.join(V, "tools", "design.in.md"), encoding="utf-8").read()
t = t.replace("{{PROPERTIES}}", "\n".join(props)).replace("{{SEEDS}}", "\n".join(seeds))
if metas:
    open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8").write(t)

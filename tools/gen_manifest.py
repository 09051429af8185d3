"""Write MANIFEST.json from jobs.PROPS and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from jobs import PROPS
ps = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in ps:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": s.get("technique", "TLA+ specification checked with TLC; traces recorded from the real code validated against it with TLC"),
            "level": "model_checking",
            "level_note": s["note"],
        })
    else:
        na.append({"property": i, "reason": "not claimed yet: its specification module is still being built"})
json.dump({"version": 1, "setup_cmd": "cd harness && cargo build --offline --quiet",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks: every observation goes through public interfaces. See DESIGN.md."},
          open(os.path.join(H, "MANIFEST.json"), "w"), ensure_ascii=False, indent=1)
print(len(checks), "checks", len(na), "not claimed")

"""Writes MANIFEST.json: claims every property that has an entry in harness/cfg.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from cfg import CFG
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PY = "/opt/venv/bin/python"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CFG:
        c = CFG[i]
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick {PY} harness/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough {PY} harness/check.py {i}",
            technique=c.get("technique", "TLA+ specification checked with TLC; TLC-generated behaviours replayed in the code; traces of the code validated by TLC against the specification"),
            level="model_checking",
            level_note=c.get("note", "The design models are explored exhaustively for small constants; the binding to the code is by replayed behaviours and by validation of randomized (seeded) traces, so code behaviour outside the explored inputs is not covered.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na,
         notes="Every check recompiles nothing of datafold (pure Python): the driver processes import /repo's working tree. Specification language: TLA+ (TLC). See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

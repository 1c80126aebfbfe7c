"""One driver process: python worker.py PID seed tier out.ndjson c0 c1 c2 ..."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


def main():
    pid, seed, tier, out, spec = sys.argv[1:6]
    cases = json.loads(spec)
    drv = importlib.import_module("drv_" + pid)
    rec = vlib.Rec(out)
    if hasattr(drv, "replayed"):
        drv.replayed(os.path.join(os.path.dirname(out), "behaviours.ndjson"))
    vlib.run_cases(drv, rec, pid, int(seed), cases, tier)
    rec.close()
    with open(out + ".ops", "w") as f:
        json.dump({"events": rec.n_events, "ops": rec.ops}, f)


main()

"""Adds the "fix:" commits of /repo to known_findings.jsonl:  fixed.py PROPERTY COMMIT   (what = commit subject)"""
import json, os, subprocess, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
def add(pid, commit):
    s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", commit], text=True).strip()
    h, what = s.split(" ", 1)
    what = what.removeprefix("fix: ")
    with open(P, "a") as f:
        f.write(json.dumps({"property": pid, "status": "fixed", "commit": h, "what": what, "entry": f"fixed: property={pid} {h} {what}"}) + "\n")
for a in sys.argv[1:]:
    p, c = a.split(":")
    add(p, c)

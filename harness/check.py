#!/opt/venv/bin/python
"""Decide one property:  check.py PID [--replay FILE]

1. TLC checks the design models of the property exhaustively (small constants).
2. TLC generates behaviours of the specification which are replayed in the code (where the driver asks for it).
3. Driver processes run the code of /repo's working tree on seeded cases and record every call.
4. TLC checks every recorded trace against the trace specification; each failing clause is a violation.
"""
import argparse
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, HERE)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class Machinery(Exception):
    pass


def build():
    """Compile the TLC operator overrides if needed."""
    src = os.path.join(VERIF, "java", "Num.java")
    dst = os.path.join(BUILD, "Num.class")
    if os.path.exists(dst) and os.path.getmtime(dst) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        r = subprocess.run(["javac", "-cp", JARS.split(":")[0], "-d", tmp, src], capture_output=True, text=True)
        if r.returncode:
            raise Machinery("javac: " + r.stderr[:2000])
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(BUILD, f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tlc(module, cfg, work, env=None, workers=1, extra=(), heap="2g", timeout=800):
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", f"-Djava.io.tmpdir={work}", f"-Xmx{heap}", "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
           "-cp", f"{BUILD}:{JARS}", "tlc2.TLC", "-config", cfg, "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-deadlock", *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out = r.stdout + r.stderr
        if r.returncode:
            out = "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing")))
        return r.returncode, out
    except subprocess.TimeoutExpired as t:
        out = t.stdout or b""
        return 124, out.decode() if isinstance(out, bytes) else out
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        m2 = re.findall(r"The number of states generated: ([\d,]+)", out)
        return (int(m2[-1].replace(",", "")), 0) if m2 else (0, 0)
    return tuple(int(x.replace(",", "")) for x in m[-1])


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    res.append(d)
    return res


def matches(kf, clause, ev):
    m = kf["match"]
    if m.get("clause") is not None and m["clause"] != clause:
        return False
    if m.get("op") is not None and m["op"] != ev.get("op"):
        return False
    return all(ev.get("tags", {}).get(k) == v for k, v in m.get("tags", {}).items())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--nomodel", action="store_true")
    ap.add_argument("--show", type=int, default=5)
    a = ap.parse_args()
    pid = a.pid
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    drv_src = importlib.import_module("cfg").CFG[pid]
    W = 1 if a.replay else int(os.environ.get("VERIF_WORKERS", "8"))
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    rc = 2
    try:
        rc = run(a, pid, tier, seed, drv_src, W, work, t0)
    except Machinery as e:
        print("ERROR machinery:", e)
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work dir", work)
    sys.exit(rc)


def run(a, pid, tier, seed, cfg, W, work, t0):
    build()
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               NUMEXPR_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
    n_cases = a.cases or cfg["cases"][tier]
    replay_case = None
    if a.replay:
        rp = json.load(open(a.replay))
        seed, tier, replay_case = rp["seed"], rp["tier"], rp["case"]
    pool = ThreadPoolExecutor(16)
    model_stats = []

    # --- 1. design models
    def run_model(m):
        mod, c = m["module"], m["cfg"]
        code, out = tlc(mod, c, work, env={"WORKDIR": work}, workers=m.get("workers", 2), extra=m.get("extra", ()), timeout=m.get("timeout", 780))
        if code != 0:
            raise Machinery(f"design model {mod}/{c}: TLC exit {code}\n{out[-3000:]}")
        return {"model": c, "generated": stats(out)[0], "distinct": stats(out)[1]}

    models = [] if (a.replay or a.nomodel) else [m for m in cfg.get("models", []) if tier == "thorough" or not m.get("thorough")]
    model_fut = [pool.submit(run_model, m) for m in models]

    # --- 2. behaviours generated by TLC from the specification
    n_beh = 0
    gen = cfg.get("gen")
    if gen:
        num_b = gen["num"][tier]
        path = os.path.join(work, "behaviours.ndjson")
        open(path, "w").close()
        if gen.get("bfs"):
            extra = ()
        else:
            extra = ("-simulate", f"num={num_b}", "-depth", str(gen["depth"]), "-seed", str(seed))
        code, out = tlc(gen["module"], gen["cfg"], work, env={"BEH": path}, workers=1, extra=extra, timeout=600)
        if code != 0:
            raise Machinery(f"behaviour generation {gen['module']}: TLC exit {code}\n{out[-3000:]}")
        g = stats(out)
        if gen.get("bfs"):      # all configurations of the bounded model; the quick tier takes a seeded sample
            lines = sorted(set(x for x in open(path) if x.strip()))
            random.Random(seed).shuffle(lines)
            open(path, "w").write("".join(lines[:num_b]))
        n_beh = sum(1 for line in open(path) if line.strip())
        model_stats.append({"model": gen["cfg"], "generated": g[0], "distinct": g[1], "behaviours": n_beh})

    # --- 3./4. drivers and trace validation
    if replay_case is not None:
        parts = [[replay_case]]
    else:
        all_cases = list(range(n_cases)) + [100000 + k for k in range(n_beh)]
        parts = [all_cases[k::W] for k in range(W)]
    spec = cfg["spec"]

    def run_part(k):
        out_f = os.path.join(work, f"trace{k}.ndjson")
        r = subprocess.run([PY, os.path.join(HERE, "worker.py"), pid, str(seed), tier, out_f, json.dumps(parts[k])],
                           env=env, capture_output=True, text=True, timeout=860)
        if r.returncode != 0:
            raise Machinery(f"driver worker {k} exit {r.returncode}\n{r.stdout[-1500:]}\n{r.stderr[-3000:]}")
        ops = json.load(open(out_f + ".ops"))
        n_lines = ops["events"]
        code, out = tlc(spec, spec + ".cfg", work, env={"TRACE": out_f}, workers=1, heap="3g", timeout=840)
        vio = [(int(x), c) for x, c in re.findall(r'<<"VIO", (\d+), "([^"]*)">>', out)]
        if code == 0 and "Model checking completed" in out:
            gen_n, dist = stats(out)
            if dist != n_lines + 1:
                raise Machinery(f"trace {k}: TLC consumed {dist - 1} of {n_lines} events")
        else:
            if code == 124 or re.search(r"OutOfMemory|StackOverflow|Parse Error|Could not|Unknown operator|Semantic error", out):
                raise Machinery(f"trace spec {spec} worker {k}: TLC exit {code}\n{out[-3000:]}")
            ls = re.findall(r"^/?\\?\s*l = (\d+)|^/\\ l = (\d+)", out, re.M)
            nums = [int(x or y) for x, y in ls]
            if not nums:
                raise Machinery(f"trace spec {spec} worker {k}: TLC exit {code}\n{out[-3000:]}")
            # the event is outside the domain on which the specification is defined
            msg = [m for m in out.splitlines() if m.strip()]
            i = next((q for q, m in enumerate(msg) if m.startswith("Error:")), 0)
            vio.append((nums[-1], "outside_specified_domain"))
            print("note: TLC could not evaluate event", nums[-1], " ".join(msg[i:i + 6])[:600])
            gen_n, dist = nums[-1], nums[-1]
        events = None
        if vio or k == 0:
            events = open(out_f).read().splitlines()
        res = []
        for ln, clause in vio:
            res.append((clause, json.loads(events[ln - 1])))
        sample = [x[:1500] for x in events[:6]] if k == 0 else []
        return {"ops": ops["ops"], "events": n_lines, "vio": res, "gen": gen_n, "dist": dist, "sample": sample}

    futs = [pool.submit(run_part, k) for k in range(len(parts)) if parts[k]]
    results = [f.result() for f in futs]
    model_stats += [f.result() for f in model_fut]

    # --- verdict
    kfs = known_findings(pid)
    hit, vios = {}, []
    for r in results:
        for clause, ev in r["vio"]:
            k = next((i for i, kf in enumerate(kfs) if matches(kf, clause, ev)), None)
            if k is None:
                vios.append((clause, ev))
            else:
                hit.setdefault(k, (clause, ev))
    ops = {}
    for r in results:
        for o, n in r["ops"].items():
            ops[o] = ops.get(o, 0) + n
    n_ev = sum(r["events"] for r in results)
    states = sum(m["distinct"] for m in model_stats) + sum(r["dist"] for r in results)
    trans = sum(m["generated"] for m in model_stats) + sum(r["gen"] for r in results)
    if not a.replay:
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": states, "transitions": trans,
                "traces_validated_against_impl": sum(len(p) for p in parts),
                "trace_events": n_ev, "events_per_operation": ops,
                "design_models": model_stats, "behaviours_replayed": n_beh,
                "samples": [s for r in results for s in r["sample"]][:6],
            },
            "assumptions": cfg.get("assumptions", ["numpy, scipy, pandas and TLC compute correctly; observed results are exact up to the stated tolerances"]),
            "wall_s": round(time.time() - t0, 2), "violations": len(vios),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for i, kf in enumerate(kfs):
        if i in hit or (not a.replay):
            print(f"KNOWN-FINDING: property={pid} {kf['what']}" + ("" if i in hit else " (not reached in this run)"))
    print(f"{pid}: {sum(len(p) for p in parts)} traces, {n_ev} events, {states} states, {trans} transitions, {time.time()-t0:.1f}s; models {model_stats}")
    if not vios:
        return 0
    rdir = os.path.join(BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    summary = {}
    for clause, ev in vios:
        summary.setdefault((ev.get("op"), clause), []).append(ev)
    for (op, clause), evs in sorted(summary.items(), key=lambda x: -len(x[1])):
        print(f"  {len(evs):5d} x op={op} clause={clause} cases={sorted({e['c'] for e in evs})[:8]}")
    shown = 0
    for (op, clause), evs in summary.items():
        e = evs[0]
        p = os.path.join(rdir, f"{pid}-{seed}-{e['c']}-{re.sub(r'[^A-Za-z0-9]+', '_', clause)}.json")
        with open(p, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "case": e["c"], "clause": clause, "op": op, "event": e,
                       "how": f"cd /verif && {PY} harness/check.py {pid} --replay {p}"}, f, indent=1)
        if shown < 20:
            print(f"VIOLATION property={pid} replay={p}")
        shown += 1
    return 1


main()

"""Executes behaviours that TLC generated from MC_COL on the real collections."""
import json

import colops
from vlib import *  # noqa
import vlib
from datafold.pcfold.timeseries.collection import InitialCondition

BEH = []


def load(path):
    BEH.clear()
    with open(path) as f:
        for line in f:
            if line.strip():
                BEH.append(json.loads(json.loads(line)))


def fvals(v):
    return [float(x) for x in v]


def replay_case(rng, rec, k):
    import pandas as pd
    beh = BEH[k]
    c = colops.Col(rng, rec, gen_clock(rng, "iifd"))
    if c.ck.kind == "f":      # exact arithmetic: selections by time value are replayed literally
        c.ck.q = 0.25
    ck = c.ck
    e = beh[0]
    c.mk_raw([[r[0], r[1], fvals(r[2])] for r in e["rows"]], list(e["cols"]))
    for e in beh[1:]:
        op = e["op"]
        if e["h"] not in c.o or any(g not in c.o for g in e.get("chs", [])):
            return      # an earlier step deviated (already reported)
        h = e["h"]
        if op in ("loc.set", "col.set", "normalize_time", "shift_delta", "shift_per", "assign_ids_sequential"):
            c.o[h] = c.o[h].copy()
        X = c.o[h]
        extra = {x: y for x, y in e.items() if x not in ("op", "h")}
        new = op not in colreplay_inplace and op not in ("windows", "assign_ids_train_test", "shift_matrices")
        if op == "copy":
            out, err = call(X.copy)
        elif op == "select_time_values":
            out, err = call(X.select_time_values, ck.arr(e["times"]))
        elif op == "initial_states":
            out, err = call(X.initial_states, e["n"])
        elif op == "final_states":
            out, err = call(X.final_states, e["n"])
        elif op == "ic.from_tsc":
            out, err = call(InitialCondition.from_tsc, X, e["n"])
        elif op == "getcols":
            out, err = call(lambda: X[e["cols"]])
        elif op == "loc.ids":
            if not set(e["ids"]) <= {r[0] for r in c.rows(X)}:
                return
            out, err = call(lambda: X.loc[e["ids"], :])
        elif op == "iloc.rows":
            out, err = call(lambda: X.iloc[e["a"] - 1:e["b"], :])
        elif op == "insert_ts":
            df = pd.DataFrame([fvals(r[1]) for r in e["frame"]], index=ck.arr([r[0] for r in e["frame"]]), columns=list(X.columns))
            extra["tk"] = ck.kind
            b = df.copy()
            out, err = call(X.insert_ts, df, e["id"])
            extra["argsame"] = colops.frame_same(b, df)
        elif op == "concat":
            out, err = call(lambda: pd.concat([c.o[g] for g in e["chs"]], axis=0))
        elif op == "col.set":
            def f():
                X[e["col"]] = np.array(fvals(e["vals"]))
                return X
            out, err = call(f)
        elif op == "loc.set":
            if [e["id"], e["t"]] not in [r[:2] for r in c.rows(X)]:
                return          # the IDs are assigned in another order than in the model
            def f():
                X.loc[[k for k, r in zip(X.index, c.rows(X)) if r[:2] == [e["id"], e["t"]]][0], e["col"]] = float(e["val"])
                return X
            out, err = call(f)
        elif op == "assign_ids_sequential":
            out, err = call(X.tsc.assign_ids_sequential)
        elif op == "normalize_time":
            if ck.kind != "i" or ck.q != 1:
                return          # changes the time unit: replayed on the plain clock only
            out, err = call(X.tsc.normalize_time)
        elif op == "drop_last":
            out, err = call(X.tsc.drop_last_n_samples, e["n"])
        elif op == "shift_delta":
            if ck.kind == "d" and (e["d"] == 0 or min(r[1] for r in c.rows(X)) + e["d"] < 0):
                return
            out, err = call(X.tsc.shift_time_by_delta, ck.delta(e["d"]))
        elif op == "shift_per":
            if ck.kind == "d":
                return
            if e["shift"]:
                ser = pd.Series([ck.delta(x[1]) for x in e["shift"]], index=pd.Index([x[0] for x in e["shift"]]))
                out, err = call(X.tsc.shift_time_per_time_series, ser)
            else:
                out, err = call(X.tsc.shift_time_per_time_series)
        elif op == "fill_last":
            out, err = call(X.tsc.fill_timeseries_with_last_state, e["n"])
        elif op == "windows":
            out, err = call(lambda: list(X.tsc.iter_timevalue_window(window_size=e["w"], offset=e["o"], per_time_series=e["per"])))
            extra["outs"] = [c.p(x) for x in out] if err == "" else []
            out = None
        elif op == "assign_ids_train_test":
            out, err = call(X.tsc.assign_ids_train_test, np.array(e["train"], dtype=int), np.array(e["test"], dtype=int), return_dropped=True)
            extra["outs"] = [c.p(x) for x in out] if err == "" else [vlib.EMPTY] * 3
            out = None
        elif op == "shift_matrices":
            out, err = call(X.tsc.shift_matrices, snapshot_orientation="row")
            extra["left"], extra["right"] = (mat(out[0]), mat(out[1])) if err == "" else ([], [])
            out = None
        else:
            raise ValueError(op)
        hs = [h] + [g for g in e.get("chs", []) if g != h]
        c.emit(op, hs, out=out, new=new, err=err, **extra)


colreplay_inplace = {"loc.set", "col.set", "assign_ids_sequential", "shift_delta", "shift_per", "normalize_time"}

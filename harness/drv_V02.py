from vlib import *  # noqa
import vlib
import colops
from datafold.pcfold.timeseries.metric import TSCMetric, TSCScoring

METRICS = ["rmse", "rrmse", "mse", "mape", "mae", "medae", "max", "l2", "linf"]


def gen_pair(rng):
    ck = gen_clock(rng)
    kind = rng.integers(0, 4)
    kw = [dict(same=True), dict(equal_len=True), {}, dict(regular=True)][kind]
    n = int(rng.integers(1, 5))
    ids = gen_ids(rng, n)
    lay = gen_layout(rng, n_series=n, ids=ids, max_len=5, **kw)
    cols = gen_cols(rng, int(rng.choice([1, 2, 3])))
    m = sum(len(t) for _, t in lay)
    A = rng.normal(size=(m, len(cols))) * rng.choice([1.0, 10.0, 0.1]) + rng.choice([0, 0, 5])
    A[np.abs(A) < 1e-3] = 0.5
    if rng.random() < 0.05:
        A[:, 0] = 3.0
    same = rng.random() < 0.15
    B = A if same else A + rng.normal(size=A.shape) * rng.choice([1, 0.1, 1e-3])
    yt, yp = build(lay, cols, A, ck), build(lay, cols, B, ck)
    q = rng.integers(0, 25)
    if q == 0 and m > 1:
        idx = yp.index.tolist()
        yp = build([(i + 1, t) for i, t in lay], cols, B, ck)
    elif q == 1:
        yp = yp.rename(columns={cols[0]: "zz"})
    elif q == 2 and len(cols) > 1:
        yp = yp[cols[::-1]]
    elif q == 3:
        yp.iloc[0, 0] = rng.choice([np.nan, np.inf])
        same = False
    elif q == 4:
        lay2 = [(i, [x + 1 for x in t]) if k == n - 1 else (i, t) for k, (i, t) in enumerate(lay)]
        yp = build(lay2, cols, B, ck)
    return yt, yp, ck, lay, same and q > 4


def case(rng, rec, i, tier):
    yt, yp, ck, lay, same = gen_pair(rng)
    P = [vlib.proj(yt, ck), vlib.proj(yp, ck)]
    n, m, d = len(lay), yt.shape[0], yt.shape[1]
    asc = [a for a, _ in lay] == sorted(a for a, _ in lay)
    for _ in range(4):
        metric, mode = str(rng.choice(METRICS)), str(rng.choice(["timeseries", "timestep", "feature"]))
        scaling = str(rng.choice(["id", "id", "min-max", "standard", "l2_normalize"]))
        if metric in ("rrmse", "mape") and scaling != "id":
            scaling = "l2_normalize" if rng.random() < 0.5 else "id"
        mo = str(rng.choice(["raw", "uniform", "uniform", "weights"]))
        if mo == "weights" and metric == "rrmse":
            mo = "raw"
        fw = rng.integers(1, 5, size=d).astype(float)
        sw = None
        if rng.random() < 0.35 and (asc or mode != "timestep"):
            k = {"timeseries": len(lay[0][1]), "timestep": n, "feature": m}[mode] + int(rng.choice([0, 0, 0, 0, 1]))
            sw = rng.integers(1, 6, size=k).astype(float)
        arg = {"raw": "raw_values", "uniform": "uniform_average", "weights": fw}[mo]
        base = dict(yt=P[0], yp=P[1], metric=metric, mode=mode, scaling=scaling, mo=mo, fw=vec(fw), sw=[] if sw is None else vec(sw), same=bool(same))
        if rng.random() < 0.65:
            out, err = call(lambda: TSCMetric(metric, mode, scaling)(yt, yp, sample_weight=None if sw is None else sw.copy(), multioutput=arg))
            ev = dict(labels=[], fcols=[], vals=[])
            if err == "":
                if mode == "timeseries":
                    ev["labels"] = [small_int(x) for x in out.index]
                elif mode == "timestep":
                    ev["labels"] = [ck.tick(x) for x in out.index]
                else:
                    ev["labels"] = [str(x) for x in out.index]
                ev["vals"] = mat(out.to_numpy())
                if isinstance(out, pd.DataFrame):
                    ev["fcols"] = [str(x) for x in out.columns]
            rec.ev("metric", err=err, argsame=P == [vlib.proj(yt, ck), vlib.proj(yp, ck)], **base, **ev)
        else:
            if mo == "raw":
                mo, arg = "uniform", "uniform_average"
                base["mo"] = mo
            greater = bool(rng.random() < 0.4)
            k = {"timeseries": n, "timestep": len({t for _, ts in lay for t in ts}), "feature": d}[mode]
            cw = rng.integers(1, 6, size=k).astype(float) if rng.random() < 0.4 else None
            kw = {} if mo == "uniform" and rng.random() < 0.5 else dict(multioutput=arg)
            if sw is not None:
                kw["sample_weight"] = sw.copy()
            out, err = call(lambda: TSCScoring(TSCMetric(metric, mode, scaling), greater_is_better=greater, **kw)(yt, yp, sample_weight=cw))
            rec.ev("score", err=err, argsame=P == [vlib.proj(yt, ck), vlib.proj(yp, ck)], greater=greater, cw=[] if cw is None else vec(cw),
                   score=num(out) if err == "" else "nan", **base)

import colops
from vlib import *  # noqa
import vlib
from datafold.dynfold.transform import TSCTakensEmbedding, TSCMovingAverage
from datafold.dynfold.transform import TSCFiniteDifference

FD = [("center", 1, 2), ("center", 1, 4), ("center", 2, 2), ("center", 2, 4), ("center", 3, 2), ("forward", 1, 2), ("forward", 1, 4),
      ("forward", 2, 2), ("backward", 1, 2), ("backward", 1, 4), ("backward", 2, 2)]


def spacing(X):
    d = X.delta_time
    return float(d) if np.ndim(d) == 0 else float("nan")


def amax(X):
    return float(np.max(np.abs(X.to_numpy()))) + 1.0


def derivative(c):
    h = c.any()
    X = c.o[h]
    if c.ck.kind == "d":
        return
    s, o, a = FD[int(c.rng.integers(0, len(FD)))]
    sp = spacing(X)
    tr = c.rng.random() < 0.4
    shift = bool(tr or c.rng.random() < 0.4)
    if tr:
        arg = float(sp) if (c.rng.random() < 0.3 and np.isfinite(sp)) else "dt"
        out, err = call(lambda: TSCFiniteDifference(spacing=arg, scheme=s, diff_order=o, accuracy=a).fit_transform(X))
    else:
        out, err = call(X.tsc.time_derivative, scheme=s, diff_order=o, accuracy=a, shift_index=shift)
    cols = [str(x) for x in X.columns] if not tr else ([str(x) for x in out.columns] if err == "" else [])
    at = num(1e-9 * amax(X) / sp**o) if np.isfinite(sp) else "0"
    c.emit("time_derivative", [h], out=out, err=err, scheme=s, order=o, acc=a, shift=shift, spacing=num(sp), cols=cols, atol=at)


def takens(c):
    h = c.any()
    X = c.o[h]
    r = c.rng
    delays = int(r.choice([1, 1, 2, 2, 3, 4]))
    lag = int(r.choice([0, 0, 0, 1, 2]))
    freq = int(r.choice([1, 1, 2, 3])) if delays > 1 else 1
    kappa = float(r.choice([0, 0, 0.5, 1.5, 0.01]))
    kind = r.choice(["fit_transform", "fit.transform", "other"])
    est = TSCTakensEmbedding(delays=delays, lag=lag, frequency=freq, kappa=kappa)
    Xf = X

    def f():
        if kind == "fit_transform":
            return est.fit_transform(X)
        est.fit(Xf)
        return est.transform(X)

    if kind == "other":      # fitted on another collection with the same features and sampling
        Xf = X.copy()
        Xf.iloc[:, :] = r.normal(size=X.shape)
    out, err = call(f)
    c.emit("takens", [h], out=out, err=err, delays=delays, lag=lag, freq=freq, kappa=num(kappa))


def moving(c):
    h = c.any()
    X = c.o[h]
    w = int(c.rng.choice([1, 2, 2, 3, 4]))
    out, err = call(lambda: TSCMovingAverage(window=w).fit_transform(X))
    c.emit("moving_average", [h], out=out, err=err, w=w, atol=num(1e-10 * amax(X)))


def case(rng, rec, i, tier):
    c = colops.Col(rng, rec, gen_clock(rng))
    m = rng.integers(0, 6)
    kw = dict(regular=True, min_len=1, max_len=9) if m < 4 else {} if m == 4 else dict(regular=True, min_len=4, max_len=12)
    c.gen_new(**kw)
    if rng.random() < 0.5:
        c.gen_new(regular=True, min_len=3, max_len=8)
    if rng.random() < 0.4:      # slices (stale levels), shuffled order of series
        c.loc_ids()
        c.iloc_rows()
    for _ in range(8):
        q = rng.integers(0, 4)
        [lambda: c.shift_matrices(), lambda: derivative(c), lambda: takens(c), lambda: moving(c)][q]()

from modops import *  # noqa


def ic(rng, c, t0, ids=None, n=None):
    """initial conditions at tick t0"""
    k = int(rng.choice([1, 1, 2, 3])) if ids is None else len(ids)
    ids = gen_ids(rng, k) if ids is None else ids
    return mkts([(i, [t0], np.round(rng.normal(size=(1, n or c.n)), 3)) for i in ids], c.cols, c.ck), ids


def times(rng, c, t0):
    """ascending ticks from t0 on; whole or broken sampling intervals"""
    k = int(rng.choice([1, 2, 2, 3, 5]))
    whole = c.mode == "matrix" and c.typ == "flowmap" and rng.random() < 0.5 or rng.random() < 0.5
    step = c.d if whole else 1
    ks = sorted(set(int(x) for x in rng.integers(0, 9, size=k)))
    if rng.random() < 0.6:
        ks[0] = 0
    return sorted(set(t0 + step * q for q in ks))


def as_tv(rng, c, ticks):
    tv = c.ck.arr(ticks)
    if rng.random() < 0.2:
        return list(tv) if c.ck.kind != "d" else tv
    if rng.random() < 0.15 and c.ck.kind == "f" and all(float(x).is_integer() for x in tv):
        return tv.astype(int)
    return tv


def one(rng, c):
    t0 = int(rng.choice([0, 0, 3, 7])) * c.d
    bad = str(rng.choice([""] * 24 + ["smaller", "unsorted", "dup", "neg", "names", "order", "nan", "ncols", "twotimes", "dupid", "twosamples", "nan_t", "withu", "2d"]))
    X, ids = ic(rng, c, t0)
    ticks = times(rng, c, t0)
    tv = None if rng.random() < 0.2 else as_tv(rng, c, ticks)
    kw = {}
    np_x = rng.random() < 0.25
    if c.mode == "spectral" and rng.random() < 0.15 and not bad:
        D = np.round(rng.normal(size=(int(rng.integers(1, 4)), c.n)), 2)
        names = [f"q{j}" for j in range(len(D))]
        a = dict(post_map=D) if rng.random() < 0.5 else dict(modes=D @ c.est.eigenvectors_right_)
        kw = dict(post=D, outcols=names, feature_columns=names if rng.random() < 0.5 else pd.Index(names), **a)
    if bad == "smaller":
        X, ids = ic(rng, c, t0 + 4 * c.d)
        tv = c.ck.arr([t0] + [t0 + 4 * c.d + q * c.d for q in range(2)])
        np_x = False
    elif bad == "unsorted":
        tv = c.ck.arr([t0 + 2 * c.d, t0 + c.d])
    elif bad == "dup":
        tv = c.ck.arr([t0, t0 + c.d, t0 + c.d])
    elif bad == "neg":
        if c.ck.kind == "d":
            return
        tv, np_x = c.ck.arr([-2, -1]), True
    elif bad in ("names", "order"):
        if bad == "order" and c.n < 2:
            return
        X = pd.DataFrame(X)
        X.columns = ["q"] + list(X.columns[1:]) if bad == "names" else list(X.columns[::-1])
        X, np_x = TSCDataFrame(X), False
    elif bad == "nan":
        X = X.copy()
        X.iloc[int(rng.integers(len(X))), int(rng.integers(c.n))] = float(rng.choice([np.nan, np.inf]))
    elif bad == "ncols":
        X = TSCDataFrame(pd.DataFrame(X).assign(extra=1.0)) if rng.random() < 0.5 or c.n == 1 else X.iloc[:, :-1]
    elif bad == "twotimes":
        i = max(ids) + 1
        X = mkts([(q, [t0], np.ones((1, c.n))) for q in ids] + [(i, [t0 + c.d], np.ones((1, c.n)))], c.cols, c.ck)
        np_x = False
    elif bad == "twosamples":
        X = mkts([(q, [t0, t0 + c.d], np.ones((2, c.n))) for q in ids], c.cols, c.ck)
        tv, np_x = c.ck.arr([t0 + c.d, t0 + 2 * c.d]), False
    elif bad == "dupid":
        np_x = False
        idx = pd.MultiIndex.from_arrays([[ids[0]] * 2, c.ck.arr([t0, t0])])
        Y, e = call(lambda: TSCDataFrame(np.ones((2, c.n)), index=idx, columns=c.cols))
        if e:
            return
        X = Y
    elif bad == "withu":
        kw = dict(U=mkts([(q, [t0, t0 + c.d], np.ones((2, 1))) for q in ids], ["u"], c.ck))
        np_x = False
    elif bad == "nan_t":
        if c.ck.kind != "f":
            return
        tv = np.array([0.0, np.nan])
        x = X.to_numpy() if np_x else X
        _, err = call(lambda: c.est.predict(x, time_values=tv))
        c.rec.ev("reject", what="nan_t", err=err)
        return
    elif bad == "2d":
        _, err = call(lambda: c.est.predict(X, time_values=c.ck.arr(ticks)[None, :]))
        c.rec.ev("reject", what="2d", err=err)
        return
    if np_x:
        if c.ck.kind == "d" and tv is None:
            return
        X = X.to_numpy()
        if len(X) == 1 and rng.random() < 0.4 and bad == "":
            X = X[0]
    c.predict(X, tv=tv, **kw)


def case(rng, rec, i, tier):
    c = Case(rng, rec, ["std", "std", "std", "gfull", "pre", "pre"], noise=True if rng.random() < 0.3 else None)
    if c.cls == "std" and not c.truthful:
        c.truthful = True
        c.build_data()
    c.do_fit(record=False)
    if not c.ok:
        return
    for _ in range(int(rng.integers(2, 4))):
        one(rng, c)

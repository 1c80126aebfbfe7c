from estops import *  # noqa

KINDS = ["identity", "preprocess", "select", "pca", "takens", "rbf", "poly", "lambdas", "ma", "ct", "pipe"]
NOREJ = ("pca", "pipe")


def clean(k):
    return {a: b for a, b in k.items()}


def case(rng, rec, i, tier):
    cls = KINDS[i % len(KINDS)]
    ck = gen_clock(rng)
    typ = "tsc" if cls in TSC_ONLY else str(rng.choice(["tsc", "tsc", "df", "np"]))
    cols = gen_cols(rng, int(rng.choice([1, 2, 3, 3])))
    k = gen_k(rng, cls, cols)
    mn = 8
    dl = int(rng.choice([1, 2]))
    irregular = cls in ("identity", "preprocess", "pca", "rbf", "poly", "lambdas", "select") and rng.random() < 0.4
    kw = dict(min_len=1, max_len=6, regular=False, n_series=int(rng.integers(2, 4))) if irregular else dict(min_len=mn, max_len=mn + 2, delta=dl)
    D = gen_data(rng, ck, cols, typ, **kw)
    X = D if rng.random() < 0.3 else gen_data(rng, ck, cols, typ, **kw)
    if cls == "ct":
        k["subs"] = [s if s["cls"] != "pca" else dict(cls="preprocess", name="standard", cols=s["cols"]) for s in k["subs"]]
    if cls == "pipe":
        if k["subs"][1]["cls"] in ("pca", "rbf"):
            k["subs"][1] = gen_k(rng, str(rng.choice(["takens", "poly", "lambdas"])), cols)
    if cls == "pca":
        k["n"] = min(k["n"], D.shape[0])
    fitkw = {}
    if cls == "rbf":
        k["n"] = max(2, min(k["n"], D.shape[0]))
        if k["center"] == "initial_condition" and (typ != "tsc" or len(D.ids) < 2):
            k["center"] = "all_data"
        if k["center"] == "all_data" and D.shape[0] > 9:
            k["center"] = "random"
        if k["center"] == "random" and rng.random() < 0.3:
            k["center"] = "fit_params"
            fitkw = dict(centers=np.round(rng.normal(size=(int(rng.integers(2, 5)), len(cols))), 2))
        if k["center"] == "all_data" and D.shape[0] < 2:
            k["center"], fitkw = "fit_params", dict(centers=np.round(rng.normal(size=(3, len(cols))), 2))
    est = mk(k)()
    mode = rng.random()
    Df, Xf = frame(D, ck), frame(X, ck)
    if mode < 0.35:
        X, Xf = D, Df
        R, err = call(lambda: est.fit_transform(D, **fitkw))
    else:
        R, err = call(lambda: est.fit(D, **fitkw).transform(X))
    ev = dict(mean=[], centers=[])
    k = dict(k)
    if cls == "pca":
        k["comp"] = mat(est.components_) if err == "" else []
        ev["mean"] = vec(est.mean_) if err == "" else []
    if cls == "rbf":
        if fitkw:
            k["centers"] = mat(fitkw["centers"])
        else:
            k["centers"] = mat(est.centers_) if hasattr(est, "centers_") else []
        ev["centers"] = mat(est.centers_) if hasattr(est, "centers_") else []
    rec.ev("trv", k=k, D=Df, X=Xf, R=frame(R, ck) if err == "" else NOFRAME, err=err, how="fit_transform" if mode < 0.35 else "transform", **ev)
    if err != "" or cls not in HAS_INV:
        return
    # inverse of other coordinates
    if rng.random() < 0.6:
        V = np.round(rng.normal(size=R.shape), 3)
        Y = V
        if isinstance(R, pd.DataFrame):
            Y = type(R)(pd.DataFrame(V, index=R.index, columns=[str(c) for c in R.columns]))
        Q, err = call(lambda: est.inverse_transform(Y))
        rec.ev("inv", k=k, D=Df, Y=frame(Y, ck), R=frame(Q, ck) if err == "" else NOFRAME, err=err)
    if cls == "rbf":
        if len(est.centers_) > 9 or len(np.unique(est.centers_, axis=0)) < len(est.centers_):
            return
        C = est.centers_
        dmin = min(np.linalg.norm(C[a] - C[b]) for a in range(len(C)) for b in range(a))
        if np.linalg.cond(est.kernel(C)) > 1e6 or dmin < 1e-6:
            return
        T, e1 = call(lambda: est.transform(C.copy()))
        Q, err = call(lambda: est.inverse_transform(T))
        rec.ev("round", k=k, D=Df, X=frame(C, ck), T=frame(T, ck), R=frame(Q, ck) if err == "" and e1 == "" else NOFRAME, err=err or e1)
        return
    T, e1 = call(lambda: est.transform(X))
    Q, err = call(lambda: est.inverse_transform(T))
    rec.ev("round", k=k, D=Df, X=Xf, T=frame(T, ck) if e1 == "" else NOFRAME, R=frame(Q, ck) if err == "" and e1 == "" else NOFRAME, err=err or e1)

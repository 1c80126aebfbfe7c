from modops import *  # noqa


def spoil(rng, c):
    """data that must be rejected"""
    X, U = c.X, c.U
    s = str(rng.choice(["gap", "single", "nan", "df", "u_missing", "u_extra", "u_ids", "u_shift", "u_order"] if U is not None else ["gap", "single", "nan", "df", "spacing"]))
    if s == "gap":
        p = int(rng.integers(1, max(2, len(c.xs[0][1]) - 1)))
        i, t, x = c.xs[0]
        if len(t) < 4:
            return None
        keep = [q for q in range(len(t)) if q != p]
        X = mkts([(i, [t[q] for q in keep], x[keep])] + c.xs[1:], c.cols, c.ck)
    elif s == "single":
        nid = max(i for i, _, _ in c.xs) + 1
        X = mkts(c.xs + [(nid, [c.xs[0][1][0]], np.ones((1, c.n)))], c.cols, c.ck)
        if U is not None and c.cls == "affine":
            U = mkts(c.us + [(nid, [c.xs[0][1][0]], np.ones((1, c.nu)))], c.ucols, c.ck)
    elif s == "spacing":
        nid = max(i for i, _, _ in c.xs) + 1
        t = [2 * c.d * q for q in range(4)]
        X = mkts(c.xs + [(nid, t, rng.normal(size=(4, c.n)))], c.cols, c.ck)
    elif s == "nan":
        X = X.copy()
        X.iloc[int(rng.integers(len(X))), 0] = float(rng.choice([np.nan, np.inf]))
    elif s == "df":
        X = pd.DataFrame(X)
    elif s == "u_missing":
        if len(U) < 3:
            return None
        U = U.iloc[[q for q in range(len(U)) if q != int(rng.integers(len(U)))], :]
        if rng.random() < 0.3:
            U = TSCDataFrame(pd.DataFrame(U).iloc[:-1])
    elif s == "u_extra":
        i, t, u = c.us[-1]
        U = mkts(c.us[:-1] + [(i, t + [t[-1] + c.d], np.vstack([u, u[-1:]]))], c.ucols, c.ck)
    elif s == "u_ids":
        mp = {i: i + 20 for i, _, _ in c.us[-1:]}
        U = mkts([(mp.get(i, i), t, u) for i, t, u in c.us], c.ucols, c.ck)
    elif s == "u_shift":
        U = mkts([(i, [q + c.d for q in t], u) for i, t, u in c.us], c.ucols, c.ck)
    elif s == "u_order":
        if len(c.us) < 2:
            return None
        U = mkts(c.us[::-1], c.ucols, c.ck)
    return X, U


def case(rng, rec, i, tier):
    c = Case(rng, rec, ["std", "std", "std", "gfull", "ctrl", "ctrl", "affine"])
    if rng.random() < 0.2:
        s = spoil(rng, c)
        if s is not None:
            c.do_fit(X=s[0], U=s[1])
            return
    w = None
    if c.cls == "std" and not c.rank and rng.random() < 0.4:
        w = np.round(rng.uniform(0.1, 3, size=sum(len(t) - 1 for _, t, _ in c.xs)), 3)
        if rng.random() < 0.1:
            w = np.append(w, 1.0)
    c.do_fit(w=w, store=c.cls in ("std", "gfull") and rng.random() < 0.7)

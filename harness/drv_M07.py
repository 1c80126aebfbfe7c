from edmops import *  # noqa
from drv_M06 import pick_qois
from datafold.pcfold import InitialCondition


def layout(rng, c):
    """series to reconstruct: own ids, lengths and start times"""
    k = int(rng.choice([1, 2, 3, 4]))
    mode = str(rng.choice(["same", "start", "len", "mix", "mix"]))
    out = []
    for i in gen_ids(rng, k):
        s = int(rng.choice([0, 2, 3]) if mode in ("start", "mix") else 2) * c.d
        L = int(rng.integers(2, 6) if mode in ("len", "mix") else 4)
        out.append((i, [s + c.d * q for q in range(L)], np.round(rng.normal(size=(L, c.n)), 3)))
    return out


def recon(rng, rec, c):
    ser = layout(rng, c)
    U = None
    if c.nu:
        L = 4
        if c.cls == "affine":
            ser = [(i, [t[0] + c.d * q for q in range(L + len(t) - 2)], np.vstack([x] * 3)[: L + len(t) - 2]) for i, t, x in ser]
        us = []
        for i, t, x in ser:
            if c.cls == "affine":
                tt = np.arange(len(t)) / (len(t) - 1)
                a = 0.5 * rng.normal(size=(3, c.nu))
                us.append((i, t, a[0] + np.outer(tt, a[1]) + np.outer(tt**2, a[2])))
            else:
                us.append((i, t[:-1], np.round(rng.normal(size=(len(t) - 1, c.nu)), 3)))
        if rng.random() < 0.1:
            us = us[::-1]
        U = mkts(us, c.ucols, c.ck)
    X = mkts(ser, c.cols, c.ck)
    s = str(rng.choice([""] * 10 + ["names", "nan", "single"]))
    if s == "names":
        X = TSCDataFrame(pd.DataFrame(X).rename(columns={c.cols[0]: "q"}))
    elif s == "nan":
        X = X.copy()
        X.iloc[0, 0] = np.nan
    elif s == "single" and not c.nu:
        X = mkts(ser + [(99, [0], np.ones((1, c.n)))], c.cols, c.ck)
    c.recon(X, U)


def iterate(rng, rec):
    ck = clock(rng, "fffid")
    d = int(rng.choice([1, 2, 3]))
    n = int(rng.choice([1, 1, 2, 3]))
    k = int(rng.choice([1, 2, 3, 5]))
    ser = []
    for i in gen_ids(rng, k):
        L = int(rng.choice([3, 3, 4, 6])) + (int(rng.integers(0, 2)) - 1 if rng.random() < 0.3 else 0)
        s = int(rng.choice([0, 0, 1, 4, 10])) * (d if rng.random() < 0.7 else 1)
        st = d if rng.random() < 0.8 else d + 1
        ser.append((i, [s + st * q for q in range(max(1, L))], np.round(rng.normal(size=(max(1, L), 2)), 2)))
    if rng.random() < 0.1:
        i, t, x = ser[0]
        ser[0] = (i, [t[0], t[0] + 1, t[0] + 3, t[0] + 4], np.ones((4, 2)))
    X = mkts(ser, ["a", "b"], ck)
    pre = dig(X)
    F = frame(X, ck)
    G, err = call(lambda: list(InitialCondition.iter_reconstruct_ic(X, n_samples_ic=n)))
    gs = []
    if err == "":
        gs = [dict(X=frame(x, ck), tv=[ck.tick(t) for t in tv]) for x, tv in G]
    rec.ev("iter", X=F, n=n, groups=gs, pre=pre, after=dig(X), err=err)


def edmd_series(rng, c, size=None):
    """series to reconstruct with an EDMD model"""
    nic = int(c.est.n_samples_ic_)
    k = int(rng.choice([1, 2, 3, 4] if size is None else [1, 1, 2, 3]))
    mode = str(rng.choice(["same", "start", "len", "mix", "mix"]))
    out = []
    base = int(rng.choice([0, 2]))
    for i in gen_ids(rng, k):
        s = int(rng.choice([0, 2, 3]) if mode in ("start", "mix") else base) * c.d
        L = nic + int(rng.integers(1, 5) if mode in ("len", "mix") else 3)
        if c.cls == "affine":
            L += 3
        if size is not None:
            L = size + int(rng.choice([0, 0, 1, 2, 3, 5]))
        out.append((i, [s + c.d * q for q in range(L)], np.round(rng.normal(size=(L, c.n)), 3)))
    return out


def edmd_control(rng, c, ser, style):
    """control input of the series: needed samples only, all samples, or one too few"""
    nic = int(c.est.n_samples_ic_)
    us = []
    for i, t, x in ser:
        lo, hi = (nic - 1, len(t) - (c.cls != "affine")) if style == "needed" else (0, len(t)) if style == "all" else (0, len(t) - 1) if style == "fit" else (nic - 1, len(t) - 1 - (c.cls != "affine"))
        tt = np.arange(len(t)) / (len(t) - 1)
        a = 0.5 * rng.normal(size=(3, c.nu))
        u = a[0] + np.outer(tt, a[1]) + np.outer(tt**2, a[2]) if c.cls == "affine" else np.round(rng.normal(size=(len(t), c.nu)), 3)
        if hi > lo:
            us.append((i, t[lo:hi], u[lo:hi]))
    if rng.random() < 0.15:
        us = us[::-1]
    return mkts(us, c.ucols, c.ck) if us else None


def score(rng, c, X, U, R, W):
    sw = np.round(rng.uniform(0.2, 2, size=c.n), 2) if rng.random() < 0.3 else None
    T = X if W is None else W
    kw = {} if U is None else dict(U=U)
    pre = dig([X, U])
    v, err = call(lambda: c.est.score(X, sample_weight=sw, **kw))
    c.rec.ev("escore", X=frame(T, c.ck), R=frame(R, c.ck), sw=vec(sw) if sw is not None else [], score=num(v) if err == "" else "0", err=err, pre=pre, after=dig([X, U]))


def edmd(rng, rec):
    c = ECase(rng, rec, ["std", "std", "gfull", "ctrl", "ctrl", "affine"])
    if c.cls == "affine":
        c.stepwise = False
        c.make()
    c.fit(record=False)
    if not c.ok:
        return
    c.soften()
    nic = int(c.est.n_samples_ic_)
    window = rng.random() < 0.5
    size = offset = None
    if window:
        size = nic + int(rng.integers(1, 4)) + (3 if c.cls == "affine" else 0)
        if rng.random() < 0.08:
            size = max(1, nic - int(rng.integers(0, 2)))
        offset = int(rng.choice([1, 2, 3, 4, max(1, size - nic)]))
        EDMDWindowPrediction(window_size=size, offset=offset).adapt_model(c.est)
    for _ in range(2):
        ser = edmd_series(rng, c, max(size, nic + 1) if window else None)
        s = str(rng.choice([""] * 12 + ["names", "nan", "short", "spacing"]))
        if s == "short":
            i, t, x = ser[0]
            L = (size if window else nic + 1) - 1
            if L < 1 or len(ser) < 2:
                continue
            ser[0] = (i, t[:L], x[:L])
        elif s == "spacing":
            ser = [(i, [t[0] + 2 * (z - t[0]) for z in t], x) for i, t, x in ser]
        X = mkts(ser, c.cols, c.ck)
        U = edmd_control(rng, c, ser, str(rng.choice(["needed", "needed", "needed", "all", "fit", "less"]))) if c.nu else None
        if c.nu and rng.random() < 0.05:
            U = None
        if s == "names":
            X = TSCDataFrame(pd.DataFrame(X).rename(columns={c.cols[0]: "q"}))
        elif s == "nan":
            X = X.copy()
            X.iloc[0, 0] = np.nan
        q = pick_qois(rng, c)
        kw = dict(size=size, offset=offset) if window else {}
        fn = c.est.reconstruct
        if window:
            retw = bool(rng.random() < 0.7)
            fn = lambda X, **a: c.est.reconstruct(X, return_windows=retw, **a)
        R, err = c.run("ewin" if window else "erecon", fn, X, U=U, qois=q, **kw)
        if err == "" and q is None and np.all(np.abs(np.asarray(R)) < 1e6):
            W = c.last[1] if isinstance(c.last, tuple) else None
            if W is not None or not window:
                score(rng, c, X, U, R, W)


def case(rng, rec, i, tier):
    if i % 3 == 1:
        return edmd(rng, rec)
    if i % 3 == 0:
        for _ in range(2):
            iterate(rng, rec)
        return
    c = Case(rng, rec, ["std", "std", "gfull", "pre", "ctrl", "ctrl", "affine"], noise=False)
    c.do_fit(record=False)
    if not c.ok:
        return
    if c.cls == "affine":
        s = max(1.0, 4 * c.dtr) * max(1.0, np.max(np.abs(c.est.control_matrix_)), np.max(np.abs(c.est.sys_matrix_)))
        c.est.control_matrix_ /= s
        c.est.sys_matrix_ /= s
    for _ in range(2):
        recon(rng, rec, c)

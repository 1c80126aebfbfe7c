from edmops import *  # noqa


def ics(rng, c, k, t0, L=None, ids=None):
    """k initial conditions of L samples ending at the tick t0"""
    L = L or c.est.n_samples_ic_
    ids = ids or gen_ids(rng, k)
    t = [t0 - c.d * (L - 1 - q) for q in range(L)]
    return [(i, t, np.round(rng.normal(size=(L, c.n)), 3)) for i in ids]


def pick_qois(rng, c):
    if rng.random() < 0.6:
        return None
    m = int(rng.integers(1, c.n + 1))
    q = [str(x) for x in rng.permutation(c.cols)[:m]]
    r = rng.random()
    return q if r < 0.7 else pd.Index(q) if r < 0.9 else q[:-1] + ["nope"]


def predict(rng, rec, c):
    nic = int(c.est.n_samples_ic_)
    k = int(rng.choice([1, 1, 2, 3]))
    t0 = (nic - 1) * c.d + int(rng.choice([0, 0, 1, 3])) * c.d
    typ = "np" if nic == 1 and rng.random() < 0.25 and c.ck.kind != "d" else "tsc"
    t0 = max(t0, c.d) if rng.random() < 0.5 else t0
    ser = ics(rng, c, k, t0)
    q = pick_qois(rng, c)
    tv = ticks = None
    s = str(rng.choice([""] * 12 + ["more", "less", "names", "nan", "spacing", "times"]))
    if s == "more":
        t0 = t0 + c.d
        ser = ics(rng, c, k, t0, L=nic + 1)
    elif s == "less" and nic > 1:
        ser = ics(rng, c, k, t0, L=nic - 1)
    elif s == "spacing" and nic > 1:
        ser = [(i, [t0 - 2 * c.d * (nic - 1 - j) for j in range(nic)], x) for i, t, x in ser]
        if ser[0][1][0] < 0:
            return
    elif s == "times" and k > 1:
        i, t, x = ser[0]
        ser[0] = (i, [z + c.d for z in t], x)
    if s == "names":
        cols = ["q"] + c.cols[1:] if rng.random() < 0.5 else c.cols[::-1]
    else:
        cols = c.cols
    X = mkts(ser, cols, c.ck)
    if s == "nan":
        X = X.copy()
        X.iloc[0, 0] = np.nan
    t0 = ser[-1][1][-1] if s != "times" else t0
    H = int(rng.integers(2, 5))
    if c.nu:
        us = []
        affine = c.cls == "affine"
        if affine:
            H = max(4, H)
        for i, t, x in ser:
            if affine:
                tt = np.arange(H) / (H - 1)
                a = 0.5 * rng.normal(size=(3, c.nu))
                us.append((i, [t0 + c.d * j for j in range(H)], a[0] + np.outer(tt, a[1]) + np.outer(tt**2, a[2])))
            else:
                us.append((i, [t0 + c.d * j for j in range(H - 1)], np.round(rng.normal(size=(H - 1, c.nu)), 3)))
        U = mkts(us, c.ucols, c.ck)
        if k == 1 and typ == "tsc" and rng.random() < 0.25 and not affine:
            U = us[0][2]
        if rng.random() < 0.3 and s == "":
            tv = [t0 + c.d * j for j in range(H)]
    else:
        U = None
        r = rng.random()
        if r < 0.15:
            tv = None
        elif r < 0.6 or c.stepwise and nic > 1:
            tv = [t0 + c.d * j for j in range(0 if rng.random() < 0.8 else 1, H)]
        elif r < 0.85:
            tv = sorted(t0 + c.d * int(x) for x in rng.choice(7, size=H, replace=False))
            if c.stepwise and c.typ == "flowmap":
                tv = [t for t in tv]
        else:
            tv = [t0 + c.d * j for j in range(H)]
        if tv is not None and not tv:
            tv = None
    if typ == "np":
        Xn = np.vstack([x for _, _, x in ser])
        X = Xn[0] if k == 1 and rng.random() < 0.5 else Xn
    c.run("epred", c.est.predict, X, U=U, tv=None if tv is None else c.ck.arr(tv), qois=q)


def incremental(rng, rec):
    from drv_M04 import Stream
    s = Stream(rng, rec)
    while s.n > 2:
        s = Stream(rng, rec)
    c = ECase.__new__(ECase)
    c.rng, c.rec, c.ck, c.d, c.dtr, c.n, c.cols, c.nu = rng, rec, s.ck, s.d, s.dtr, s.n, s.cols, 0
    c.cls, c.mode, c.gen, c.typ, c.rank, c.rmode, c.scheme, c.acc = "pre", "spectral", False, "flowmap", 0, "exact", "center", 2
    c.dkinds, c.want_step, c.want_tinv = None, None, None
    c.dk, c.dname = gen_dict(rng, c.cols, True, ["identity", "const", "rename", "takens", "poly", "poly2"])
    c.attach, c.pres, c.sort, c.stepwise, c.tinv = bool(rng.random() < 0.6), "infer", bool(rng.random() < 0.2), False, False
    if c.dname in ("rename", "poly2"):
        c.attach = True
    c.dmd0 = s.est
    c.est = EDMD([(f"s{i}", mk(k)()) for i, k in enumerate(c.dk["subs"])], dmd_model=s.est, include_id_state=c.attach, sort_koopman_triplets=c.sort)
    rec.ev("new", kind=s.kind, rho=num(s.rho), warm=s.warm, diag=s.diag, maxrank=s.maxrank)
    s.exact, s.sub = False, None
    done = False
    for step in range(int(rng.integers(1, 4))):
        ser = []
        for j, i in enumerate(gen_ids(rng, int(rng.choice([1, 2])))):
            L = int(rng.choice([4, 6, 9, 12])) if step else 14
            o = int(rng.choice([0, 1])) * c.d
            ser.append((i + 20 * step, [o + c.d * q for q in range(L)], np.round(rng.normal(size=(L, c.n)), 3)))
        X = mkts(ser, c.cols, c.ck)
        if rng.random() < 0.1 and done:
            X = TSCDataFrame(pd.DataFrame(X).rename(columns={c.cols[0]: "q"}))
        pre = dig([X, pardig(c.est)])
        c.D = frame(X, c.ck)
        _, err = call(lambda: c.est.partial_fit(X))
        f, modes = dict(c.NOBASE, k=c.k(), ek=c.ek(), dk=c.dk), []
        ev = dict(wc=False, count=0, ready=True, batched=False)
        if err == "":
            m, e2 = call(s.obs)
            g, e3 = call(lambda: c.base())
            if e3 and s.kind == "online" and not s.est.ready_:
                return
            if e2 or e3:
                err = "model:" + (e2 or e3)
            else:
                f = dict(g, m=m)
                done = True
                q, e4 = call(lambda: cmat(c.est.koopman_modes.to_numpy()))
                modes = q if e4 == "" else []
                Z = c.est.transform(X)
                s.xs_all = np.vstack([s.xs_all if s.xs_all.shape[1] == Z.shape[1] else np.zeros((0, Z.shape[1]))] + [g2.to_numpy()[:-1] for _, g2 in Z.groupby(level=0, sort=False)])
                s.n = Z.shape[1]
                ev["wc"] = s.wc()
                if s.kind == "online":
                    ev["count"], ev["ready"] = int(s.est.timestep_), bool(s.est.ready_)
        f.pop("fin2", None)
        rec.ev("eupd", D=c.D, X=c.D, U=NOFRAME, modes=modes, pre=pre, after=dig([X, pardig(c.est)]), dig=dig([{a: v for a, v in sorted(vars(s.est).items()) if a.endswith("_") or a == "A"}]), err=err, **ev, **f)
        if err != "" or not done:
            continue
        if rng.random() < 0.4 and (s.kind == "stream" or s.est.ready_):
            c.fields = dict(f, m=model(s.est, c.k()))
            if not c.novals():
                predict(rng, rec, c)


def case(rng, rec, i, tier):
    if i % 6 == 5:
        return incremental(rng, rec)
    c = ECase(rng, rec, ["std", "std", "std", "gfull", "ctrl", "ctrl", "affine"])
    if c.cls == "affine":
        c.stepwise = False
        c.make()
    if rng.random() < 0.06:
        X = c.X.copy()
        X.iloc[0, 0] = np.nan
        c.fit(X=X)
        return
    c.fit()
    if not c.ok:
        return
    c.soften()
    for _ in range(2):
        r = rng.random()
        if r < 0.3:
            ser = [(i, t, np.round(rng.normal(size=x.shape), 3)) for i, t, x in c.xs]
            X = mkts(ser, c.cols, c.ck) if rng.random() < 0.7 else np.round(rng.normal(size=(int(rng.integers(3, 8)), c.n)), 3)
            R, err = c.transform(X)
            if err == "" and isinstance(R, TSCDataFrame):
                Y = R.copy()
                Y.iloc[:, :] = np.round(rng.normal(size=R.shape), 3)
                c.inverse(Y)
        else:
            predict(rng, rec, c)

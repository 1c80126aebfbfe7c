from edmops import *  # noqa
from drv_K04 import targets
from datafold.dynfold.dmap import DiffusionMaps, Roseland, LocalRegressionSelection
from datafold.dynfold.jsf import JointlySmoothFunctions
from datafold.dynfold.outofsample import GeometricHarmonicsInterpolator, LaplacianPyramidsInterpolator
from datafold.dynfold.transform import TSCApplyLambdas
from datafold.pcfold.kernels import GaussianKernel, InverseMultiquadricKernel, ContinuousNNKernel
from datafold.appfold import EDMDCV

BEH = []
TS = ["dmd", "gdmd", "ctrl", "affine", "online", "stream", "edmd", "edmdc", "edmdo"]
PC = ["dmap", "rose", "lrs", "ghi", "lap", "jsf"]
ALL = TS + PC


def replayed(path):
    BEH.extend(json.loads(json.loads(x)) for x in open(path) if x.strip())


def med(D):
    """bandwidth from the distances of the data"""
    return float(np.median(D)) + 0.1


def sysdata(rng, ck, cols, ucols, delta, short=False):
    """controlled or autonomous linear series with noise: (X, U)"""
    n, nu = len(cols), len(ucols)
    A = stable_matrix(rng, n)
    xs, us = [], []
    for i in gen_ids(rng, int(rng.choice([1, 1, 2]))):
        L, o = (int(rng.integers(7, 10)) if short else int(rng.integers(16, 22))), int(rng.choice([0, 0, 2])) * delta
        x, u = np.zeros((L, n)), np.round(rng.normal(size=(L, max(nu, 1))), 3)
        x[0] = rng.normal(size=n)
        B = rng.normal(size=(n, max(nu, 1)))
        for q in range(1, L):
            x[q] = 0.8 * A @ x[q - 1] + (B @ u[q - 1] if nu else 0) + 0.5 * rng.normal(size=n)
        t = [o + delta * q for q in range(L)]
        xs.append((i, t, np.round(x, 4)))
        us.append((i, t, u[:, :nu]))
    return mkts(xs, cols, ck), (xs, us)


def ts_par(rng, c, cols):
    b = lambda p=0.5: bool(rng.random() < p)
    n = len(cols)
    if c == "dmd":
        mode = "spectral" if b(0.7) else "matrix"
        rank = int(rng.integers(1, n)) if n > 1 and b(0.35) else None
        kw = dict(sys_mode=mode, rank=rank, reconstruct_mode="exact" if b() else "project", diagonalize=rank is None and b(0.4))
        if b(0.2):
            kw["approx_generator"] = True
        elif mode == "spectral" and rank is None and b(0.4):
            kw["residual_filter"] = float(rng.choice([0.3, 1.0, 5.0]))
            kw["compute_pseudospectrum"] = b()
        if b(0.2):
            kw["rcond"] = 1e-10
        return lambda: DMDStandard(**kw)
    if c == "gdmd":
        kw = dict(sys_mode="spectral" if b() else "matrix", is_diagonalize=b(0.3), kwargs_fd=dict(scheme="center", accuracy=2) if b(0.3) else None)
        return lambda: gDMDFull(**kw)
    if c == "ctrl":
        return lambda: DMDControl(sys_mode="matrix")
    if c == "affine":
        kw = dict(diff_scheme=str(rng.choice(["center", "backward"])))
        return lambda: gDMDAffine(**kw)
    if c == "online":
        kw = dict(weighting=float(rng.choice([1.0, 0.9])), is_diagonalize=b(0.4))
        return lambda: OnlineDMD(**kw)
    if c == "stream":
        kw = dict(max_rank=None if b() else n)
        return lambda: StreamingDMD(**kw)
    dk, _ = gen_dict(rng, cols, kinds=["identity", "const", "poly", "poly2", "takens", "scaletakens", "scale", "pca", "lambdas", "rbf"] if c != "edmdo" else ["identity", "poly", "lambdas"])
    inner = {"edmd": "dmd", "edmdc": "ctrl", "edmdo": "online"}[c]
    im = ts_par(rng, inner, ["a"] if inner == "dmd" else cols)
    attach, sort, st = b(), c == "edmd" and b(0.4), b(0.2)

    def make():
        d = im()
        s = sort and isinstance(d, DMDStandard) and d.sys_mode == "spectral"
        return EDMD([(f"s{i}", mk(k)()) for i, k in enumerate(dk["subs"])], dmd_model=d, include_id_state=attach, sort_koopman_triplets=s, stepwise_transform=st)

    return make


def kern(rng):
    z = rng.random()
    eps = float(rng.choice([0.5, 1.0, 3.0]))
    if z < 0.25:
        return lambda: GaussianKernel(epsilon=med)
    if z < 0.5:
        return lambda: GaussianKernel(epsilon=eps, distance=dict(cut_off=30.0) if eps > 1 else None)
    if z < 0.75:
        return lambda: InverseMultiquadricKernel(epsilon=eps)
    return lambda: GaussianKernel(epsilon=eps)


def pc_par(rng, c, n, d):
    b = lambda p=0.5: bool(rng.random() < p)
    kf = kern(rng)
    if c == "dmap":
        kw = dict(n_eigenpairs=int(rng.integers(2, 5)), time_exponent=float(rng.choice([0, 1])), is_stochastic=b(0.8), alpha=float(rng.choice([0, 0.5, 1])), symmetrize_kernel=b(0.7))
        if b(0.15):
            kf = lambda: ContinuousNNKernel(4, 3.0)
        if b(0.1):
            return lambda: DiffusionMaps(**kw)
        return lambda: DiffusionMaps(kernel=kf(), **kw)
    if c == "rose":
        kw = dict(n_svdtriplet=int(rng.integers(2, 4)), time_exponent=float(rng.choice([0, 1])), landmarks=[6, 0.7][int(b())], alpha=float(rng.choice([0, 1])), random_state=int(rng.integers(0, 9)))
        return lambda: Roseland(kernel=kf(), **kw)
    if c == "lrs":
        kw = dict(strategy=str(rng.choice(["dim", "threshold"])), intrinsic_dim=2, regress_threshold=0.3, eps_med_scale=float(rng.choice([1, 3])))
        if b(0.5):
            kw.update(n_subsample=8, random_state=int(rng.integers(0, 9)))
        return lambda: LocalRegressionSelection(**kw)
    if c == "ghi":
        kw = dict(n_eigenpairs=int(rng.integers(2, 5)))
        return lambda: GeometricHarmonicsInterpolator(kernel=kf(), **kw)
    if c == "lap":
        kw = dict(initial_epsilon=float(rng.choice([1.0, 5.0, 20.0])), mu=float(rng.choice([2, 3])), residual_tol=float(rng.choice([0.1, 0.5])), auto_adaptive=b(), alpha=float(rng.choice([0, 1])))
        if kw["auto_adaptive"]:
            kw["residual_tol"] = None
        return lambda: LaplacianPyramidsInterpolator(**kw)
    splits = [("a", 0, 1), ("b", 1, 2)] + ([("c", 0, 2)] if b(0.4) else [])
    kw = dict(n_kernel_eigenvectors=int(rng.integers(3, 6)), n_jointly_smooth_functions=2)
    return lambda: JointlySmoothFunctions([(a, kf(), slice(s, e)) for a, s, e in splits], **kw)


def wrap(rng, P, cols, typ, ck):
    if typ == "np":
        return P
    if typ == "df":
        return pd.DataFrame(P, columns=cols, index=[f"r{i}" for i in range(len(P))])
    h = len(P) // 2
    return mkts([(0, list(range(h)), P[:h]), (3, list(range(len(P) - h)), P[h:])], cols, ck)


def upto(est, m):
    """eigenvectors are unique up to their sign, and only if the eigenvalues are separated and not too small"""
    if m.startswith("attr:"):
        return ""
    if m == "inverse_transform":
        return "any"
    for a in ("eigenvalues_", "svdvalues_"):
        v = getattr(est, a, None)
        if v is not None:
            v = np.sort(np.abs(np.asarray(v)))
            if len(v) == 0 or v[0] < 1e-3 or (len(v) > 1 and np.min(np.diff(v)) < 1e-3):
                return "any"
    return "sgn"


def case(rng, rec, i, tier):
    c = ALL[i % len(ALL)]
    ev = BEH[i - 100000] if i >= 100000 else None
    if ev is None:
        from drv_T01 import random_history
        ev = random_history(rng, int(rng.integers(5, 11)))
    ck = clock(rng)
    H = Hist(rec, ck)
    if c in ("dmap", "rose", "jsf"):
        H.up = upto
    if c in TS:
        world = ts_world(rng, c, ck)
    else:
        world = pc_world(rng, c, ck)
    P, data, docall, badfit = world
    last = {}
    for e in ev:
        op, h = e["op"], e.get("h", 0) - 1
        if h >= len(H.obj) or op == "pickle" and c == "affine":
            continue
        if op == "new":
            H.new(P[e["par"]], dict(cls=c))
        elif op == "setpar":
            if c.startswith("edmd"):
                continue
            H.setpar(h, P[e["par"]], dict(cls=c))
            last.pop(h, None)
        elif op == "fit":
            X, kw = data[e["d"]]
            m = e["m"] if c in ("dmap", "rose", "lrs", "edmd") and rng.random() < 0.6 else "fit"
            if H.fit(h, X, dict(kw), m=m):
                last[h] = e["d"]
        elif op == "badfit":
            X, kw = badfit(e["d"])
            last.pop(h, None)
            if H.fit(h, X, dict(kw), m="fit"):
                pass
        elif op in ("call", "badcall"):
            docall(H, h, e["x"], op == "badcall", last.get(h))
        else:
            g = H.copy(h, op)
            if g >= 0 and h in last and op != "clone":
                last[g] = last[h]
    for h in list(last)[:2]:
        par = [p for p in P if pardig(P[p]()) == pardig(H.obj[h][0])]
        if not par:
            continue
        if rng.random() < 0.3:
            # the model is fitted again with other data before it is compared
            X, kw = data["d1" if last[h] == "d2" else "d2"]
            H.fit(h, X, dict(kw), m="fit")
            H.fit(h, *[(a, dict(b)) for a, b in [data[last[h]]]][0], m="fit")
        g = H.new(P[par[0]], dict(cls=c))
        X, kw = data[last[h]]
        if H.fit(g, X, dict(kw), m="fit"):
            for x in ("x1", "x2", "x3"):
                st = rng.bit_generator.state
                docall(H, g, x, False, last[h], probe=True)
                rng.bit_generator.state = st
                docall(H, h, x, False, last[h], probe=True)


def ts_world(rng, c, ck):
    n, nu = int(rng.choice([1, 2, 2, 3])), int(rng.choice([1, 2])) if c in ("ctrl", "affine", "edmdc") else 0
    cols, uc = [str(x) for x in rng.permutation(NAMES)[:n]], UNAMES[:nu]
    d1, d2 = int(rng.choice([1, 2])), int(rng.choice([1, 2, 3]))
    z = rng.random()
    cols2 = cols if z < 0.5 or c == "edmdo" else [str(x) for x in rng.permutation(NAMES)[:int(rng.choice([1, 2, 3]))]]
    uc2 = UNAMES[:int(rng.choice([1, 2]))] if nu and z > 0.3 else uc
    P = {"p1": ts_par(rng, c, cols), "p2": ts_par(rng, c, cols)}

    def full(cc, uu, dl, short=False):
        X, (xs, us) = sysdata(rng, ck, cc, uu, dl, short)
        a = 0 if c == "affine" else 1
        U = mkts([(i, t[: len(t) - a], u[: len(t) - a]) for i, t, u in us], uu, ck) if uu else None
        return X, U

    raw = {"d1": full(cols, uc, d1), "d2": full(cols2, uc2, d2)}
    data = {k: (X, dict(U=U) if U is not None else {}) for k, (X, U) in raw.items()}
    ins = {"x1": raw["d1"], "x2": full(cols, uc, d1, True), "x3": full(cols2, uc2, d2, True)}

    def badfit(d):
        X, kw = data[d]
        return spoil(rng, X, "nan"), kw

    def docall(H, h, x, bad, d, probe=False):
        X, U = ins[x]
        est = H.obj[h][0]
        ed = c.startswith("edmd")
        m = str(rng.choice(["predict", "predict", "reconstruct"] + (["transform", "transform", "attr:koopman_modes", "attr:koopman_eigenvalues"] if c == "edmd" else ["transform"] if ed else ["attr:eigenvalues_"] if c in ("dmd", "gdmd") else [])))
        if m.startswith("attr:") and (d is None or c in ("dmd", "gdmd") and est.sys_mode != "spectral"):
            m = "predict"
        what = str(rng.choice(["nan", "perm", "extra", "fewer", "ren", "dt"])) if bad else ""
        kw = {}
        if m == "predict":
            k = 1
            if ed:
                k = 1 + sum(getattr(s, "delays", 0) for _, s in est.steps[:-1]) if d is not None else 1
            q = X.index.get_level_values(0).nunique()
            ids = [X.index.get_level_values(0).unique()[0]] if U is not None or rng.random() < 0.5 else list(X.index.get_level_values(0).unique())
            S = [X.loc[[a]].iloc[:k] for a in ids]
            Z = TSCDataFrame(pd.concat(S)) if len(S) > 1 else S[0]
            if U is not None:
                kw = dict(U=U.loc[[ids[0]]].iloc[k - 1:]) if c != "affine" else dict(U=U.loc[[ids[0]]])
            elif not ed or len(S) == 1:
                t = Z.index.get_level_values(1)[k - 1]
                dl = d1 if x != "x3" else d2
                if len({s.index[k - 1][1] for s in S}) == 1:
                    kw = dict(time_values=np.array([t] + [X.loc[[ids[0]]].index[k - 1 + j][1] for j in range(1, 4)]))
            Z0 = Z
            if bad:
                Z = spoil(rng, Z, what if what != "dt" else "nan")
            if k == 1 and not ed:
                from datafold.pcfold import InitialCondition  # noqa: F401
        else:
            Z = X
            if m == "reconstruct" and U is not None:
                kw = dict(U=U)
            if bad:
                Z = spoil(rng, Z, what)
            if m.startswith("attr:"):
                Z = X
        H.call(h, m, Z, kw)

    return P, data, docall, badfit


def pc_world(rng, c, ck):
    d = 2 if c == "jsf" else int(rng.choice([1, 2, 3]))
    typ = str(rng.choice(["np", "df", "tsc"])) if c in ("dmap", "rose", "lrs", "jsf") else "np"
    cols = [str(x) for x in rng.permutation(NAMES)[:d]]
    dd = d if c == "jsf" or rng.random() < 0.6 else int(rng.choice([1, 2, 3]))
    cols2 = cols if rng.random() < 0.5 and dd == d else [str(x) for x in rng.permutation(NAMES)[:dd]]
    P = {"p1": pc_par(rng, c, 9, d), "p2": pc_par(rng, c, 9, d)}
    cl = lambda m, k: np.round(rng.normal(size=(m, k)) * rng.choice([0.6, 1.0, 2.0]), 4)

    def one(k, cc):
        m = int(rng.integers(10, 15))
        A = cl(m, k)
        if c == "lrs":
            t = np.sort(rng.random(m + 6))
            A = np.round(np.column_stack([np.ones(m + 6), np.cos(np.pi * t), np.cos(2 * np.pi * t), rng.normal(size=m + 6)]), 5)
            cc = ["e0", "e1", "e2", "e3"]
        kw = dict(y=targets(rng, A, 2)) if c in ("ghi", "lap") else {}
        return wrap(rng, A, cc, typ, ck), kw

    data = {"d1": one(d, cols), "d2": one(dd, cols2)}

    def query(k, cc):
        m = int(rng.integers(2, 6))
        if c == "lrs":
            return wrap(rng, cl(m, 4), ["e0", "e1", "e2", "e3"], typ, ck)
        return wrap(rng, cl(max(m, 4), k), cc, typ, ck)

    ins = {"x1": data["d1"][0], "x2": query(d, cols), "x3": query(dd, cols2)}

    def badfit(dn):
        X, kw = data[dn]
        if c == "lrs" and rng.random() < 0.5:
            return X.iloc[:, :1] if typ != "np" else X[:, :1], kw
        return spoil(rng, X.copy(), "nan"), kw

    def docall(H, h, x, bad, dn, probe=False):
        Z = ins[x]
        ms = {"dmap": ["transform", "transform", "inverse", "attr:eigenvalues_"], "rose": ["transform", "attr:svdvalues_"], "lrs": ["transform", "attr:evec_indices_"], "ghi": ["predict"], "lap": ["predict"], "jsf": ["transform"]}[c]
        m = str(rng.choice(ms))
        if m.startswith("attr:") and dn is None:
            m = ms[0]
        if m == "inverse":
            est = H.obj[h][0]
            nf, e = call(lambda: len(est.get_feature_names_out()))
            if dn is None or e or not hasattr(est, "eigenvectors_"):
                m = "transform"
            else:
                m = "inverse_transform"
                V = np.round(np.random.default_rng([7, nf]).normal(size=(3, nf)), 3)
                Z = V if typ == "np" else wrap(rng, V, [str(q) for q in est.get_feature_names_out()], typ, ck)
        if bad:
            Z = spoil(rng, Z.copy(), str(rng.choice(["nan", "perm", "extra", "fewer", "ren"])))
        H.call(h, m, Z, {})

    return P, data, docall, badfit

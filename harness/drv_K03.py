from estops import *  # noqa
from scipy.spatial.distance import cdist
import drv_K02
from drv_K02 import base_kernel, tsc, K0, TICK, good_cut
from drv_K01 import cloud
from datafold.dynfold.dmap import DiffusionMaps, Roseland, LocalRegressionSelection
from datafold.pcfold.kernels import ConeKernel


def digx(*o):
    return dig(list(o))


def wrap(rng, P, typ, tick=None):
    n, d = P.shape
    cols = [f"x{j}" for j in range(d)]
    if typ == "np":
        return P
    if typ == "df":
        return pd.DataFrame(P, columns=cols, index=[f"r{i}" for i in rng.permutation(n)])
    ids = sorted(int(v) for v in rng.integers(0, 3, size=n))
    idx, t = [], {}
    for i in ids:
        t[i] = t.get(i, int(rng.integers(0, 3))) + int(rng.integers(1, 3))
        idx.append((i, t[i]))
    return TSCDataFrame(pd.DataFrame(P, columns=cols, index=pd.MultiIndex.from_tuples(idx, names=["ID", "time"])))


def case(rng, rec, i, tier):
    TICK[0] = 1
    if rng.random() < 0.12:
        return lrs(rng, rec)
    kind = str(rng.choice(["dmap", "dmap", "rose"]))
    d = int(rng.choice([1, 2, 2, 3]))
    cone = kind == "dmap" and rng.random() < 0.2
    ck = Clock("i", 1)
    if cone:
        acc, h = int(rng.choice([2, 4])), float(rng.choice([1, 0.5, 2]))
        TICK[0], ck = 1 / h, Clock("f", h)
        mk = lambda m: tsc(rng, d, h, acc, [int(rng.integers(acc + 3, acc + 6)) for _ in range(m)])
        zeta, eps = float(rng.choice([0, 0.3, 0.9])), float(rng.choice([0.3, 1, 3]))
        k = dict(K0, kern="cone", eps=num(eps), zeta=num(zeta), acc=acc, h=num(h))
        kern = lambda: ConeKernel(zeta=zeta, epsilon=eps, fd_accuracy=acc)
        sets = [mk(int(rng.integers(1, 3))), mk(1)]
        qs = [mk(1), mk(2)]
        nn = min(sum(len(g) - acc for _, g in X.groupby("ID")) for X in sets)
        fm = lambda X: drv_K02.tsrows(X)
    else:
        n = int(rng.integers(4, 11))
        A = cloud(rng, n, d)
        B = cloud(rng, int(rng.integers(4, 9)), d)
        Q = cloud(rng, int(rng.integers(1, 5)), d, A)
        k, kern, _ = base_kernel(rng, np.vstack([A, B]), Q, True)
        if kind == "rose" and k["kern"] == "cnn":
            return
        if k["knn"] or k["kmin"]:
            A, B, Q = (np.round(rng.normal(size=X.shape), 4) for X in (A, B, Q))
        m = max(k["knn"], k["kmin"], k["kn"])
        if m > min(len(A), len(B)):
            A, B = (np.vstack([X, np.round(rng.normal(size=(m, d)), 4)]) for X in (A, B))
        if k["cut"] != "inf":
            P = np.vstack([A, B, Q])
            if np.any(np.abs(cdist(P, P) - float(k["cut"])) < 1e-5):
                return
        typ = str(rng.choice(["np", "df", "tsc"]))
        sets = [wrap(rng, X, typ) for X in (A, B)]
        qs = [wrap(rng, Q, typ), wrap(rng, Q[:1], typ)]
        nn = min(len(A), len(B))
        fm = mat
    ne = int(rng.integers(1, nn + 1)) if rng.random() < 0.75 else int(rng.choice([max(1, nn - 1), nn]))
    te = float(rng.choice([0, 0, 1, 2, 0.5, 3]))
    alpha = float(rng.choice([0, 0.5, 1, 1, 0.25] if kind == "dmap" else [0, 0, 0.5, 1]))
    stoch, sym = bool(rng.random() < 0.85), bool(rng.random() < 0.65)
    lmk, nlm = None, 0
    if kind == "rose":
        stoch = True
        r = rng.random()
        if r < 0.4:
            nlm = int(rng.integers(2, nn + 1))
            lmk = nlm
        elif r < 0.6:
            lmk = float(rng.choice([0.5, 0.75, 1.0]))
        else:
            L = cloud(rng, int(rng.integers(2, 7)), d, np.asarray(sets[0]))
            if k["cut"] != "inf" or m:
                L = np.asarray(sets[0])[rng.permutation(len(sets[0]))[: int(rng.integers(2, len(sets[0]) + 1))]]
            if m and len(L) < m:
                return
            lmk = L.copy()
        cnt = [len(lmk)] if isinstance(lmk, np.ndarray) else [lmk] if isinstance(lmk, int) else [int(len(X) * lmk) for X in sets]
        if min(cnt) < max(2, m if not cone else 0):
            return
        ne = int(rng.integers(1, min(min(cnt), nn) + 1))
    dsc = dict(stoch=stoch, alpha=num(alpha), sym=sym)
    al = int(alpha) if alpha in (0, 1) and rng.random() < 0.3 else alpha
    tei = int(te) if te == int(te) and rng.random() < 0.6 else te
    if kind == "dmap":
        est = DiffusionMaps(kern(), n_eigenpairs=ne, time_exponent=tei, is_stochastic=stoch, alpha=al, symmetrize_kernel=sym)
    else:
        est = Roseland(kern(), n_svdtriplet=ne, time_exponent=tei, landmarks=lmk, alpha=al, random_state=int(rng.integers(5)))
    rec.ev("new", kind=kind)
    fitted, cur, tc = False, 0, None

    def info(X):
        F = frame(X, ck)
        return dict(typ=F["typ"], xi=F["idx"])

    def fit(how):
        X = sets[cur]
        pre = digx(X)
        store = bool(rng.random() < 0.4)
        kw = dict(store_kernel_matrix=True) if store else {}
        out, e = call(lambda: getattr(est, how)(X, **kw))
        ok = e == ""
        left = (est.eigenvectors_ if kind == "dmap" else est.svdvec_left_) if ok else np.zeros((0, 0))
        vals = (est.eigenvalues_ if kind == "dmap" else est.svdvalues_) if ok else []
        n_l = 0 if kind == "dmap" or isinstance(lmk, np.ndarray) else lmk if isinstance(lmk, int) else int(len(X) * lmk)
        rec.ev("fit", kind=kind, k=k, d=dsc, n=ne, X=fm(X), lm=[] if kind == "dmap" else mat(est.landmarks_) if hasattr(est, "landmarks_") else [], nlm=n_l,
               vals=[num(v) for v in vals], vecs=mat(np.asarray(left)), right=[] if kind == "dmap" or not ok else mat(est.svdvec_right_),
               kmat=mat(est.kernel_matrix_) if ok and store else [], cols=[str(c) for c in X.columns] if hasattr(X, "columns") else [], err=e, pre=pre, after=digx(X))
        if ok and how == "fit_transform":
            rec.ev("emb", own=True, X=fm(X), te=num(est.time_exponent), out=frame(out, ck), bad=False, err="", pre="", after="", **info(X))
        return ok, out if how == "fit_transform" and ok else None

    emb = None
    for _ in range(int(rng.integers(3, 8))):
        r = rng.random()
        if not fitted and r < 0.85 or r < 0.12:
            if fitted and rng.random() < 0.6:
                cur = 1 - cur
                if isinstance(lmk, np.ndarray) and k["cut"] != "inf":
                    P = np.vstack([np.asarray(sets[cur]), lmk])
                    if np.any(np.abs(cdist(P, P) - float(k["cut"])) < 1e-5):
                        cur = 1 - cur
            fitted, o = fit(str(rng.choice(["fit", "fit_transform"])))
            emb = o if o is not None else emb if fitted else None
            if not fitted:
                return
            if o is None:
                emb = None
        elif r < 0.3:
            t = [int(v) for v in rng.permutation(ne)[: int(rng.integers(1, ne + 1))]]
            z = rng.random()
            arg, isint = (t if rng.random() < 0.5 else np.array(t)), True
            if z < 0.08:
                arg, isint = [float(v) + 0.5 for v in t], False
            elif z < 0.14:
                t = t + [ne]
                arg = t
            elif z < 0.18:
                t = t + [-1]
                arg = t
            _, e = call(lambda: est.set_target_coords(arg))
            rec.ev("set", tc=t, tcint=isint, npar=ne, err=e)
            if e == "" and isint:
                emb = None
        elif r < 0.4 and fitted:
            est.time_exponent = float(rng.choice([0, 1, 2, 0.5]))
            emb = None
        elif r < 0.75:
            z = rng.random()
            X = sets[cur] if z < 0.3 else qs[0] if z < 0.75 else qs[1]
            bad = False
            if fitted and rng.random() < 0.06 and not cone and d > 1:
                X, bad = (X[:, :1] if isinstance(X, np.ndarray) else X.iloc[:, :1]), True
            pre = digx(X)
            out, e = call(lambda: est.transform(X))
            rec.ev("emb", own=False, X=fm(X), te=num(est.time_exponent), out=frame(out, ck) if e == "" else NOFRAME, bad=bad, err=e, pre=pre, after=digx(X), **info(X))
            if e == "":
                emb = out
        elif kind == "dmap" and (emb is not None or not fitted):
            X, bad = emb if emb is not None else np.zeros((2, ne)), False
            if emb is not None and rng.random() < 0.3:
                X = X * 1.5
            if not np.all(np.isfinite(np.asarray(X))):
                continue
            pre = digx(X)
            out, e = call(lambda: est.inverse_transform(X))
            rec.ev("inv", X=mat(np.asarray(X)), te=num(est.time_exponent), out=frame(out, ck) if e == "" else NOFRAME, bad=bad, err=e, pre=pre, after=digx(X), **info(X))


def lrs(rng, rec):
    """selection of coordinates from a set of vectors"""
    n, m = int(rng.integers(12, 30)), int(rng.integers(3, 7))
    V = np.round(rng.normal(size=(n, m)), 4)
    V[:, 0] = 1
    zero = []
    if rng.random() < 0.6:
        j = int(rng.integers(2, m))
        V[:, j] = 2 * V[:, 1] + (V[:, j - 1] if j > 2 else 0) * 0.5
        zero = [j]
    if rng.random() < 0.5:
        V[:, 1:] = V[:, 1:] * rng.choice([0.1, 1, 3])
    typ = str(rng.choice(["np", "df", "tsc"]))
    X = V if typ == "np" else wrap(rng, V, typ)
    strat = str(rng.choice(["dim", "threshold"]))
    dim, thr = int(rng.integers(1, m)), float(rng.choice([0.05, 0.3, 0.7, 0.9]))
    if strat == "dim" and dim == 1:
        dim = 1
    est = LocalRegressionSelection(strategy=strat, intrinsic_dim=dim, regress_threshold=thr, eps_med_scale=float(rng.choice([1, 3, 5])), bandwidth_type=str(rng.choice(["median", "mean"])),
                                   n_subsample=np.inf if rng.random() < 0.7 else int(n - 1), random_state=3)
    out, e = call(lambda: est.fit(X).transform(X))
    F = frame(out, Clock("i", 1)) if e == "" else NOFRAME
    rec.ev("lrs", X=mat(np.asarray(X)), typ=typ, strategy=strat, dim=dim, thr=num(thr), zero=zero, cols=[str(c) for c in getattr(X, "columns", [])],
           res=[num(v) for v in getattr(est, "residuals_", [])], sel=[int(v) for v in getattr(est, "evec_indices_", [])], out=F, err=e)

from estops import *  # noqa
from scipy.spatial.distance import cdist
from sklearn.base import clone
import copy, pickle
from drv_K02 import base_kernel
from drv_K01 import cloud
from datafold.dynfold.outofsample import GeometricHarmonicsInterpolator, LaplacianPyramidsInterpolator


def digx(*o):
    return dig(list(o))


def kpar(est):
    """the parameters of an estimator as a value (kernels by their visible attributes)"""
    r = []
    for k, v in sorted(est.get_params(deep=False).items()):
        r.append((k, sorted((a, str(b)) for a, b in vars(v).items() if not callable(b)) if hasattr(v, "__dict__") else v))
    return repr(r)


def targets(rng, X, nt):
    n = len(X)
    cols = []
    for _ in range(nt):
        z = rng.random()
        w = rng.normal(size=X.shape[1])
        if z < 0.6:
            c = np.sin(X @ w * rng.choice([0.3, 1, 3]))
        elif z < 0.75:
            c = rng.normal(size=n)
        elif z < 0.8:
            c = np.full(n, float(rng.choice([1.0, -2.5])))
        elif z < 0.9:
            c = np.round(X @ w)
        else:
            c = 5 * rng.normal(size=n)
        cols.append(np.round(c, 4))
    return np.column_stack(cols)


def case(rng, rec, i, tier):
    kind = str(rng.choice(["ghi", "lap"]))
    d = int(rng.choice([1, 2, 2, 3]))
    n = int(rng.integers(4, 11))
    A, B = cloud(rng, n, d), cloud(rng, int(rng.integers(4, 9)), d)
    if kind == "lap":
        A, B = (np.round(rng.normal(size=X.shape) * rng.choice([0.5, 1, 3]), 4) if rng.random() < 0.8 else X for X in (A, B))
    Q = cloud(rng, int(rng.integers(1, 6)), d, A)
    nt = int(rng.choice([1, 1, 2, 3] if kind == "ghi" else [1, 2, 3, 4]))
    rec.ev("new", kind=kind)
    if kind == "ghi":
        k, kern, _ = base_kernel(rng, np.vstack([A, B]), Q, True)
        m = max(k["knn"], k["kmin"], k["kn"])
        if m:
            A, B, Q = (np.round(rng.normal(size=X.shape), 4) for X in (A, B, Q))
        if m > min(len(A), len(B)):
            A, B = (np.vstack([X, np.round(rng.normal(size=(m, d)), 4)]) for X in (A, B))
        if k["cut"] != "inf":
            P = np.vstack([A, B, Q])
            if np.any(np.abs(cdist(P, P) - float(k["cut"])) < 1e-5):
                return
        nn = min(len(A), len(B))
        ne = int(rng.integers(1, nn)) if rng.random() < 0.9 else int(rng.choice([nn - 1, nn, nn + 1]))
        alpha = float(rng.choice([0, 0.5, 1, 1]))
        stoch, sym = bool(rng.random() < 0.4), bool(rng.random() < 0.7)
        dsc = dict(stoch=stoch, alpha=num(alpha), sym=sym)
        est = GeometricHarmonicsInterpolator(kern(), n_eigenpairs=ne, is_stochastic=stoch, alpha=alpha, symmetrize_kernel=sym)
    else:
        auto = bool(rng.random() < 0.5)
        tol = None if auto and rng.random() < 0.6 else float(rng.choice([0.001, 0.01, 0.1, 0.5, 2.0]))
        mu, eps, alpha = float(rng.choice([2, 2, 1.5, 4, 3.3])), float(rng.choice([10, 3, 1, 0.4])), float(rng.choice([0, 0, 1, 0.5]))
        z = rng.random()
        if z < 0.04:
            auto, tol = False, None
        elif z < 0.08:
            mu = float(rng.choice([1.0, 0.5]))
        elif z < 0.1:
            tol = -0.5
        c = dict(auto=auto, tol="none" if tol is None else num(tol), mu=num(mu), alpha=num(alpha), eps=num(eps))
        kw = dict(initial_epsilon=eps, mu=int(mu) if mu == int(mu) and rng.random() < 0.3 else mu, residual_tol=tol, auto_adaptive=auto, alpha=alpha)
        est = LaplacianPyramidsInterpolator(**kw)
    sets = [(A, targets(rng, A, nt)), (B, targets(rng, B, int(rng.choice([1, nt, nt]))))]
    fitted, cur = False, 0

    def shape(y):
        return (y[:, 0], True) if y.shape[1] == 1 and rng.random() < 0.7 else (y, False)

    for _ in range(int(rng.integers(3, 8))):
        r = rng.random()
        if not fitted and (r < 0.85 or (kind == "lap" and (mu <= 1 or (tol is None and not auto) or (tol is not None and tol < 0)))) or r < 0.15:
            if fitted and rng.random() < 0.7:
                cur = 1 - cur
            X, Y = sets[cur]
            y, y1 = shape(Y)
            store = kind == "ghi" and bool(rng.random() < 0.4)
            pre = digx(X, y, kpar(est))
            ok, e = call(lambda: est.fit(X, y, **(dict(store_kernel_matrix=True) if store else {})))
            aft = digx(X, y, kpar(est))
            if kind == "ghi":
                g = e == ""
                rec.ev("ghi", kind="dmap", k=k, d=dsc, n=ne, X=mat(X), y=mat(Y), y1=y1, lm=[], nlm=0, vals=[num(v) for v in est.eigenvalues_] if g else [],
                       vecs=mat(est.eigenvectors_) if g else [], kmat=mat(est.kernel_matrix_) if g and store else [], err=e, pre=pre, after=aft)
            else:
                rec.ev("lap", ps=c, X=mat(X), y=mat(Y), y1=y1, level=est.level_ if e == "" else -1, err=e, pre=pre, after=aft)
            fitted = e == ""
            if not fitted:
                return
        elif r < 0.22 and fitted:
            z = rng.random()
            est = pickle.loads(pickle.dumps(est)) if z < 0.5 and kind == "lap" else copy.deepcopy(est)
        elif r < 0.75 or not fitted:
            z = rng.random()
            X, bad = (sets[cur][0] if z < 0.25 else Q if z < 0.6 else Q[: int(rng.integers(1, len(Q) + 1))] if z < 0.8 else Q[::-1]), False
            if rng.random() < 0.05 and d > 1:
                X, bad = X[:, :1], True
            elif rng.random() < 0.04:
                X, bad = np.where(X == X[0, 0], np.nan, X), True
            if rng.random() < 0.1 and not bad:
                X = np.vstack([X, X[:1] + float(rng.choice([3, 50]))])
                if kind == "ghi" and k["cut"] != "inf" and np.any(np.abs(cdist(X, sets[cur][0]) - float(k["cut"])) < 1e-5):
                    continue
            pre = digx(X, kpar(est))
            out, e = call(lambda: est.predict(X))
            o = np.asarray(out) if e == "" else np.zeros((0, 0))
            v = o.reshape(len(o), -1) if o.ndim and o.size else o.reshape(1, -1)
            rec.ev("pred", X=mat(X), out=mat(v) if e == "" else [], ndim=int(o.ndim), bad=bad, err=e, pre=pre, after=digx(X, kpar(est)))
        else:
            X = sets[cur][0] if rng.random() < 0.3 else Q
            nt_ = sets[cur][1].shape[1]
            Y = targets(rng, X, nt_)
            y, _ = shape(Y)
            if kind == "lap" and nt_ > 0:
                continue
            w = np.round(rng.random(len(X)) + 0.1, 2) if rng.random() < 0.4 else None
            mo = str(rng.choice(["raw_values", "uniform_average"]))
            val, e = call(lambda: est.score(X, y, sample_weight=w, multioutput=mo))
            rec.ev("score", X=mat(X), y=mat(Y), w=[num(v) for v in (w if w is not None else np.ones(len(X)))], mo=mo, val=[num(v) for v in np.atleast_1d(val)] if e == "" else [], err=e)

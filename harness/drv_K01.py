from estops import *  # noqa
import scipy.sparse
from scipy.spatial.distance import cdist
from datafold.pcfold.distance import BruteForceDist, GuessOptimalDist, ScipyKdTreeDist, SklearnBalltreeDist, SklearnKNN, compute_distance_matrix, init_distance_algorithm

NAMES = {"brute": BruteForceDist, "scipy.kdtree": ScipyKdTreeDist, "sklearn.balltree": SklearnBalltreeDist, "guess_optimal": GuessOptimalDist, "sklearn.knn": SklearnKNN}


def sparse_rows(R):
    """stored entries of a result, row by row"""
    if scipy.sparse.issparse(R):
        R = R.tocsr()
        rows = [[[int(j) + 1, num(v)] for j, v in zip(R.indices[R.indptr[i]:R.indptr[i + 1]], R.data[R.indptr[i]:R.indptr[i + 1]])] for i in range(R.shape[0])]
        return dict(typ="sparse", shape=[int(x) for x in R.shape], rows=rows)
    R = np.asarray(R)
    return dict(typ="dense", shape=[int(x) for x in R.shape], rows=[[[j + 1, num(v)] for j, v in enumerate(r)] for r in R])


NONE = dict(typ="none", shape=[], rows=[])


def cloud(rng, n, d, base=None):
    style = str(rng.choice(["grid", "float", "cluster"]))
    if style == "grid":
        X = rng.integers(-3, 4, size=(n, d)) * 0.5
    elif style == "float":
        X = np.round(rng.normal(size=(n, d)), 4)
    else:
        X = np.round(rng.normal(size=(n, d)) * 0.2 + rng.integers(0, 2, size=(n, 1)) * 5, 3)
    X = np.asarray(X, float)
    if n > 2 and rng.random() < 0.5:
        X[rng.integers(n)] = X[rng.integers(n)]
    if base is not None and n:
        for i in range(n):
            if rng.random() < 0.4:
                X[i] = base[rng.integers(len(base))]
    return X


def good_cut(rng, X, Y):
    """a radius away from all distances (Euclidean)"""
    P = np.vstack([X, Y]) if len(Y) else X
    D = np.unique(np.round(cdist(P, P), 9))
    D = D[D > 1e-6]
    c = float(rng.choice([0.1, 0.3, 0.7, 1.1, 1.7, 2.6, 4.1]))
    return float(np.round(c, 3)) if np.all(np.abs(D - c) > 1e-4) else None


def make(rng, alg, metric, cut, kmin, k, exact):
    """object and whether it goes through the factory"""
    a = dict(metric=metric)
    if alg == "sklearn.knn":
        return (lambda: init_distance_algorithm("sklearn.knn", metric, None, k)) if rng.random() < 0.5 else (lambda: SklearnKNN(metric=metric, k=k))
    c = None if cut == "inf" and rng.random() < 0.5 else np.inf if cut == "inf" else cut
    if alg == "brute":
        if not exact:
            a["exact_numeric"] = False
        if rng.random() < 0.3:
            a.pop("metric")
            return lambda: init_distance_algorithm("brute", metric, c, None, **a)
        return lambda: BruteForceDist(cut_off=c, **a)
    if rng.random() < 0.4:
        return lambda: init_distance_algorithm(alg, metric, c, kmin or None)
    return lambda: NAMES[alg](cut_off=c, kmin=kmin or None, **a)


def attrs(o):
    """the parameters of the algorithm object"""
    return dig([getattr(o, a, None) for a in ("metric", "cut_off", "kmin", "k", "exact_numeric", "backend_options")])


def case(rng, rec, i, tier):
    d = int(rng.choice([1, 2, 2, 3]))
    n = int(rng.choice([2, 3, 5, 7, 9, 11]))
    if tier == "thorough" and rng.random() < 0.2:
        n = int(rng.integers(12, 25))
    X = cloud(rng, n, d)
    X2 = cloud(rng, int(rng.choice([2, 4, n])), d)
    Y = cloud(rng, int(rng.choice([1, 2, 4])), d, X)
    alg = str(rng.choice(["brute", "scipy.kdtree", "sklearn.balltree", "guess_optimal", "sklearn.knn"]))
    metric = str(rng.choice(["euclidean", "sqeuclidean"] if alg in ("scipy.kdtree", "sklearn.balltree") else ["euclidean", "sqeuclidean", "cityblock", "chebyshev"] if alg == "brute" else ["euclidean", "sqeuclidean", "cityblock"]))
    exact = not (alg == "brute" and rng.random() < 0.25)
    cut = good_cut(rng, np.vstack([X, X2]), Y) if rng.random() < 0.8 else None
    if cut is not None and metric in ("cityblock", "chebyshev"):
        P = np.vstack([X, X2, Y])
        if np.any(np.abs(cdist(P, P, metric) - cut) < 1e-4):
            cut = None
    if alg == "sklearn.knn":
        cut = None
    cut = "inf" if cut is None else cut
    kmin = int(rng.choice([0, 0, 1, 2, 3, 5])) if alg in ("scipy.kdtree", "sklearn.balltree") or (alg == "guess_optimal" and metric != "cityblock") else 0
    k = int(rng.choice([1, 2, 3, 5])) if alg == "sklearn.knn" else 0
    key = dict(alg=alg, metric=metric, cut="inf" if cut == "inf" else num(cut), kmin=0 if cut == "inf" else kmin, k=k, exact=exact)
    mk = make(rng, alg, metric, cut, kmin, k, exact)
    if rng.random() < 0.2 and alg != "sklearn.knn":
        kw = dict(exact_numeric=False) if not exact else {}
        o = lambda A, B=None: compute_distance_matrix(A, B, metric=metric, cut_off=None if cut == "inf" else cut, k=kmin or None, backend=alg, **kw)
        err, ident = "", lambda: ""
    else:
        o, err = call(mk)
        ident = lambda: attrs(o)
    rec.ev("obj", k=key, id=ident() if err == "" else "", err=err)
    if err != "":
        return
    for _ in range(int(rng.integers(1, 5))):
        r = rng.random()
        A = X if r < 0.6 else X2
        pd_ = bool(rng.random() < 0.4)
        B = None if pd_ else (Y if rng.random() < 0.75 else cloud(rng, int(rng.choice([1, 2, 3])), d, A))
        if B is not None and B is not Y and cut != "inf" and np.any(np.abs(cdist(B, A, metric) - (cut**2 if metric == "sqeuclidean" else cut)) < 1e-4):
            B = Y
        s = rng.random()
        if s < 0.03:
            A = A.copy()
            A[0, 0] = np.nan
        elif s < 0.06 and B is not None:
            B = np.hstack([B, B[:, :1]])
        elif s < 0.08:
            A = A[:1]
        FA, FB = mat(A), ([] if B is None else mat(B))
        if B is not None and len(B) == 1 and rng.random() < 0.4 and d > 1:
            B = B[0]
        pre = dig([A, B])
        R, e = call(lambda: o(A, B))
        rec.ev("dist", k=key, X=FA, Y=FB, pd=B is None, R=sparse_rows(R) if e == "" else NONE, err=e, pre=pre, after=dig([A, B]), id=ident())

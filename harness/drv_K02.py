from estops import *  # noqa
import scipy.sparse
from scipy.spatial.distance import cdist
from drv_K01 import sparse_rows, NONE, cloud, good_cut
from datafold.pcfold.distance import init_distance_algorithm
from datafold.pcfold import PCManifold
from datafold.pcfold.kernels import (ConeKernel, ContinuousNNKernel, CubicKernel, DmapKernelFixed, GaussianKernel, InverseMultiquadricKernel,
                                     InverseQuadraticKernel, MultiquadricKernel, QuinticKernel, RoselandKernel, ThinplateKernel)

RBF = dict(gauss=GaussianKernel, mq=MultiquadricKernel, imq=InverseMultiquadricKernel, iq=InverseQuadraticKernel, cubic=CubicKernel, quintic=QuinticKernel, thinplate=ThinplateKernel)
K0 = dict(kern="gauss", eps="1", cut="inf", knn=0, kmin=0, kn=0, delta="0", zeta="0", acc=2, h="1")


def rows_of(M):
    """result of a kernel evaluation"""
    if isinstance(M, pd.DataFrame):
        r = sparse_rows(M.to_numpy())
        return dict(r, typ="frame", idx=[[small_int(i), small_int(round(t * TICK[0]))] for i, t in M.index.tolist()])
    return dict(sparse_rows(M), idx=[])


TICK = [1]
NOR = dict(NONE, idx=[])


def base_kernel(rng, X, Y, positive):
    """(description, constructor, options) of a kernel on point clouds"""
    kinds = ["gauss", "gauss", "iq", "imq", "mq", "cnn"] if positive else list(RBF) + ["cnn"]
    kern = str(rng.choice(kinds))
    n = len(X)
    k = dict(K0, kern=kern)
    eps = float(rng.choice([0.05, 0.3, 1.0, 2.5, 20.0]))
    k["eps"] = num(eps)
    mode = str(rng.choice(["dense", "dense", "cut", "cut", "knn"]))
    cut = good_cut(rng, X, Y)
    if cut is None and mode == "cut":
        mode = "dense"
    if kern == "iq":
        mode = "dense"   # takes no distance options
    kw, dist = {}, None
    kn = int(rng.integers(2, min(5, n) + 1)) if n > 2 else 2
    kmin = kn if kern == "cnn" else int(rng.choice([0, 0, 2, 3]))
    kmin = min(kmin, n)
    sq = "sqeuclidean" if kern in ("gauss", "mq", "imq", "iq") else "euclidean"
    if mode == "cut":
        k["cut"], k["kmin"] = num(cut), kmin
        r = rng.random()
        if r < 0.5 or (kern == "cnn" and r < 0.7):
            dist = dict(cut_off=cut)
            if kmin and not (kern == "cnn" and rng.random() < 0.5):
                dist["kmin"] = kmin
            if rng.random() < 0.5 and kern != "cnn":
                dist["backend"] = str(rng.choice(["guess_optimal", "scipy.kdtree", "sklearn.balltree"]))
        else:
            dist = init_distance_algorithm(str(rng.choice(["scipy.kdtree", "sklearn.balltree"] if kmin else ["brute", "scipy.kdtree", "sklearn.balltree"])), sq, cut, kmin or None)
    elif mode == "knn":
        k["knn"] = int(rng.integers(max(2, kn if kern == "cnn" else 2), n + 1)) if n > 2 else 2
        dist = init_distance_algorithm("sklearn.knn", sq, None, k["knn"])
    elif rng.random() < 0.3 and kern != "iq":
        dist = rng.choice([None, {}, dict(metric=sq), dict(cut_off=np.inf), init_distance_algorithm("brute", sq, None, None)])
    if kern == "cnn":
        delta = float(rng.choice([0.3, 0.8, 1.0, 1.4, 2.2]))
        k.update(kn=kn, delta=num(delta))
        return k, (lambda: ContinuousNNKernel(kn, delta, distance=dist)), dist
    if kern == "iq":
        return k, (lambda: InverseQuadraticKernel(eps)), dist
    if kern in ("cubic", "quintic", "thinplate"):
        return k, (lambda: RBF[kern](distance=dist)), dist
    if kern == "gauss" and rng.random() < 0.1:
        return k, (lambda: GaussianKernel(lambda D: eps, distance=dist)), dist
    return k, (lambda: RBF[kern](eps, distance=dist)), dist


def tsc(rng, d, h, acc, lens):
    rows, idx = [], []
    nid = int(rng.integers(0, 3))
    for L in lens:
        t0 = int(rng.integers(0, 4))
        st = str(rng.choice(["float", "grid", "smooth"]))
        if st == "smooth":
            V = np.round(np.cumsum(rng.normal(size=(L, d)), axis=0), 3)
        elif st == "grid":
            V = rng.integers(-3, 4, size=(L, d)) * 0.5
        else:
            V = np.round(rng.normal(size=(L, d)), 3)
        for q in range(L):
            rows.append(V[q])
            idx.append((nid, (t0 + q) * h))
        nid += int(rng.integers(1, 3))
    ix = pd.MultiIndex.from_tuples(idx, names=["ID", "time"])
    return TSCDataFrame(pd.DataFrame(np.array(rows, float), index=ix, columns=[f"x{j}" for j in range(d)]))


def tsrows(X):
    return [[small_int(i), small_int(round(t * TICK[0])), [num(v) for v in r]] for (i, t), r in zip(X.index.tolist(), X.to_numpy())]


def case(rng, rec, i, tier):
    TICK[0] = 1
    obj = str(rng.choice(["base", "dmap", "dmap", "rose"]))
    d = int(rng.choice([1, 2, 2, 3]))
    cone = obj != "rose" and rng.random() < 0.25
    big = 14 if tier == "thorough" else 8
    if cone:
        acc = int(rng.choice([2, 4]))
        h = float(rng.choice([1, 0.5, 2, 0.25]))
        TICK[0] = 1 / h
        mkts = lambda m: tsc(rng, d, h, acc, [int(rng.integers(acc + 1, acc + 4)) for _ in range(m)])
        X, Y, X2 = mkts(int(rng.integers(1, 3))), mkts(int(rng.integers(1, 3))), mkts(1)
        zeta, eps = float(rng.choice([0, 0, 0.3, 0.9, 0.99])), float(rng.choice([0.3, 1, 3, 20]))
        k = dict(K0, kern="cone", eps=num(eps), zeta=num(zeta), acc=acc, h=num(h))
        dist = None if rng.random() < 0.7 else {}
        mk = lambda: ConeKernel(zeta=zeta, epsilon=eps, fd_accuracy=acc, distance=dist)
        fm = tsrows
    else:
        n = int(rng.integers(3, big))
        X = cloud(rng, n, d)
        Y = cloud(rng, int(rng.integers(1, 6)), d, X)
        X2 = cloud(rng, int(rng.integers(2, 6)), d, X)
        k, mk, dist = base_kernel(rng, np.vstack([X, X2]) if obj != "base" else X, Y, obj != "base") if True else None
        if obj == "rose" and k["kern"] == "cnn":
            return
        if k["knn"] or k["kmin"]:
            X = np.round(rng.normal(size=X.shape), 4)
            Y = np.round(rng.normal(size=Y.shape), 4)
            X2 = np.round(rng.normal(size=X2.shape), 4)
            k["knn"] = 0 if k["knn"] == 0 else k["knn"]
        m = min(len(X), len(X2))
        if max(k["knn"], k["kmin"], k["kn"]) > m:
            X = np.vstack([X, np.round(rng.normal(size=(8, d)), 4)])
            X2 = np.vstack([X2, np.round(rng.normal(size=(8, d)), 4)])
        if k["cut"] != "inf":
            P = np.vstack([X, Y, X2])
            if np.any(np.abs(cdist(P, P) - float(k["cut"])) < 1e-5):
                return
        fm = mat
    dsc = dict(stoch=True, alpha="0", sym=True)
    if obj == "dmap":
        alpha = float(rng.choice([0, 0.5, 1, 1, 0.25]))
        stoch, sym = bool(rng.random() < 0.85), bool(rng.random() < 0.6)
        dsc = dict(stoch=stoch, alpha=num(alpha), sym=sym)
        build = lambda: DmapKernelFixed(mk(), is_stochastic=stoch, alpha=alpha if rng.random() < 0.5 or alpha not in (0, 1) else int(alpha), symmetrize_kernel=sym)
    elif obj == "rose":
        alpha = float(rng.choice([0, 0, 0.5, 1]))
        dsc = dict(dsc, alpha=num(alpha))
        build = lambda: RoselandKernel(mk(), alpha=alpha)
    else:
        build = mk
    pre = dig(dist) if isinstance(dist, dict) else ""
    o, err = call(build)
    rec.ev("obj", k=k, err=err, pre=pre, after=dig(dist) if isinstance(dist, dict) else "")
    if err != "":
        return
    ncall = int(rng.integers(2, 5))
    first = True
    for c in range(ncall):
        A, B = X, None
        bad = False
        if obj == "rose":
            B = Y if not first else (cloud(rng, int(rng.integers(3, 9)), d, X) if not (k["knn"] or k["kmin"]) else np.round(rng.normal(size=(6, d)), 4))
            if k["cut"] != "inf" and np.any(np.abs(cdist(A, B) - float(k["cut"])) < 1e-5):
                return
            if rng.random() < 0.2 and not first:
                B = X
        elif not first or rng.random() < 0.05:
            r = rng.random()
            B = None if r < (0.08 if obj == "dmap" or k["kern"] == "cnn" else 0.3) else X if r < 0.4 else Y
            if obj == "base" and k["kern"] != "cnn" and rng.random() < 0.4:
                A = X2
            elif B is None and rng.random() < 0.5:
                A = X2
        if rng.random() < 0.04 and B is not None and not cone and d > 1:
            B, bad = B[:, :1], True
        if rng.random() < 0.03 and not first and not cone and obj == "dmap":
            # another number of reference points than at the pair-wise evaluation
            A, B, bad = X[:-1], Y, NeedRef(dsc)
            if not bad:
                continue
        FA, FB = fm(A), ([] if B is None else fm(B))
        how = str(rng.choice(["call", "call", "call", "evaluate", "pcm"]))
        if cone or k["kern"] == "cnn" or bad:
            how = "call" if not (k["kern"] == "cnn" and obj == "base" and not bad and how == "evaluate") else "evaluate"
        if how == "pcm" and obj == "rose":
            how = "call"
        if how == "evaluate":
            DM, e = call(lambda: o.internal_kernel.distance(A, B) if obj == "rose" else o.distance(A, B))
            if e != "":
                rec.ev("crash", err="distance:" + e)
                return
            pre = dig(DM)
            kw = dict(is_pdist=B is None) if obj == "dmap" or k["kern"] == "cnn" else {}
            R, e = call(lambda: o.evaluate(DM, **kw))
            after = dig(DM)
        else:
            pre = dig([A, B])
            if how == "pcm":
                P = PCManifold(A, kernel=o)
                R, e = call(lambda: P.compute_kernel_matrix(B) if B is not None else P.compute_kernel_matrix())
            else:
                R, e = call(lambda: o(A) if B is None else o(A, B))
            after = dig([A, B])
        bm = getattr(o, "basis_change_matrix_", None)
        rec.ev("kern", obj=obj, k=k, d=dsc, X=FA, Y=FB, pd=B is None, bad=bad, R=rows_of(R) if e == "" else NOR, err=e, pre=pre, after=after,
               issym=bool(o.is_symmetric) if obj != "rose" else False, basis=[] if bm is None else [num(v) for v in bm.diagonal()])
        first = False
        if e != "" and c == 0 and obj != "rose":
            first = True


def NeedRef(dsc):
    return dsc["stoch"] and float(dsc["alpha"]) > 0

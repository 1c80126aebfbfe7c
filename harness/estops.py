"""Estimators for the lifecycle and transformer specifications: kinds, data, history execution and event recording."""
import copy
import hashlib
import json
import pickle
import types

from vlib import *  # noqa
import vlib
from sklearn.base import clone
from sklearn.exceptions import NotFittedError
from datafold import TSCDataFrame

NOFRAME = {"typ": "none", "idx": [], "cols": [], "vals": [], "tk": "?", "strcols": True}


# ------------------------------------------------------------------ digests
def _feed(h, o, depth=0):
    if depth > 12:
        h.update(b"deep")
    elif isinstance(o, np.ndarray):
        if o.dtype == object:
            h.update(b"obj" + repr(o.tolist()).encode())
        else:
            h.update(f"nd{o.shape}{o.dtype}".encode() + np.ascontiguousarray(o).tobytes())
    elif hasattr(o, "tocsr"):
        c = o.tocsr().copy()
        c.sort_indices()
        for x in (c.data, c.indices, c.indptr):
            _feed(h, x, depth + 1)
    elif isinstance(o, pd.DataFrame):
        h.update(type(o).__name__.encode())
        _feed(h, o.index, depth + 1)
        _feed(h, o.columns, depth + 1)
        _feed(h, np.asarray(o.to_numpy()), depth + 1)
    elif isinstance(o, pd.Series):
        _feed(h, o.index, depth + 1)
        _feed(h, o.to_numpy(), depth + 1)
    elif isinstance(o, pd.Index):
        h.update(f"ix{[str(n) for n in o.names]}{o.dtype}{[repr(x) for x in o.tolist()]}".encode())
    elif isinstance(o, dict):
        for k in sorted(o, key=str):
            h.update(str(k).encode())
            _feed(h, o[k], depth + 1)
    elif isinstance(o, (list, tuple)):
        h.update(f"seq{len(o)}".encode())
        for x in o:
            _feed(h, x, depth + 1)
    elif isinstance(o, (int, float, complex, str, bool, bytes, type(None), np.generic, pd.Timedelta, pd.Timestamp)):
        h.update(repr(o).encode())
    elif isinstance(o, (types.FunctionType, types.BuiltinFunctionType, np.ufunc, type)):
        h.update(getattr(o, "__name__", "f").encode())
    elif isinstance(o, slice):
        h.update(repr(o).encode())
    else:
        h.update(type(o).__name__.encode())
        d = getattr(o, "__dict__", None)
        if PAR and hasattr(o, "get_params"):
            d = o.get_params(deep=False)
        if d is None:
            h.update(b"?")
        else:
            _feed(h, {k: v for k, v in d.items() if not k.startswith("__")}, depth + 1)


def dig(o):
    h = hashlib.sha1()
    _feed(h, o)
    return h.hexdigest()[:12]


PAR = []


def pardig(est):
    """digest of the constructor parameters (of nested estimators: their parameters, not their fitted state)"""
    PAR.append(1)
    try:
        return type(est).__name__ + dig(est.get_params(deep=False))
    finally:
        PAR.pop()


def state_of(est, names=None):
    pars = set(est.get_params(deep=False))
    d = {k: v for k, v in vars(est).items() if k not in pars and k.endswith("_") and not k.startswith("__")}
    plain = lambda v: isinstance(v, (np.ndarray, pd.DataFrame, pd.Index, pd.Series)) or hasattr(v, "tocsr") or not hasattr(v, "__dict__")
    return {k: v for k, v in d.items() if (names is None or k in names) and plain(v)}


# ------------------------------------------------------------------ frames
def frame(x, ck):
    if x is None:
        return NOFRAME
    if isinstance(x, (tuple, list)):
        x = np.column_stack([np.asarray(a, dtype=float).reshape(len(np.atleast_1d(a)), -1) for a in x if a is not None])
    if isinstance(x, pd.Series):
        x = x.to_numpy()
    if isinstance(x, pd.DataFrame):
        ty = "tsc" if isinstance(x, TSCDataFrame) else "df"
        if ty == "tsc":
            tk = kind_of(x.index)
            c = ck if tk in "if" and ck.kind in "if" or tk == ck.kind else Clock(tk, 1)
            idx = [[small_int(i), c.tick(t)] for i, t in x.index.tolist()]
        else:
            tk, idx = "?", [[str(i)] for i in x.index.tolist()]
        v = np.asarray(x.to_numpy())
        return {"typ": ty, "idx": idx, "cols": [str(c) for c in x.columns], "vals": cpx(v), "tk": tk, "strcols": all(isinstance(c, str) for c in x.columns)}
    if hasattr(x, "toarray"):
        x = x.toarray()
    v = np.asarray(x)
    if v.dtype == object:
        v = np.zeros((0, 0))
    if v.ndim != 2:
        v = v.reshape(v.shape[0] if v.ndim else 1, -1)
    return {"typ": "np", "idx": [[str(i)] for i in range(v.shape[0])], "cols": [str(j) for j in range(v.shape[1])], "vals": cpx(v), "tk": "?", "strcols": True}


def cpx(v):
    if np.iscomplexobj(v):
        v = np.hstack([v.real, v.imag])
    return [[num(e) for e in row] for row in v]


# ------------------------------------------------------------------ history executor
class Hist:
    """Executes a lifecycle history on real estimators and records one event per step."""

    def __init__(self, rec, ck):
        self.rec, self.ck = rec, ck
        self.obj = []       # [est, k]
        self.fitnames = {}
        self.up = lambda est, m: ""  # "sgn" (columns up to sign) | "any" (labels only)

    def _add(self, est, k):
        self.obj.append([est, k])
        return len(self.obj) - 1

    def new(self, ctor, k):
        est = ctor()
        h = self._add(est, k)
        self.rec.ev("new", h=h, p=pardig(est), k=k)
        return h

    def setpar(self, h, ctor, k):
        est = self.obj[h][0]
        est.set_params(**ctor().get_params(deep=False))
        self.obj[h][1] = k
        self.rec.ev("setpar", h=h, p=pardig(est), k=k)

    def fit(self, h, X, kw=None, m="fit"):
        est, k = self.obj[h]
        kw = dict(kw or {})
        d = dig([X, kw])
        D = frame(X, self.ck)
        args = dict(kw)
        R, err = call(lambda: getattr(est, m)(X, **args))
        ev = dict(nin=-1, fin=[], finok=False, fout=[], nout=-1, namesok=False, R=NOFRAME)
        if err == "":
            ev["nin"] = small_int(getattr(est, "n_features_in_", -1), -1)
            f, e2 = call(lambda: [str(c) for c in est.feature_names_in_])
            if e2 == "":
                ev["fin"], ev["finok"] = f, True
            ev["nout"] = small_int(call(lambda: est.n_features_out_)[0], -1)
            f, e2 = call(lambda: [str(c) for c in est.get_feature_names_out()])
            if e2 == "" and hasattr(est, "transform"):
                ev["fout"], ev["namesok"] = f, True
            if m == "fit_transform":
                ev["R"] = frame(R, self.ck)
            self.fitnames[h] = set(state_of(est))
        self.rec.ev("fit", h=h, m=m, up=self.up(est, m), d=d, D=D, d1=dig([X, kw]), par1=pardig(est), err=err, **ev)
        return err == ""

    def call(self, h, m, X, kw=None):
        est, k = self.obj[h]
        kw = dict(kw or {})
        x = dig([X, kw])
        F = frame(X, self.ck)
        names = self.fitnames.get(h)
        st0 = dig(state_of(est, names)) if names is not None else ""
        fn = getattr(est, m) if not m.startswith("attr:") else (lambda X, **kw: getattr(est, m[5:]))
        nf = False
        try:
            R, err = fn(X, **kw), ""
        except CaseTimeout:
            raise
        except NotFittedError:
            R, err, nf = None, "NotFittedError", True
        except Exception as e:
            R, err = None, type(e).__name__
            if os.environ.get("VERIF_TB"):
                import traceback

                print("----", m, type(e).__name__, str(e)[:300], [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[-6:]])
        st1 = dig(state_of(est, names)) if names is not None else ""
        self.rec.ev("call", h=h, m=m, up=self.up(est, m), x=x, X=F, x1=dig([X, kw]), par1=pardig(est), st0=st0, st1=st1, nf=nf, err=err, R=frame(R, self.ck) if err == "" else NOFRAME)
        return R, err

    def copy(self, h, how):
        est, k = self.obj[h]
        fn = {"clone": lambda: clone(est), "pickle": lambda: pickle.loads(pickle.dumps(est)), "deepcopy": lambda: copy.deepcopy(est)}[how]
        E, err = call(fn)
        g = -1
        if err == "":
            g = self._add(E, k)
            if how != "clone" and h in self.fitnames:
                self.fitnames[g] = set(self.fitnames[h])
        self.rec.ev(how, h=h, g=g, err=err, par1=pardig(E) if err == "" else "")
        return g


# ------------------------------------------------------------------ transformer kinds
def sq(x):
    return x**2


def plus1(x):
    return x + 1.0


def K(cls, **kw):
    d = dict(cls=cls)
    d.update(kw)
    return d


LAMB = {"sq": sq, "plus1": plus1, "sin": np.sin, "cos": np.cos}


def lam_list(names):
    return [LAMB[n] for n in names]


def mk(k):
    """estimator constructor of a parameter record"""
    import datafold.dynfold as dy
    from datafold.dynfold.transform import TSCMovingAverage, TSCFeatureSelect
    from datafold.pcfold import kernels as kk

    c = k["cls"]
    if c == "identity":
        return lambda: dy.TSCIdentity(include_const=k["const"], rename_features=k["rename"])
    if c == "preprocess":
        return lambda: dy.TSCFeaturePreprocess.from_name(k["name"])
    if c == "select":
        return lambda: TSCFeatureSelect(np.array(k["features"], dtype=None if k["strs"] else int))
    if c == "pca":
        return lambda: dy.TSCPrincipalComponent(n_components=k["n"])
    if c == "takens":
        return lambda: dy.TSCTakensEmbedding(delays=k["delays"], lag=k["lag"], frequency=k["freq"], kappa=float(k["kappa"]))
    if c == "rbf":
        ker = {"gauss": lambda: kk.GaussianKernel(epsilon=float(k["eps"])), "mq": lambda: kk.MultiquadricKernel(epsilon=float(k["eps"])),
               "imq": lambda: kk.InverseMultiquadricKernel(epsilon=float(k["eps"])), "iq": lambda: kk.InverseQuadraticKernel(epsilon=float(k["eps"]))}[k["kernel"]]
        return lambda: dy.TSCRadialBasis(kernel=ker(), center_type=k["center"], n_samples=k["n"])
    if c == "poly":
        return lambda: dy.TSCPolynomialFeatures(degree=k["degree"], interaction_only=k["inter"], include_bias=k["bias"], include_first_order=k["first"])
    if c == "lambdas":
        return lambda: dy.TSCApplyLambdas(lam_list(k["fns"]))
    if c == "fd":
        return lambda: dy.TSCFiniteDifference(scheme=k["scheme"], diff_order=k["order"], accuracy=k["acc"])
    if c == "ma":
        return lambda: TSCMovingAverage(window=k["window"])
    if c == "ct":
        return lambda: dy.TSCColumnTransformer([(f"t{i}", mk(s)(), s["cols"]) for i, s in enumerate(k["subs"])], remainder=k["remainder"],
                                               verbose_feature_names_out=k["verbose"])
    if c == "pipe":
        from datafold.dynfold.compose import TSCPipeline
        return lambda: TSCPipeline([(f"s{i}", mk(s)()) for i, s in enumerate(k["subs"])])
    raise ValueError(c)


TSC_ONLY = {"takens", "select", "lambdas", "fd", "ma", "ct", "pipe"}
HAS_INV = {"identity", "preprocess", "pca", "takens", "rbf"}
ALL_TRF = ["identity", "preprocess", "select", "pca", "takens", "rbf", "poly", "lambdas", "fd", "ma", "ct", "pipe"]


def gen_k(rng, c, cols):
    """random parameter record; cols: columns of the data it is meant for"""
    d = len(cols)
    b = lambda p=0.5: bool(rng.random() < p)
    if c == "identity":
        return K(c, const=b(), rename=b())
    if c == "preprocess":
        return K(c, name=str(rng.choice(["min-max", "standard", "center"])))
    if c == "select":
        strs = b()
        n = int(rng.integers(1, d + 1))
        pick = rng.permutation(d)[:n]
        return K(c, strs=strs, features=[cols[j] if strs else int(j) for j in pick])
    if c == "pca":
        return K(c, n=int(rng.integers(1, d + 1)))
    if c == "takens":
        delays = int(rng.integers(1, 4))
        return K(c, delays=delays, lag=int(rng.choice([0, 0, 1, 2])), freq=1 if delays == 1 else int(rng.choice([1, 1, 2])), kappa=num(rng.choice([0, 0, 0.5, 1.0])))
    if c == "rbf":
        return K(c, kernel=str(rng.choice(["gauss", "mq", "imq", "iq"])), eps=num(rng.choice([0.5, 1.0, 2.0])), center=str(rng.choice(["all_data", "random", "initial_condition"])), n=int(rng.integers(1, 5)))
    if c == "poly":
        bias, first, deg = b(), b(), int(rng.integers(1, 4))
        if deg == 1 and not first:
            deg = 2
        inter = b(0.3) and d > 1
        if inter and deg > d:
            deg = max(2, d)
        return K(c, degree=deg, inter=inter, bias=bias, first=first)
    if c == "lambdas":
        return K(c, fns=[str(x) for x in rng.permutation(list(LAMB))[: int(rng.integers(1, 4))]])
    if c == "fd":
        return K(c, scheme=str(rng.choice(["center", "backward", "forward"])), order=int(rng.integers(1, 3)), acc=2)
    if c == "ma":
        return K(c, window=int(rng.integers(1, 4)))
    if c == "ct":
        n = int(rng.integers(1, 3))
        parts = [[c2 for c2 in cols if b(0.6)] for _ in range(n)]
        subs = []
        for p in parts:
            p = p or [cols[0]]
            s = gen_k(rng, str(rng.choice(["identity", "preprocess", "takens", "poly", "lambdas", "pca"])), p)
            s["cols"] = p
            subs.append(s)
        return K(c, subs=subs, remainder="drop", verbose=True)
    if c == "pipe":
        subs = [gen_k(rng, "preprocess", cols), gen_k(rng, str(rng.choice(["takens", "poly", "pca", "rbf", "lambdas"])), cols)]
        return K(c, subs=subs)
    raise ValueError(c)


def gen_data(rng, ck, cols, typ="tsc", min_len=6, max_len=9, n_series=None, regular=True, delta=None):
    n = int(n_series or rng.integers(1, 4))
    ids = gen_ids(rng, n)
    dl = int(delta or 1)
    layout = [(i, gen_times(rng, int(rng.integers(min_len, max_len + 1)), "reg" if regular else "irr", dl, int(rng.integers(0, 5)))) for i in ids]
    m = sum(len(t) for _, t in layout)
    V = rng.normal(size=(m, len(cols))) * rng.choice([1.0, 3.0]) + rng.choice([0.0, 2.0])
    if rng.random() < 0.1:
        V[:, 0] = 1.5
    if typ == "tsc":
        return vlib.build(layout, cols, V, ck)
    if typ == "df":
        return pd.DataFrame(V, columns=cols, index=[f"r{q}" for q in rng.permutation(m)])
    return V


def spoil(rng, X, what):
    """inadmissible variant of an input"""
    if what == "nan":
        X = X.copy()
        if isinstance(X, pd.DataFrame):
            X.iloc[int(rng.integers(0, X.shape[0])), int(rng.integers(0, X.shape[1]))] = np.nan
        else:
            X[0, 0] = np.nan
        return X
    if not isinstance(X, pd.DataFrame):
        return np.hstack([X, X[:, :1]]) if what in ("extra", "perm") else X[:, :-1] if X.shape[1] > 1 else np.hstack([X, X])
    cols = list(X.columns)
    if what == "perm" and len(cols) > 1:
        return X[cols[::-1]]
    if what == "extra":
        Y = X.copy()
        Y["zz"] = 1.0
        return Y
    if what == "fewer" and len(cols) > 1:
        return X[cols[:-1]]
    if what == "dt" and isinstance(X, TSCDataFrame):
        rows = []
        for i, g in X.groupby("ID"):
            rows.append(np.arange(g.shape[0]) % 2 == 0)
        return X[np.concatenate(rows)]
    if what == "short" and isinstance(X, TSCDataFrame):
        g = np.concatenate([np.arange(n) < 2 for n in [(X.index.get_level_values(0) == i).sum() for i in X.ids]])
        return X[g]
    return X.rename(columns={cols[-1]: "other" if isinstance(cols[-1], str) else 77})


# ------------------------------------------------------------------ histories of transformers
def random_history(rng, n):
    """abstract history in the format of GEN_EST"""
    ev, nobj, fitted = [dict(op="new", par="p1")], 1, set()
    for _ in range(n):
        h = int(rng.integers(1, nobj + 1))
        q = rng.random()
        if not fitted or q < 0.25:
            ev.append(dict(op="fit", h=h, d=str(rng.choice(["d1", "d2"])), m=str(rng.choice(["fit", "fit_transform"]))))
            fitted.add(h)
        elif q < 0.65:
            ev.append(dict(op="call", h=h, x=str(rng.choice(["x1", "x2", "x3"]))))
        elif q < 0.8:
            ev.append(dict(op="badcall", h=h, x=str(rng.choice(["x1", "x2", "x3"]))))
        elif q < 0.85:
            ev.append(dict(op="badfit", h=h, d="d1"))
        elif q < 0.9 and nobj < 3:
            ev.append(dict(op=str(rng.choice(["pickle", "deepcopy", "clone"])), h=h))
            nobj += 1
            fitted |= {nobj} if h in fitted else set()
        elif q < 0.95:
            ev.append(dict(op="setpar", h=h, par=str(rng.choice(["p1", "p2"]))))
        else:
            ev.append(dict(op="call", h=h, x="x2"))
    return ev


def trf_history(rng, rec, cls, events):
    ck = gen_clock(rng)
    typ = "tsc" if cls in TSC_ONLY else str(rng.choice(["tsc", "tsc", "tsc", "df", "np"]))
    cols = gen_cols(rng, int(rng.choice([1, 2, 2, 3])))
    intcols = typ == "tsc" and rng.random() < 0.15 and cls not in ("select", "ct")
    if intcols:
        cols = [int(x) for x in rng.permutation(6)[: len(cols)]]
    sorted_cols = cols
    other = gen_cols(rng, int(rng.choice([1, 2, 3]))) if rng.random() < 0.4 and cls not in ("select", "ct") else cols
    if other is not cols and intcols:
        other = cols[::-1]
    dl = int(rng.choice([1, 1, 2]))
    mn = 8
    kw = dict(min_len=mn, max_len=mn + 3, delta=dl)
    data = {"d1": gen_data(rng, ck, cols, typ, **kw), "d2": gen_data(rng, ck, other, typ, **kw)}
    if rng.random() < 0.12 and cls not in ("takens", "fd", "ma", "ct", "pipe") and typ == "tsc":
        data["d1"] = gen_data(rng, ck, cols, typ, min_len=1, max_len=6, regular=False)
    pcols = cols if len(cols) <= len(other) else other
    P = {"p1": gen_k(rng, cls, pcols), "p2": gen_k(rng, cls, pcols)}
    t3 = typ if typ == "tsc" and (cls in TSC_ONLY) else str(rng.choice(["tsc", "df", "np"]))
    if intcols:
        t3 = "tsc"
    X = {"x1": data["d1"], "x2": gen_data(rng, ck, cols, typ, **kw), "x3": gen_data(rng, ck, other, t3, **kw)}
    H = Hist(rec, ck)
    last = {}

    def method(h):
        return "inverse_transform" if cls in HAS_INV and rng.random() < 0.35 else "transform"

    invin = {}

    def inv_input(h, x):
        """input of an inverse transform: what the object announces as its output"""
        key = (h, x)
        est = H.obj[h][0]
        if call(lambda: est.n_features_out_)[1] != "":
            return X[x]
        Z = X[x]
        n = int(est.n_features_out_)
        names, e = call(lambda: [str(c) if isinstance(c, str) else c for c in est.get_feature_names_out()])
        V = np.round(np.random.default_rng([len(x), n, Z.shape[0]]).normal(size=(Z.shape[0], n)), 3)
        if not isinstance(Z, pd.DataFrame):
            return V
        if e != "" or len(names) != n:
            return V
        idx = Z.index
        return type(Z)(pd.DataFrame(V, index=idx, columns=names))

    def docall(h, x, bad=False):
        m = method(h)
        Z = inv_input(h, x) if m == "inverse_transform" else X[x]
        if bad:
            Z = spoil(rng, Z, str(rng.choice(["nan", "perm", "extra", "fewer", "ren"] if m == "inverse_transform" else ["nan", "perm", "extra", "fewer", "ren", "dt", "short", "perm"])))
            if m == "inverse_transform" and frame(Z, ck)["vals"] and any("nan" in r for r in frame(Z, ck)["vals"]):
                m, Z = "transform", spoil(rng, X[x], "nan")
        H.call(h, m, Z)

    for e in events:
        op = e["op"]
        h = e.get("h", 0) - 1
        if op == "new":
            H.new(mk(P[e["par"]]), P[e["par"]])
        elif op == "setpar":
            H.setpar(h, mk(P[e["par"]]), P[e["par"]])
        elif op == "fit":
            if H.fit(h, data[e["d"]], m=e["m"]):
                last[h] = e["d"]
        elif op == "badfit":
            what = "nan" if cls != "select" else "ren"
            H.fit(h, spoil(rng, data[e["d"]], what), m="fit")
        elif op == "call":
            docall(h, e["x"])
        elif op == "badcall":
            docall(h, e["x"], bad=True)
        else:
            g = H.copy(h, op)
            if h in last and op != "clone":
                last[g] = last[h]
    # probes: the same calls on a fresh object fitted once
    hs = list(last)
    for h in hs[:2]:
        k = H.obj[h][1]
        g = H.new(mk(k), k)
        if H.fit(g, data[last[h]], m=str(rng.choice(["fit", "fit_transform"]))):
            for x in ("x1", "x2"):
                H.call(g, "transform", X[x])
                H.call(h, "transform", X[x])
            if cls in HAS_INV:
                Z = inv_input(g, "x2")
                H.call(g, "inverse_transform", Z)
                H.call(h, "inverse_transform", Z)

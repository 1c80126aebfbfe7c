"""EDMD models for the specification T_EDM."""
from modops import *  # noqa
from datafold.appfold import EDMD
from datafold.appfold.edmd import EDMDWindowPrediction


def gen_dict(rng, cols, small=False, kinds=None):
    """dictionary steps (parameter records)"""
    n = len(cols)
    kind = str(rng.choice(kinds or ["identity", "const", "rename", "poly", "poly2", "lambdas", "takens", "scaletakens", "scale", "pca", "takenspca", "ma", "rbf", "scalepoly", "idpoly"]))
    name = str(rng.choice(["min-max", "standard", "center"]))
    scale = K("preprocess", name=name)
    tak = K("takens", delays=int(rng.choice([1, 1, 2])) if not small and n < 3 else 1, lag=int(rng.choice([0, 0, 1])), freq=1, kappa=num(rng.choice([0, 0, 0.5])))
    poly = K("poly", degree=2, inter=False, bias=bool(rng.random() < 0.5), first=True)
    subs = {
        "identity": [K("identity", const=False, rename=False)],
        "const": [K("identity", const=True, rename=False)],
        "rename": [K("identity", const=bool(rng.random() < 0.3), rename=True)],
        "poly": [poly],
        "poly2": [dict(poly, first=False)],
        "lambdas": [K("lambdas", fns=[str(x) for x in rng.permutation(list(LAMB))[: int(rng.integers(1, 3))]])],
        "takens": [tak],
        "scaletakens": [scale, tak],
        "scale": [scale],
        "pca": [K("pca", n=n)],
        "takenspca": [tak, K("pca", n=int(rng.integers(n, n * 2 + 1)))],
        "ma": [K("ma", window=int(rng.choice([2, 3])))],
        "rbf": [K("rbf", kernel=str(rng.choice(["gauss", "mq", "imq"])), eps="1", center="initial_condition", n=2)],
        "scalepoly": [scale, poly],
        "idpoly": [K("identity", const=False, rename=True), poly],
    }[kind]
    return K("pipe", subs=subs), kind


def blank_dict(dk, n=1):
    """a dictionary that was not learned"""
    w = n * (1 + sum(k["delays"] for k in dk["subs"] if k["cls"] == "takens"))
    return dict(dk, subs=[dict(k, comp=[["0"] * w] * k["n"]) if k["cls"] == "pca" else dict(k, centers=[["0"] * n] * k["n"]) if k["cls"] == "rbf" else k for k in dk["subs"]])


def learned_dict(est, dk):
    """what the dictionary steps have learned (principal components, centers)"""
    subs = []
    for (name, t), k in zip(est.steps[:-1], dk["subs"]):
        k = dict(k)
        if k["cls"] == "pca":
            k["comp"] = mat(t.components_)
        if k["cls"] == "rbf":
            k["centers"] = mat(t.centers_)
        subs.append(k)
    return dict(dk, subs=subs)


class ECase(Case):
    def __init__(self, rng, rec, classes, kinds=None, n=None, dkinds=None, stepwise=None, tinv=None):
        self.dkinds = dkinds
        self.want_step, self.want_tinv = stepwise, tinv
        super().__init__(rng, rec, classes, kinds=kinds, reduced=False, noise=True, n=n or int(rng.choice([1, 1, 2, 2])))

    def build_data(self):
        rng, n, nu, cls = self.rng, self.n, self.nu, self.cls
        self.cols, self.ucols = [str(c) for c in rng.permutation(NAMES)[:n]], UNAMES[:nu]
        small = cls == "affine"
        for _ in range(30):
            self.dk, self.dname = gen_dict(rng, self.cols, small, self.dkinds)
            inv = all(s["cls"] in ("identity", "preprocess", "takens", "pca") for s in self.dk["subs"])
            if self.want_tinv and not inv:
                continue
            break
        self.tinv = inv and (bool(rng.random() < 0.2) if self.want_tinv is None else self.want_tinv)
        self.attach = bool(rng.random() < 0.5)
        self.pres = str(rng.choice(["infer", "infer", "infer", "infer", "true", "false"]))
        if self.dname in ("identity", "const", "poly", "takens") and self.pres == "false":
            self.pres = "infer"
        self.sort = self.mode == "spectral" and bool(rng.random() < 0.4)
        self.stepwise = bool(rng.random() < 0.25) if self.want_step is None else self.want_step
        width = (n if self.attach else 0) + {"poly": 6, "poly2": 4, "scalepoly": 6, "idpoly": 6, "lambdas": 4, "takens": 3 * n, "scaletakens": 3 * n, "takenspca": 2 * n, "rbf": 3}.get(self.dname, n + 1)
        drop = 3 if self.dname in ("takens", "scaletakens", "takenspca", "ma") else 0
        self.drop = drop
        regs = width + nu if cls == "ctrl" else width * (1 + nu)
        gfd = cls in ("gfull", "affine")
        k = int(rng.choice([1, 2, 2, 3]))
        if self.dname == "rbf":
            k = max(2, k)
        ids = gen_ids(rng, k)
        L0 = max(4, -(-(regs + 4) // k)) + drop + (3 if gfd else 0)
        self.xs, self.us = [], []
        A = stable_matrix(rng, n)
        same = rng.random() < 0.4
        for i in ids:
            L = L0 + (0 if same else int(rng.integers(0, 3)))
            o = int(rng.choice([0, 0, 1, 5])) * self.d
            t = [o + self.d * q for q in range(L)]
            x = np.zeros((L, n))
            x[0] = rng.normal(size=n)
            u = np.round(rng.normal(size=(L, nu)), 3)
            for q in range(1, L):
                x[q] = 0.7 * A @ x[q - 1] + 0.5 * rng.normal(size=n)
            x = np.round(x, 4)
            self.xs.append((i, t, x))
            a = 0 if cls == "affine" else 1
            self.us.append((i, t[: L - a], u[: L - a]))
        self.X = mkts(self.xs, self.cols, self.ck)
        self.U = mkts(self.us, self.ucols, self.ck) if nu else None

    def make(self):
        if self.gen:
            self.gen, self.typ = False, "flowmap"
        super().make()
        self.dmd0 = self.est
        self.est = EDMD([(f"s{i}", mk(s)()) for i, s in enumerate(self.dk["subs"])], dmd_model=self.dmd0, include_id_state=self.attach,
                        dict_preserves_id_state={"true": True, "false": False}.get(self.pres, self.pres), stepwise_transform=self.stepwise,
                        use_transform_inverse=self.tinv, sort_koopman_triplets=self.sort)

    def ek(self):
        return dict(attach=self.attach, pres=self.pres, stepwise=self.stepwise, tinv=self.tinv, sort=self.sort)

    def back(self):
        """the map back to the states, observed at the unit vectors"""
        names = self.est.feature_names_out_
        m = len(names)
        Z = mkts([(0, list(range(m + 1)), np.vstack([np.eye(m), np.zeros((1, m))]))], names, self.ck)
        R = np.asarray(self.est.inverse_transform(Z).to_numpy(), float)
        b = R[-1]
        return mat(R[:-1] - b), vec(b)

    def state(self):
        return dig([[state_of(t) for _, t in self.est.steps[:-1]], {a: v for a, v in sorted(vars(self.est.steps[-1][1]).items()) if a.endswith("_")},
                    {a: v for a, v in sorted(vars(self.est).items()) if a.endswith("_")}, pardig(self.est)])

    def base(self):
        """fields shared by all events of the fitted model"""
        dmd = self.est.dmd_model
        m = model(dmd, self.k(), self.want_eig())
        B, b = self.back()
        names = lambda o, a: [str(c) for c in getattr(o, a)]
        return dict(k=self.k(), ek=self.ek(), dk=learned_dict(self.est, self.dk), m=m, B=B, b=b, dt=self.ck.dtick(dmd.dt_), edt=self.ck.dtick(self.est.dt_),
                    unit=num(realdt(self.ck, 1)), nic=int(self.est.n_samples_ic_), efin=names(self.est, "feature_names_in_"), eout=names(self.est, "feature_names_out_"),
                    epred=names(self.est, "feature_names_pred_"), fin=names(dmd, "feature_names_in_"), uin=names(dmd, "control_names_in_") if self.nu else [],
                    pf=bool(self.est.dict_preserves_id_state_), tol=self.tol(), outcols=[], post=[], postb=[], tv=[], qois=[], novals=False)

    NOBASE = dict(m=NOM, B=[], b=[], dt=0, edt=0, unit="1", nic=0, efin=[], eout=[], epred=[], fin=[], uin=[], pf=False, tol="0", outcols=[], post=[], postb=[], tv=[], qois=[], novals=False)

    def fit(self, X=None, U=None, record=True):
        X, U = self.X if X is None else X, self.U if U is None else U
        kw = {} if U is None else dict(U=U)
        pre = dig([X, U, pardig(self.est)])
        FX, FU = frame(X, self.ck), frame(U, self.ck)
        _, err = call(lambda: self.est.fit(X, **kw))
        self.ok = err == ""
        self.D, self.FU = FX, FU
        after = dig([X, U, pardig(self.est)])
        f, modes, kev, xi, xidx, wc = dict(self.NOBASE, k=self.k(), ek=self.ek(), dk=blank_dict(self.dk, self.n)), [], [], [], [], False
        if err == "":
            f, e2 = call(self.base)
            if e2:
                self.ok = False
                f, err = dict(self.NOBASE, k=self.k(), ek=self.ek(), dk=blank_dict(self.dk, self.n)), "model:" + e2
            else:
                Z = np.asarray(self.est.transform(X).to_numpy(), float)
                wc = wellcond(f["m"]) and bool(np.linalg.cond(Z) < 300)
                # a constant makes the generator matrix almost exactly triangular: its scaling in LAPACK loses digits
                wc = wc and not (self.cls == "gfull" and bool(np.any(np.ptp(Z, axis=0) < 1e-12)))
                if self.mode == "spectral" and not self.tinv:
                    def trip():
                        e = np.asarray(self.est.koopman_eigenvalues)
                        z = self.est.koopman_eigenfunction(X)
                        return cmat(self.est.koopman_modes.to_numpy()), [vec(np.real(e)), vec(np.imag(e))], cpx(np.asarray(z.to_numpy(), complex)), frame(z, self.ck)["idx"]
                    r, e2 = call(trip)
                    if e2:
                        err = "triplets:" + e2
                    else:
                        modes, kev, xi, xidx = r
        self.fields = f
        self.wc = wc
        if record:
            self.rec.ev("efit", D=FX, X=FX, U=FU, w=[], truth=[], wc=wc, modes=modes, kev=kev, xi=xi, xidx=xidx, pre=pre, after=after, err=err, **f)

    def novals(self):
        """values of the prediction are determined: the initial state lies in the span of well-conditioned modes"""
        if self.mode == "matrix":
            return False
        V = np.asarray(self.est.dmd_model.eigenvectors_right_)
        return bool(np.linalg.cond(V) > 1e5)

    def transform(self, X):
        pre, st0 = dig(X), self.state()
        FX = frame(X, self.ck)
        R, err = call(lambda: self.est.transform(X))
        self.rec.ev("etrans", D=self.D, X=FX, U=NOFRAME, R=frame(R, self.ck) if err == "" else NOFRAME, err=err, pre=pre, after=dig(X), st0=st0, st1=self.state(), **self.fields)
        return R, err

    def inverse(self, Y):
        FX = frame(Y, self.ck)
        R, err = call(lambda: self.est.inverse_transform(Y))
        self.rec.ev("einv", D=self.D, X=FX, U=NOFRAME, R=frame(R, self.ck) if err == "" else NOFRAME, err=err, **self.fields)

    def run(self, op, fn, X, U=None, tv=None, ticks=None, qois=None, **kw):
        a = {}
        if U is not None:
            a["U"] = U
        if tv is not None:
            a["time_values"] = tv
        if qois is not None:
            a["qois"] = qois
        pre, st0 = dig([X, U, tv, qois]), self.state()
        FX, FU = frame(X, self.ck), frame(U, self.ck)
        if isinstance(X, np.ndarray) and X.ndim == 1:
            FX = frame(X[None, :], self.ck)
        R, err = call(lambda: fn(X, **a))
        W, self.last = NOFRAME, R
        if isinstance(R, tuple):
            R, W = R[0], frame(R[1], self.ck)
        f = dict(self.fields, tv=ticks if ticks is not None else ([self.ck.tick(t) for t in tv] if tv is not None else []), qois=[str(q) for q in qois] if qois is not None else [],
                 novals=kw.pop("novals", False) or self.novals())
        self.rec.ev(op, D=self.D, X=FX, U=FU, W=W, R=frame(R, self.ck) if err == "" else NOFRAME, err=err, pre=pre, after=dig([X, U, tv, qois]), st0=st0, st1=self.state(), **f, **kw)
        return R, err

    def soften(self):
        """small rates for the affine models (the numerical integration stays accurate)"""
        if self.cls == "affine":
            e = self.est.dmd_model
            s = max(1.0, 4 * self.dtr) * max(1.0, np.max(np.abs(e.control_matrix_)), np.max(np.abs(e.sys_matrix_)))
            e.control_matrix_ = e.control_matrix_ / s
            e.sys_matrix_ = e.sys_matrix_ / s
            self.fields = self.base()

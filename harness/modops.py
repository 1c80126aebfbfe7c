"""DMD models for the specification T_DMD: data, estimators, learned attributes and recorded calls."""
from estops import *  # noqa
from datafold import DMDStandard, DMDControl
from datafold.dynfold.dmd import PretrainedDMD, gDMDAffine, gDMDFull, OnlineDMD, StreamingDMD

NAMES = ["x", "y", "z", "w", "v"]
UNAMES = ["u1", "u2", "u3"]


def mkts(series, cols, ck):
    """series: list of (id, ticks, values)"""
    ids = np.concatenate([np.repeat(i, len(t)) for i, t, _ in series]).astype(int)
    tv = ck.arr([x for _, t, _ in series for x in t])
    vals = np.vstack([np.asarray(v, dtype=float).reshape(len(t), -1) for _, t, v in series])
    idx = pd.MultiIndex.from_arrays([ids, tv], names=["ID", "time"])
    return TSCDataFrame(pd.DataFrame(vals, index=idx, columns=list(cols)))


def stable_matrix(rng, n, gen=False, dt=1.0):
    """well-conditioned diagonalizable matrix with separated eigenvalues"""
    while True:
        V = np.eye(n) + 0.5 * rng.normal(size=(n, n))
        if np.linalg.cond(V) > 15:
            continue
        D = np.zeros((n, n))
        i = 0
        while i < n:
            if n - i >= 2 and rng.random() < 0.4:
                r, th = rng.uniform(0.75, 1.03), rng.uniform(0.3, 2.2)
                D[i:i + 2, i:i + 2] = r * np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
                i += 2
            else:
                D[i, i] = rng.uniform(0.4, 1.05)
                i += 1
        A = V @ D @ np.linalg.inv(V)
        ev = np.linalg.eigvals(A)
        if n == 1 or min(abs(ev[a] - ev[b]) for a in range(n) for b in range(a)) > 0.08:
            return np.round(A, 6)


def clock(rng, kinds="fffid"):
    k = str(rng.choice(list(kinds)))
    if k == "i":
        return Clock("i", 1)
    if k == "f":
        return Clock("f", float(rng.choice([1.0, 0.5, 0.25, 0.1, 0.01])))
    return Clock("d", int(rng.choice([10**9, 3600 * 10**9, DAY])))


def realdt(ck, d):
    """length of d ticks in the unit the generator is measured in"""
    return float(d * ck.q)


def gen_ids(rng, k):
    return [int(x) for x in rng.choice(15, size=k, replace=False)] if rng.random() < 0.7 else list(range(k))


def gen_layout(rng, ck, d, need, same=None):
    """list of (id, ticks): regular series with the spacing d; at least `need` transitions in total"""
    k = int(rng.choice([1, 1, 2, 2, 3]))
    ids = gen_ids(rng, k)
    same = rng.random() < 0.4 if same is None else same
    L0, o0 = int(rng.integers(2, 6)), int(rng.choice([0, 0, 1, 5])) * (d if rng.random() < 0.7 else 1)
    out = []
    for i in ids:
        L = L0 if same else int(rng.integers(2, 6))
        o = o0 if same else int(rng.choice([0, 0, 1, 5])) * d
        out.append([i, [o + d * j for j in range(L)]])
    tot = sum(len(t) - 1 for _, t in out)
    if tot < need:
        add = -(-(need - tot) // len(out))
        for q in range(len(out)):
            t = out[q][1]
            out[q][1] = t + [t[-1] + d * (j + 1) for j in range(add)]
    return out


def eig_parts(A):
    lam, V = np.linalg.eig(A)
    return V, lam


def model(est, k, want_eig=False):
    """learned attributes"""
    m = dict(A=[], B=[], N=[], V=[], ev=[], W=[], U=[])
    if k["mode"] == "matrix":
        A = np.asarray(est.sys_matrix_)
        m["A"] = mat(A)
        if want_eig:
            V, lam = eig_parts(A)
            m["V"], m["ev"] = cmat(V), [vec(lam.real), vec(lam.imag)]
    else:
        m["V"], ev = cmat(est.eigenvectors_right_), np.asarray(est.eigenvalues_)
        m["ev"] = [vec(np.real(ev)), vec(np.imag(ev))]
        W = getattr(est, "eigenvectors_left_", None)
        if W is not None:
            m["W"] = cmat(W)
        for a in ("system_matrix_", "generator_matrix_"):
            if hasattr(est, a):
                m["A"] = mat(np.real(getattr(est, a)))
    if k["cls"] == "ctrl":
        m["B"] = mat(est.control_matrix_)
    elif k["cls"] == "affine":
        C = np.asarray(est.control_matrix_)
        m["N"] = [mat(C[:, :, j]) for j in range(C.shape[2])]
    return m


NOM = dict(A=[], B=[], N=[], V=[], ev=[], W=[], U=[])


def wellcond(m, gen_dt=None):
    """eigenvalues separated and eigenvectors well-conditioned"""
    if not m["ev"]:
        return False
    ev = np.array(m["ev"][0], float) + 1j * np.array(m["ev"][1], float)
    V = np.array(m["V"][0], float) + 1j * np.array(m["V"][1], float)
    gap = min([abs(ev[a] - ev[b]) for a in range(len(ev)) for b in range(a)] or [1])
    wc = bool(np.linalg.cond(V) < 1e3 and gap > 1e-3 * max(1e-9, np.max(np.abs(ev))))
    if gen_dt:
        wc = wc and bool(np.all(np.abs(ev.imag) * gen_dt < 3.0))
    return wc


class Case:
    """one fitted DMD model with its data"""

    def __init__(self, rng, rec, classes, kinds=None, reduced=True, noise=None, n=None):
        self.rng, self.rec = rng, rec
        self.cls = str(rng.choice(classes))
        cls = self.cls
        gfd = cls in ("gfull", "affine")
        self.mode = "matrix" if cls == "affine" else str(rng.choice(["matrix", "spectral"]))
        self.gen = cls == "std" and rng.random() < 0.25
        self.ck = ck = clock(rng, "f" if gfd or self.gen else (kinds or "fffid"))
        if gfd and ck.q > 0.5:
            self.ck = ck = Clock("f", 0.5)
        self.d = d = int(rng.choice([1, 1, 2, 3]))
        self.dtr = realdt(ck, d)
        n = self.n = n or int(rng.choice([1, 2, 2, 3, 3, 4]) if cls != "affine" else rng.choice([1, 2, 2, 3]))
        self.nu = int(rng.choice([1, 2])) if cls in ("ctrl", "affine") else 0
        self.rank = int(rng.integers(1, n)) if (reduced and cls == "std" and self.mode == "spectral" and n >= 2 and rng.random() < 0.3) else 0
        self.rmode = str(rng.choice(["exact", "project"]))
        self.typ = "differential" if gfd or self.gen else "flowmap"
        if cls == "pre":
            self.typ = str(rng.choice(["flowmap", "differential"])) if ck.kind == "f" else "flowmap"
        self.scheme, self.acc = str(rng.choice(["center", "forward", "backward"])), int(rng.choice([2, 2, 4]))
        if cls == "gfull" and rng.random() < 0.4:
            self.scheme, self.acc = "center", 2
        self.truthful = (rng.random() < 0.5 if noise is None else not noise) and not gfd
        self.build_data()
        self.make()

    def k(self):
        return dict(cls=self.cls, typ=self.typ, mode=self.mode, gen=bool(self.gen), rank=self.rank, rmode=self.rmode, scheme=self.scheme, acc=self.acc, spacing=num(self.dtr))

    def build_data(self):
        rng, n, nu, cls = self.rng, self.n, self.nu, self.cls
        regs = n + nu if cls == "ctrl" else n * (1 + nu)
        need = regs + 3 + (6 if cls in ("gfull", "affine") else 0)
        self.layout = gen_layout(rng, self.ck, self.d, need + int(rng.integers(0, 4)))
        if cls in ("gfull", "affine"):
            self.layout = [[i, t if len(t) > 5 else [t[0] + self.d * j for j in range(6 + int(rng.integers(0, 2)))]] for i, t in self.layout]
        self.A = A = stable_matrix(rng, n)
        self.B = np.round(rng.normal(size=(n, nu)), 3)
        self.cols, self.ucols = [str(c) for c in rng.permutation(NAMES)[:n]], UNAMES[:nu]
        xs, us = [], []
        for i, t in self.layout:
            L = len(t)
            u = np.round(rng.normal(size=(L, nu)), 3)
            x = np.zeros((L, n))
            x[0] = np.round(rng.normal(size=n), 3)
            if self.truthful:
                for q in range(1, L):
                    x[q] = A @ x[q - 1] + (self.B @ u[q - 1] if cls == "ctrl" else 0)
            elif self.gen or cls == "pre":
                for q in range(1, L):
                    x[q] = A @ x[q - 1] + 0.02 * rng.normal(size=n)
            else:
                x = np.round(rng.normal(size=(L, n)), 3)
            xs.append((i, t, x))
            us.append((i, t if cls == "affine" else t[:-1], u if cls == "affine" else u[:-1]))
        self.xs, self.us = xs, us
        self.X = mkts(xs, self.cols, self.ck)
        self.U = mkts(us, self.ucols, self.ck) if nu else None
        self.w = []

    def make(self):
        cls, mode, rng = self.cls, self.mode, self.rng
        if cls == "std":
            kw = dict(sys_mode=mode, approx_generator=self.gen)
            if self.rank:
                kw.update(rank=self.rank, reconstruct_mode=self.rmode)
            elif mode == "spectral":
                kw.update(diagonalize=bool(rng.random() < 0.4))
            self.est = DMDStandard(**kw)
        elif cls == "gfull":
            kw = {} if (self.scheme, self.acc) == ("center", 2) and rng.random() < 0.5 else dict(kwargs_fd=dict(scheme=self.scheme, accuracy=self.acc))
            self.est = gDMDFull(sys_mode=mode, is_diagonalize=bool(rng.random() < 0.3 and mode == "spectral"), **kw)
        elif cls == "ctrl":
            self.est = DMDControl(sys_mode=mode)
        elif cls == "affine":
            self.est = gDMDAffine(diff_scheme=self.scheme, diff_accuracy=self.acc)
        elif cls == "pre":
            A = self.A if self.typ == "flowmap" else np.real(__import__("scipy.linalg").linalg.logm(self.A)) / self.dtr
            self.est = PretrainedDMD.from_available_system_matrix(self.typ, mode, A, bool(rng.random() < 0.5))

    def do_fit(self, record=True, X=None, U=None, w=None, store=False):
        X, U = self.X if X is None else X, self.U if U is None else U
        kw = {} if U is None or self.cls in ("std", "gfull", "pre") else dict(U=U)
        if w is not None:
            kw["sample_weights"] = w
        if store and self.mode == "spectral" and self.rank == 0:
            kw["store_system_matrix" if self.cls == "std" else "store_generator_matrix"] = True
        pre = dig([X, U, w, pardig(self.est)])
        FX, FU = frame(X, self.ck), frame(U, self.ck)
        _, err = call(lambda: self.est.fit(X, **kw))
        self.ok = err == ""
        m, fin, uin, dt = NOM, [], [], 0
        if err == "":
            m, e2 = call(lambda: model(self.est, self.k()))
            if e2:
                m, err = NOM, "model:" + e2
            else:
                fin = [str(c) for c in self.est.feature_names_in_]
                uin = [str(c) for c in getattr(self.est, "control_names_in_", [])]
                dt = self.ck.dtick(self.est.dt_)
        if not record:
            return
        after = dig([X, U, w, pardig(self.est)])
        wc = err == "" and wellcond(m, self.dtr if self.gen else None)
        if self.rank and err == "":
            ms = [np.asarray(g.to_numpy(), float) for _, g in X.groupby(level=0, sort=False)]
            S = np.vstack([g[:-1] for g in ms])
            Us, s, _ = np.linalg.svd(S.T, full_matrices=False)
            m["U"] = mat(Us[:, : self.rank])
        truth = []
        if self.truthful and self.cls in ("std", "ctrl") and not self.gen:
            truth = mat(np.hstack([self.A, self.B]) if self.cls == "ctrl" else self.A)
            S = np.vstack([np.hstack([x[:-1], u[: len(x) - 1]]) if self.cls == "ctrl" else x[:-1] for (_, _, x), (_, _, u) in zip(self.xs, self.us)])
            if np.linalg.cond(S) > 300:
                truth = []
        self.rec.ev("fit", k=self.k(), X=FX, U=FU, w=vec(w) if w is not None else [], dt=dt, fin=fin, uin=uin, m=m, truth=truth, wc=wc, pre=pre, after=after, err=err)

    def names(self):
        return set(state_of(self.est)) | {"sys_matrix_", "control_matrix_", "eigenvalues_", "eigenvectors_right_", "eigenvectors_left_"}

    def state(self):
        return dig([{a: v for a, v in sorted(vars(self.est).items()) if a.endswith("_")}, pardig(self.est)])

    def want_eig(self):
        return self.mode == "matrix" and self.typ == "flowmap" and self.cls in ("std", "pre")

    def tol(self, far=False):
        return "2e-2" if self.cls == "affine" else "1e-6"

    def modfields(self):
        m, e = call(lambda: model(self.est, self.k(), self.want_eig()))
        return m

    def predict(self, X, U=None, tv=None, ticks=None, novals=False, post=None, outcols=None, **kw):
        a = dict(kw)
        if U is not None:
            a["U"] = U
        if tv is not None:
            a["time_values"] = tv
        pre, st0 = dig([X, U, tv]), self.state()
        FX, FU = frame(X, self.ck), frame(U, self.ck)
        if isinstance(X, np.ndarray) and X.ndim == 1:
            FX = frame(X[None, :], self.ck)
        m = self.modfields()
        R, err = call(lambda: self.est.predict(X, **a))
        after, st1 = dig([X, U, tv]), self.state()
        self.rec.ev("predict", k=self.k(), X=FX, U=FU, tv=ticks if ticks is not None else ([self.ck.tick(t) for t in tv] if tv is not None else []), dt=self.ck.dtick(self.est.dt_), unit=num(realdt(self.ck, 1)),
                    fin=[str(c) for c in self.est.feature_names_in_], uin=[str(c) for c in getattr(self.est, "control_names_in_", [])], m=m,
                    post=mat(post) if post is not None else [], postb=[], outcols=outcols or [], novals=novals, tol=self.tol(), R=frame(R, self.ck) if err == "" else NOFRAME, st0=st0, st1=st1, pre=pre, after=after, err=err)
        return R, err

    def recon(self, X, U=None, novals=False):
        a = {} if U is None else dict(U=U)
        pre, st0 = dig([X, U]), self.state()
        FX, FU, m = frame(X, self.ck), frame(U, self.ck), self.modfields()
        R, err = call(lambda: self.est.reconstruct(X, **a))
        after, st1 = dig([X, U]), self.state()
        self.rec.ev("recon", k=self.k(), X=FX, U=FU, dt=self.ck.dtick(self.est.dt_), unit=num(realdt(self.ck, 1)), fin=[str(c) for c in self.est.feature_names_in_],
                    uin=[str(c) for c in getattr(self.est, "control_names_in_", [])], m=m, post=[], postb=[], outcols=[], novals=novals, tol=self.tol(),
                    R=frame(R, self.ck) if err == "" else NOFRAME, st0=st0, st1=st1, pre=pre, after=after, err=err)
        return R, err

from modops import *  # noqa


class Stream(Case):
    """an incrementally fitted model"""

    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.cls, self.mode, self.gen, self.typ, self.nu, self.rank, self.rmode = "pre", "spectral", False, "flowmap", 0, 0, "exact"
        self.scheme, self.acc = "center", 2
        self.ck = clock(rng, "fffid")
        self.d = int(rng.choice([1, 1, 2, 3]))
        self.dtr = realdt(self.ck, self.d)
        self.n = n = int(rng.choice([1, 2, 2, 3, 3, 4]))
        self.cols = [str(c) for c in rng.permutation(NAMES)[:n]]
        self.kind = str(rng.choice(["online", "stream"]))
        self.rho = float(rng.choice([1.0, 1.0, 0.99, 0.9, 0.8])) if self.kind == "online" else 1.0
        self.warm = bool(rng.random() < 0.8)
        self.diag = bool(rng.random() < 0.4) and self.kind == "online"
        self.maxrank = int(rng.integers(1, n + 1)) if self.kind == "stream" and rng.random() < 0.4 else 0
        self.exact = bool(rng.random() < 0.4)
        self.A = stable_matrix(rng, n)
        # snapshots in a subspace
        self.sub = np.linalg.qr(rng.normal(size=(n, n)))[0][:, : n - 1] if self.kind == "stream" and n >= 2 and rng.random() < 0.25 else None
        self.xs_all = np.zeros((0, n))
        if self.kind == "online":
            self.est = OnlineDMD(weighting=self.rho, is_diagonalize=self.diag, with_warm_up=self.warm)
        else:
            self.est = StreamingDMD(max_rank=self.maxrank or None)
        rec.ev("new", kind=self.kind, rho=num(self.rho), warm=self.warm, diag=self.diag, maxrank=self.maxrank)
        self.done, self.cont, self.batched = 0, None, False

    def values(self, L, x0=None):
        rng, n = self.rng, self.n
        if self.exact and self.sub is None:
            x = np.zeros((L, n))
            x[0] = rng.normal(size=n) if x0 is None else x0
            for q in range(1, L):
                x[q] = self.A @ x[q - 1]
            return x
        x = np.round(rng.normal(size=(L, n)), 3)
        if self.sub is not None:
            x = rng.normal(size=(L, n - 1)) @ self.sub.T
        if x0 is not None:
            x[0] = x0
        elif rng.random() < 0.1:
            x[int(rng.integers(L))] = 0.0
        return x

    def chunk(self):
        rng = self.rng
        k = int(rng.choice([1, 1, 1, 2, 3]))
        out = []
        if self.cont is not None and rng.random() < 0.6:
            i, t, x = self.cont
            k, first = 1, (i, t, x)
        else:
            first = None
        for q in range(k):
            L = int(rng.choice([2, 2, 3, 3, 4, 6, 9]))
            if first is not None:
                i, t0, x0 = first
            else:
                i, t0, x0 = (gen_ids(rng, 5)[q] + 20 * q, int(rng.choice([0, 1, 4])) * self.d, None)
            out.append((i, [t0 + self.d * j for j in range(L)], self.values(L, x0)))
        if rng.random() < 0.5:
            out = [out[j] for j in rng.permutation(len(out))]
        return out

    def wc(self):
        S = self.xs_all
        if self.kind == "online":
            w = self.rho ** (np.arange(len(S))[::-1] / 2)
            return bool(len(S) >= self.n and np.linalg.cond(w[:, None] * S) < 60)
        Q = []
        for v in S:
            r = v - sum((np.dot(q, v) * q for q in Q), np.zeros(self.n))
            if np.linalg.norm(r) > 1e-8 * np.linalg.norm(v):
                if np.linalg.norm(r) < 1e-2 * np.linalg.norm(v):
                    return False
                if len(Q) < (self.maxrank or self.n):
                    Q.append(r / np.linalg.norm(r))
        if not Q:
            return False
        Z = S @ np.array(Q).T
        return bool(np.linalg.cond(Z) < 300)

    def obs(self):
        m = dict(NOM)
        if hasattr(self.est, "eigenvalues_"):
            m["V"] = cmat(self.est.eigenvectors_right_)
            ev = np.asarray(self.est.eigenvalues_)
            m["ev"] = [vec(np.real(ev)), vec(np.imag(ev))]
            W = getattr(self.est, "eigenvectors_left_", None)
            if W is not None:
                m["W"] = cmat(W)
        if self.kind == "online" and hasattr(self.est, "A"):
            m["A"] = mat(self.est.A)
        return m

    def state(self):
        return dig([{a: v for a, v in sorted(vars(self.est).items()) if a.endswith("_") or a.startswith("_") or a == "A"}, pardig(self.est)])

    def update(self, X, ser=None, batch=False):
        pre = dig([X, pardig(self.est)])
        FX = frame(X, self.ck)
        if ser:
            ps = np.vstack([x[:-1] for _, _, x in ser])
            self.xs_all = np.vstack([self.xs_all, ps])
        kw = dict(batch_fit=True) if batch else {}
        _, err = call(lambda: self.est.partial_fit(X, **kw))
        m, fin, dt, count, ready = NOM, [], 0, 0, True
        if err == "":
            m, e2 = call(self.obs)
            if e2:
                m, err = NOM, "model:" + e2
            else:
                fin, dt = [str(c) for c in self.est.feature_names_in_], self.ck.dtick(self.est.dt_)
                if self.kind == "online":
                    count, ready = int(self.est.timestep_), bool(self.est.ready_)
            if batch and self.done == 0:
                self.batched = True
            self.done += 1
        self.rec.ev("upd", X=FX, batch=batch, wc=self.wc() if err == "" else False, m=m, fin=fin, dt=dt, count=count, ready=ready, batched=self.batched, pre=pre, after=dig([X, pardig(self.est)]), dig=self.state(), err=err)
        return err

    def spoiled(self):
        rng = self.rng
        ser = self.chunk()
        s = str(rng.choice(["nan", "names", "order", "single", "spacing", "gap", "df", "mixed"]))
        X = mkts(ser, self.cols, self.ck)
        if s == "nan":
            X = X.copy()
            X.iloc[int(rng.integers(len(X))), int(rng.integers(self.n))] = float(rng.choice([np.nan, np.inf]))
        elif s in ("names", "order"):
            if not self.done or (s == "order" and self.n < 2):
                return
            X = pd.DataFrame(X)
            X.columns = ["q"] + list(X.columns[1:]) if s == "names" else list(X.columns[::-1])
            X = TSCDataFrame(X)
        elif s == "single":
            X = mkts(ser + [(99, [0], np.ones((1, self.n)))], self.cols, self.ck)
        elif s == "spacing":
            if not self.done:
                return
            X = mkts([(i, [2 * q for q in t], x) for i, t, x in ser], self.cols, self.ck)
        elif s == "mixed":
            X = mkts(ser + [(99, [0, 2 * self.d, 4 * self.d], self.values(3))], self.cols, self.ck)
        elif s == "gap":
            X = mkts(ser + [(99, [0, self.d, 3 * self.d], self.values(3))], self.cols, self.ck)
        else:
            X = pd.DataFrame(X)
        self.update(X)


def case(rng, rec, i, tier):
    c = Stream(rng, rec)
    for step in range(int(rng.integers(2, 7))):
        if rng.random() < 0.12:
            c.spoiled()
        ser = c.chunk()
        X = mkts(ser, c.cols, c.ck)
        if c.update(X, ser, batch=c.kind == "online" and rng.random() < (0.3 if step == 0 else 0.1)):
            return
        assert len(c.xs_all)
        li, lt, lx = ser[-1]
        c.cont = (li, lt[-1], lx[-1])
        ok = hasattr(c.est, "eigenvalues_") if c.kind == "stream" else c.est.ready_
        if rng.random() < 0.35 or not ok:
            k = int(rng.choice([1, 2]))
            x = c.xs_all[rng.integers(0, len(c.xs_all), size=k)]
            t0 = int(rng.choice([0, 2])) * c.d
            X0 = mkts([(int(q), [t0], x[q:q + 1]) for q in range(k)], c.cols, c.ck)
            tv = [t0 + c.d * q for q in range(int(rng.choice([0, 1])), int(rng.integers(2, 5)))]
            if not ok:
                _, err = call(lambda: c.est.predict(X0, time_values=c.ck.arr(tv)))
                rec.ev("unready", err=err)
            elif np.linalg.cond(c.est.eigenvectors_right_) < 1e4:
                if rng.random() < 0.6:
                    c.predict(X0, tv=None if rng.random() < 0.2 else c.ck.arr(tv), ticks=None)
                else:
                    c.recon(X)

from estops import *  # noqa
from modops import mkts, stable_matrix, clock, gen_ids
from datafold import EDMD, DMDControl, TSCIdentity, TSCPolynomialFeatures, TSCTakensEmbedding
from datafold.appfold.mpc import KMPC, LQR

NAMES = ["x", "b", "y2", "a"]
UN = ["u", "c1"]


class Plant:
    """stand-in for the controlled system: one linear step, every call is recorded"""

    def __init__(self, A, B, cols, both, ck):
        self.A, self.B, self.cols, self.both, self.ck, self.calls = A, B, cols, both, ck, []

    def predict(self, X, U, time_values):
        x, u = X.to_numpy()[-1], U.to_numpy()[-1]
        y = self.A @ x + self.B @ u
        self.calls.append(dict(t=[self.ck.tick(v) for v in time_values], u=vec(u), x=vec(x), y=vec(y)))
        rows = np.vstack([x, y]) if self.both else y[None]
        S = TSCDataFrame.from_array(rows, time_values=np.asarray(time_values)[-len(rows):], feature_names=self.cols, ts_id=X.ids[0])
        return S, U


def case(rng, rec, i, tier):
    ck = clock(rng, "ffi")
    d = int(rng.choice([1, 2, 3]))
    n, nu = int(rng.integers(1, 4)), int(rng.choice([1, 1, 2]))
    cols, ucols = [str(c) for c in rng.permutation(NAMES)[:n]], UN[:nu]
    dic = str(rng.choice(["id", "id", "poly", "takens"]))
    A, B = stable_matrix(rng, n) * float(rng.choice([0.7, 1.0, 1.1])), rng.normal(size=(n, nu))
    xs, us = [], []
    for q in gen_ids(rng, int(rng.integers(1, 3))):
        L = int(rng.integers(18, 26))
        x, u = np.zeros((L, n)), np.round(rng.normal(size=(L, nu)), 3)
        x[0] = rng.normal(size=n)
        for k in range(1, L):
            x[k] = A @ x[k - 1] + B @ u[k - 1] + 0.05 * rng.normal(size=n)
        t = [d * k for k in range(L)]
        xs.append((q, t, np.round(x, 4)))
        us.append((q, t[:-1], u[:-1]))
    X, U = mkts(xs, cols, ck), mkts(us, ucols, ck)
    steps = {"id": lambda: [("id", TSCIdentity())], "poly": lambda: [("p", TSCPolynomialFeatures(degree=2, include_first_order=bool(rng.random() < 0.5)))],
             "takens": lambda: [("t", TSCTakensEmbedding(delays=1))]}[dic]()
    attach = dic == "poly" and not steps[0][1].include_first_order
    est = EDMD(steps, dmd_model=DMDControl(), include_id_state=attach)
    rec.ev("new", dic=dic)
    _, e0 = call(lambda: est.fit(X, U=U))
    if e0:
        rec.ev("crash", err=e0, where="edmd fit")
        return
    dmd = est.dmd_model
    fin = [str(c) for c in dmd.feature_names_in_]
    uin = [str(c) for c in dmd.control_names_in_]
    nic = int(est.n_samples_ic_)
    mA, mB = np.array(dmd.sys_matrix_, float), np.array(dmd.control_matrix_, float)
    if np.max(np.abs(np.linalg.eigvals(mA))) > 1.6 or np.max(np.abs(mA)) > 20:
        return
    state = lambda: dig([{a: v for a, v in sorted(vars(dmd).items()) if a.endswith("_")}, {a: v for a, v in sorted(vars(est).items()) if a.endswith("_")}, pardig(est)])
    if rng.random() < 0.25:
        return lqr(rng, rec, est, mA, mB, fin, uin, nic, cols, ck, d, state)
    hz = int(rng.integers(2, 6)) if rng.random() < 0.95 else 1
    if rng.random() < 0.35:
        qn = []
    else:
        qn = [str(c) for c in rng.permutation(fin)[: int(rng.integers(1, min(3, len(fin)) + 1))]]
        if rng.random() < 0.04:
            qn[0] = "nope"
    names = qn or fin
    nq = len(names)
    z = rng.random()

    def cost(m, pos=False):
        r = rng.random()
        sc = r < 0.4
        v = [float(rng.choice([0.1, 1, 5, 100] if pos or rng.random() < 0.8 else [0]))] if sc else [float(c) for c in rng.choice([0.1, 1, 2.5, 30] if pos else [0, 0.1, 1, 2.5, 30], size=m)]
        if rng.random() < 0.02:
            v[0] = -1.0
        if not sc and rng.random() < 0.02:
            v = v + [1.0]
        return dict(sc=sc, v=[num(c) for c in v]), (int(v[0]) if v[0] == int(v[0]) and rng.random() < 0.5 else v[0]) if sc else np.array(v)

    (cr, crv), (ct, ctv), (cu, cuv) = cost(nq), cost(nq), cost(nu, True)

    def x0():
        tt = int(rng.integers(0, 4)) * d
        s = int(rng.choice([0, 0, 3]))
        return TSCDataFrame(mkts([(s, [tt + d * k for k in range(nic)], np.round(rng.normal(size=(nic, n)), 3))], cols, ck)), tt + d * (nic - 1), s

    ib, ibv = [], None
    if rng.random() < 0.6:
        ibv = np.sort(np.round(rng.normal(size=(nu, 2)) * rng.choice([0.3, 1, 3]), 3), axis=1)
        ibv[:, 0] -= 0.05
        ibv[:, 1] += 0.05
        ib = mat(ibv)

    def wit(Z):
        """random control sequences within the input bounds and the outputs they lead to"""
        W = []
        for _ in range(3):
            u = rng.normal(size=(hz, nu)) * 0.5 if ibv is None else ibv[:, 0] + (ibv[:, 1] - ibv[:, 0]) * np.clip(0.05 + 0.9 * rng.random((hz, nu)), 0, 1)
            W.append(np.round(u, 6))
        return W

    def outs(z0, u):
        r, zz = [], z0
        for k in range(len(u)):
            zz = mA @ zz + mB @ u[k]
            r.append(zz)
        return np.array(r)

    X0, ict, sid = x0()
    Z0, ez = call(lambda: est.transform(X0))
    if ez or len(Z0) != 1:
        rec.ev("crash", err=ez or "transform", where="transform")
        return
    z0 = np.asarray(Z0.to_numpy(), float)[0]
    W = wit(z0)
    sb, sbv = [], None
    if rng.random() < 0.4 and "nope" not in names:
        Y = outs(z0, W[0])[:, [fin.index(c) for c in names]] if hz > 0 else np.zeros((1, nq))
        m = 0.02 + np.abs(rng.normal(size=nq)) * rng.choice([0.05, 0.5, 3])
        sbv = np.round(np.column_stack([Y.min(axis=0) - m, Y.max(axis=0) + m]), 6)
        sb = mat(sbv)
    if rng.random() < 0.03:
        sbv = np.zeros((nq + 1, 2))
        sb = mat(sbv)
    pre = state()
    qarg = None if not qn else qn if rng.random() < 0.7 else np.array(qn) if rng.random() < 0.5 else pd.Index(qn)
    if qn and "nope" not in qn and rng.random() < 0.15:
        qarg = [fin.index(c) for c in qn]
    mpc, e = call(lambda: KMPC(edmd=est, horizon=hz, state_bounds=sbv, input_bounds=ibv, qois=qarg, cost_running=crv, cost_terminal=ctv, cost_input=cuv))
    rec.ev("ctrl", A=mat(mA), B=mat(mB), fin=fin, uin=uin, qn=qn, hz=hz, cr=cr, ct=ct, cu=cu, sb=sb, ib=ib, dt=d, efin=cols, nic=nic, err=e, pre=pre, after=state())
    if e:
        return

    def frows(R):
        return [dict(t=ck.tick(ix[1]), v=vec(v)) for ix, v in zip(R.index, R.to_numpy())]

    def seq(op, X0, ict, sid, R, extra):
        Z, e2 = call(lambda: est.transform(X0))
        if e2:
            return None
        zz = np.asarray(Z.to_numpy(), float)
        pre = dig([state(), X0, R])
        out, e3 = call(lambda: mpc.control_sequence_horizon(X=X0, reference=R))
        ok = e3 == ""
        rec.ev(op, z=vec(zz[0]), zn=len(zz), ict=ict, id=sid, ref=frows(R), refcols=[str(c) for c in R.columns], wit=[mat(w) for w in W],
               u=mat(np.asarray(out)) if ok else [], ut=[ck.tick(v) for v in out.time_values()] if ok else [], ucols=[str(c) for c in out.columns] if ok else [],
               uid=int(out.ids[0]) if ok else -1, err=e3, pre=pre, after=dig([state(), X0, R]), **extra)
        return (out, zz) if ok else None

    def mkref(t0, m, sid):
        return TSCDataFrame(mkts([(sid, [t0 + d * k for k in range(m)], np.round(rng.normal(size=(m, nq)) * rng.choice([0.3, 1, 3]), 3))], names, ck))

    for _ in range(int(rng.integers(1, 4))):
        r = rng.random()
        if r < 0.7:
            R = mkref(ict + d, hz, sid)
            z = rng.random()
            if z < 0.08:
                R = mkref(ict + d, hz + int(rng.choice([-1, 1])), sid)
            elif z < 0.14:
                R = mkref(ict + d * int(rng.choice([0, 2])), hz, sid)
            elif z < 0.18:
                R = R.iloc[:, :-1] if nq > 1 else R
            elif z < 0.34 and nq > 1:
                R = R.loc[:, [names[j] for j in rng.permutation(nq)]]
            elif z < 0.4:
                R.columns = pd.Index([f"r{j}" for j in range(nq)], name="feature")
            q = seq("seq", X0, ict, sid, R, dict(applied=[], i=0))
            if q is not None and rng.random() < 0.5:
                out, zz = q
                P, e4 = call(lambda: est.predict(X0, U=out))
                o = e4 == ""
                rec.ev("pred", z=vec(zz[0]), u=mat(np.asarray(out)), cols=[str(c) for c in P.columns] if o else [], out=mat(np.asarray(P)) if o else [], err=e4)
            X1, ict1, sid1 = x0()
            if sbv is None:
                X0, ict, sid = X1, ict1, sid1
                W = wit(None)
        elif sbv is None:
            both = bool(rng.random() < 0.5)
            plant = Plant(A, B, cols, both, ck)
            m = hz + int(rng.integers(0, 3)) if rng.random() < 0.8 else int(rng.integers(2, hz + 1))
            R = mkref(ict + d, m, sid)
            sys_ic = X0.iloc[[-1], :]
            out, e5 = call(lambda: mpc.control_system_reference(sys=plant, sys_ic=sys_ic, X_ref=R, X_ic=X0))
            o = e5 == ""
            S, Us = out if o else (None, None)
            rec.ev("loop", xref=frows(R), x0=vec(X0.to_numpy()[-1]), calls=plant.calls, u=mat(np.asarray(Us)) if o else [], ut=[ck.tick(v) for v in Us.time_values()] if o else [],
                   st=mat(np.asarray(S)) if o else [], stt=[ck.tick(ix[1]) for ix in S.index] if o else [], err=e5)
            if not o:
                continue
            H = np.asarray(X0.to_numpy(), float)
            full = R.to_numpy()
            for k in range(m - 1):
                if k > 0:
                    H = np.vstack([H, np.array([float(v) for v in plant.calls[k - 1]["y"]])])
                Xk = TSCDataFrame(mkts([(sid, [ict + d * (k + j - nic + 1) for j in range(nic)], H[-nic:])], cols, ck))
                win = [full[min(k + j, m - 1)] for j in range(hz)]
                Rk = TSCDataFrame(mkts([(sid, [ict + d * (k + j + 1) for j in range(hz)], np.array(win))], names, ck))
                seq("step", Xk, ict + d * k, sid, Rk, dict(applied=vec(np.asarray(Us)[k]), i=k + 1))


def lqr(rng, rec, est, mA, mB, fin, uin, nic, cols, ck, d, state):
    n, nz, nu = len(cols), len(fin), len(uin)
    sc, sd = bool(rng.random() < 0.4), bool(rng.random() < 0.5)
    v = [float(rng.choice([0.1, 1, 5]))] if sc else [float(c) for c in rng.choice([0, 0.1, 1, 3], size=nz)]
    w = [float(rng.choice([0.01, 1, 5]))] if sd else [float(c) for c in rng.choice([0.1, 1, 3], size=nu)]
    if rng.random() < 0.03:
        v[0] = -1.0
    mk = lambda: (lambda t, s: (mkts([(s, [t + d * k for k in range(nic)], np.round(rng.normal(size=(nic, n)), 3))], cols, ck), t + d * (nic - 1), s))(int(rng.integers(0, 5)) * d, int(rng.choice([0, 0, 4])))
    X0, ict, sid = mk()
    T0, _, _ = mk()
    preset = bool(rng.random() < 0.5)
    pre = dig([state(), X0, T0])

    def go():
        c = LQR(est, v[0] if sc else np.array(v), w[0] if sd else np.array(w))
        if preset:
            c.preset_target_state(T0)
            return c.control_sequence(X0)
        return c.control_sequence(X0, target_state=T0)

    out, e = call(go)
    o = e == "" and isinstance(out, pd.DataFrame)
    tr = lambda X: vec(np.asarray(est.transform(X).to_numpy(), float)[0])
    rec.ev("lqr", A=mat(mA), B=mat(mB), uin=uin, cr=dict(sc=sc, v=[num(c) for c in v]), cu=dict(sc=sd, v=[num(c) for c in w]), z=tr(X0), zt=tr(T0), ict=ict, id=sid,
           u=mat(np.asarray(out)) if o else [], ut=[ck.tick(t) for t in out.time_values()] if o else [], ucols=[str(c) for c in out.columns] if o else [], uid=int(out.ids[0]) if o else -1, err=e,
           pre=pre, after=dig([state(), X0, T0]))

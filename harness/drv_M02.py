from estops import *  # noqa
from datafold.dynfold.dynsystem import LinearDynamicalSystem
from datafold.dynfold.dmd import PretrainedDMD


def gen_T(rng, n):
    m = rng.integers(0, 3)
    if m == 0:
        return np.eye(n)
    while True:
        T = np.round(np.eye(n) + 0.5 * rng.normal(size=(n, n)), 2)
        if np.linalg.cond(T) < 20:
            return T


def gen_blocks(rng, n, typ):
    b, left = [], n
    while left:
        if left >= 2 and rng.random() < 0.4:
            if typ == "flowmap":
                b.append(["c", round(float(rng.uniform(0.7, 1.1)), 3), round(float(rng.uniform(0.1, 2.8)), 3)])
            else:
                b.append(["c", round(float(rng.uniform(-0.6, 0.1)), 3), round(float(rng.uniform(0.1, 2.8)), 3)])
            left -= 2
        else:
            b.append(["r", round(float(rng.uniform(0.3, 1.15) if typ == "flowmap" else rng.uniform(-0.9, 0.15)), 3)])
            left -= 1
    return b


def build_A(T, bs, typ):
    n = len(T)
    D = np.zeros((n, n))
    i = 0
    for b in bs:
        if b[0] == "r":
            D[i, i] = b[1]
            i += 1
        else:
            c, s = (b[1] * np.cos(b[2]), b[1] * np.sin(b[2])) if typ == "flowmap" else (b[1], b[2])
            D[i:i + 2, i:i + 2] = [[c, -s], [s, c]]
            i += 2
    return T @ D @ np.linalg.inv(T)


def jb(bs):
    return [[x if isinstance(x, str) else num(x) for x in b] for b in bs]


def case(rng, rec, i, tier):
    typ = ["flowmap", "differential"][i % 2]
    mode = ["matrix", "spectral"][(i // 2) % 2]
    ctrl = str(rng.choice(["none", "none", "linear", "linear", "affine"]))
    if ctrl == "affine":
        typ, mode = "differential", "matrix"
    if ctrl == "linear" and typ == "differential":
        mode = "matrix"
    n = int(rng.choice([1, 2, 3, 4])) if ctrl != "affine" else int(rng.choice([2, 2, 3]))
    T, bs = gen_T(rng, n), gen_blocks(rng, n, typ)
    A = build_A(T, bs, typ)
    nodiag = mode == "matrix" and ctrl != "affine" and rng.random() < 0.25
    if nodiag and n > 1:        # defective or singular matrix
        A = np.round(np.triu(rng.normal(size=(n, n)), 1) + 0.8 * np.eye(n) * (rng.random() < 0.8), 2)
    blocks = [] if nodiag and n > 1 else jb(bs)
    n_ic = int(rng.choice([1, 1, 2, 3, 4]))
    x0 = np.round(rng.normal(size=(n_ic, n)), 3)
    # times
    tk = str(rng.choice(["f", "f", "i", "td"])) if ctrl != "affine" else "f"
    K = int(rng.choice([1, 2, 3, 4, 6])) if ctrl != "affine" else int(rng.choice([4, 5, 6]))
    if ctrl == "linear":
        K = max(K, 2)
    dtt = int(rng.choice([1, 2, 3]))            # sampling interval in ticks
    if ctrl == "none":
        frac = blocks != [] and rng.random() < 0.5
        ks = sorted(set(int(x) for x in rng.integers(0, 9, size=K)))
        if rng.random() < 0.5:
            ks[0] = 0
        ticks = [k if frac else k * dtt for k in ks]
    elif ctrl == "linear" and typ == "flowmap":
        s = int(rng.choice([0, 0, 3]))
        ticks = [s * dtt + k * dtt for k in range(K)]
    else:
        st = np.cumsum(rng.integers(1, 4, size=K)) if ctrl == "linear" else np.arange(K)
        ticks = [int(x) for x in st - st[0]]
    unit = {"f": float(rng.choice([1.0, 0.5, 0.25])) if ctrl != "affine" else 0.25, "i": 1, "td": 1}[tk]
    dt = dtt * unit
    scale = 1.0
    if tk == "td":     # nanoseconds; only the ratio to the sampling interval matters for a flow map
        if typ == "differential":
            tk = "i"
    times = [t * unit for t in ticks]
    tv = np.array(times, dtype={"f": float, "i": np.int64, "td": np.int64}[tk])
    tdelta = dt if tk == "f" else int(dtt)
    if tk == "td":
        tv = tv.astype("timedelta64[ns]")
        tdelta = np.timedelta64(int(dtt), "ns")
    if rng.random() < 0.2:
        tv = list(tv) if tk != "td" else tv
    # control
    m = int(rng.choice([1, 2, 3]))
    B, N, us, U = np.zeros((n, 0)), [], [], None
    tol = 1e-8
    if ctrl == "linear":
        B = np.round(rng.normal(size=(n, m)), 2)
        U = np.round(rng.normal(size=(n_ic, len(ticks) - 1, m)), 2)
    elif ctrl == "affine":
        tol = 2e-2
        N = [np.round(0.6 * rng.normal(size=(n, n)), 2) for _ in range(m)]
        c = rng.normal(size=(n_ic, 3, m)) * np.array([0.8, 0.5, 0.2])[None, :, None]
        tt = np.array(times)
        U = np.stack([c[q, 0] + np.outer(tt, c[q, 1]) + np.outer(tt**2, c[q, 2]) for q in range(n_ic)])
    # system
    ctrl_m = B if ctrl == "linear" else (np.stack(N, 2) if ctrl == "affine" else None)
    post = []
    ow = None
    X0 = x0.T.copy()
    pre = after = ""
    sysobj = LinearDynamicalSystem(sys_type=typ, sys_mode=mode, is_controlled=ctrl != "none", is_control_affine=ctrl == "affine")
    if ctrl == "affine":
        sysobj._requires_last_control_state = True
    spoil = str(rng.choice(["", "", "", "", "", "", "x0", "u", "ulen", "dt", "names", "ids"]))
    if mode == "matrix":
        sysobj.setup_matrix_system(A, control_matrix=ctrl_m)
        ic = X0
    else:
        lam, V = np.linalg.eig(A)
        p = rng.permutation(n)
        V = V[:, p] * (rng.uniform(0.5, 2, size=n) * np.where(rng.random(n) < 0.5, -1, 1))
        lam = lam[p]
        left = np.linalg.inv(V) if (ctrl == "linear" or rng.random() < 0.5) else None
        sysobj.setup_spectral_system(V, lam, eigenvectors_left=left, control_matrix=ctrl_m)
        ic = sysobj.compute_spectral_system_states(X0)
        if ctrl == "none" and rng.random() < 0.3:
            D = np.round(rng.normal(size=(int(rng.integers(1, 4)), n)), 2)
            post, ow = mat(D), D @ V
    names = [f"s{j}" for j in range(len(post) or n)] if rng.random() < 0.5 else []
    ids = [int(x) for x in rng.choice(20, size=n_ic, replace=False)] if rng.random() < 0.5 else []
    if spoil == "x0":
        x0 = np.hstack([x0, np.ones((n_ic, 1))])
        ic = np.vstack([ic, np.ones((1, n_ic))])
    elif spoil == "u" and ctrl != "none":
        U = np.concatenate([U, U[:, :, :1]], axis=2)
    elif spoil == "ulen" and ctrl != "none":
        U = np.concatenate([U, U[:, -1:, :]], axis=1) if rng.random() < 0.5 else U[:, :-1, :]
    elif spoil == "dt" and typ == "flowmap":
        tdelta = None if rng.random() < 0.5 else -1.0
    elif spoil == "names":
        names = [f"s{j}" for j in range((len(post) or n) + 1)]
    elif spoil == "ids":
        ids = list(range(n_ic + 1))
    if U is not None:
        us = [mat(u) for u in U]
    args = dict(time_values=tv, time_delta=tdelta if (typ == "flowmap" or rng.random() < 0.5) else None)
    if U is not None:
        args["control_input"] = U[0] if (n_ic == 1 and rng.random() < 0.5) else U
    if ids:
        args["time_series_ids"] = np.array(ids)
    if names:
        args["feature_names_out"] = names if rng.random() < 0.5 else pd.Index(names)
    if ow is not None:
        args["overwrite_sys_matrix"] = ow
    if n_ic == 1 and rng.random() < 0.3:
        ic = ic[:, 0]
    if len(ticks) == 1 and rng.random() < 0.5 and tk != "td":
        args["time_values"] = args["time_values"][0]
    pre = dig([vars(sysobj).get(k) for k in ("sys_matrix_", "control_matrix_", "eigenvalues_", "eigenvectors_right_", "eigenvectors_left_")] + [ic, U])
    R, err = call(lambda: sysobj.evolve_system(ic, **args))
    after = dig([vars(sysobj).get(k) for k in ("sys_matrix_", "control_matrix_", "eigenvalues_", "eigenvectors_right_", "eigenvectors_left_")] + [ic, U])
    ck = Clock("f" if tk == "f" else "i", unit)
    if err == "" and tk != "f":
        ck = Clock("i", 1)
    dts = "none" if tdelta is None else num(float(tdelta if tk != "td" or spoil == "dt" else int(dtt)))
    rec.ev("evolve", type=typ, mode=mode, ctrl=ctrl, T=mat(T), blocks=blocks, A=mat(A), B=mat(B) if ctrl == "linear" else [], N=[mat(x) for x in N],
           x0=mat(x0), times=[num(t) for t in times], ticks=ticks, ns=[t // dtt for t in ticks], dt=dts, us=us, post=post, names=names, ids=ids, tol=num(tol),
           R=frame(R, ck) if err == "" else NOFRAME, err=err, pre=pre, after=after)

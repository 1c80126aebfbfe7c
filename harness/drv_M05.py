from modops import *  # noqa
from drv_M01 import ic
import drv_M03


def control(rng, c, ids, t0, L, cubic):
    out = []
    tt = np.arange(L) / max(L - 1, 1)
    for i in ids:
        if cubic:
            a = rng.normal(size=(3, c.nu)) * np.array([0.6, 0.4, 0.2])[:, None]
            u = a[0] + np.outer(tt, a[1]) + np.outer(tt**2, a[2])
        else:
            u = np.round(rng.normal(size=(L, c.nu)), 3)
        out.append([i, [t0 + c.d * q for q in range(L)], u])
    return out


def one(rng, c):
    t0 = int(rng.choice([0, 0, 3, 7])) * c.d
    aff = c.cls == "affine"
    X, ids = ic(rng, c, t0)
    L = int(rng.choice([4, 5, 6])) if aff else int(rng.choice([1, 2, 3, 5]))
    us = control(rng, c, ids, t0, L, aff)
    bad = str(rng.choice([""] * 15 + ["missing_id", "foreign", "extra_id", "shift", "late", "spacing", "names", "order", "nan", "difftimes", "tvlen", "tvshift", "idorder", "none", "df"]))
    tv, form = None, str(rng.choice(["tsc", "tsc", "tsc", "np", "xnp"]))
    if rng.random() < 0.3:
        tv = c.ck.arr([t0 + c.d * q for q in range(L + (0 if aff else 1))])
    ucols = list(c.ucols)
    if bad == "missing_id":
        if len(us) < 2:
            return
        us.pop(int(rng.integers(len(us))))
    elif bad == "foreign":
        us[int(rng.integers(len(us)))][0] = 40
    elif bad == "extra_id":
        us += control(rng, c, [41], t0, L, aff)
    elif bad == "shift":
        us = [[i, [q + c.d for q in t], u] for i, t, u in us]
        tv = None
    elif bad == "late":
        if t0 == 0:
            return
        us = [[i, [q - c.d for q in t], u] for i, t, u in us]
        tv = None
    elif bad == "spacing":
        if L < 2 or aff:
            return
        us = [[i, [t[0] + 2 * (q - t[0]) for q in t], u] for i, t, u in us]
        tv = None
    elif bad == "names":
        ucols = ["q"] + ucols[1:]
    elif bad == "order":
        if c.nu < 2:
            return
        ucols = ucols[::-1]
    elif bad == "nan":
        us[0][2] = np.array(us[0][2])
        us[0][2][int(rng.integers(L)), 0] = np.nan
    elif bad == "difftimes":
        if len(us) < 2 or L < 2:
            return
        us[-1] = [us[-1][0], us[-1][1][:-1], us[-1][2][:-1]]
    elif bad == "tvlen":
        tv = c.ck.arr([t0 + c.d * q for q in range(L + (1 if aff else 2))])
    elif bad == "tvshift":
        tv = c.ck.arr([t0 + c.d * (q + 1) for q in range(L + (0 if aff else 1))])
    elif bad == "idorder":
        if len(us) < 2:
            return
        us = us[::-1]
    U = mkts(us, ucols, c.ck)
    if bad == "df":
        U = pd.DataFrame(U)
    if bad == "none":
        U = None
    if form == "np" and U is not None and not bad or form == "np" and bad in ("nan", "tvlen"):
        if len(ids) == 1 or rng.random() < 0.3:
            U = us[0][2]
            if c.nu == 1 and rng.random() < 0.4:
                U = U[:, 0]
        if rng.random() < 0.4 and len(ids) == 1 and (t0 == 0 or tv is not None) and c.ck.kind != "d":
            X = X.to_numpy()
    elif form == "xnp":
        X = X.to_numpy()
    c.predict(X, U=U, tv=tv)


def case(rng, rec, i, tier):
    c = Case(rng, rec, ["ctrl", "ctrl", "affine"], noise=False)
    sp = drv_M03.spoil(rng, c) if rng.random() < 0.15 else None
    if sp is not None:
        c.do_fit(X=sp[0], U=sp[1])
        return
    c.do_fit(record=rng.random() < 0.3)
    if not c.ok:
        return
    if c.cls == "affine":      # a model of moderate growth
        s = max(1.0, c.dtr) * max(1.0, np.max(np.abs(c.est.control_matrix_)), np.max(np.abs(c.est.sys_matrix_)))
        c.est.control_matrix_ /= s
        c.est.sys_matrix_ /= s
    for _ in range(int(rng.integers(2, 4))):
        if rng.random() < 0.75 or c.cls == "affine":
            one(rng, c)
        else:
            c.recon(c.X, U=c.U)

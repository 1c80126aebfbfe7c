import colops
from vlib import *  # noqa
import vlib
import pandas as pd

QS = ["ids", "n_timeseries", "n_features", "n_timesteps", "delta_time", "is_equal_length", "is_const_delta_time", "is_same_time_values",
      "is_normalized_time", "is_finite", "is_datetime_index", "has_degenerate", "degenerate_ids", "time_values", "time_interval",
      "time_interval_id", "const_sampled_time_values", "overview"]
CS = ["check_finite", "check_same_length", "check_const_time_delta", "check_const_timesteps", "check_equal_timevalues",
      "check_contain_required_ids", "check_contain_required_ids_order", "check_normalized_time", "check_required_time_delta",
      "check_required_n_timeseries", "check_required_n_timesteps", "check_required_min_timesteps", "check_no_degenerate_ts",
      "check_non_overlapping_timeseries", "check_min_samples", "check_min_features", "check_tsc", "check_tsc"]


def unit(ck):
    """ticks of one time unit"""
    return small_int(round(1 / ck.q)) if ck.kind != "d" and abs(1 / ck.q - round(1 / ck.q)) < 1e-9 else NAN_INT


def R(k="none", v=0, b=False, s=(), m=()):
    return {"k": k, "v": v, "b": bool(b), "s": list(s), "m": list(m)}


def scal(x, conv):
    if isinstance(x, pd.Series):
        return R("series", m=[[small_int(i), conv(v)] for i, v in x.items()])
    return R("scalar", v=conv(x))


def boolean(x):
    try:
        if np.ndim(x) == 0 and x in (True, False):
            return R("bool", b=bool(x))
    except Exception:
        pass
    return R("other")


def query(c, h, q):
    X, ck, r = c.o[h], c.ck, c.rng
    if q == "is_normalized_time" and not ck.exact:
        return      # a sampling interval of exactly one is not defined for noisy time values
    n = 0
    conv = {
        "ids": (lambda: X.ids, lambda o: R("seq", s=[small_int(i) for i in o])),
        "n_timeseries": (lambda: X.n_timeseries, lambda o: scal(o, small_int)),
        "n_features": (lambda: X.n_features, lambda o: scal(o, small_int)),
        "n_timesteps": (lambda: X.n_timesteps, lambda o: scal(o, small_int)),
        "delta_time": (lambda: X.delta_time, lambda o: scal(o, ck.dtick)),
        "degenerate_ids": (X.degenerate_ids, lambda o: R("seq", s=[] if o is None else [small_int(i) for i in o])),
        "time_values": (X.time_values, lambda o: R("seq", s=[ck.tick(t) for t in o])),
        "time_interval": (X.time_interval, lambda o: R("seq", s=[ck.tick(t) for t in o])),
        "const_sampled_time_values": (X.const_sampled_time_values, lambda o: R("seq", s=[ck.tick(t) for t in o])),
        "overview": (X.tsc.time_values_overview, lambda o: R("series", m=[[small_int(i), ck.tick(a), ck.tick(b), ck.dtick(d)] for i, a, b, d in
                                                                          zip(o.index, o["start"], o["end"], o["delta_time"])])),
    }
    if q == "time_interval_id":
        n = int(r.choice(sorted({x[0] for x in c.rows(X)})))
        f, g = (lambda: X.time_interval(n)), (lambda o: R("seq", s=[ck.tick(t) for t in o]))
    elif q in conv:
        f, g = conv[q]
    else:
        f, g = getattr(X, q), boolean
    out, err = call(f)
    if err == "":
        out, e2 = call(g, out)
        if e2:
            out = R("other")
    c.rec.ev("q", h=h, kind="query", unit=unit(ck), q=q, n=n, ids=[], o=NOOPT, out=out if err == "" else R(), err=err, argsame=True, nh=0, post=c.post([h]))


NOOPT = dict(finite=False, same_length=False, const_delta=False, delta=NAN_INT, same_times=False, normalized=False, n_series=NAN_INT,
             n_steps=NAN_INT, min_steps=NAN_INT, no_degenerate=False, min_samples=1, min_features=1)


def check(c, h, q):
    X, ck, r = c.o[h], c.ck, c.rng
    t = X.tsc
    if q == "check_normalized_time" and not ck.exact:
        return
    n, ids, o = 0, [], dict(NOOPT)
    rows = c.rows(X)
    app = list(dict.fromkeys(x[0] for x in rows))
    lens = [sum(1 for x in rows if x[0] == i) for i in app]
    st = c._series_times(X)
    dts = [b - a for s in st.values() for a, b in zip(s, s[1:])] or [1]
    if q.startswith("check_contain"):
        ids = list(app)
        m = r.integers(0, 4)
        if m == 0:
            ids = ids[:-1] or [99]
        elif m == 1:
            ids = [int(x) for x in r.permutation(ids)]
        elif m == 2:
            ids = ids + [max(ids) + 1]
        f = lambda: t.check_contain_required_ids(ids, check_order=q.endswith("order"))  # noqa
    elif q == "check_same_length":
        f = t.check_timeseries_same_length
    elif q == "check_required_time_delta":
        n = int(r.choice(dts + [1]))
        f = lambda: t.check_required_time_delta(ck.delta(n))  # noqa
    elif q == "check_required_n_timeseries":
        n = len(app) + int(r.choice([0, 0, 1, -1]))
        f = lambda: t.check_required_n_timeseries(n)  # noqa
    elif q in ("check_required_n_timesteps", "check_required_min_timesteps"):
        n = int(r.choice(lens)) + int(r.choice([0, 0, 1, -1]))
        f = lambda: getattr(t, q)(n)  # noqa
    elif q == "check_min_samples":
        n = X.shape[0] + int(r.choice([0, 1, -1]))
        f = lambda: t.check_min_samples(n)  # noqa
    elif q == "check_min_features":
        n = X.shape[1] + int(r.choice([0, 1, -1]))
        f = lambda: t.check_min_features(n)  # noqa
    elif q == "check_tsc":
        p = r.choice([0.2, 0.5])
        for k in ("finite", "same_length", "const_delta", "same_times", "normalized", "no_degenerate"):
            if k == "normalized" and not ck.exact:
                continue
            o[k] = bool(r.random() < p)
        kw = dict(ensure_all_finite=o["finite"], ensure_same_length=o["same_length"], ensure_const_delta_time=o["const_delta"],
                  ensure_same_time_values=o["same_times"], ensure_normalized_time=o["normalized"], ensure_no_degenerate_ts=o["no_degenerate"])
        if r.random() < 0.2:
            o["delta"] = int(r.choice(dts))
            kw["ensure_delta_time"] = ck.delta(o["delta"])
        if r.random() < 0.2:
            o["n_series"] = kw["ensure_n_timeseries"] = len(app) + int(r.choice([0, 0, 1]))
        if r.random() < 0.2:
            o["n_steps"] = kw["ensure_n_timesteps"] = int(r.choice(lens)) + int(r.choice([0, 0, 1]))
        if r.random() < 0.3:
            o["min_steps"] = kw["ensure_min_timesteps"] = int(r.choice(lens)) + int(r.choice([0, 1]))
        if r.random() < 0.2:
            o["min_samples"] = kw["ensure_min_samples"] = X.shape[0] + int(r.choice([0, 1]))
        if r.random() < 0.2:
            o["min_features"] = kw["ensure_min_features"] = X.shape[1] + int(r.choice([0, 1]))
        f = lambda: t.check_tsc(**kw)  # noqa
    else:
        f = getattr(t, q)
    _, err = call(f)
    c.rec.ev("q", h=h, kind="check", unit=unit(ck), q=q, n=n, ids=[int(i) for i in ids], o=o, out=R(), err=err, argsame=True, nh=0, post=c.post([h]))


def case(rng, rec, i, tier):
    c = colops.Col(rng, rec, gen_clock(rng, exact=rng.random() < 0.5))
    m = rng.integers(0, 5)
    kw = {} if m == 0 else dict(regular=True) if m == 1 else dict(same=True) if m == 2 else dict(max_len=2) if m == 3 else dict(equal_len=True)
    h = c.gen_new(**kw)
    if rng.random() < 0.3:
        X = c.o[h]
        X2 = X.copy()
        X2.iloc[int(rng.integers(0, X.shape[0])), 0] = rng.choice([np.nan, np.inf])
        c.n += 1
        c.o[c.n] = X2
        rec.ev("mk.raw", out=c.p(X2), nh=c.n, err="", argsame=True, post=[], rows=c.p(X2)["rows"], cols=c.p(X2)["cols"], numeric=True, levels=2,
               timetype=c.ck.kind, mixedcols=False)
        h = c.n
    c.gen_new(**kw)
    hs = sorted(c.o)
    for _ in range(18):
        hh = int(rng.choice(hs))
        if rng.random() < 0.6:
            query(c, hh, str(rng.choice(QS)))
        else:
            check(c, hh, str(rng.choice(CS)))
    # slices keep stale index levels: ask again on a slice
    c.o = {hh: c.o[hh] for hh in hs[:1]}
    c.iloc_rows()
    c.getcols()
    hh = max(c.o)
    for q in rng.permutation(QS)[:6]:
        query(c, hh, str(q))
    a, b = int(rng.choice(sorted(c.o))), int(rng.choice(sorted(c.o)))
    rc = bool(rng.random() < 0.5)
    from datafold.pcfold.timeseries.accessor import TSCAccessor
    if np.isfinite(1):
        _, err = call(TSCAccessor.check_equal_delta_time, c.o[a], c.o[b], atol=1e-12 if c.ck.kind != "d" else np.timedelta64(0, "ns"), require_const=rc)
        rec.ev("equal_delta", h=a, h2=b, rc=rc, out=vlib.EMPTY, err=err, argsame=True, nh=0, post=c.post([a, b]))
    if rng.random() < 0.5 and c.ck.exact:     # histories: in-place time changes, then ask again
        c.shift_delta()
        hh = int(rng.choice(sorted(c.o)))
        for q in rng.permutation(QS)[:5]:
            query(c, hh, str(q))

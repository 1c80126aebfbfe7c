"""Shared harness: event recording, projections of datafold objects, input generators."""
import json
import math
import os
import signal
import sys
import warnings

for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

NAN_INT = -999999
BAD_INT = -888888
BASE = pd.Timestamp("2020-01-01")
DAY = 86400 * 10**9


# ------------------------------------------------------------------ numbers
def num(x):
    """A float as the shortest decimal string that round-trips (the spec's number format)."""
    try:
        x = float(x)
    except Exception:
        return "nan"
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    if x == 0:
        return "0"
    r = repr(x)
    return r[:-2] if r.endswith(".0") else r


def vec(a):
    return [num(x) for x in np.asarray(a).ravel()]


def mat(a):
    if hasattr(a, "toarray"):
        a = a.toarray()
    a = np.asarray(a)
    if a.ndim == 1:
        a = a[:, None]
    if a.ndim == 0:
        a = a[None, None]
    return [[num(x) for x in row] for row in a]


def cmat(a):
    """complex matrix as [re, im]"""
    a = np.asarray(a)
    return [mat(np.real(a)), mat(np.imag(a))]


def small_int(x, default=BAD_INT):
    try:
        v = int(x)
        return v if v == x and abs(v) < 2**31 - 1 else default
    except Exception:
        return default


# ------------------------------------------------------------------ time
class Clock:
    """Maps integer ticks to the time values of a case and back."""

    def __init__(self, kind="i", q=1, off=0):
        self.kind, self.q, self.off = kind, q, off
        self.exact = kind != "f" or float(q * 2**10).is_integer()

    def t(self, k):
        k = int(k)
        if self.kind == "i":
            return int(k * self.q)
        if self.kind == "f":
            return float(k * self.q)
        return BASE + pd.Timedelta(int(k * self.q), "ns")

    def arr(self, ks):
        if self.kind == "i":
            return np.array([self.t(k) for k in ks], dtype=np.int64)
        if self.kind == "f":
            return np.array([self.t(k) for k in ks], dtype=float)
        return np.array([np.datetime64(self.t(k), "ns") for k in ks], dtype="datetime64[ns]")

    def delta(self, d):
        if self.kind == "i":
            return int(d * self.q)
        if self.kind == "f":
            return float(d * self.q)
        return np.timedelta64(int(d * self.q), "ns")

    def _back(self, x):
        r = round(x)
        return int(r) if abs(x - r) < 1e-6 and abs(r) < 2**31 - 1 else BAD_INT

    def tick(self, t):
        """time value -> tick"""
        try:
            if isinstance(t, (pd.Timestamp, np.datetime64)):
                ns = pd.Timestamp(t).value - BASE.value
                if self.kind != "d":
                    return BAD_INT
                return self._back(ns / self.q)
            if self.kind == "d":
                return BAD_INT
            if isinstance(t, (float, np.floating)) and not np.isfinite(t):
                return NAN_INT if np.isnan(t) else BAD_INT
            return self._back(float(t) / self.q)
        except Exception:
            return BAD_INT

    def dtick(self, d):
        """time difference -> tick (nan/NaT -> NAN_INT)"""
        try:
            if isinstance(d, (pd.Timedelta, np.timedelta64)) or d is pd.NaT:
                if pd.isna(d):
                    return NAN_INT
                if self.kind != "d":
                    return BAD_INT
                return self._back(pd.Timedelta(d).value / self.q)
            if isinstance(d, (float, np.floating)) and np.isnan(d):
                return NAN_INT
            if self.kind == "d":
                return BAD_INT
            return self._back(float(d) / self.q)
        except Exception:
            return BAD_INT


def kind_of(index):
    k = index.get_level_values(1).dtype.kind if index.nlevels == 2 else index.dtype.kind
    return {"i": "i", "u": "i", "f": "f", "M": "d"}.get(k, "?")


def proj(x, clock, relax_kind=False):
    """Project a frame with a two-level index to the spec's collection record."""
    from datafold import TSCDataFrame

    ty = "tsc" if isinstance(x, TSCDataFrame) else "df" if isinstance(x, pd.DataFrame) else "other"
    if ty == "other" or x.index.nlevels != 2:
        return {"type": "bad" if ty != "df" else "df1", "rows": [], "cols": [], "tk": "?"}
    ck = Clock(kind_of(x.index), 1) if kind_of(x.index) != clock.kind else clock
    if relax_kind and kind_of(x.index) in "if" and clock.kind in "if":
        ck = clock
    if kind_of(x.index) in "if" and clock.kind in "if":
        ck = clock
    vals = np.asarray(x.to_numpy())
    rows = []
    for (i, t), v in zip(x.index.tolist(), vals):
        rows.append([small_int(i), ck.tick(t), [num(e) for e in v]])
    return {
        "type": ty,
        "rows": rows,
        "cols": [str(c) for c in x.columns],
        "tk": kind_of(x.index),
    }


EMPTY = {"type": "none", "rows": [], "cols": [], "tk": "?"}


# ------------------------------------------------------------------ recorder
class CaseTimeout(Exception):
    pass


class Rec:
    """Collects the events of one worker; one JSON object per line."""

    def __init__(self, path):
        self.f = open(path, "w")
        self.case = None
        self.n_events = 0
        self.ops = {}

    def ev(self, op, **kw):
        d = {"c": self.case, "op": op}
        kw.setdefault("err", "")
        d.update(kw)
        self.f.write(json.dumps(d) + "\n")
        self.n_events += 1
        self.ops[op] = self.ops.get(op, 0) + 1

    def close(self):
        self.f.close()


def call(fn, *a, **kw):
    """(result, error name) of a call into the code under test; nothing escapes."""
    try:
        return fn(*a, **kw), ""
    except CaseTimeout:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: BLE001 - every exception is an observation
        return None, type(e).__name__


# ------------------------------------------------------------------ generators
def gen_clock(rng, kinds="iifffd", exact=True):
    """exact: float time values are equal exactly if their ticks are equal"""
    k = rng.choice(list(kinds))
    if k == "i":
        return Clock("i", int(rng.choice([1, 1, 1, 2, 3, 10])))
    if k == "f":
        return Clock("f", float(rng.choice([0.25, 1.0, 0.5, 2.0, 0.125, 2.0**-10] if exact else [0.1, 0.25, 1.0, 0.5, 1e-3, 0.01, 1 / 3, 7.3])))
    return Clock("d", int(rng.choice([DAY, 3600 * 10**9, 10**9, 10**6])))


def gen_ids(rng, n):
    m = rng.integers(0, 4)
    if m == 0:
        return list(range(n))
    ids = rng.choice(12, size=n, replace=False).tolist()
    if m == 1:
        return sorted(ids)
    if m == 2:
        s = int(rng.integers(1, 6))
        return list(range(s, s + n))
    return [int(i) for i in ids]


def gen_times(rng, length, mode, delta=1, start=0):
    if mode == "irr":
        steps = rng.integers(1, 4, size=length)
        return [int(x) for x in start + np.cumsum(steps) - steps[0]]
    return [int(start + k * delta) for k in range(length)]


def gen_layout(rng, n_series=None, min_len=1, max_len=6, regular=False, ids=None, same=False, equal_len=False):
    """list of (id, [ticks])"""
    n = int(n_series if n_series is not None else rng.integers(1, 5))
    ids = gen_ids(rng, n) if ids is None else ids
    mode = "reg" if regular else rng.choice(["same", "reg", "reg", "mixed", "irr", "deltas"])
    if same:
        mode = "same"
    base_len = int(rng.integers(max(min_len, 1), max_len + 1))
    delta = int(rng.choice([1, 1, 2, 3]))
    out = []
    start0 = int(rng.integers(0, 4)) if rng.random() < 0.5 else 0
    for i in ids:
        if mode == "same" or equal_len:
            ln = base_len
        else:
            ln = int(rng.integers(min_len, max_len + 1))
        st = start0 if (mode == "same" or rng.random() < 0.4) else int(rng.integers(0, 8))
        if mode == "irr" or (mode == "mixed" and rng.random() < 0.5):
            ts = gen_times(rng, ln, "irr", start=st)
        elif mode == "deltas":
            ts = gen_times(rng, ln, "reg", int(rng.choice([1, 2, 3])), st)
        else:
            ts = gen_times(rng, ln, "reg", delta, st)
        out.append((int(i), ts))
    if mode == "same" and not regular and rng.random() < 0.3:
        ts = gen_times(rng, base_len, "irr", start=start0)
        out = [(i, list(ts)) for i, _ in out]
    return out


FEATS = ["a", "b", "c", "x0", "x1", "feature0", "p q"]


def gen_cols(rng, n=None):
    n = int(n if n is not None else rng.integers(1, 4))
    c = rng.permutation(len(FEATS))[:n]
    return [FEATS[i] for i in c]


def gen_values(rng, shape, kind=None):
    kind = kind or rng.choice(["f", "f", "i", "small"])
    if kind == "i":
        return rng.integers(-9, 10, size=shape).astype(float)
    if kind == "small":
        return np.round(rng.normal(size=shape), 2)
    return rng.normal(size=shape)


def build(layout, cols, vals, clock, cls=None):
    """Build a TSCDataFrame (or DataFrame) by its plain constructor."""
    from datafold import TSCDataFrame

    cls = cls or TSCDataFrame
    ids = np.concatenate([[i] * len(ts) for i, ts in layout]).astype(int)
    times = clock.arr(np.concatenate([ts for _, ts in layout]))
    idx = pd.MultiIndex.from_arrays([ids, times])
    return cls(pd.DataFrame(np.asarray(vals), index=idx, columns=cols))


def gen_tsc(rng, clock=None, cols=None, nonfinite=False, **kw):
    clock = clock or gen_clock(rng)
    layout = gen_layout(rng, **kw)
    cols = cols or gen_cols(rng)
    n = sum(len(ts) for _, ts in layout)
    vals = gen_values(rng, (n, len(cols)))
    if nonfinite and rng.random() < 0.5:
        vals[rng.integers(0, n), rng.integers(0, len(cols))] = rng.choice([np.nan, np.inf, -np.inf])
    return build(layout, cols, vals, clock), clock, layout


def _alarm(signum, frame):
    raise CaseTimeout("case timed out")


def run_cases(drv, rec, pid, seed, cases, tier, limit=120):
    """Run the driver's case function for each case number; every case is independent and seeded by (seed, pid, case)."""
    signal.signal(signal.SIGALRM, _alarm)
    for c in cases:
        rec.case = int(c)
        rec.ev("case")
        rng = np.random.default_rng([int(seed) & 0x7FFFFFFF, sum(ord(ch) * 131**k for k, ch in enumerate(pid)), int(c)])
        np.random.seed(int(rng.integers(0, 2**31)))
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            drv.case(rng, rec, int(c), tier)
        except CaseTimeout:
            rec.ev("crash", err="timeout", where="")
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:  # noqa: BLE001
            import traceback

            tb = traceback.extract_tb(e.__traceback__)
            if os.environ.get("VERIF_TB"):
                traceback.print_exc()
            rec.ev("crash", err=type(e).__name__, where=" ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:]), msg=str(e)[:200])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

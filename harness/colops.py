"""Calls on time series collections, recorded as events for T_COL."""
import warnings
import numpy as np
import pandas as pd

from vlib import *  # noqa: F401,F403
import vlib
from datafold import TSCDataFrame
from datafold.pcfold.timeseries.collection import InitialCondition


def frame_same(a, b):
    try:
        return (
            a.shape == b.shape
            and a.index.equals(b.index)
            and a.index.nlevels == b.index.nlevels
            and list(a.columns) == list(b.columns)
            and np.array_equal(a.to_numpy(), b.to_numpy(), equal_nan=True)
        )
    except Exception:
        return False


class Col:
    def __init__(self, rng, rec, clock):
        self.rng, self.rec, self.ck = rng, rec, clock
        self.o = {}
        self.n = 0

    # -- plumbing
    def p(self, x):
        return vlib.proj(x, self.ck)

    def rows(self, x):
        return self.p(x)["rows"]

    def post(self, hs):
        return [[int(h), self.p(self.o[h])] for h in hs]

    def emit(self, op, hs=(), out=None, new=False, err="", argsame=True, project=True, **kw):
        nh = 0
        o = vlib.EMPTY
        if err == "" and out is not None and project:
            o = self.p(out)
            if new and o["type"] == "tsc":
                self.n += 1
                nh = self.n
                self.o[nh] = out
        if hs and "h" not in kw:
            kw["h"] = int(hs[0])
        self.rec.ev(op, out=o, nh=nh, err=err, argsame=bool(argsame), post=self.post(hs), **kw)
        return nh

    def any(self):
        return int(self.rng.choice(sorted(self.o)))

    # -- constructors
    def mk_layout(self, layout, cols, vals):
        ids = [i for i, ts in layout for _ in ts]
        times = [t for _, ts in layout for t in ts]
        return self.mk_raw([[i, t, v] for i, t, v in zip(ids, times, np.atleast_2d(vals))], cols)

    def mk_raw(self, rows, cols, numeric=True, levels=2, timetype=None, mixedcols=False, how=None, id_dtype=None):
        """rows: [id, tick, values]; ids may be fractional -> logged as -888888"""
        ids = [r[0] for r in rows]
        ticks = [r[1] for r in rows]
        vals = [list(r[2]) for r in rows]
        tt = timetype or self.ck.kind
        if tt in "ifd":
            times = self.ck.arr(ticks)
        else:
            times = np.array([f"t{k}" for k in ticks], dtype=object)
        arrs = [np.array(ids) if id_dtype is None else np.array(ids).astype(id_dtype), times]
        if levels == 3:
            arrs = arrs + [np.arange(len(ids))]
        data = np.array(vals, dtype=float).reshape(len(rows), -1)
        labels = [int(c[1:]) if c.startswith("#") else c for c in cols]
        if not numeric:
            data = data.astype(object)
            data[0, 0] = "z"
        how = how or self.rng.choice(["args", "df"])

        def make():
            if levels == 1:
                idx = pd.Index(times)
            else:
                idx = pd.MultiIndex.from_arrays(arrs)
            if how == "df":
                return TSCDataFrame(pd.DataFrame(data, index=idx, columns=labels))
            return TSCDataFrame(data, index=idx, columns=labels)

        out, err = call(make)
        lr = [[small_int(i), int(k), vec(v)] for i, k, v in zip(ids, ticks, vals)]
        return self.emit("mk.raw", out=out, new=True, err=err, rows=lr, cols=[str(x) for x in labels], numeric=numeric,
                         levels=levels, timetype=tt, mixedcols=mixedcols)

    def gen_new(self, **kw):
        layout = gen_layout(self.rng, **kw)
        cols = gen_cols(self.rng)
        vals = gen_values(self.rng, (sum(len(t) for _, t in layout), len(cols)))
        return self.mk_layout(layout, cols, vals)

    def mk_tensor(self):
        r = self.rng
        n, m, k = r.integers(1, 5), r.integers(1, 6), r.integers(1, 4)
        tensor = gen_values(r, (n, m, k))
        ids = gen_ids(r, n) if r.random() < 0.7 else list(range(n))
        cols = gen_cols(r, k)
        t = gen_times(r, m, r.choice(["irr", "reg"]), int(r.integers(1, 3)), int(r.integers(0, 4)))
        if r.random() < 0.3:
            t = [int(x) for x in r.permutation(t)]
        if r.random() < 0.1 and n > 1:
            ids[1] = ids[0]
        kw = dict(tensor=tensor.copy(), time_series_ids=np.array(ids), feature_names=pd.Index(cols), time_values=self.ck.arr(t))
        defaults = self.ck.kind == "i" and self.ck.q == 1 and r.random() < 0.3
        if defaults:
            ids, cols, t = list(range(n)), [f"feature{i}" for i in range(k)], list(range(m))
            out, err = call(TSCDataFrame.from_tensor, tensor.copy())
        else:
            out, err = call(TSCDataFrame.from_tensor, **kw)
        self.emit("mk.tensor", out=out, new=True, err=err, tensor=[[vec(x) for x in s] for s in tensor], ids=[int(i) for i in ids],
                  times=[int(x) for x in t], cols=list(cols), tk=self.ck.kind)

    def mk_array(self):
        r = self.rng
        m, k = r.integers(1, 6), r.integers(1, 4)
        arr = gen_values(r, (m, k))
        cols = gen_cols(r, k)
        t = gen_times(r, m, r.choice(["irr", "reg"]), int(r.integers(1, 3)), int(r.integers(0, 4)))
        if r.random() < 0.3:
            t = [int(x) for x in r.permutation(t)]
        if r.random() < 0.1 and m > 1:
            t[1] = t[0]
        i = int(r.integers(0, 9))
        if r.random() < 0.5:
            out, err = call(TSCDataFrame.from_array, arr.copy(), time_values=self.ck.arr(t), feature_names=cols, ts_id=i)
            self.emit("mk.array", out=out, new=True, err=err, arr=[vec(x) for x in arr], id=i, times=t, cols=cols, tk=self.ck.kind)
        else:
            if r.random() < 0.2:
                df = pd.Series(arr[:, 0].copy(), index=self.ck.arr(t), name=cols[0])
                arr, cols = arr[:, [0]], cols[:1]
                before = df.to_frame()
            else:
                df = pd.DataFrame(arr.copy(), index=self.ck.arr(t), columns=cols)
                before = df.copy()
            out, err = call(TSCDataFrame.from_single_timeseries, df, ts_id=i)
            after = df.to_frame() if isinstance(df, pd.Series) else df
            self.emit("mk.single", out=out, new=True, err=err, arr=[vec(x) for x in arr], id=i, times=t, cols=cols, tk=self.ck.kind,
                      argsame=frame_same(before, after))

    def mk_frames(self):
        r = self.rng
        n = int(r.integers(1, 5))
        cols = gen_cols(r)
        frames, raw, spec = [], [], []
        samecols = True
        for k in range(n):
            m = int(r.integers(1, 5))
            t = gen_times(r, m, r.choice(["irr", "reg"]), 1, int(r.integers(0, 4)))
            v = gen_values(r, (m, len(cols)))
            if r.random() < 0.25:
                # a TSCDataFrame entry with one or several series: contributes its series (sorted by ID)
                ids2 = sorted(int(x) for x in r.choice(9, size=int(r.integers(1, 3)), replace=False))
                lay = [(i, gen_times(r, m, "reg", 1, int(r.integers(0, 3)))) for i in ids2]
                vv = gen_values(r, (m * len(ids2), len(cols)))
                f = build(lay, cols, vv, self.ck)
                p = 0
                for i, ts in lay:
                    spec.append([[int(tt), vec(vv[p + q])] for q, tt in enumerate(ts)])
                    p += m
            else:
                f = pd.DataFrame(v, index=self.ck.arr(t), columns=cols)
                spec.append([[int(tt), vec(x)] for tt, x in zip(t, v)])
            frames.append(f)
        if n > 1 and r.random() < 0.15:
            frames.append(frames[0])       # the same object twice
            f0 = frames[0]
            if isinstance(f0, TSCDataFrame):
                for _, s in f0.itertimeseries():
                    spec.append([[self.ck.tick(tt), vec(x)] for tt, x in zip(s.index, s.to_numpy())])
            else:
                spec.append(spec[0])
        if n > 1 and len(cols) > 1 and r.random() < 0.1:
            frames[-1] = frames[-1].rename(columns={cols[0]: "zz"})
            samecols = False
        before = [f.copy() for f in frames]
        if r.random() < 0.5:
            ids = list(range(len(spec)))
            out, err = call(TSCDataFrame.from_frame_list, frames)
        else:
            ids = [int(x) for x in r.choice(20, size=len(spec), replace=False)]
            if r.random() < 0.1 and len(ids) > 1:
                ids[-1] = ids[0]
            out, err = call(TSCDataFrame.from_frame_list, frames, ts_ids=ids)
        same = all(frame_same(a, b) for a, b in zip(before, frames))
        self.emit("mk.frames", out=out, new=True, err=err, frames=spec, ids=ids, cols=list(cols), tk=self.ck.kind, samecols=samecols, argsame=same)

    def mk_shift(self):
        r = self.rng
        n, k = int(r.integers(1, 5)), int(r.integers(1, 4))
        L, R = gen_values(r, (n, k)), gen_values(r, (n, k))
        t0 = int(r.integers(0, 4))
        t = [t0, t0 + int(r.integers(1, 4))]
        if r.random() < 0.1:
            t = t[::-1]
        cols = gen_cols(r, k)
        orient = r.choice(["col", "row"])
        a, b = (L.T, R.T) if orient == "col" else (L, R)
        tv = tuple(self.ck.t(x) for x in t)
        if self.ck.kind == "d":
            tv = tuple(np.datetime64(x, "ns") for x in tv)
        out, err = call(TSCDataFrame.from_shift_matrices, a.copy(), b.copy(), time_values=tv, snapshot_orientation=orient, columns=cols)
        self.emit("mk.shift", out=out, new=True, err=err, left=mat(L), right=mat(R), times=t, cols=cols, tk=self.ck.kind)

    def mk_ic(self):
        r = self.rng
        n, k = int(r.integers(1, 5)), int(r.integers(1, 4))
        X = gen_values(r, (n, k))
        cols = gen_cols(r, k)
        t = int(r.integers(0, 5))
        ids = gen_ids(r, n) if r.random() < 0.5 else None
        arr = X[0] if (n == 1 and r.random() < 0.5) else X
        tv = self.ck.t(t)
        if self.ck.kind == "d":
            tv = np.datetime64(tv, "ns")
        out, err = call(InitialCondition.from_array, arr.copy(), time_value=tv, feature_names=r.choice([0, 1]) and cols or pd.Index(cols),
                        ts_ids=None if ids is None else np.array(ids))
        self.emit("mk.ic", out=out, new=True, err=err, arr=mat(X), ids=list(range(n)) if ids is None else ids, time=t, cols=cols, tk=self.ck.kind)

    def mk_control(self):
        r = self.rng
        m, k = int(r.integers(1, 6)), int(r.integers(1, 3))
        U = gen_values(r, (m, k))
        cols = gen_cols(r, k)
        i = int(r.integers(0, 5))
        if r.random() < 0.5 or self.ck.kind == "d":
            t = gen_times(r, m, r.choice(["irr", "reg"]), 1, int(r.integers(0, 4)))
            out, err = call(InitialCondition.from_array_control, U.copy(), control_names=cols, time_values=self.ck.arr(t), ts_id=i)
        else:
            d = int(r.integers(1, 4))
            t = [d * x for x in range(m)]
            out, err = call(InitialCondition.from_array_control, U[:, 0].copy() if k == 1 else U.copy(), control_names=cols, dt=self.ck.delta(d), ts_id=i)
        self.emit("mk.control", out=out, new=True, err=err, arr=mat(U), id=i, times=t, cols=cols, tk=self.ck.kind)

    # -- malformed / well-formed raw layouts
    def mk_any(self):
        r = self.rng
        layout = gen_layout(r)
        cols = gen_cols(r)
        rows = [[i, t, list(v)] for i, t, v in zip([i for i, ts in layout for _ in ts], [t for _, ts in layout for t in ts],
                                                   gen_values(r, (sum(len(ts) for _, ts in layout), len(cols))))]
        kw = {}
        m = r.integers(0, 14)
        n = len(rows)
        if m == 0:      # duplicate an entry
            rows.insert(int(r.integers(0, n + 1)), [*rows[int(r.integers(0, n))][:2], [1.0] * len(cols)])
        elif m == 1:    # swap two rows
            a, b = int(r.integers(0, n)), int(r.integers(0, n))
            rows[a], rows[b] = rows[b], rows[a]
        elif m == 2:    # move a row elsewhere
            x = rows.pop(int(r.integers(0, n)))
            rows.insert(int(r.integers(0, n)), x)
        elif m == 3:
            rows[int(r.integers(0, n))][0] = -int(r.integers(1, 4))
        elif m == 4 and self.ck.kind != "d":
            rows[int(r.integers(0, n))][1] = -int(r.integers(1, 4))
        elif m == 5:    # fractional ID
            q = rows[int(r.integers(0, n))][0] + 0.5
            a = int(r.integers(0, n))
            for x in rows:
                if x[0] == rows[a][0] and x is not rows[a]:
                    x[0] = q
            rows[a][0] = q
        elif m == 6:    # duplicate column
            cols = cols + [cols[0]]
            for x in rows:
                x[2].append(0.0)
        elif m == 7:    # an appended tail that returns to an earlier series
            i = rows[int(r.integers(0, n))][0]
            rows.append([i, max(x[1] for x in rows) + 1, [2.0] * len(cols)])
        elif m == 8:
            kw["numeric"] = False
        elif m == 9:
            kw["levels"] = int(r.choice([1, 3]))
        elif m == 10:
            kw["timetype"] = "o"
        elif m == 11:
            kw["id_dtype"] = float
        elif m == 12 and len(cols) > 1:
            cols[0], kw["mixedcols"] = "#7", True
        elif m == 13:
            rows = [rows[int(q)] for q in r.permutation(n)]
        return self.mk_raw(rows, cols, **kw)

    # -- selection and conversion
    def same_indices(self):
        h = self.any()
        X = self.o[h]
        r = self.rng
        k = int(r.integers(1, 4))
        newcols = r.random() < 0.5
        cols = gen_cols(r, k) if newcols else list(X.columns)
        vals = gen_values(r, (X.shape[0], len(cols)))
        if newcols:
            out, err = call(TSCDataFrame.from_same_indices_as, X, vals, except_columns=cols)
        else:
            out, err = call(TSCDataFrame.from_same_indices_as, X, pd.DataFrame(vals) if r.random() < 0.3 else vals)
        self.emit("same_indices", [h], out=out, new=True, err=err, vals=mat(vals), cols=[str(c) for c in cols])

    def csv(self):
        h = self.any()
        X = self.o[h]

        def f():
            import tempfile, os
            fd, path = tempfile.mkstemp(suffix=".csv")
            os.close(fd)
            try:
                X.to_csv(path)
                kw = {"parse_dates": ["time"]} if self.ck.kind == "d" else {}
                return TSCDataFrame.from_csv(path, float_precision="round_trip", **kw)
            finally:
                os.unlink(path)

        if self.ck.kind == "d" or (self.ck.kind == "f" and self.ck.q == 1.0):
            return
        out, err = call(f)
        self.emit("csv", [h], out=out, new=True, err=err)

    def copy(self):
        h = self.any()
        out, err = call(lambda: self.o[h].copy())
        self.emit("copy", [h], out=out, new=True, err=err)

    def select_time_values(self):
        h = self.any()
        X = self.o[h]
        ticks = sorted({r[1] for r in self.rows(X)})
        m = int(self.rng.integers(1, len(ticks) + 1))
        sel = sorted(int(x) for x in self.rng.choice(ticks, size=m, replace=False))
        if m == 1 and self.rng.random() < 0.5:
            tv = X.time_values()[ticks.index(sel[0])]
        else:
            tv = X.time_values()[[ticks.index(s) for s in sel]]
        out, err = call(X.select_time_values, tv)
        self.emit("select_time_values", [h], out=out, new=True, err=err, times=sel)

    def states(self, which):
        h = self.any()
        n = int(self.rng.choice([1, 1, 2, 3, 4, 0, -1]))
        out, err = call(getattr(self.o[h], which), n)
        self.emit(which, [h], out=out, new=True, err=err, n=n)

    def initial_states(self):
        self.states("initial_states")

    def final_states(self):
        self.states("final_states")

    def from_tsc(self):
        h = self.any()
        n = int(self.rng.choice([1, 1, 2, 3]))
        X = self.o[h]
        if not np.isfinite(X.to_numpy()).all():
            return
        out, err = call(InitialCondition.from_tsc, X, n_samples_ic=n)
        self.emit("ic.from_tsc", [h], out=out, new=True, err=err, n=n)

    def getcols(self):
        h = self.any()
        X = self.o[h]
        c = list(X.columns)
        k = int(self.rng.integers(1, len(c) + 1))
        sel = [c[i] for i in self.rng.permutation(len(c))[:k]]
        m = self.rng.integers(0, 3)
        if m == 0:
            out, err = call(lambda: X[sel])
        elif m == 1:
            out, err = call(lambda: X.loc[:, sel])
        else:
            sel = sel[:1]
            out, err = call(lambda: X[sel[0]])
        self.emit("getcols", [h], out=out, new=True, err=err, cols=[str(s) for s in sel])

    def loc_ids(self):
        h = self.any()
        X = self.o[h]
        ids = sorted({r[0] for r in self.rows(X)})
        k = int(self.rng.integers(1, len(ids) + 1))
        sel = sorted(int(x) for x in self.rng.choice(ids, size=k, replace=False))
        if [r[0] for r in self.rows(X)] != sorted(r[0] for r in self.rows(X)):
            sel = sel[:1]           # pandas sorts the blocks of a list selection in unordered frames
        if self.rng.random() < 0.5:
            out, err = call(lambda: X.loc[sel, :])
            self.emit("loc.ids", [h], out=out, new=True, err=err, ids=sel)
        else:
            c = list(X.columns)
            cs = [c[i] for i in self.rng.permutation(len(c))[: int(self.rng.integers(1, len(c) + 1))]]
            out, err = call(lambda: X.loc[sel, cs])
            self.emit("loc.cols", [h], out=out, new=True, err=err, ids=sel, cols=[str(x) for x in cs])

    def iloc_rows(self):
        h = self.any()
        X = self.o[h]
        n = X.shape[0]
        a = int(self.rng.integers(0, n))
        b = int(self.rng.integers(a + 1, n + 1))
        out, err = call(lambda: X.iloc[a:b, :])
        self.emit("iloc.rows", [h], out=out, new=True, err=err, a=a + 1, b=b)

    def xs(self):
        h = self.any()
        X = self.o[h]
        i = int(self.rng.choice(sorted({r[0] for r in self.rows(X)})))
        out, err = call(lambda: X.xs(i))
        arr = [] if err else [[self.ck.tick(t), vec(v)] for t, v in zip(out.index, out.to_numpy())]
        self.emit("xs", [h], err=err, id=i, arr=arr)

    def feature_to_array(self):
        h = self.any()
        X = self.o[h]
        f = str(self.rng.choice([str(c) for c in X.columns]))
        use = "" if (self.rng.random() < 0.3) else f
        frame = bool(self.rng.random() < 0.5)
        out, err = call(X.feature_to_array, **({"feature": use} if use else {}), as_frame=frame)
        kw = dict(arr=[], rids=[], times=[])
        if err == "":
            kw["arr"] = mat(out)
            if frame:
                kw["rids"] = [small_int(i) for i in out.index]
                kw["times"] = [self.ck.tick(t) for t in out.columns]
        self.emit("feature_to_array", [h], err=err, feature=use, frame=frame, **kw)

    def itertimeseries(self):
        h = self.any()
        X = self.o[h]
        valid = bool(self.rng.random() < 0.5)
        out, err = call(lambda: list(X.itertimeseries(valid_tsc=valid)))
        series = []
        if err == "":
            for e in out:
                if valid:
                    i = small_int(e[0]) if isinstance(e, tuple) else None
                    df = e[1] if isinstance(e, tuple) else e
                    pr = self.p(df)["rows"]
                    series.append([pr[0][0] if pr else BAD_INT, [[x[1], x[2]] for x in pr]])
                else:
                    series.append([small_int(e[0]), [[self.ck.tick(t), vec(v)] for t, v in zip(e[1].index, e[1].to_numpy())]])
        self.emit("itertimeseries", [h], err=err, series=series)

    def insert_ts(self):
        h = self.any()
        X = self.o[h]
        r = self.rng
        m = int(r.integers(1, 4))
        t = gen_times(r, m, r.choice(["irr", "reg"]), 1, int(r.integers(0, 4)))
        vals = gen_values(r, (m, X.shape[1]))
        cols = list(X.columns)
        if r.random() < 0.1:
            cols = cols[::-1]
        ids = {x[0] for x in self.rows(X)}
        mode = r.integers(0, 6)
        tsid = None if mode < 3 else int(r.integers(0, 15)) if mode < 5 else int(r.choice(sorted(ids)))
        ck = self.ck
        tk = ck.kind
        if r.random() < 0.1:
            ck, tk = (Clock("d", DAY), "d") if ck.kind != "d" else (Clock("i", 1), "i")
        if r.random() < 0.3:
            df = build([(int(r.integers(0, 9)), t)], cols, vals, ck)
        else:
            df = pd.DataFrame(vals, index=ck.arr(t), columns=cols)
        before = df.copy()
        out, err = call(X.insert_ts, df, tsid)
        self.emit("insert_ts", [h], out=out, new=True, err=err, id=int(max(ids) + 1 if tsid is None else tsid),
                  frame=[[int(a), vec(v)] for a, v in zip(t, vals)], cols=[str(c) for c in cols], tk=tk, argsame=frame_same(before, df))

    def concat(self):
        k = int(self.rng.integers(2, 4))
        hs = [self.any()]
        for _ in range(k - 1):
            c = [h for h in sorted(self.o) if list(self.o[h].columns) == list(self.o[hs[0]].columns)
                 and kind_of(self.o[h].index) == kind_of(self.o[hs[0]].index)]
            hs.append(int(self.rng.choice(c)))
        out, err = call(lambda: pd.concat([self.o[h] for h in hs], axis=0))
        if err == "" and not isinstance(out, TSCDataFrame):
            err, out = "NotTSC", None
        self.emit("concat", sorted(set(hs)), out=out, new=True, err=err, **{"chs": hs})

    # -- assignments
    def set_index(self):
        h = self.any()
        X = self.o[h]
        r = self.rng
        rows = [[x[0], x[1]] for x in self.rows(X)]
        n = len(rows)
        m = r.integers(0, 7)
        levels = 2
        if m == 0:
            rows = [[i + 3, t + 1] for i, t in rows]
        elif m == 1:
            rows[int(r.integers(0, n))][1] += int(r.integers(-3, 4))
        elif m == 2:
            rows[int(r.integers(0, n))][0] += int(r.integers(-2, 3))
        elif m == 3:
            a, b = int(r.integers(0, n)), int(r.integers(0, n))
            rows[a], rows[b] = rows[b], rows[a]
        elif m == 4:
            rows = [[i, 2 * t] for i, t in rows]
        elif m == 5:
            levels = int(r.choice([1, 3]))
        if self.ck.kind == "d":
            rows = [[i, max(t, 0)] for i, t in rows]
        times = self.ck.arr([t for _, t in rows])
        idx = pd.MultiIndex.from_arrays([np.array([i for i, _ in rows]), times])
        if levels == 1:
            idx = pd.Index(times)
        elif levels == 3:
            idx = pd.MultiIndex.from_arrays([np.array([i for i, _ in rows]), times, np.arange(n)])

        def f():
            X.index = idx
            return X

        out, err = call(f)
        self.emit("set_index", [h], out=out, err=err, rows=[[int(a), int(b), []] for a, b in rows], numeric=True, levels=levels,
                  timetype=self.ck.kind, cols=["a"], mixedcols=False)

    def set_columns(self):
        h = self.any()
        X = self.o[h]
        r = self.rng
        cols = [FEATS[i] + "_" for i in r.permutation(len(FEATS))[: X.shape[1]]]
        mixed, levels = False, 1
        m = r.integers(0, 5)
        if m == 0 and len(cols) > 1:
            cols[-1] = cols[0]
        labels = list(cols)
        if m == 1 and len(cols) > 1:
            labels[0] = 7
            mixed = True
        idx = pd.Index(labels)
        if m == 2:
            levels = 2
            idx = pd.MultiIndex.from_arrays([labels, labels])

        def f():
            X.columns = idx
            return X

        out, err = call(f)
        self.emit("set_columns", [h], out=out, err=err, cols=[str(x) for x in labels], mixedcols=mixed, levels=levels)

    def loc_set(self):
        h = self.any()
        self.o[h] = self.o[h].copy()      # pandas slices may be views: write into an object of its own
        X = self.o[h]
        r = self.rng
        rows = self.rows(X)
        q = int(r.integers(0, len(rows)))
        c = int(r.integers(0, X.shape[1]))
        v = float(np.round(r.normal(), 3))
        numeric = r.random() > 0.15
        use_iloc = r.random() < 0.4

        def f():
            if use_iloc:
                X.iloc[q, c] = v if numeric else "s"
            else:
                X.loc[X.index[q], X.columns[c]] = v if numeric else "s"
            return X

        out, err = call(f)
        self.emit("loc.set", [h], out=out, err=err, id=rows[q][0], t=rows[q][1], col=str(X.columns[c]), val=num(v), numeric=bool(numeric))

    def col_set(self):
        h = self.any()
        self.o[h] = self.o[h].copy()      # pandas slices may be views: write into an object of its own
        X = self.o[h]
        r = self.rng
        if len(set(map(type, X.columns))) != 1 or not isinstance(X.columns[0], str):
            return
        new = r.random() < 0.3 and X.shape[1] < 4
        c = "new_" + str(X.shape[1]) if new else X.columns[int(r.integers(0, X.shape[1]))]
        v = np.round(r.normal(size=X.shape[0]), 3)

        def f():
            if r.random() < 0.5 or new:
                X[c] = v
            else:
                X.loc[:, c] = v
            return X

        out, err = call(f)
        self.emit("col.set", [h], out=out, err=err, col=str(c), vals=vec(v), numeric=True)

    # -- re-partition / time
    def assign_ids_sequential(self):
        h = self.any()
        out, err = call(self.o[h].tsc.assign_ids_sequential)
        self.emit("assign_ids_sequential", [h], out=out, err=err)

    def assign_ids_const_delta(self):
        h = self.any()
        X = self.o[h].copy()
        drop = bool(self.rng.random() < 0.7)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out, err = call(X.tsc.assign_ids_const_delta, drop_samples=drop)
        self.emit("assign_ids_const_delta", [h], out=out, new=False, err=err, drop=drop, warned=any("unsuccessful" in str(x.message) for x in w))

    def assign_ids_train_test(self):
        h = self.any()
        X = self.o[h]
        r = self.rng
        n = X.shape[0]
        lab = r.choice([0, 1, 2], size=n, p=[0.5, 0.35, 0.15])
        if r.random() < 0.5:        # block structure
            lab = np.repeat(r.choice([0, 1, 2], size=n), 2)[:n]
        if r.random() < 0.3:
            lab[lab == 2] = 0
        train, test = np.where(lab == 0)[0], np.where(lab == 1)[0]
        m = r.integers(0, 12)
        if m == 0 and len(train):
            test = np.sort(np.append(test, train[0]))
        elif m == 1 and len(train) > 1:
            train = train[::-1].copy()
        dropped = bool(r.random() < 0.5)
        out, err = call(X.tsc.assign_ids_train_test, train, test, return_dropped=dropped)
        outs = [vlib.EMPTY] * 3
        if err == "":
            outs = [self.p(x) for x in out] + ([] if dropped else [vlib.EMPTY])
        self.emit("assign_ids_train_test", [h], err=err, train=[int(x) for x in train], test=[int(x) for x in test], outs=outs, dropped=dropped)

    def windows(self):
        h = self.any()
        w, o = int(self.rng.choice([1, 2, 2, 3, 4, 0])), int(self.rng.choice([1, 1, 2, 3, 0]))
        per = bool(self.rng.random() < 0.5)
        out, err = call(lambda: list(self.o[h].tsc.iter_timevalue_window(window_size=w, offset=o, per_time_series=per)))
        self.emit("windows", [h], err=err, w=w, o=o, per=per, outs=[self.p(x) for x in out] if err == "" else [])

    def drop_last(self):
        h = self.any()
        X = self.o[h]
        n = int(self.rng.choice([1, 1, 2, 3]))
        if (np.asarray(X.n_timesteps) <= n).all():
            return
        out, err = call(X.tsc.drop_last_n_samples, n)
        self.emit("drop_last", [h], out=out, new=True, err=err, n=n)

    def shift_delta(self):
        h = self.any()
        X = self.o[h]
        d = int(self.rng.choice([-2, -1, 0, 1, 3, 5]))
        if self.ck.kind == "d" and min(r[1] for r in self.rows(X)) + d < 0:
            d = abs(d)
        s = self.ck.delta(d)
        if self.ck.kind == "d" and d == 0:
            return
        out, err = call(X.tsc.shift_time_by_delta, s)
        self.emit("shift_delta", [h], out=out, err=err, d=d)

    def shift_per(self):
        h = self.any()
        X = self.o[h]
        if self.ck.kind == "d":
            return
        ids = sorted({r[0] for r in self.rows(X)})
        if self.rng.random() < 0.5:
            out, err = call(X.tsc.shift_time_per_time_series)
            self.emit("shift_per", [h], out=out, err=err, shift=[])
        else:
            s = [[i, int(self.rng.choice([-1, 0, 1, 2, 4]))] for i in ids]
            ser = pd.Series([self.ck.delta(x) for _, x in s], index=pd.Index(ids))
            out, err = call(X.tsc.shift_time_per_time_series, ser)
            self.emit("shift_per", [h], out=out, err=err, shift=s)

    def normalize_time(self):
        h = self.any()
        X = self.o[h].copy()
        self.n += 1
        hh = self.n
        self.o[hh] = X
        self.rec.ev("copy", out=self.p(X), nh=hh, err="", argsame=True, post=self.post([h]), h=h)
        off = {(t - s[0]) for s in self._series_times(X).values() for t in s}
        # the result needs integer multiples of the sampling interval
        d = {b - a for s in self._series_times(X).values() for a, b in zip(s, s[1:])}
        mn = min(t for s in self._series_times(X).values() for t in s)
        if len(d) == 1 and any((t - mn) % next(iter(d)) for s in self._series_times(X).values() for t in s):
            return
        out, err = call(X.tsc.normalize_time)
        if err == "":
            ck, self.ck = self.ck, Clock("i", 1)
            o = self.p(out)
            po = [[hh, self.p(X)]]
            self.rec.ev("normalize_time", out=o, nh=0, err="", argsame=True, post=po, h=hh)
            self.ck = ck
        else:
            self.emit("normalize_time", [hh], err=err)
        self.o.pop(hh)

    def _series_times(self, X):
        d = {}
        for r in self.rows(X):
            d.setdefault(r[0], []).append(r[1])
        return d

    def expand(self):
        h = self.any()
        X = self.o[h]
        last = max(r[1] for r in self.rows(X))
        m = int(self.rng.integers(1, 4))
        t = gen_times(self.rng, m, "irr", start=last + int(self.rng.integers(1, 3)))
        fill = float(self.rng.choice([0.0, 2.5]))
        out, err = call(X.tsc.expand_time_values, self.ck.arr(t), fill_value=fill)
        st = self._series_times(X)
        if [r[0] for r in self.rows(X)] != sorted(r[0] for r in self.rows(X)):
            return
        if len({tuple(s) for s in st.values()}) > 1:
            return
        self.emit("expand", [h], out=out, new=True, err=err, times=t, fill=num(fill))

    def fill_last(self):
        h = self.any()
        X = self.o[h]
        n = int(X.shape[0] + self.rng.integers(0, 4))
        out, err = call(X.tsc.fill_timeseries_with_last_state, n)
        self.emit("fill_last", [h], out=out, new=True, err=err, n=n)

    def augment(self):
        h = self.any()
        X = self.o[h]
        r = self.rng
        if any(isinstance(c, int) for c in X.columns):
            return
        P = self.rows(X)
        lay = {}
        for x in P:
            lay.setdefault(x[0], []).append(x[1])
        cut = [(i, ts[:-1]) for i, ts in lay.items() if len(ts) > 1]
        if not cut:
            return
        m = r.integers(0, 8)
        if m == 0:
            cut = [(i, ts) for i, ts in lay.items()]
        elif m == 1:
            cut = [(i, [t + 1 for t in ts]) for i, ts in cut]
        cols = ["u%d" % k for k in range(int(r.integers(1, 3)))]
        if any(c in list(X.columns) for c in cols):
            return
        vals = gen_values(r, (sum(len(t) for _, t in cut), len(cols)))
        U = build(cut, cols, vals, self.ck)
        back = {(x[0], x[1]): k for x, k in zip(P, X.index)}
        if self.ck.kind == "f":     # take over the very time values of X (no floating point noise)
            U.index = pd.MultiIndex.from_tuples([back.get((i, t), (i, self.ck.t(t))) for i, ts in cut for t in ts], names=U.index.names)
        self.n += 1
        u = self.n
        self.o[u] = U
        self.rec.ev("mk.raw", out=self.p(U), nh=u, err="", argsame=True, post=[], rows=self.p(U)["rows"], cols=cols, numeric=True, levels=2,
                    timetype=self.ck.kind, mixedcols=False)
        out, err = call(X.tsc.augment_control_input, U)
        self.emit("augment", [h, u], out=out, new=False, err=err, u=u)
        self.o.pop(u)

    def shift_matrices(self):
        h = self.any()
        X = self.o[h]
        orient = str(self.rng.choice(["col", "row"]))
        out, err = call(X.tsc.shift_matrices, snapshot_orientation=orient)
        L = R = []
        if err == "":
            L, R = (mat(out[0].T), mat(out[1].T)) if orient == "col" else (mat(out[0]), mat(out[1]))
        self.emit("shift_matrices", [h], err=err, left=L, right=R, orient=orient)


CONSTRUCT = ["mk_tensor", "mk_array", "mk_frames", "mk_shift", "mk_ic", "mk_control", "gen_new", "gen_new"]
SELECT = ["same_indices", "csv", "copy", "select_time_values", "initial_states", "final_states", "from_tsc", "getcols", "loc_ids",
          "iloc_rows", "xs", "feature_to_array", "itertimeseries", "insert_ts", "insert_ts", "concat"]
ASSIGN = ["set_index", "set_columns", "loc_set", "col_set"]
PARTITION = ["assign_ids_sequential", "assign_ids_const_delta", "assign_ids_train_test", "windows", "drop_last", "shift_delta", "shift_per",
             "normalize_time", "expand", "fill_last", "augment"]


def history(c, ops, n):
    for _ in range(n):
        if not c.o:
            c.gen_new()
            continue
        if len(c.o) > 6:
            for h in sorted(c.o)[:-4]:
                c.o.pop(h)
        # time values stay small
        getattr(c, str(c.rng.choice(ops)))()

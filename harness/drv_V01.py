import json

import colops
from vlib import *  # noqa
from datafold.pcfold.timeseries.metric import TSCKfoldSeries, TSCKFoldTime, TSCWindowFoldTime

BEH = []


def replayed(path):
    BEH.clear()
    for line in open(path):
        if line.strip():
            BEH.append(json.loads(json.loads(line)))


def idx(a):
    return [small_int(i) if np.asarray(a).dtype.kind in "iu" else BAD_INT for i in np.asarray(a).ravel()]


def split(c, h, scheme, k=0, w=0, o=0, m=None, shuffle=False, build_parts=2):
    X = c.o[h]
    before = c.p(X)

    def f():
        if scheme == "series":
            cv = TSCKfoldSeries(n_splits=k, shuffle=shuffle, random_state=int(c.rng.integers(0, 99)) if shuffle else None)
        elif scheme == "time":
            cv = TSCKFoldTime(n_splits=k)
        else:
            cv = TSCWindowFoldTime(w, window_offset=o, train_min_timesteps=m)
        folds = list(cv.split(X))
        n = cv.get_n_splits(X) if scheme == "window" or c.rng.random() < 0.5 else cv.get_n_splits()
        return folds, n

    out, err = call(f)
    folds = [] if err else [[idx(a), idx(b)] for a, b in out[0]]
    c.rec.ev("split", h=h, scheme=scheme, k=k, w=w, o=o, m=1 if m is None else m, shuffle=shuffle, err=err, folds=folds,
             announced=-1 if err else small_int(out[1]), argsame=before == c.p(X), nh=0, out=colops.vlib.EMPTY, post=c.post([h]))
    if err:
        return
    for q in c.rng.permutation(len(out[0]))[:build_parts]:
        tr, te = out[0][q]
        dropped = bool(c.rng.random() < 0.5)
        parts, err = call(X.tsc.assign_ids_train_test, tr, te, return_dropped=dropped)
        outs = [colops.vlib.EMPTY] * 3
        if err == "":
            outs = [c.p(x) for x in parts] + ([] if dropped else [colops.vlib.EMPTY])
        c.emit("assign_ids_train_test", [h], err=err, train=[int(x) for x in tr], test=[int(x) for x in te], outs=outs, dropped=dropped)


def case(rng, rec, i, tier):
    c = colops.Col(rng, rec, gen_clock(rng))
    if i >= 100000:
        b = BEH[i - 100000]
        t, lay = 0, []
        for k, n in enumerate(b["lay"]):
            lay.append((k, [t + j for j in range(n)]))
            if b["par"]["s"] == "window":
                t += n + 1
        h = c.mk_layout(lay, ["a"], gen_values(rng, (sum(b["lay"]), 1)))
        p = b["par"]
        split(c, h, p["s"], k=p["k"], w=p["w"], o=p["o"], m=None if p["m"] <= 1 and rng.random() < 0.5 else p["m"] or None)
        return
    for _ in range(3):
        scheme = str(rng.choice(["series", "time", "window", "window"]))
        k = int(rng.choice([2, 2, 3, 4, 5]))
        w, o, m = int(rng.choice([1, 2, 2, 3, 4])), int(rng.choice([0, 0, 1, 2, 3])), rng.choice([None, 1, 2, 3, 5])
        n = int(rng.integers(1, 6))
        ids = gen_ids(rng, n)
        bad = rng.random() < 0.15
        if scheme == "window":
            ids = sorted(ids)
            d, t, lay = int(rng.choice([1, 1, 2, 3])), int(rng.integers(0, 3)), []
            order = list(range(n))
            starts = {}
            if rng.random() < 0.2:
                rng.shuffle(order)       # series need not be in time order
            lens = [int(rng.integers(2, 13)) for _ in range(n)]
            for q in order:
                starts[q] = t
                t += lens[q] * d + int(rng.integers(1, 5))
            for q in range(n):
                lay.append((ids[q], [starts[q] + d * j for j in range(lens[q])]))
            if bad:
                lay = gen_layout(rng, n_series=n, ids=ids)
        else:
            kw = dict(equal_len=True) if scheme == "series" else dict(same=True)
            lay = gen_layout(rng, n_series=n, ids=ids, max_len=9, **({} if bad else kw))
        cols = gen_cols(rng)
        h = c.mk_layout(lay, cols, gen_values(rng, (sum(len(t) for _, t in lay), len(cols))))
        if not h:
            continue
        if rng.random() < 0.2 and len(lay) > 1:      # a slice (stale index levels)
            keep = sorted(lay[q][0] for q in range(len(lay)) if q != 0) if sorted(ids) == ids else [lay[-1][0]]
            out, err = call(lambda: c.o[h].loc[keep, :])
            h = c.emit("loc.ids", [h], out=out, new=True, err=err, ids=keep)
            if not h:
                continue
        split(c, h, scheme, k=k, w=w, o=o, m=None if m is None else int(m), shuffle=bool(rng.random() < 0.4 and scheme == "series"))

import colops
import colreplay
from vlib import *  # noqa


def replayed(path):
    colreplay.load(path)


def case(rng, rec, i, tier):
    if i >= 100000:
        return colreplay.replay_case(rng, rec, i - 100000)
    c = colops.Col(rng, rec, gen_clock(rng, exact=rng.random() < 0.7))
    if rng.random() < 0.4:
        c.gen_new(n_series=1, regular=True)
    c.gen_new()
    if rng.random() < 0.3:
        c.gen_new(same=True)
    if not c.ck.exact:       # float time values with rounding noise
        return colops.history(c, ["gen_new", "normalize_time", "fill_last", "assign_ids_sequential", "initial_states", "drop_last"], 6)
    colops.history(c, colops.PARTITION * 3 + ["gen_new", "initial_states", "getcols", "loc_ids"], 10)

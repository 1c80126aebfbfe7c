import colops
import colreplay
from vlib import *  # noqa


def replayed(path):
    colreplay.load(path)


def case(rng, rec, i, tier):
    if i >= 100000:
        return colreplay.replay_case(rng, rec, i - 100000)
    c = colops.Col(rng, rec, gen_clock(rng))
    colops.history(c, colops.CONSTRUCT, 2)
    colops.history(c, colops.SELECT * 3 + colops.CONSTRUCT + ["loc_set", "drop_last"], 11)

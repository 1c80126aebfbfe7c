import colops
import colreplay
from vlib import *  # noqa


def replayed(path):
    colreplay.load(path)


def case(rng, rec, i, tier):
    if i >= 100000:
        return colreplay.replay_case(rng, rec, i - 100000)
    c = colops.Col(rng, rec, gen_clock(rng))
    for _ in range(3):
        c.mk_any()
    colops.history(c, colops.ASSIGN * 3 + colops.SELECT + colops.PARTITION + colops.CONSTRUCT + ["mk_any"], 10)

from estops import *  # noqa

BEH = []


def replayed(path):
    BEH.extend(json.loads(json.loads(x)) for x in open(path) if x.strip())


def case(rng, rec, i, tier):
    cls = ALL_TRF[i % len(ALL_TRF)]
    ev = BEH[i - 100000] if i >= 100000 else random_history(rng, int(rng.integers(5, 11)))
    trf_history(rng, rec, cls, ev)

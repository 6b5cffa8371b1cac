from sim.worlds import _resolver as w
from sim.worlds._knobs import KNOBS


def scenario(rng, i, tier):
    sc = w.make(rng, i, tier, KNOBS["M01"])
    via = rng.fork("via").pick([None, None, "content", "str"])
    return {**sc, "via": via} if via else sc


def execute(sc, ctx):
    return w.execute(sc, ctx, want_map=True)


shrink = w.shrinker

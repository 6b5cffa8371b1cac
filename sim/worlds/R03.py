from sim.worlds import _resolver as w
from sim.worlds._knobs import KNOBS


def scenario(rng, i, tier):
    return w.make(rng, i, tier, KNOBS["R03"])


execute, shrink = w.execute, w.shrinker

"""One worker process: a pristine zygote that has imported the code under test; every run is a fork of it.

usage: python -m sim.worker run PROP SEED TIER START COUNT | exec PROP FILE | minimise PROP FILE SECONDS
Results are JSON lines on the original stdout; everything else the code prints goes to stderr."""
import importlib
import json
import os
import resource
import shutil
import sys
import tempfile
import time

OUT = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)

from sim import env  # noqa: E402,F401
from sim.forks import WALL, fork  # noqa: E402
from sim.rng import Rng  # noqa: E402


MEMORY = 3 << 30


class Ctx:
    """what a world gets: forks, a scratch directory"""

    def __init__(self, scratch):
        self.scratch = scratch
        self.n = 0

    def fork(self, fn, *args, wall=WALL):
        return fork(fn, *args, wall=wall)

    def dir(self):
        self.n += 1
        d = os.path.join(self.scratch, "d%d" % self.n)
        os.mkdir(d)
        return d


class Names:
    """names of temporary files"""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return "sim%06d" % self.n


def _top(world, sc, scratch):
    tempfile.tempdir = os.path.join(scratch, "tmp")
    os.mkdir(tempfile.tempdir)
    tempfile._name_sequence = Names()
    return world.execute(sc, Ctx(scratch))


def execute(world, sc):
    if hasattr(world, "before"):
        world.before(sc)                    # in the zygote: start the other processes a run needs
    scratch = tempfile.mkdtemp(prefix="svdsim.")
    try:
        if getattr(world, "NOFORK", False):
            return {"value": _top(world, sc, scratch)}
        return fork(_top, world, sc, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def outcome(world, res):
    """-> (violation or None, harness error or None, value)"""
    if "value" in res:
        return res["value"].get("bad"), None, res["value"]
    if "stuck" in res and getattr(world, "STUCK", True):
        return {"class": "stuck", "detail": [res["stuck"]]}, None, {}
    return None, json.dumps(res), None


def minimise(world, sc, cls, seconds):
    end = time.monotonic() + seconds
    tried = kept = 0
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for cand in world.shrink(sc):
            if time.monotonic() > end:
                break
            tried += 1
            try:
                bad, err, val = outcome(world, execute(world, cand))
            except Exception:  # noqa
                continue
            if bad and bad["class"] == cls:
                sc = (val.get("sc") or cand)
                kept += 1
                changed = True
                break
    return sc, tried, kept


def emit(x):
    OUT.write(json.dumps(x) + "\n")
    OUT.flush()


def main():
    os.environ.setdefault("TMPDIR", "/tmp")
    # a runaway allocation in the code under test is a MemoryError of that run, not the end of the sandbox
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    cmd, prop = sys.argv[1], sys.argv[2]
    world = importlib.import_module("sim.worlds." + prop)
    if hasattr(world, "prepare"):
        world.prepare()
    if cmd == "serve":
        from sim import peers
        peers.serve(OUT.fileno())
    elif cmd == "run":
        seed, tier, start, count = int(sys.argv[3]), sys.argv[4], int(sys.argv[5]), int(sys.argv[6])
        for i in range(start, start + count):
            sc = world.scenario(Rng(seed, "run", prop, i), i, tier)
            t = time.monotonic()
            res = execute(world, sc)
            bad, err, val = outcome(world, res)
            o = {"i": i, "ms": round((time.monotonic() - t) * 1000)}
            if err:
                o["error"] = err
                o["sc"] = sc
            else:
                o["stats"] = val.get("stats", {})
                o["steps"] = val.get("steps", 0)
                o["sig"] = val.get("sig")
                o["digest"] = val.get("digest")
                if val.get("sample"):
                    o["sample"] = val["sample"]
                if val.get("known"):
                    o["known"] = val["known"]
                if bad:
                    o["bad"] = bad
                    o["sc"] = val.get("sc") or sc
            emit(o)
            if bad and bad["class"] == "stuck":
                break
    else:
        with open(sys.argv[3]) as f:
            rep = json.load(f)
        sc = rep["scenario"]
        if cmd == "exec":
            bad, err, val = outcome(world, execute(world, sc))
            emit({"bad": bad, "error": err, "digest": (val or {}).get("digest"), "known": (val or {}).get("known")})
        else:
            sc, tried, kept = minimise(world, sc, rep["class"], float(sys.argv[4]))
            bad, err, val = outcome(world, execute(world, sc))
            emit({"scenario": sc, "bad": bad, "error": err, "tried": tried, "kept": kept})


if __name__ == "__main__":
    main()

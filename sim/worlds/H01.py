"""The same calls in processes with other settings and other histories: every outcome is the one of a process that did
nothing before."""
import gc
import hashlib
import json
import os

from sim import canon, disk, docs, layout, ops, peers, sched, shrink as sh
from sim.ast import clone
from sim.pristine import Pristine


def prepare():
    ops.fake_dot()


def conf(n):
    """the settings of one other process"""
    return {"PYTHONHASHSEED": [0, 1, 4242, 77, 123456789, 31337, 99, 2024][n % 8], "TZ": ["UTC", "Asia/Tokyo", "America/New_York"][n % 3],
            "LC_ALL": ["C.UTF-8", "C", "POSIX"][n // 2 % 3], "PYTHONUTF8": [0, 1][n % 2], "PYTHONOPTIMIZE": [0, 0, 1, 2][n % 4],
            "PYTHONMALLOC": ["pymalloc", "malloc"][n // 4 % 2]}


def scenario(rng, i, tier):
    r = rng.fork("sc")
    nd = r.pick([1, 2, 2, 3])
    kinds = ["parse", "process", "process", "process", "convert", "serialize", "save", "map", "validate", "log"]
    if r.p(0.3):
        kinds = [r.pick(kinds)]
    probes = [ops.draw(r, nd, kinds=kinds) for _ in range(r.range(1, 3))]
    runs = []
    for k in range(2):
        h = []
        for _ in range(r.pick([0, 1, 2, 4, 7])):
            h.append(dict(r.pick(probes)) if r.p(0.35) else ops.draw(r, nd, kinds=kinds))
            if r.p(0.3):
                h[-1]["d"] = r.below(nd)
        runs.append({"conf": [i // 25 % 16, (i // 25 + 5) % 16][k], "history": h, "keep": int(r.p(0.5)),
                     "gc": r.pick(["off", "on", "eager", "full", "full"]), "churn": r.below(1 << 20) if r.p(0.5) else 0,
                     "clock": r.pick([0, 0, 86400 * 365, -86400 * 4000, 2**31, 1]), "dir": r.pick(["", "sub dir", "in%20svd"]),
                     "order": r.pick([0, 0, 1])})
    pool = docs.pool(rng.fork("docs"), nd)
    q = rng.fork("crowd")
    if q.p(0.25):                            # much to complain about
        pool = docs.pool(q, nd, {"peripherals": q.range(3, 6), "p_alt": 0.4})
        for x in pool:
            x["ast"] = layout.crowd(clone(x["ast"]), q)
    if r.p(0.35):                            # much alike, much the same work, one after the other
        pool, kinds = docs.siblings(rng.fork("docs"), 3), r.pick([["process"], ["process", "convert", "map"], ["parse", "process"]])
        probes = [{**ops.draw(r, 3, kinds=kinds, shared=False), "src": "content"} for _ in range(r.range(1, 3))]
        for x in runs:
            x["history"] = [{**ops.draw(r, 3, kinds=kinds, shared=False), "src": "content"} for _ in range(r.range(3, 10))]
            x.update(gc="full", keep=0)
    return {"docs": pool, "probes": probes, "runs": runs}


def before(sc):
    for x in sc["runs"]:
        peers.get(conf(x["conf"]), "H01")


def alone(dl, op, home):
    desk = ops.Desk(dl, home)
    desk.share([op])
    return ops.solo(desk, [op])[0][0]


def churn(seed):
    """leave the allocator in another state"""
    from sim.rng import Rng
    r = Rng(seed)
    keep = []
    for _ in range(400):
        x = [[None] * r.below(40), {j: j for j in range(r.below(12))}, "x" * r.below(300), object(), set(range(r.below(9)))][r.below(5)]
        keep.append(x)
        if r.p(0.5):
            keep.pop(r.below(len(keep)))
    return keep


def lived(dl, x, probes, home):
    """the history, then the probes"""
    if x["dir"]:
        home = os.path.join(home, x["dir"])
        os.mkdir(home)
    junk = churn(x["churn"]) if x["churn"] else None
    desk = ops.Desk(dl, home)
    every = x["history"] + probes
    disk.clock(x["clock"])
    keep = [] if x["keep"] else None
    gc.freeze()                              # what follows is collected in full
    gc.collect()
    if x["gc"] == "on":
        gc.enable()
    elif x["gc"] == "eager":
        gc.enable()
        gc.set_threshold(17, 2, 2)
    s = sched.Sched(budget=20_000_000)
    h, out = [], []

    def body():
        if x["order"]:
            desk.share(every)
        for op in x["history"]:
            if not x["order"]:
                desk.share([op])
            h.append("e" not in desk.do(op, keep=keep))
            if x["gc"] == "full":            # the next objects take the places of these
                gc.collect()
        for op in probes:
            if not x["order"]:
                desk.share([op])
            out.append(desk.do(op, keep=keep))
    r = s.call(body)
    gc.set_threshold(700, 10, 10)
    gc.disable()
    if r[0] == "exc":
        return [{"e": ["!" + type(r[1]).__name__, sched.tb(r[1]), []], "w": []}] * len(probes), h, s.step
    del junk
    return out, h, s.step


def execute(sc, ctx):
    bad, steps, st = None, 0, {}
    with Pristine() as pri:
        want = []
        for op in sc["probes"]:
            want.append(pri.ask(alone, sc["docs"], op, ctx.dir()))
    seen = [want]
    for x in sc["runs"]:
        got, h, n = peers.get(conf(x["conf"]), "H01").ask(lived, sc["docs"], x, sc["probes"], ctx.dir())
        steps += n
        seen.append(got)
        for k in ("keep", "churn", "clock"):
            if x[k]:
                st["with." + k] = st.get("with." + k, 0) + 1
        st["gc." + x["gc"]] = st.get("gc." + x["gc"], 0) + 1
        st["history"] = st.get("history", 0) + len(h)
        st["history.failed"] = st.get("history.failed", 0) + h.count(False)
        for op, a, b in zip(sc["probes"], want, got):
            st["probe." + op["op"]] = st.get("probe." + op["op"], 0) + 1
            if b["w"]:
                st["probe warned"] = st.get("probe warned", 0) + 1
            if "e" in b:
                st["probe failed"] = st.get("probe failed", 0) + 1
            d = ops.compare(a, b)
            if d and not bad:
                bad = {"class": "differs", "detail": [f"({ops.brief(op)}) in a process with {conf(x['conf'])}, collector {x['gc']}, "
                                                      f"clock {x['clock']:+d} s, after {[ops.brief(o) for o in x['history']]}"
                                                      " differs from the same call in a process without history"] + d}
    return {"bad": bad, "stats": st, "steps": steps,
            "sig": hashlib.sha256(json.dumps([sc["probes"], sc["runs"], sc["docs"]], sort_keys=True).encode()).hexdigest()[:16],
            "digest": hashlib.sha256(json.dumps(seen).encode()).hexdigest()[:16],
            "sample": {"probes": [ops.brief(o) for o in sc["probes"]],
                       "runs": [{**x, "history": [ops.brief(o) for o in x["history"]]} for x in sc["runs"]]}}


def shrink(sc):
    for l in sh.seq(sc["runs"], keep=1):
        yield {**sc, "runs": l}
    for l in sh.seq(sc["probes"], keep=1):
        yield {**sc, "probes": l}
    for k, x in enumerate(sc["runs"]):
        def put(y):
            return {**sc, "runs": sc["runs"][:k] + [y] + sc["runs"][k + 1:]}
        for l in sh.seq(x["history"]):
            yield put({**x, "history": l})
        for f, v in (("keep", 0), ("gc", "off"), ("churn", 0), ("clock", 0), ("dir", ""), ("order", 0)):
            if x[f] != v:
                yield put({**x, f: v})
    for i, d in enumerate(sc["docs"]):
        for b in docs.shrink(d):
            yield {**sc, "docs": sc["docs"][:i] + [b] + sc["docs"][i + 1:]}

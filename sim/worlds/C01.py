"""Concurrent callers: up to four threads, each with its own list of operations on own and shared inputs, interleaved
at seeded executed lines (or bytecode instructions); every operation must end as it does alone in a fresh process."""
import hashlib
import json

from sim import docs, ops, sched, shrink as sh
from sim.rng import Rng


STUCK = False        # locks are behind a seam here; a real one, taken by a thread that is parked, would say nothing


def prepare():
    ops.fake_dot()


def scenario(rng, i, tier):
    r = rng.fork("sc")
    n = r.weighted([(2, 5), (3, 3), (4, 2)])
    nd = r.range(1, 3)
    kinds = r.pick([ops.KINDS, ops.KINDS, ["validate"], ["process"], ["parse", "process"], ["process", "log"],
                    ["serialize", "convert", "map", "process"]])
    cold = r.p(0.5)
    tops = [[ops.draw(r, nd, kinds, shared=not cold, files=("t%d" % t,)) for _ in range(r.weighted([(1, 6), (2, 3), (3, 1)]))]
            for t in range(n)]
    if r.p(0.3):                                # all threads do the same
        tops = [[{**o, **({"to": "t%d" % t} if "to" in o else {})} for o in tops[0]] for t in range(n)]
    mode = "instr" if r.p(0.12) else "line"
    return {"docs": docs.pool(rng.fork("docs"), nd), "ops": tops, "mode": mode,
            "dense": r.pick([1, 3, 10, 40, 40, 200, 1000, "few"]), "pseed": r.below(1 << 40), "order": r.below(n),
            "warm": int(r.p(0.3))}


def _solo(sc, home, t):
    desk = ops.Desk(sc["docs"], home)
    desk.share([o for l in sc["ops"] for o in l])
    return ops.solo(desk, sc["ops"][t])


def plan(sc, total):
    r = Rng(sc["pseed"], "plan")
    n = len(sc["ops"])
    sw = []
    if sc["dense"] == "few":
        for _ in range(r.range(1, 5)):
            sw.append([r.range(1, max(1, total)), r.below(n)])
        sw.sort()
    else:
        at, d = 0, sc["dense"]
        while at < total and len(sw) < 30000:
            at += 1 + r.below(2 * d - 1)
            sw.append([at, r.below(n)])
    return {"switch": sw, "order": sc["order"]}


def execute(sc, ctx):
    n = len(sc["ops"])
    want, total = [], 0
    for t in range(n):
        v = ctx.fork(_solo, sc, ctx.dir(), t)
        if "value" not in v:
            raise RuntimeError("solo run failed: " + json.dumps(v)[:800])
        want.append(v["value"][0])
        total += v["value"][1]
    if sc["mode"] == "instr":
        total *= 8
    if "plan" not in sc:
        sc = {**sc, "plan": plan(sc, total)}
    desk = ops.Desk(sc["docs"], ctx.dir())
    desk.share([o for l in sc["ops"] for o in l])
    if sc["warm"]:
        for o in sc["ops"][0]:
            desk.do(o)
        sched.take_warnings()
    s = sched.Sched(plan=sc["plan"], budget=40_000_000, mode=sc["mode"])
    got = [[] for _ in range(n)]

    def body(t):
        for o in sc["ops"][t]:
            got[t].append(desk.do(o))
    res = s.run([lambda t=t: body(t) for t in range(n)])
    bad = None
    if s.deadlock:
        bad = {"class": "deadlock", "detail": [f"threads {s.deadlock} wait for each other"]}
    else:
        for t in range(n):
            if res[t][0] != "ok":
                bad = {"class": "no-answer", "detail": [f"thread {t}: {res[t][1]!r}"]}
                break
            for k, o in enumerate(sc["ops"][t]):
                w = want[t][k] if k < len(want[t]) else {"e": ["?"], "w": []}
                d = ops.compare(w, got[t][k])
                if d:
                    bad = {"class": "outcome-differs", "detail": [f"thread {t}, operation {k} ({ops.brief(o)})"] + d}
                    break
            if bad:
                break
    st = {"threads.%d" % n: 1, "switches": s.switches, "mode." + sc["mode"]: 1, "cold": int(not sc["warm"])}
    for l in sc["ops"]:
        for o in l:
            st["op." + o["op"]] = st.get("op." + o["op"], 0) + 1
    dig = hashlib.sha256(json.dumps(got, sort_keys=True).encode() + s.trace.digest()).hexdigest()[:16]
    out = {"bad": bad, "stats": st, "steps": s.step, "sig": s.trace.hexdigest()[:20] if s.switches else None,
           "digest": dig, "sample": {"threads": [[ops.brief(o) for o in l] for l in sc["ops"]], "switches": s.switches,
                                     "steps": s.step, "mode": sc["mode"]}}
    if bad:
        out["sc"] = sc
    return out


def shrink(sc):
    n = len(sc["ops"])
    if n > 2:
        for t in range(n):
            x = {**sc, "ops": sc["ops"][:t] + sc["ops"][t + 1:]}
            x["order"] = x["order"] % (n - 1)
            x.pop("plan", None)
            yield x
            yield {**x, "plan": {**sc["plan"], "order": x["order"]}}
    for t in range(n):
        for l in sh.seq(sc["ops"][t], keep=1):
            yield {**sc, "ops": sc["ops"][:t] + [l] + sc["ops"][t + 1:]}
    if sc["warm"]:
        yield {**sc, "warm": 0}
    for sw in sh.seq(sc["plan"]["switch"]):
        yield {**sc, "plan": {**sc["plan"], "switch": sw}}
    for i, d in enumerate(sc["docs"]):
        for b in docs.shrink(d):
            yield {**sc, "docs": sc["docs"][:i] + [b] + sc["docs"][i + 1:]}

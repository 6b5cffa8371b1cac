"""Histories of processing calls on crowded devices under seeded resolver orders; the layout warnings of each call are
compared with the problems the device has."""
import hashlib
import json

from sim import agenda, docs, layout, model, ops
from sim.ast import clone
from sim.worlds import W01

RICH = {"p_overlap": [0.1, 0.3], "p_alt": [0.1, 0.4], "p_df": [0, 0.2, 0.5], "p_dim": [0, 0.3], "peripherals": [1, 2, 3, 4],
        "kids": [2, 3, 4], "depth": [0, 1, 2], "fields": [0, 1, 2], "max_nodes": 30, "p_drop": [0, 0, 0.2]}
prepare, shrink = W01.prepare, W01.shrink


def scenario(rng, i, tier):
    r = rng.fork("sc")
    nd = r.range(1, 2)
    pool = docs.pool(r.fork("docs"), nd, RICH)
    for d in pool:
        d["dmg"] = []
        if r.p(0.9):
            for _ in range(8):
                a = layout.crowd(clone(d["ast"]), r)
                if model.denote(a)[0] == "device":
                    break
            d["ast"] = a
    calls = [{"d": r.below(nd), "src": r.pick(["content", "content", "str", "file", "shared"]),
              "op": r.pick(["process", "process", "log"]), "to": "x", "agenda": agenda.draw(r.fork("agenda")),
              "filter": "always"} for _ in range(r.range(1, 4))]
    return {"docs": pool, "calls": calls}


def execute(sc, ctx):
    desk = ops.Desk(sc["docs"], ctx.dir()).sweeping()
    ms, bad, st, steps, seen = {}, None, {}, 0, []

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    for n, c in enumerate(sc["calls"]):
        out, ws, plan, s = W01.attempt(desk, c, "always")
        steps += s.step
        seen.append([out.get("e"), ws])
        count("agenda.reordered", plan.moved if plan else 0)
        i = c["d"]
        if i not in ms:
            ms[i] = model.denote(sc["docs"][i]["ast"])
        m = ms[i]
        if m[0] != "device" or "e" in out:
            count("not judged")
            continue
        must, may = layout.problems(m[1])
        count("judged")
        for k, v in must.items():
            count("problem." + k[0], v)
        if not must:
            count("no problem")
        d = layout.complaints(m, ws)
        if d:
            bad = {"class": "unreported" if "time(s) (" in d[0] else "misreported",
                   "detail": [f"call {n} ({c['op']}, document {i}, agenda {c['agenda']})"] + d[:8]}
            break
    return {"bad": bad, "stats": st, "steps": steps,
            "sig": hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:16],
            "digest": hashlib.sha256(json.dumps(seen).encode()).hexdigest()[:16],
            "sample": {"calls": sc["calls"], "did": st}}

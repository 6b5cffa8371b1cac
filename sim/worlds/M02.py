"""Histories of processing and mapping calls under steered resolver orders: every part of a result refers to the very object
it was made from, in the description of its own call."""
import dataclasses
import gc
import hashlib
import json

from sim import agenda, ast, canon, docs, model, ops, sched, shrink as sh
from sim.worlds import _resolver as w
from sim.worlds._knobs import KNOBS

RICH = {"p_df": [0.0, 0.3, 0.6, 0.9], "p_dim": [0.0, 0.2, 0.4], "p_cluster": [0.2, 0.4, 0.6], "reuse": [0, 1, 1],
        "p_enum": [0.2, 0.6], "p_wild": [0.0, 0.4], "p_default": [0.0, 0.3], "p_wc": [0.0, 0.4], "p_drop": [0.0, 0.1],
        "depth": [1, 2], "max_nodes": 40}


def prepare():
    ops.fake_dot()


def scenario(rng, i, tier):
    r = rng.fork("sc")
    nd = r.pick([1, 1, 2, 3])
    d = docs.siblings(rng.fork("docs"), nd) if r.p(0.2) else docs.pool(rng.fork("docs"), nd, RICH)
    steps = []
    for _ in range(r.range(1, 5)):
        steps.append({"d": r.below(nd), "how": r.pick(["fresh", "fresh", "shared", "again"]), "map": int(r.p(0.7)),
                      "keep": int(r.p(0.5)), "agenda": agenda.draw(r.fork("agenda"))})
    return {"docs": [{**x, "dmg": []} for x in d], "steps": steps}


def want(a):
    """names and places only, of what the model says"""
    m = model.denote(a, 4000, trace=True)
    if m[0] != "device":
        return None

    def go(x):
        if isinstance(x, list):
            return [go(i) for i in x]
        o = {"_": x["_"], "@": x["@"]}
        if "name" in x:
            o["name"] = x["name"]
        for k, v in x.items():
            if isinstance(v, dict) or isinstance(v, list) and k not in ("registers", "range_", "bit_range"):
                o[k] = go(v)
        return o
    d = dict(m[1])
    d["@"] = ""
    if d["cpu"] is not None:
        c = d["cpu"] = {**d["cpu"], "@": "/cpu"}
        if c["sau_regions_config"] is not None:
            s = c["sau_regions_config"] = {**c["sau_regions_config"], "@": "/cpu/sau"}
            s["regions"] = [{**q, "@": f"/cpu/sau/{i}"} for i, q in enumerate(s["regions"])]
    return go(d)


def tree(level):
    """(register, its object) in order of the tree"""
    for x in level:
        if hasattr(x, "registers_clusters"):
            yield x
            yield from tree(x.registers_clusters)
        else:
            yield x


def same_objects(dev):
    """complaints about the flat lists, and about objects that occur twice"""
    bad, seen = [], {}
    for p in dev.peripherals:
        inside = [x for x in tree(p.registers_clusters) if not hasattr(x, "registers_clusters")]
        for x in [p] + list(tree(p.registers_clusters)) + [f for x in inside for f in x.fields]:
            if id(x) in seen:
                bad.append(f"one object is both {seen[id(x)]} and {p.name}/{x.name}")
            seen[id(x)] = f"{p.name}/{x.name}"
        if sorted(map(id, inside)) != sorted(map(id, p.registers)):
            bad.append(f"the flat register list of {p.name} does not consist of the registers of its tree")
    return bad


def same_map(dev, m):
    bad = []
    if sorted(id(p.processed) for p in m.peripheral_map) != sorted(map(id, dev.peripherals)):
        bad.append("the map does not refer to the peripherals of its device")
        return bad
    for p in m.peripheral_map:
        if p.name != p.processed.name or p.address != p.processed.base_address:
            bad.append(f"map entry {p.name} refers to {p.processed.name}")
        if sorted(id(r.processed) for r in p.registers) != sorted(map(id, p.processed.registers)):
            bad.append(f"the map of {p.name} does not refer to its registers, each once")
        for r in p.registers:
            if r.name != r.processed.name or r.address != r.processed.base_address:
                bad.append(f"map entry {p.name}/{r.name}@{r.address:#x} refers to {r.processed.name}@{r.processed.base_address:#x}")
            if [id(f) for f in r.fields] != [id(f) for f in r.processed.fields]:
                bad.append(f"the fields of map entry {p.name}/{r.name} are not those of its register")
    return bad


def execute(sc, ctx):
    from svdsuite.parse import Parser
    from svdsuite.process import Process
    from svdsuite.map import PeripheralRegisterMap
    st, bad, steps, log = {}, None, 0, []
    shared, kept, wants = {}, [], {}

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    for n, c in enumerate(sc["steps"]):
        d = sc["docs"][c["d"]]
        data = ast.render(d["ast"], noise=d["noise"], encoding=d["enc"] or "utf-8")
        if c["d"] not in wants:
            wants[c["d"]] = want(d["ast"])
        exp = wants[c["d"]]
        box = {}

        def body():
            with agenda.use(c["agenda"]) as plan:
                box["plan"] = plan
                if c["how"] == "fresh":
                    p = Parser.from_xml_content(data).get_parsed_device()
                else:
                    if c["d"] not in shared:
                        shared[c["d"]] = Parser.from_xml_content(data).get_parsed_device()
                    p = shared[c["d"]]
                if c["how"] == "again":
                    try:
                        Process(p, None)
                    except Exception:
                        pass
                dev = Process(p, None).get_processed_device()
                return p, dev, PeripheralRegisterMap(dev) if c["map"] else None
        s = sched.Sched(budget=w.budget(d["ast"]))
        r = s.call(body)
        steps += s.step
        if box.get("plan"):
            count("agenda.reordered", box["plan"].moved)
        if r[0] != "ok" or exp is None:
            count("no device")
            log.append(w.kind(r[1]) if r[0] == "exc" else "?")
            continue
        p, dev, m = r[1]
        at = canon.places(p)
        got = canon.origins(dev, at)
        count("judged")
        count("parts", json.dumps(got).count('"@"'))
        e = canon.diff(exp, got)
        if e:
            bad = {"class": "wrong-origin", "detail": [f"step {n}: {c}"] + e}
        e = same_objects(dev)
        if bad is None and e:
            bad = {"class": "not-the-same-object", "detail": [f"step {n}: {c}"] + e[:8]}
        if bad is None and m is not None:
            count("maps")
            e = same_map(dev, m)
            if e:
                bad = {"class": "map-refers-elsewhere", "detail": [f"step {n}: {c}"] + e[:8]}
        log.append(got)
        if bad:
            break
        if c["keep"]:
            kept.append((p, dev, m))
        del p, dev, m, r, box, s, body, at
        gc.collect()
    return {"bad": bad, "stats": st, "steps": steps,
            "sig": hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:16],
            "digest": hashlib.sha256(json.dumps(log, sort_keys=True).encode()).hexdigest()[:16],
            "sample": {"steps": sc["steps"], "did": st}}


def shrink(sc):
    for i in range(len(sc["steps"])):
        if len(sc["steps"]) > 1:
            yield {**sc, "steps": sc["steps"][:i] + sc["steps"][i + 1:]}
    for i, c in enumerate(sc["steps"]):
        for p in agenda.shrink(c["agenda"]):
            yield {**sc, "steps": sc["steps"][:i] + [{**c, "agenda": p}] + sc["steps"][i + 1:]}
        for k, v in (("how", "fresh"), ("map", 0), ("keep", 0)):
            if c[k] != v:
                yield {**sc, "steps": sc["steps"][:i] + [{**c, k: v}] + sc["steps"][i + 1:]}
    for i, d in enumerate(sc["docs"]):
        if d["noise"]:
            yield {**sc, "docs": sc["docs"][:i] + [{**d, "noise": 0}] + sc["docs"][i + 1:]}
        for b in sh.ast(d["ast"]):
            yield {**sc, "docs": sc["docs"][:i] + [{**d, "ast": b}] + sc["docs"][i + 1:]}

"""Shared world of the resolver properties.

One run: a seeded description, a seeded order of declaration, a seeded order of the resolver's pending work (agenda
seam), real parser + resolver + inheritance + validation, step budget; the resulting device is compared in full with
the reference model."""
import hashlib
import json
import re

from sim import agenda, ast, canon, gen, model, shrink, sched
from sim.rng import Rng



def budget(a):
    """executed lines within which every answer has to come: quadratic in the number of elements that are denoted, and generous"""
    m = model.denote(a, 4000)
    n = gen.count(m[1]) if m[0] == "device" else 0

    def go(x, by):
        for c in x.get("c", []):
            d = c["p"].get("dim")
            k = by * max(1, min(d if isinstance(d, int) else 1, 200))
            yield k
            yield from go(c, k)
    n = max(n, sum(go(a, 1)))
    return min(40_000_000, 5_000_000 + 50 * n * n)


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


def library_error(e):
    return type(e).__module__.split(".")[0] == "svdsuite"


def kind(e):
    """an error without the names and numbers in its message"""
    return type(e).__name__ + ": " + re.sub(r"'[^']*'|\d+", "#", str(e))[:60]


def load(data):
    from svdsuite.parse import Parser
    return Parser.from_xml_content(data).get_parsed_device()


def judge(a, r, s):
    """-> (violation or None, label)"""
    m = model.denote(a)
    if (s.over or (r[0] == "exc" and isinstance(r[1], MemoryError))) and model.may_be_huge(a):
        return None, "huge"
    if s.over:
        return {"class": "no-answer", "detail": [f"still running after {s.step} executed lines"]}, "budget"
    if m[0] == "unsure":
        if r[0] == "exc" and not library_error(r[1]):
            return {"class": "foreign-error", "detail": [repr(r[1])[:300], sched.tb(r[1])]}, "unsure"
        return None, "unsure"
    if m[0] == "error":
        if r[0] == "ok":
            return {"class": "accepted", "detail": ["a description that denotes no device was accepted: " + str(m[1])]}, "x"
        if not library_error(r[1]):
            return {"class": "foreign-error", "detail": [repr(r[1])[:300], sched.tb(r[1])]}, "x"
        return None, "rejected"
    if r[0] == "exc":
        return {"class": "error-on-valid " + kind(r[1]), "detail": [f"{type(r[1]).__name__}: {str(r[1])[:300]}", sched.tb(r[1])]}, "x"
    d = canon.diff(m[1], r[1][0])
    if d:
        return {"class": "device-differs", "detail": d}, "x"
    return None, "device"


def features(a):
    f = {}
    for n, _ in ast.walk(a):
        if "df" in n:
            f["derivedFrom." + n["k"]] = f.get("derivedFrom." + n["k"], 0) + 1
        if n["p"].get("dim") is not None:
            f["dim." + n["k"]] = f.get("dim." + n["k"], 0) + 1
    return f


def make(rng, i, tier, knobs):
    fix = {k: (rng.pick(v) if isinstance(v, list) else v) for k, v in knobs.items()}
    a = gen.device(rng.fork("gen"), **fix)
    wrong = rng.fork("wrong")
    if wrong.p(fix.get("p_wrong", 0.0)):
        b = gen.break_it(a, wrong, fix.get("wrongs"))
        if b:
            a = b[1]
    return {"ast": a, "noise": rng.pick([0, rng.below(1 << 20)]), "agenda": agenda.draw(rng.fork("agenda"))}


def execute(sc, ctx, want_map=False):
    a, plan = sc["ast"], sc["agenda"]
    data = ast.render(a, noise=sc["noise"])
    ag = {}
    s = sched.Sched(budget=budget(a) * (2 if sc.get("via") else 1))

    def body():
        with agenda.use(plan) as p:
            ag["p"] = p
            from svdsuite.process import Process
            from svdsuite.map import PeripheralRegisterMap
            d = Process(load(data), None).get_processed_device()
            out = canon.processed(d)
            via = sc.get("via", "device")
            m = None
            if want_map:
                m = PeripheralRegisterMap(d) if via == "device" else PeripheralRegisterMap.from_xml_content(data) \
                    if via == "content" else PeripheralRegisterMap.from_xml_str(data.decode())
            return out, (canon.regmap(m) if want_map else None)
    r = s.call(body)
    bad, label = judge(a, r, s)
    if bad is None and r[0] == "ok" and want_map:
        d = canon.diff(model_map(r[1][0]), r[1][1])
        if d:
            bad = {"class": "map-differs", "detail": d}
    st = features(a)
    p = ag.get("p")
    st.update({"outcome." + label: 1, "agenda.steered": int(p is not None), "agenda.reordered": p.moved if p else 0,
               "agenda.rounds": p.rounds if p else 0})
    obs = r[1] if r[0] == "ok" else canon.exc(r[1])
    return {"bad": bad, "stats": st, "steps": s.step,
            "sig": digest([a, p.sig if p else None, plan and [plan["seed"], plan["perm"], plan["ext"]]]),
            "digest": digest(obs), "sample": {"agenda": plan, "elements": sum(1 for _ in ast.walk(a)), "features": st,
                                              "steps": s.step}}


def shrinker(sc):
    if sc.get("via"):
        yield {k: v for k, v in sc.items() if k != "via"}
    for p in agenda.shrink(sc["agenda"]):
        yield {**sc, "agenda": p}
    if sc["noise"]:
        yield {**sc, "noise": 0}
    for b in shrink.ast(sc["ast"]):
        yield {**sc, "ast": b}


def model_map(dev):
    """the register map a device (canonical form) stands for"""
    out = []

    def regs(children, base):
        for c in children:
            at = base + c["address_offset"]
            if c["_"] == "Register":
                yield {"name": c["name"], "display_name": c["display_name"], "description": c["description"],
                       "address": at, "size": c["size"], "access": c["access"], "protection": c["protection"],
                       "reset_value": c["reset_value"], "reset_mask": c["reset_mask"], "fields": c["fields"],
                       "processed": c["name"]}
            else:
                yield from regs(c["registers_clusters"], at)
    for p in dev["peripherals"]:
        ab = sorted(p["address_blocks"], key=lambda b: b["offset"])
        out.append({"name": p["name"], "description": p["description"], "address": p["base_address"],
                    "range": [p["base_address"] + ab[0]["offset"],
                              p["base_address"] + max(b["offset"] + b["size"] for b in ab) - 1],
                    "processed": p["name"], "registers": list(regs(p["registers_clusters"], p["base_address"]))})
    return sorted(out, key=lambda p: p["address"])

"""Histories on shared objects: whatever is called, edited, failed or interrupted, no other object changes, and every
call on an object ends as it does on a copy of that object in a process without history."""
import hashlib
import json
import os

from sim import canon, docs, objs, ops, sched, shrink as sh
from sim.pristine import Pristine


def prepare():
    ops.fake_dot()


ON = {"P": ["process", "process", "serialize", "save", "log"], "D": ["convert", "map"]}


def scenario(rng, i, tier):
    r = rng.fork("sc")
    nd = r.range(1, 2)
    steps = []
    kinds = []                                # what the object of each slot is if all goes well
    n = r.range(4, 11)
    p_edit = r.pick([0.0, 0.2, 0.4])
    p_inj = r.pick([0.0, 0.2, 0.5])
    while len(steps) < n:
        if not kinds or r.p(0.12):
            steps.append({"do": "parse", "d": r.below(nd), "src": r.pick(["content", "str", "file"])})
            kinds.append("P")
            continue
        if r.p(0.06):
            steps.append({"do": "validate", "d": r.below(nd), "v": r.pick(ops.VERSIONS), "src": r.pick(["content", "file"])})
            continue
        k = r.below(len(kinds))
        if r.p(p_edit):
            steps.append({"do": "edit", "o": k, "where": r.below(1 << 30), "what": r.below(1 << 30)})
            continue
        op = r.pick(ON[kinds[k]])
        s = {"do": op, "o": k}
        if op in ("serialize", "save"):
            s.update(pretty=int(r.p(0.5)), decl=int(r.p(0.5)))
        if op in ("save", "log") and r.p(0.25):
            s["nodir"] = 1
        if r.p(p_inj):
            s["inject"] = [sched.strike(r, 3, 13, ["KeyboardInterrupt", "MemoryError"])]
        steps.append(s)
        if op in ("process", "log"):
            kinds.append("D")
        elif op == "convert":
            kinds.append("P")
    return {"docs": docs.pool(rng.fork("docs"), nd), "steps": steps}


def call(op, obj, home):
    """-> (canonical outcome, new object or None)"""
    from svdsuite import Process, Serializer, PeripheralRegisterMap
    from svdsuite.util.process_parse_model_convert import process_parse_convert_device
    k = op["do"]
    base = os.path.join(home, "missing") if op.get("nodir") else home
    if k == "process":
        d = Process(obj, None).get_processed_device()
        return objs.snapshot(d), d
    if k == "log":
        f = os.path.join(base, "x.log.html")
        d = Process(obj, f).get_processed_device()
        return [objs.snapshot(d), ops.log_text(f)], d
    if k == "convert":
        d = process_parse_convert_device(obj)
        return objs.snapshot(d), d
    if k == "serialize":
        return Serializer.device_to_svd_content(obj, bool(op["pretty"]), bool(op["decl"])).decode(), None
    if k == "save":
        f = os.path.join(base, "x.svd")
        Serializer.device_to_svd_file(f, obj, bool(op["pretty"]), bool(op["decl"]))
        with open(f, "rb") as g:
            return g.read().decode(), None
    if k == "map":
        return canon.regmap(PeripheralRegisterMap(obj)), None
    raise AssertionError(k)


def attempt(op, obj, home, inject=None):
    s = sched.Sched(plan={"inject": inject or []}, budget=20_000_000)
    sched.take_warnings()
    r = s.call(lambda: call(op, obj, home))
    w = s.warns
    if s.over:
        return {"e": ["!budget"], "w": w}, None, s
    if r[0] == "exc":
        e = canon.exc(r[1])
        e[1] = e[1].replace(home, "$D")
        return {"e": e, "w": w}, None, s
    return {"r": r[1][0], "w": w}, r[1][1], s


def fresh(op, obj, home):
    return attempt(op, obj, home)[0]


def execute(sc, ctx):
    home = ctx.dir()
    desk = ops.Desk(sc["docs"], home).sweeping()
    table, snap = [], []
    bad = None
    st = {}
    steps = 0
    seen = []

    def count(k):
        st[k] = st.get(k, 0) + 1

    with Pristine() as pri:
        for n, op in enumerate(sc["steps"]):
            k = op["do"]
            count("op." + k)
            touched = None
            if k == "parse":
                try:
                    table.append(desk.parse(op))
                except Exception:  # noqa: damaged documents
                    table.append(None)
                snap.append(objs.snapshot(table[-1]))
                seen.append([k])
            elif k == "validate":
                seen.append(desk.do({"op": "validate", "exc": 0, **op}))
            elif k == "edit":
                touched = op["o"]
                if table[touched] is not None:
                    seen.append([k, objs.edit(table[touched], op["where"], op["what"])])
            else:
                obj = table[op["o"]]
                if obj is None:
                    if k in ("process", "log", "convert"):
                        table.append(None)
                        snap.append(objs.snapshot(None))
                    continue
                want = pri.ask(fresh, op, objs.rebuild(obj), home)
                got, new, s = attempt(op, obj, home, op.get("inject"))
                steps += s.step
                hit = bool(s.fired)
                count("interrupted" if hit and "e" in got else "failed" if "e" in got else "succeeded")
                seen.append([k, got, s.fired])
                if not hit:
                    d = ops.compare(want, got)
                    if d:
                        bad = {"class": "not-repeatable", "detail": [f"step {n} ({k} on object {op['o']}) differs from the "
                                                                     "same call on a copy in a fresh process"] + d}
                if k in ("process", "log", "convert"):
                    table.append(new)
                    snap.append(objs.snapshot(new))
            for j, x in enumerate(table):
                if x is None or bad:
                    continue
                now = objs.snapshot(x)
                if j == touched:
                    snap[j] = now
                    continue
                d = canon.diff(snap[j], now, f"object {j}")
                if d:
                    bad = {"class": "object-changed", "detail": [f"step {n} ({json.dumps(op)}) changed object {j} "
                                                                 f"({type(x).__name__})"] + d}
            if bad:
                break
    return {"bad": bad, "stats": st, "steps": steps,
            "sig": hashlib.sha256(json.dumps([sc["steps"], sc["docs"]], sort_keys=True).encode()).hexdigest()[:16]
            if len(sc["steps"]) > 2 else None,
            "digest": hashlib.sha256(json.dumps(seen, sort_keys=True).encode()).hexdigest()[:16],
            "sample": {"steps": [" ".join(str(v) for v in s.values()) for s in sc["steps"]], "outcomes": dict(st)}}


def shrink(sc):
    n = len(sc["steps"])
    for k in range(n - 1, -1, -1):
        yield {**sc, "steps": sc["steps"][:k]}
    for k in range(n):                         # dropping a step that makes no object keeps the numbering
        if sc["steps"][k]["do"] in ("edit", "serialize", "save", "map", "validate"):
            yield {**sc, "steps": sc["steps"][:k] + sc["steps"][k + 1:]}
    for k in range(n):
        s = sc["steps"][k]
        if s.get("inject"):
            yield {**sc, "steps": sc["steps"][:k] + [{a: b for a, b in s.items() if a != "inject"}] + sc["steps"][k + 1:]}
    for i, d in enumerate(sc["docs"]):
        for b in docs.shrink(d):
            yield {**sc, "docs": sc["docs"][:i] + [b] + sc["docs"][i + 1:]}

"""Loads and validations from a failing disk: the result of the healthy disk, an error, or a ParserWarning."""
import hashlib
import json
import os

from sim import disk, docs, ops, sched, shrink as sh


def rules(r, size):
    out = []
    for _ in range(r.weighted([(0, 1), (1, 6), (2, 2)])):
        k = r.below(20)
        nth = 1 + r.below(3 + size // 4000 + 6)
        if k < 5:
            out.append(["read", nth, r.pick(["n", "+", "+"]), "short", 1 + r.below(1 << r.range(1, 12))])
        elif k < 10:
            out.append(["read", nth, r.pick(["n", "n", "+"]), "eof", 0])
        elif k < 15:
            e = r.pick(["EIO", "EIO", "ESTALE", "EINTR", "EAGAIN", "EACCES"])
            out.append(["read", nth, "n" if e in ("EINTR", "EAGAIN") else r.pick(["n", "n", "+"]), "errno", e])
        elif k < 17:
            out.append(["open", 1 + r.below(3), r.pick(["n", "+"]), "errno", r.pick(["EIO", "EMFILE", "EACCES", "ENOENT"])])
        elif k < 18:
            out.append(["close", 1 + r.below(3), "n", "errno", "EIO"])
        else:
            out.append(["read", nth, "n", "swap", 0, r.pick(["cut", "grown"])])
    return out


def scenario(rng, i, tier):
    r = rng.fork("sc")
    d = docs.doc(rng.fork("docs"), r.pick([{}, {"peripherals": 3, "kids": 4, "max_nodes": 60}]))
    if r.p(0.2):
        d["dmg"] = [docs.damage(r)]
    pad = r.pick([0, 0, 3000, 9000, 20000])
    op = {"op": r.pick(["parse", "process", "map", "validate", "validate"]), "d": 0, "src": "file"}
    if op["op"] == "validate":
        op.update(v=r.pick(ops.VERSIONS + [None] * 6), exc=r.below(2))
    return {"doc": d, "pad": pad, "padat": r.below(1000), "op": op, "rules": rules(r, pad + 4000), "cut": r.below(1000),
            "schema": int(r.p(0.5))}


def prepare():
    ops.fake_dot()


def body(sc):
    data = docs.data({**sc["doc"], "dmg": []})
    enc = sc["doc"]["enc"]
    if sc["pad"]:
        t = data.decode(enc)
        ends = [i + 1 for i, c in enumerate(t[:-1]) if c == ">" and t[i + 1] in "<\n "] or [len(t)]
        at = ends[sc["padat"] * len(ends) // 1000]
        if at <= t.find("<device"):
            at = len(t)
        data = (t[:at] + "<!--" + "pad " * (sc["pad"] // 4) + "-->" + t[at:]).encode(enc)
    return docs.apply(data, sc["doc"]["dmg"])


def _desk(sc, home):
    d = ops.Desk([], home)
    d.bytes, d.enc = [body(sc)], [sc["doc"]["enc"]]
    with open("in0.svd", "wb") as f:
        f.write(d.bytes[0])
    return d


def _healthy(sc, home):
    return _desk(sc, home).do(sc["op"])


def execute(sc, ctx):
    want = ctx.fork(_healthy, sc, ctx.dir())["value"]
    home = ctx.dir()
    desk = _desk(sc, home)
    data = desk.bytes[0]
    cut = sc["cut"] * len(data) // 1000
    with open(os.path.join(ctx.scratch, "cut"), "wb") as f:
        f.write(data[:cut])
    with open(os.path.join(ctx.scratch, "grown"), "wb") as f:
        f.write(data + b"<more/>" + data[cut:])
    rl = [x[:5] + [os.path.join(ctx.scratch, x[5])] if len(x) > 5 else x for x in sc["rules"]]
    s = sched.Sched(budget=3_000_000)
    with disk.Armed(home, rl, os.path.join(ctx.scratch, "log"), schema=sc["op"]["op"] == "validate" and not any(
            x[3] == "swap" for x in rl) and bool(sc["schema"])) as dk:
        r = s.call(lambda: desk.do(sc["op"]))
    got = r[1] if r[0] == "ok" else {"e": ["!" + type(r[1]).__name__, "", []], "w": []}
    st = {}
    bites = []
    for x, h in zip(rl, dk.hits):
        if h:
            n = x[0] + "." + (x[4] if x[3] == "errno" else x[3])
            st["fault." + n] = st.get("fault." + n, 0) + 1
            bites.append(x)
    hard = [x for x in bites if x[3] != "short"]
    label = "same" if not ops.compare(want, got) else "error" if "e" in got else "warned" if any(
        w[0] == "ParserWarning" for w in got["w"]) else "silent"
    st["outcome." + label] = 1
    bad = None
    if label != "same" and not hard:
        bad = {"class": "differs", "detail": [f"{ops.brief(sc['op'])} with {rl} ended unlike on a healthy disk"]
               + ops.compare(want, got)}
    # a cut document may lack just what was wrong with it
    elif label == "silent" and not (sc["doc"]["dmg"] and any(x[3] in ("eof", "swap") for x in hard)) and got.get("r") != want.get("r"):
        bad = {"class": "silently-wrong", "detail": [f"{ops.brief(sc['op'])} with {rl} ended without error or ParserWarning, "
                                                     "but not as on a healthy disk"] + ops.compare(want, got)}
    dig = hashlib.sha256(json.dumps([label, got, [(o["kind"], o["res"], o["err"]) for o in dk.ops]]).replace(
        home, "$D").encode()).hexdigest()[:16]
    return {"bad": bad, "stats": st, "steps": s.step + dk.seq, "sig": dig if bites else None, "digest": dig,
            "sample": {"op": ops.brief(sc["op"]), "rules": sc["rules"], "bytes": len(data), "outcome": label,
                       "calls": [[o["kind"], o["res"]] for o in dk.ops][:24]}}


def shrink(sc):
    for l in sh.seq(sc["rules"]):
        yield {**sc, "rules": l}
    if sc["pad"]:
        yield {**sc, "pad": 0}
        yield {**sc, "pad": sc["pad"] // 2}
    for b in docs.shrink(sc["doc"]):
        yield {**sc, "doc": b}

"""Histories of processing calls under seeded resolver orders and warning filters; what each call announces is compared
with what the device leaves out of the description."""
import collections
import hashlib
import json
import re
import warnings

from sim import agenda, ast, canon, docs, model, ops, sched, shrink as sh

RICH = {"p_drop": [0.0, 0.3, 0.3, 0.6], "p_overlap": [0, 0.3], "p_enum": 0.7, "fields": [1, 2, 3], "p_default": [0, 0.4],
        "p_wild": [0, 0.4], "p_df": [0, 0.2, 0.5], "p_dim": [0, 0.3], "peripherals": [1, 2, 3], "kids": [1, 2, 3],
        "depth": [0, 1, 2], "max_nodes": 30}


def prepare():
    ops.fake_dot()


def scenario(rng, i, tier):
    r = rng.fork("sc")
    nd = r.range(1, 3)
    pool = docs.pool(r.fork("docs"), nd, RICH)
    for d in pool:
        d["dmg"] = []
        if r.p(0.3):
            d["ast"] = docs.variant(d["ast"], r)
    calls = []
    for _ in range(r.range(2, 6)):
        c = {"d": r.below(nd), "src": r.pick(["content", "content", "str", "file", "shared"]),
             "op": r.pick(["process", "process", "map", "convert", "log"]), "to": "x",
             "agenda": agenda.draw(r.fork("agenda")), "filter": r.pick(["always", "always", "always", "error", "error", "ignore"])}
        if c["src"] == "shared":
            c["op"] = r.pick(["process", "log"])
        if r.p(0.1):
            c["inject"] = [sched.strike(r, 7, 14, ["KeyboardInterrupt", "MemoryError"])]
        calls.append(c)
    return {"docs": pool, "calls": calls}


def attempt(desk, c, how, inject=None):
    from svdsuite import ProcessWarning
    s = sched.Sched(plan={"inject": inject or []}, budget=8_000_000)
    sched.take_warnings()

    def body():
        with warnings.catch_warnings():
            if how != "always":
                warnings.simplefilter(how, ProcessWarning)
            if c["src"] == "shared":
                desk.share([c])
            return desk.call(c)
    with agenda.use(c["agenda"]) as plan:
        r = s.call(body)
    return ({"r": r[1]} if r[0] == "ok" else {"e": canon.exc(r[1])}), [list(w[:2]) for w in s.warns], plan, s


# ------------------------------------------------------------------------------------------- what is there, what is said
KEYS = ("peripherals", "registers_clusters", "fields", "enumerated_value_containers", "enumerated_values")


def paths(dev):
    """multiset of paths of all elements of a canonical device or register map"""
    out = collections.Counter()

    def go(x, at):
        for k in KEYS:
            for y in x.get(k) or ():
                p = at + ((y["name"] or "").lower(),) if k != "enumerated_value_containers" else at
                if k != "enumerated_value_containers":
                    out[p] += 1
                go(y, p)
    go(dev, ())
    return out


def announced(ws):
    """texts of the warnings which say that something is left out"""
    out = []
    for cat, text in ws:
        if cat == "ProcessWarning" and re.search(r"[Ii]gnor(ed|ing)", text) and "efault value" not in text:
            out.append(re.sub(r"Enumerated value '[^']*' has the same value", "", text))
    return out


def names(text, name):
    return re.search(r"(?<![\w%%\[\]])%s(?![\w%%\[\]])" % re.escape(name), text, re.I) is not None


def judge(c, out, ws, m, a):
    """-> complaints about what one call announced"""
    if m[0] != "device" or "e" in out:
        return None
    bad = []
    texts = announced(ws)
    need = collections.Counter()
    early = set()                             # left out when read: announced once, whatever the number of copies
    simple = not any("df" in x or x["p"].get("dim") is not None for x, _ in ast.walk(a))
    for kind, name, why in m[2]:
        if kind == "enum" and why != "range" and not simple:
            early.add(name.lower())
        else:
            need[name.lower()] += 1
    if c["op"] in ("process", "log"):
        have, want = paths(out["r"][0]), paths(m[1])
        for p, n in want.items():
            if have[p] < n and (len(p) < 2 or p[:-1] not in want or have[p[:-1]] >= want[p[:-1]]):
                need[p[-1]] += n - have[p]
        for p, n in have.items():
            if n > want[p] and need[p[-1]]:
                need[p[-1]] -= min(need[p[-1]], n - want[p])
    for name, n in need.items():
        k = sum(names(t, name) for t in texts)
        if k < n:
            bad.append(f"{n} element(s) {name!r} left out, {k} announced")
    for name in early:
        if not any(names(t, name) for t in texts):
            bad.append(f"enumerated value {name!r} left out, not announced")
    gone = set(need) | early
    for t in texts:
        if not any(names(t, x) for x in gone):
            bad.append(f"nothing of this name is missing: {t!r}")
    return bad[:8]


def execute(sc, ctx):
    desk = ops.Desk(sc["docs"], ctx.dir()).sweeping()
    ms = {}
    bad, st, steps, seen = None, {}, 0, []

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    for n, c in enumerate(sc["calls"]):
        what = f"call {n} ({ops.brief({k: c[k] for k in ('op', 'd', 'src')})}, agenda {c['agenda']}, filter {c['filter']})"
        if c.get("inject"):
            out, ws, plan, s = attempt(desk, c, c["filter"], c["inject"])
            steps += s.step
            count("cut short")
            seen.append([out.get("e"), s.fired])
            desk.parsed.pop(c["d"], None)     # what an interruption may leave of a shared object is F01's concern
            continue
        out, ws, plan, s = attempt(desk, c, c["filter"])
        steps += s.step
        seen.append([out.get("e"), ws])
        i = c["d"]
        if i not in ms:
            ms[i] = model.denote(sc["docs"][i]["ast"])
        m, a = ms[i], sc["docs"][i]["ast"]
        count("agenda.reordered", plan.moved if plan else 0)
        count("filter." + c["filter"])
        if c["filter"] == "always":
            if "r" in out and m[0] == "device":
                count("judged")
                count("left out", len(m[2]))
            d = judge(c, out, ws, m, a)
            if d:
                bad = {"class": "not-announced" if "announced" in d[0] else "wrongly-announced", "detail": [what] + d}
        else:
            lax, lws, _, s = attempt(desk, c, "always")
            steps += s.step
            first = next((w for w in lws if w[0] == "ProcessWarning"), None)
            if c["filter"] == "error":
                count("strict raised" if "e" in out else "strict returned")
                if first and "r" in out:
                    bad = {"class": "strict-ignored", "detail": [what, f"returned, but warns of {first!r} otherwise"]}
                elif first and out["e"][0] != "ProcessWarning":
                    bad = {"class": "strict-other", "detail": [what, f"raised {out['e']!r}, but the first warning is {first!r}"]}
                elif first and out["e"][1] != first[1]:
                    bad = {"class": "strict-other", "detail": [what, f"raised {out['e']!r}, but the first warning is {first!r}"]}
                elif not first and ops.compare({**lax, "w": []}, {**out, "w": []}):
                    bad = {"class": "strict-differs", "detail": [what] + ops.compare({**lax, "w": []}, {**out, "w": []})}
                if not bad and "r" in out and m[0] == "device" and m[2]:
                    bad = {"class": "strict-ignored", "detail": [what, f"returned although it leaves out {m[2][:4]}"]}
            else:
                d = ops.compare({**lax, "w": []}, {**out, "w": []})
                if d:
                    bad = {"class": "filter-changes-device", "detail": [what] + d}
        if bad:
            break
    return {"bad": bad, "stats": st, "steps": steps,
            "sig": hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:16],
            "digest": hashlib.sha256(json.dumps(seen).encode()).hexdigest()[:16],
            "sample": {"calls": sc["calls"], "did": st}}


def shrink(sc):
    for l in sh.seq(sc["calls"], keep=1):
        yield {**sc, "calls": l}
    for k, c in enumerate(sc["calls"]):
        def put(x):
            return {**sc, "calls": sc["calls"][:k] + [x] + sc["calls"][k + 1:]}
        for p in agenda.shrink(c["agenda"]):
            yield put({**c, "agenda": p})
        for key, v in (("src", "content"), ("op", "process"), ("filter", "always")):
            if c[key] != v:
                yield put({**c, key: v})
    for i, d in enumerate(sc["docs"]):
        for b in docs.shrink(d):
            yield {**sc, "docs": sc["docs"][:i] + [b] + sc["docs"][i + 1:]}

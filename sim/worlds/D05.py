"""Histories of saves, edits, loads, processing and conversions over a few paths whose times never change: what is loaded
is what was saved last, and a converted device keeps its meaning."""
import hashlib
import json
import os

from sim import canon, disk, docs, objs, ops, sched, shrink as sh
from sim.pristine import Pristine

PATHS = ["a.svd", "b.svd", "sub/a.svd", "link.svd"]
STAMP = 1_600_000_000


def prepare():
    ops.fake_dot()


def scenario(rng, i, tier):
    r = rng.fork("sc")
    nd = r.range(1, 3)
    steps = [{"do": "new", "d": 0}]
    n = r.range(6, 14)
    p_edit = r.pick([0.05, 0.2])
    while len(steps) < n:
        x = r.f()
        s = {"o": r.below(64), "p": r.pick([0, 0, 0, 1, 1, 2, 3])}
        if x < 0.08:
            s = {"do": "new", "d": r.below(nd)}
        elif x < 0.08 + p_edit:
            s.update(do="edit", where=r.below(1 << 30), what=r.below(1 << 30))
        elif x < 0.55:
            s.update(do="save", pretty=int(r.p(0.5)), decl=int(r.p(0.7)), how=r.pick(["file", "file", "file", "content", "str"]))
        elif x < 0.75:
            s.update(do="load", how=r.pick(["file", "file", "file", "content", "str"]))
        elif x < 0.84:
            s.update(do="process", how=r.pick(["file", "file", "content"]))
        elif x < 0.87:
            s.update(do="copy", q=r.below(len(PATHS)))
        else:
            s.update(do="convert")
            if r.p(0.7):
                steps.append(s)
                steps.append({"o": 0, "p": s["p"], "do": "save", "pretty": int(r.p(0.5)), "decl": int(r.p(0.7)), "how": "file",
                              "last": 1})
                s = {"o": 0, "p": s["p"], "do": "process", "how": r.pick(["file", "content"])}
        steps.append(s)
    if r.p(0.5):
        # another device of the same size under the same name, loaded before and after
        a = {"p": r.pick([0, 0, 0, 1, 1, 2, 3])}
        v = {**a, "do": "save", "pretty": int(r.p(0.5)), "decl": int(r.p(0.7)), "how": "file"}
        l = {**a, "do": r.pick(["load", "load", "process"]), "how": r.pick(["file", "file", "file", "content", "str"])}
        m = [{**v, "o": r.below(64)}, {**l, "o": 0}, {**l, "do": "load", "o": 0}]
        for _ in range(r.pick([1, 1, 1, 2, 4])):
            m.append({**a, "o": -1, "do": "edit", "where": r.below(1 << 30), "what": r.below(1 << 30)})
        m += [{**v, "o": -1}, {**l, "o": 0}]
        k = r.range(1, len(steps))
        steps[k:k] = m
    dl = docs.pool(rng.fork("docs"), nd)
    for d in dl:
        d["dmg"] = []
    return {"docs": dl, "steps": steps}


def edit(dev, where, what):
    """a change that has a spelling: text, numbers, switches, choices; and removal, order and copies of elements"""
    s = [(o, n, v) for o, n, v in objs.spots(dev) if v is not None and (isinstance(v, (str, int)) or hasattr(v, "value") or (
        isinstance(v, list) and v and hasattr(v[0], "__dataclass_fields__") and len(v) > 1))]
    o, name, v = s[where % len(s)]
    t = f"{type(o).__name__}.{name}"
    if isinstance(v, list):
        k = what % 3
        if k == 0:
            v.pop(what // 4 % len(v))
        elif k == 1:
            v.reverse()
        else:
            v.append(objs.rebuild_one(v[what // 4 % len(v)]))
        return t
    if isinstance(v, bool):
        v = not v
    elif isinstance(v, int):
        v = v ^ 1 << what % 3
    elif isinstance(v, str):
        # same length most of the time
        k = what % len(v) if v else 0
        v = v[:k] + ("Q" if v[k:k + 1] != "Q" else "Z") + v[k + 1:] if what % 5 and v else v + "q"
    else:
        m = list(type(v))
        v = m[(m.index(v) + 1 + what % 3) % len(m)]
    setattr(o, name, v)
    return t


def process(dev):
    from svdsuite import Process
    sched.take_warnings()
    try:
        r = {"r": canon.processed(Process(dev, None).get_processed_device())}
    except Exception as e:  # noqa
        r = {"e": canon.exc(e)}
    return {**r, "w": sched.take_warnings()}


def meaning(x):
    """a processed device without the names of the elements it was made from"""
    if isinstance(x, dict):
        return {k: meaning(v) for k, v in x.items() if k != "parsed"}
    return [meaning(i) for i in x] if isinstance(x, list) else x


def store(p, data):
    with open(p, "wb") as f:
        f.write(data)


def execute(sc, ctx):
    from svdsuite import Parser, Process, Serializer
    from svdsuite.util.process_parse_model_convert import process_parse_convert_device
    home = ctx.dir()
    os.chdir(home)
    os.mkdir("sub")
    os.symlink("sub/real.svd", "link.svd")
    disk.clock(STAMP)
    st, bad, log, steps = {}, None, [], 0
    last = None
    slots, on = [], {}                      # devices and what they mean; path -> what was saved there last

    def count(k):
        st[k] = st.get(k, 0) + 1

    def run(fn):
        nonlocal steps
        s = sched.Sched(budget=20_000_000)
        r = s.call(fn)
        steps += s.step
        return r + (s.warns,)

    with Pristine() as pri:
        for n, s in enumerate(sc["steps"]):
            k = s["do"]
            if k == "new":
                r = run(lambda: Parser.from_xml_content(docs.data(sc["docs"][s["d"]])).get_parsed_device())
                if r[0] == "ok":
                    slots.append([r[1], None])
                count(k)
                continue
            if not slots:
                continue
            i = last if s.get("last") and last is not None else s["o"] % len(slots)
            dev, means = slots[i]
            p = PATHS[s["p"]]
            what = f"step {n} ({k} {s.get('how', '')} of device {i} / {p})"
            if k == "edit":
                log.append(edit(dev, s["where"], s["what"]))
                slots[i][1] = None
            elif k == "save":
                def save():
                    if s["how"] == "file":
                        return Serializer.device_to_svd_file(p, dev, bool(s["pretty"]), bool(s["decl"]))
                    if s["how"] == "content":
                        return Serializer.device_to_svd_content(dev, bool(s["pretty"]), bool(s["decl"]))
                    return Serializer.device_to_svd_str(dev, bool(s["pretty"]))
                r = run(save)
                if r[0] == "exc":
                    log.append(canon.exc(r[1]))
                    count("save.failed")
                    continue
                if r[1] is not None:
                    store(p, r[1] if isinstance(r[1], bytes) else r[1].encode())
                os.utime(p, ns=(STAMP * 10**9,) * 2)
                on[p] = [canon.parsed(dev), objs.rebuild(dev), means]
            elif k == "copy":
                q = PATHS[s["q"]]
                if p in on:
                    with open(p, "rb") as f:
                        store(q, f.read())
                    os.utime(q, ns=(STAMP * 10**9,) * 2)
                    on[q] = on[p]
            elif k == "load":
                if p not in on:
                    continue
                r = run(lambda: get(Parser, p, s["how"]).get_parsed_device())
                if r[0] == "exc":
                    bad = {"class": "not-readable", "detail": [what + f": {r[1]!r}"]}
                else:
                    d = canon.diff(on[p][0], canon.parsed(r[1]), "saved vs loaded") or canon.parents_ok(r[1])
                    d += [str(w) for w in r[2]]
                    if d:
                        bad = {"class": "loaded-differs", "detail": [what] + d}
                    slots.append([r[1], on[p][2]])
            elif k == "process":
                if p not in on:
                    continue
                want = pri.ask(process, on[p][1])
                r = run(lambda: get(Process, p, s["how"]).get_processed_device())
                got = {"r": canon.processed(r[1])} if r[0] == "ok" else {"e": canon.exc(r[1])}
                got["w"] = [list(w) for w in r[2]]
                d = ops.compare(want, got)
                if d:
                    bad = {"class": "processed-differs", "detail": [what + " is not as for the device saved there"] + d}
                if not bad and on[p][2] is not None:
                    count("meaning kept")
                    d = [str(got["e"])] if "e" in got else canon.diff(on[p][2], meaning(got["r"]), "before vs after conversion")
                    if d:
                        bad = {"class": "conversion-differs", "detail": [what + " gives another device than before the conversion"] + d}
                log.append(got)
            elif k == "convert":
                r = run(lambda: Process(dev, None).get_processed_device())
                if r[0] == "exc":
                    count("convert.failed")
                    continue
                pd = r[1]
                whole = not any("gnor" in str(w[1]) for w in r[2])
                if not pd.peripherals:     # such a device has no document form
                    count("convert.empty")
                    continue
                r = run(lambda: process_parse_convert_device(pd))
                if r[0] == "exc":
                    bad = {"class": "not-convertible", "detail": [what + f": {r[1]!r}"]}
                else:
                    d = canon.parents_ok(r[1])
                    if d:
                        bad = {"class": "converted-links", "detail": [what] + d}
                    slots.append([r[1], meaning(canon.processed(pd)) if whole else None])
                    last = len(slots) - 1
            count(k)
            if bad:
                break
    disk.clock(0)
    return {"bad": bad, "stats": st, "steps": steps,
            "sig": hashlib.sha256(json.dumps([sc["steps"], sc["docs"]], sort_keys=True).encode()).hexdigest()[:16]
            if on else None,
            "digest": hashlib.sha256(json.dumps([log, sorted(on), st]).encode()).hexdigest()[:16],
            "sample": {"steps": [" ".join(str(v) for v in s.values()) for s in sc["steps"]], "did": st}}


def get(cls, p, how):
    if how == "file":
        return cls.from_svd_file(p)
    with open(p, "rb") as f:
        b = f.read()
    return cls.from_xml_str(b.decode()) if how == "str" else cls.from_xml_content(b)


def shrink(sc):
    for l in sh.seq(sc["steps"], keep=1):
        yield {**sc, "steps": l}
    for i, d in enumerate(sc["docs"]):
        for b in docs.shrink(d):
            yield {**sc, "docs": sc["docs"][:i] + [b] + sc["docs"][i + 1:]}

"""Saves on a failing disk: what returns is on disk to the byte, what goes wrong raises, and a device that cannot be
serialized never touches the file."""
import hashlib
import json
import os

from sim import canon, disk, docs, sched, shrink as sh
from sim.worlds import _files as w

KINDS = ["open", "write", "close", "fsync", "rename", "trunc", "*"]


def rules(r):
    out = []
    for _ in range(r.weighted([(0, 2), (1, 5), (2, 2), (3, 1)])):
        k = r.below(10)
        if k < 2:
            out.append(["write", 1, "n", "quota", r.pick([0, 1, r.below(200), r.below(4000), 4096, 8192])])
        elif k < 4:
            out.append(["write", 1 + r.below(3), r.pick(["n", "+"]), "short", 1 + r.below(1 << r.range(1, 12))])
        else:
            kind = r.pick(KINDS)
            n = 1 + r.below(3 if kind != "*" else 6)
            e = r.pick(["EIO", "ENOSPC", "EACCES", "EDQUOT", "EMFILE", "EINTR", "EFBIG", "EROFS"])
            out.append([kind, n, "n" if e == "EINTR" else r.pick(["n", "n", "+"]), "errno", e])
    return out


def scenario(rng, i, tier):
    r = rng.fork("sc")
    dl = docs.pool(rng.fork("docs"), 2, r.pick([{}, {}, {"peripherals": 3, "kids": 4, "max_nodes": 60}]))
    for d in dl:
        d["dmg"] = []
    steps = []
    for _ in range(r.range(1, 4)):
        s = {**w.options(r), "d": r.below(2), "rules": rules(r), "to": r.pick(["a", "a", "a", "link", "missing", "dir", "sp ä"])}
        if r.p(0.2):
            s["spoil"] = r.below(1 << 30)
        if r.p(0.2):
            s["inject"] = [sched.strike(r, 2, 12, ["KeyboardInterrupt", "MemoryError"])]
        steps.append(s)
    return {"docs": dl, "steps": steps, "old": r.pick(w.OLD)}


TARGET = {"a": "a.svd", "link": "link.svd", "missing": "no/such/a.svd", "dir": "sub", "sp ä": "sp ä.svd"}


def slurp(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return None


def execute(sc, ctx):
    home = ctx.dir()
    os.chdir(home)
    os.mkdir("sub")
    os.mkdir("else")
    os.symlink("else/real.svd", "link.svd")
    st, seen, bad, steps = {}, [], None, 0

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    other = docs.data(sc["docs"][1])
    for n, s in enumerate(sc["steps"]):
        try:
            dev = w.parsed(sc["docs"][s["d"]])
        except Exception:  # noqa: broken documents have nothing to save
            count("unparsable")
            continue
        if "spoil" in s:
            w.spoil(dev, s["spoil"])
        try:
            want = w.content(dev, s)
        except Exception:  # noqa
            want = None
        path = TARGET[s["to"]]
        if n == 0 and s["to"] in ("a", "link", "sp ä"):
            old = w.old_content(sc["old"], want or other, other)
            if old is not None:
                with open(path, "wb") as f:
                    f.write(old)
        before = slurp(path)
        names = w.listing(home)
        log = os.path.join(ctx.scratch, "log%d" % n)
        sm = sched.Sched(plan={"inject": s.get("inject", [])}, budget=3_000_000)
        with disk.Armed(home, s["rules"], log) as dk:
            r = sm.call(lambda: w.save(path, dev, s))
        steps += sm.step + dk.seq
        hit = [h for h in dk.hits]
        for rl, h in zip(s["rules"], hit):
            if h:
                count("fault." + rl[0] + "." + (rl[4] if rl[3] == "errno" else rl[3]))
        if sm.fired:
            count("fault.interrupt")
        now = slurp(path)
        seen.append([r[0], canon.exc(r[1])[:2] if r[0] == "exc" else None, hashlib.sha256(now or b"").hexdigest()[:10]])
        what = f"step {n} (save to {path!r}, faults {s['rules']}, {sm.fired})"
        healthy = not sm.fired and not any(h for rl, h in zip(s["rules"], hit) if not (
            rl[3] == "short" or (rl[3] == "errno" and rl[0] in ("write", "open") and rl[4] == "EINTR" and rl[2] == "n")))
        if r[0] == "ok":
            count("returned")
            if want is None:
                bad = {"class": "saved-unserializable", "detail": [what + " returned, but the device cannot be serialized"]}
            elif now != want:
                bad = {"class": "not-saved", "detail": [what + f" returned, but the file has {len(now or b'')} bytes that are "
                                                        f"not the {len(want)} serialized ones"]}
            elif lost(dk.ops, os.path.join(home, path)):
                bad = {"class": "error-swallowed", "detail": [what + " returned, although closing or syncing failed"]}
        else:
            count("raised")
            if want is None:
                count("unserializable")
                if now != before or w.listing(home) != names:
                    bad = {"class": "touched", "detail": [what + f" raised {r[1]!r} because the device cannot be serialized, but "
                                                          f"the file changed ({short(before)} -> {short(now)})"]}
            elif healthy and s["to"] in ("a", "link", "sp ä"):
                bad = {"class": "failed-without-cause", "detail": [what + f" raised {r[1]!r} on a healthy disk", sched.tb(r[1])]}
        if bad:
            break
    return {"bad": bad, "stats": st, "steps": steps,
            "sig": hashlib.sha256(json.dumps([sc["steps"], sc["old"], seen]).encode()).hexdigest()[:16] if st else None,
            "digest": hashlib.sha256(json.dumps(seen).encode()).hexdigest()[:16],
            "sample": {"old": sc["old"], "saves": [{k: v for k, v in s.items()} for s in sc["steps"]], "outcomes": seen}}


def short(b):
    return "no file" if b is None else f"{len(b)} bytes"


def lost(ops, path):
    """the last close or sync after writing to a file failed"""
    wrote, last = set(), {}
    for o in ops:
        if o["kind"] == "open" and o["res"] >= 0:
            wrote.discard(o["fd"])
        elif o["kind"] == "write":
            wrote.add(o["fd"])
        elif o["kind"] in ("close", "fsync") and o["fd"] in wrote:
            err = o["err"] not in (0, 4)
            if o["kind"] == "fsync" or last.get(o["path"]) != "fsync":
                last[o["path"]] = (o["kind"] if err else None)
            if o["kind"] == "close":
                if err:
                    last[o["path"]] = "close"
                wrote.discard(o["fd"])
    return any(last.values())


def shrink(sc):
    for l in sh.seq(sc["steps"], keep=1):
        yield {**sc, "steps": l}
    if sc["old"] != "none":
        yield {**sc, "old": "none"}
    for k, s in enumerate(sc["steps"]):
        def put(x):
            return {**sc, "steps": sc["steps"][:k] + [x] + sc["steps"][k + 1:]}
        for l in sh.seq(s["rules"]):
            yield put({**s, "rules": l})
        if "inject" in s:
            yield put({a: b for a, b in s.items() if a != "inject"})
        if "spoil" in s:
            yield put({a: b for a, b in s.items() if a != "spoil"})
    for i, d in enumerate(sc["docs"]):
        for b in docs.shrink(d):
            yield {**sc, "docs": sc["docs"][:i] + [b] + sc["docs"][i + 1:]}

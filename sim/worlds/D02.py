"""Crashes during a save: the process dies before, within or after a system call (or the machine dies, and unsynced
sectors are lost); after the restart the file must read as the old device, the new device, an error or a ParserWarning."""
import hashlib
import json
import os

from sim import canon, disk, docs, sched, shrink as sh
from sim.rng import Rng
from sim.worlds import _files as w


def scenario(rng, i, tier):
    r = rng.fork("sc")
    dl = docs.pool(rng.fork("docs"), 2, r.pick([{}, {"peripherals": 3, "kids": 4, "max_nodes": 60}]))
    if r.p(0.3):
        dl[1] = {**dl[0], "ast": docs.variant(dl[0]["ast"], r)}
    twins = r.p(0.25)
    if twins:
        dl[1] = {**dl[0], "ast": docs.twin(dl[0]["ast"], r)}
    for d in dl:
        d["dmg"] = []
    crash = r.pick([["*", 1 + r.below(6), "n", "crash", 0], ["*", 1 + r.below(6), "n", "crashafter", 0],
                    ["write", 1 + r.below(2), "n", "crashmid", r.pick([0, 1, r.below(3000), 512 * r.below(20), 4096])],
                    ["write", 1 + r.below(2), "n", "crashmid", r.below(20000)], None])
    rl = [crash] if crash else []
    if r.p(0.3):
        rl.append(["write", 1, "+", "short", r.pick([100, 512, 1000, 4096])])
        if crash and r.p(0.7):
            crash[1] = 1 + r.below(30)
    old, save, oldsave = r.pick(w.OLD + ["other", "other"]), w.options(r), w.options(r)
    if twins:
        old, oldsave = "other", save
    return {"docs": dl, "rules": rl, "old": old, "save": save, "oldsave": oldsave,
            "images": [0] + [1 + r.below(1 << 30) for _ in range(4 if tier == "quick" else 12)]}


def _save(sc, home, log):
    dev = w.parsed(sc["docs"][0])
    os.chdir(home)
    sm = sched.Sched(budget=3_000_000)
    with disk.Armed(home, sc["rules"], log):
        r = sm.call(lambda: w.save("a.svd", dev, sc["save"]))
    return [r[0], sm.step]


def _load(home, sc):
    """after the restart: what does the file read as?  then save again and read back"""
    from svdsuite import Parser, Process
    os.chdir(home)
    out = []
    for f in (lambda: canon.parsed(Parser.from_svd_file("a.svd").get_parsed_device()),
              lambda: canon.processed(Process.from_svd_file("a.svd", None).get_processed_device())):
        sched.take_warnings()
        try:
            v = f()
        except Exception as e:  # noqa
            out.append(["error", type(e).__name__, None])
            continue
        warned = [m for c, m in sched.take_warnings() if c == "ParserWarning"]
        out.append(["warned" if warned else "silent", None, v])
    dev = w.parsed(sc["docs"][0])
    try:
        w.save("a.svd", dev, sc["save"])
        with open("a.svd", "rb") as f:
            again = f.read() == w.content(dev, sc["save"])
        again = "saved" if again and canon.parsed(Parser.from_svd_file("a.svd").get_parsed_device()) == canon.parsed(
            dev) else "unreadable"
    except Exception as e:  # noqa
        again = f"raised {e!r}"[:300]
    return out, again


def _ref(sc, data):
    """the devices the file may stand for"""
    from svdsuite import Process
    out = []
    for d in sc["docs"]:
        dev = w.parsed(d)
        try:
            p = canon.processed(Process(dev, None).get_processed_device())
        except Exception:  # noqa
            p = None
        out.append([canon.parsed(dev), p])
    return out


def execute(sc, ctx):
    st = {}
    new_dev = None
    try:
        new_dev = w.parsed(sc["docs"][0])
        new = w.content(new_dev, sc["save"])
        other = w.content(w.parsed(sc["docs"][1]), sc["oldsave"])
        ref = ctx.fork(_ref, sc, None)["value"]
    except Exception:  # noqa
        return {"bad": None, "stats": {"unparsable": 1}, "steps": 0, "sig": None, "digest": "-"}
    home = ctx.dir()
    before = {}
    old = w.old_content(sc["old"], new, other)
    if old is not None:
        before[os.path.join(home, "a.svd")] = old
        with open(os.path.join(home, "a.svd"), "wb") as f:
            f.write(old)
    # an old file that was itself garbage or odd may keep reading as whatever it read before
    base = ctx.fork(_load, _copy(ctx, home, before), sc)["value"][0]
    log = os.path.join(ctx.scratch, "log")
    res = ctx.fork(_save, sc, home, log)
    died = res.get("died") == 137
    st["crashed" if died else "ran through"] = 1
    steps = res["value"][1] if "value" in res else 0
    if not died and "value" not in res:
        raise RuntimeError(str(res)[:1500])
    ops = disk.read_log(log)
    if sc["rules"] and died:
        st["crash." + ops[-1]["kind"] + "." + sc["rules"][0][3]] = 1
    bad, seen = None, []
    for im in sc["images"]:
        if im == 0:                          # the process died, the page cache survives
            img = {}
            for a in w.listing(home):
                p = os.path.join(home, a)
                if os.path.isfile(p):
                    with open(p, "rb") as f:
                        img[p] = f.read()
        else:
            img = disk.image(ops, before, Rng(im, "image"))
            st["power loss"] = st.get("power loss", 0) + 1
        d = _copy(ctx, home, img)
        got, again = ctx.fork(_load, d, sc)["value"]
        data = img.get(os.path.join(home, "a.svd"))
        seen.append([im, hashlib.sha256(data or b"").hexdigest()[:8], [g[0] for g in got], again])
        for k, g in enumerate(got):
            st["reads." + g[0]] = st.get("reads." + g[0], 0) + 1
            if g[0] != "silent":
                continue
            ok = [x[k] for x in ref] + [b[2] for b in base if b[0] == "silent"]
            if g[2] not in ok:
                bad = {"class": "silent-third-device", "detail": [
                    f"image {im}: the file ({len(data or b'')} bytes) loads without error or ParserWarning as neither the old "
                    f"nor the new device"] + canon.diff(ref[0][k], g[2], "device")}
        if again != "saved":
            bad = bad or {"class": "save-after-crash", "detail": [f"image {im}: saving again: {again}"]}
        if bad:
            sc = {**sc, "images": [im]}
            break
    out = {"bad": bad, "stats": st, "steps": steps + len(ops), "sig": hashlib.sha256(json.dumps(
        [seen, sc["rules"], sc["old"]]).encode()).hexdigest()[:16],
        "digest": hashlib.sha256(json.dumps(seen).encode()).hexdigest()[:16],
        "sample": {"old": sc["old"], "rules": sc["rules"], "calls": [[o["kind"], o["res"]] for o in ops][:20], "images": seen}}
    if bad:
        out["sc"] = sc
    return out


def _copy(ctx, home, img):
    d = ctx.dir()
    for p, data in img.items():
        q = os.path.join(d, os.path.relpath(p, home))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(data)
    return d


def shrink(sc):
    for l in sh.seq(sc["rules"]):
        yield {**sc, "rules": l}
    for l in sh.seq(sc["images"], keep=1):
        yield {**sc, "images": l}
    for o in ("none", "other"):
        if sc["old"] != o:
            yield {**sc, "old": o}
    for i, d in enumerate(sc["docs"]):
        for b in docs.shrink(d):
            yield {**sc, "docs": sc["docs"][:i] + [b] + sc["docs"][i + 1:]}

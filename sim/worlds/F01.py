"""Calls cut short at any point, the exception held or dropped, then other calls and retries: each of them ends as in a
process in which nothing was ever cut short."""
import gc
import hashlib
import json
import os
import sys
import tempfile
import warnings

from sim import canon, disk, docs, ops, sched, shrink as sh
from sim.pristine import Pristine
from sim.worlds import D06

DOT = [None]


def prepare():
    DOT[0] = ops.fake_dot()


def scenario(rng, i, tier):
    r = rng.fork("sc")
    nd = r.range(1, 2)
    shared = r.p(0.7)
    kinds = ["process", "process", "process", "log", "log", "convert", "map", "serialize", "save", "validate", "parse"]
    if r.p(0.3):
        kinds = [r.pick(kinds)]
    prog = []
    n = r.range(2, 6)
    for k in range(n):
        if prog and r.p(0.4):                       # a retry, or the same on another document
            o = dict(r.pick(prog)["op"])
            if r.p(0.3):
                o["d"] = r.below(nd)
        else:
            o = ops.draw(r, nd, kinds=kinds, shared=shared)
        s = {"op": o}
        if r.p(0.75 if k == 0 else 0.35):
            f = r.below(20)
            if f < 12:
                s["inject"] = [sched.strike(r, 2, 13, ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError",
                                                                          "SystemExit", "RecursionError"])]
            elif f < 14:
                s["strict"] = 1
            elif f < 16:
                s["depth"] = r.range(2, 60)
            elif f < 18:
                s["rules"] = D06.rules(r)
                if o["src"] == "shared" and o["op"] not in ("log", "save"):
                    o["src"] = "file"
            else:
                s["dot"] = 1 + r.below(12)
            s["hold"] = r.pick([0, 1, 1, 2])        # dropped at once, dropped after the next call, held to the end
        prog.append(s)
    return {"docs": docs.pool(rng.fork("docs"), nd), "prog": prog, "mode": r.pick(["line"] * 4 + ["instr"])}


def alone(dl, op, home):
    """the operation in a process in which nothing happened before"""
    desk = ops.Desk(dl, home)
    desk.share([op])
    return ops.solo(desk, [op])[0][0]


def _deep(n, fn):
    """fn() with only n more stack frames"""
    old = sys.getrecursionlimit()
    f, depth = sys._getframe(), 0
    while f is not None:
        f, depth = f.f_back, depth + 1
    try:
        sys.setrecursionlimit(depth + 8 + n)
        return fn()
    finally:
        sys.setrecursionlimit(old)


def execute(sc, ctx):
    home, other = ctx.dir(), ctx.dir()
    tempfile.tempdir = ctx.dir()
    for d in (home, other):
        os.mkdir(os.path.join(d, "no"))
    st, bad, log, steps = {}, None, [], 0
    held, wrote = [], {}

    def count(k):
        st[k] = st.get(k, 0) + 1

    with Pristine() as pri:
        desk = ops.Desk(sc["docs"], home).sweeping()
        desk.late = True
        desk.share([s["op"] for s in sc["prog"]])
        for n, s in enumerate(sc["prog"]):
            op = s["op"]
            want = pri.ask(alone, sc["docs"], op, other)
            DOT[0].fail = DOT[0].calls + s["dot"] if "dot" in s else None
            sm = sched.Sched(plan={"inject": s.get("inject", [])}, budget=8_000_000, mode=sc["mode"])
            sched.take_warnings()

            def call():
                if "depth" in s:
                    return _deep(s["depth"], lambda: desk.call(op))
                return desk.call(op)
            if s.get("strict"):
                warnings.simplefilter("error")
            with disk.Armed(home, s.get("rules", []), schema=True) as dk:
                r = sm.call(call)
            DOT[0].fail = None
            if s.get("strict"):
                sched.capture_warnings()
            steps += sm.step + dk.seq
            if sm.over:
                bad = {"class": "endless", "detail": [f"step {n} ({ops.brief(op)}) did not end"]}
                break
            hits = [rl for rl, h in zip(s.get("rules", []), dk.hits) if h]
            for rl in hits:
                count("fault." + rl[0] + "." + (rl[4] if rl[3] == "errno" else rl[3]))
            for k in ("strict", "depth", "dot"):
                if k in s:
                    count("fault." + k)
            if sm.fired:
                count("fault." + sm.fired[0][2])
            if r[0] == "ok":
                got = {"r": r[1]}
                if op["op"] in ("log", "save"):
                    to = op["op"] + op["to"]
                    try:
                        text = desk.readback(op)
                    except (OSError, ValueError, EOFError) as e:
                        text = f"unreadable: {e!r}"
                    wrote[to] = (op, text)
                    got["r"] = r[1] + [text] if op["op"] == "log" else text
            else:
                got = {"e": canon.exc(r[1])}
                if op["op"] in ("log", "save"):
                    wrote.pop(op["op"] + op["to"], None)
            got["w"] = [list(w) for w in sm.warns]
            disturbed = bool(sm.fired or hits or "depth" in s or "strict" in s or "dot" in s)
            what = f"step {n} ({ops.brief(op)}{', ' if disturbed else ''}" + ", ".join(
                str({k: s[k]}) for k in s if k not in ("op", "hold")) + ")"
            count("disturbed" if disturbed else "undisturbed")
            if got != want:
                count("cut short")
            if not disturbed:
                d = ops.compare(want, got)
                if d:
                    bad = {"class": "later-call-differs", "detail": [what + " differs from the same call in a process in which "
                                                                     "nothing was cut short"] + d + history(sc, n, log)}
            elif "r" in got and ops.compare({**want, "w": []}, {**got, "w": []}) and not any(
                    w[0] == "ParserWarning" for w in got["w"]):
                bad = {"class": "wrong-result", "detail": [what + " returned, but not what the call returns (or raises) undisturbed"]
                       + ops.compare(want, got)}
            elif "strict" in s and "r" in got and want["w"]:
                bad = {"class": "wrong-result", "detail": [what + f" returned, although warnings are errors and {want['w'][:2]} "
                                                           "must be given"]}
            elif "e" in got and sm.fired and got["e"][0] != sm.fired[0][2] and got["e"][:1] != want.get("e", [""])[:1] \
                    and not library(r[1]):
                bad = {"class": "other-error", "detail": [what + f" was interrupted by {sm.fired}, but raised {got['e']}",
                                                          sched.tb(r[1])]}
            log.append([got, sm.step, sm.fired])
            if bad:
                break
            # what is still referred to by whoever called
            held = [[h, e] for h, e in held if h == 2 or h > 1]
            if r[0] == "exc" and s.get("hold"):
                held.append([s["hold"], r[1]])
            r = None
            if n % 2:
                gc.collect()
        held.clear()
        r = None
        gc.collect()
        if not bad:
            for to, (op, text) in wrote.items():
                try:
                    now = desk.readback(op)
                except (OSError, ValueError, EOFError) as e:
                    now = f"unreadable: {e!r}"
                if now != text:
                    bad = {"class": "file-changed-later", "detail": [f"the file written by ({ops.brief(op)}) changed after the call: "
                                                                     f"{len(text)} -> {len(now)} characters {now[:200]!r}"]}
    return {"bad": bad, "stats": st, "steps": steps,
            "sig": hashlib.sha256(json.dumps([sc["prog"], sc["docs"]], sort_keys=True).encode()).hexdigest()[:16]
            if st.get("cut short") else None,
            "digest": hashlib.sha256(json.dumps(log).encode()).hexdigest()[:16],
            "sample": {"calls": [ops.brief(s["op"]) + " " + str({k: v for k, v in s.items() if k != "op"}) for s in sc["prog"]],
                       "ended": [x[0].get("e", ["returned"])[0] for x in log]}}


def history(sc, n, log):
    return [f"  before: {ops.brief(s['op'])} {x[2]} -> {x[0].get('e', 'returned')}" for s, x in zip(sc["prog"][:n], log)]


def library(e):
    """an error of the library, of the operating system or of what it uses, with the interruption as its context"""
    m = type(e).__module__ or ""
    if m.startswith("svdsuite") or m.startswith("lxml") or isinstance(e, OSError):
        return True
    c = e.__context__
    while c is not None:
        if sched.Injected.TEXT in str(c):
            return True
        c = c.__context__
    return False


def shrink(sc):
    for l in sh.seq(sc["prog"], keep=1):
        yield {**sc, "prog": l}
    for k, s in enumerate(sc["prog"]):
        def put(x):
            return {**sc, "prog": sc["prog"][:k] + [x] + sc["prog"][k + 1:]}
        for x in ("inject", "strict", "depth", "dot", "rules"):
            if x in s:
                yield put({a: b for a, b in s.items() if a != x})
        if s["op"].get("src") == "shared" or s["op"].get("src") == "file":
            yield put({**s, "op": {**s["op"], "src": "content"}})
    for i, d in enumerate(sc["docs"]):
        for b in docs.shrink(d):
            yield {**sc, "docs": sc["docs"][:i] + [b] + sc["docs"][i + 1:]}

"""Calls that return, fail or are cut short anywhere: afterwards nothing is open, nothing is lying around, and the process is
set up as before."""
import gc
import hashlib
import json
import locale
import os
import signal
import sys
import tempfile
import threading
import warnings

from sim import canon, disk, docs, ops, sched, shrink as sh

DOT = [None]


def prepare():
    DOT[0] = ops.fake_dot()


def rules(r):
    out = []
    for _ in range(r.weighted([(0, 3), (1, 5), (2, 1)])):
        k = r.pick(["open", "open", "read", "write", "write", "close", "fsync", "rename", "trunc", "mkdir"])
        n = 1 + r.below(4)
        if k in ("read", "write") and r.p(0.3):
            out.append([k, n, r.pick(["n", "+"]), "short", 1 + r.below(500)])
        elif k == "write" and r.p(0.3):
            out.append([k, 1, "n", "quota", r.pick([0, r.below(300), r.below(5000)])])
        elif k == "read" and r.p(0.3):
            out.append([k, n, "n", "eof", 0])
        else:
            e = r.pick(["EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS"])
            out.append([k, n, r.pick(["n", "n", "+"]) if k != "close" else "n", "errno", e])
    return out


def scenario(rng, i, tier):
    r = rng.fork("sc")
    nd = r.range(1, 2)
    steps = []
    for _ in range(r.range(1, 5)):
        o = ops.draw(r, nd, kinds=["parse", "process", "convert", "serialize", "save", "save", "map", "validate", "validate",
                                   "log", "log", "log"], shared=False)
        o["src"] = r.pick(["file", "file", o["src"]])
        if o["op"] in ("process", "convert", "serialize", "save", "map", "log") and r.p(0.7 if o["op"] == "convert" else 0.25):
            o["src"] = "shared"               # only the second half of the work is part of the call
        s = {"op": o, "rules": rules(r) if r.p(0.6) else []}
        if r.p(0.4):
            s["inject"] = [sched.strike(r, 2, 10 if o["src"] == "shared" else 13, ["KeyboardInterrupt", "MemoryError", "SystemExit"])]
        if r.p(0.15):
            s["dot"] = 1 + r.below(12)
        if r.p(0.1):
            s["strict"] = 1
        if o["op"] in ("save", "log") and r.p(0.2):
            o["to"] = r.pick(["no/such/a", "in0.svd/x"])
        steps.append(s)
    return {"docs": docs.pool(rng.fork("docs"), nd), "steps": steps, "mode": r.pick(["line"] * 5 + ["instr"])}


def fds():
    out = {}
    for x in os.listdir("/proc/self/fd"):
        try:
            out[int(x)] = os.readlink("/proc/self/fd/" + x)
        except OSError:
            pass
    return out


def files(home):
    out = {}
    for a, b, c in os.walk(home):
        for x in b:
            out[os.path.relpath(os.path.join(a, x), home)] = "dir"
        for x in c:
            with open(os.path.join(a, x), "rb") as f:
                out[os.path.relpath(os.path.join(a, x), home)] = hashlib.sha256(f.read()).hexdigest()[:12]
    return out


def settings():
    u = os.umask(0o22)
    os.umask(u)
    return {"cwd": os.getcwd(), "umask": u, "env": dict(os.environ), "recursionlimit": sys.getrecursionlimit(),
            "gc": [gc.isenabled(), gc.get_threshold(), gc.get_debug()], "filters": [str(f) for f in warnings.filters],
            "showwarning": repr(warnings.showwarning), "formatwarning": repr(warnings.formatwarning),
            "threads": threading.active_count(), "signals": {str(s): repr(signal.getsignal(s)) for s in (2, 10, 14, 15)},
            "timer": signal.getitimer(signal.ITIMER_REAL), "locale": locale.setlocale(locale.LC_ALL), "path": list(sys.path),
            "switchinterval": sys.getswitchinterval(), "excepthook": repr(sys.excepthook), "trace": repr(sys.gettrace()),
            "stdout": [id(sys.stdout), id(sys.stderr)], "intmax": sys.get_int_max_str_digits(),
            "atexit": __import__("atexit")._ncallbacks(), "tempdir": tempfile.tempdir}


def children():
    try:
        return os.waitpid(-1, os.WNOHANG)[0] == 0 or True
    except ChildProcessError:
        return False


def execute(sc, ctx):
    home = ctx.dir()
    tmp = os.path.join(home, "tmp")
    os.mkdir(tmp)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    desk = ops.Desk(sc["docs"], home)
    st, bad, log, steps = {}, None, [], 0
    keep = []

    def count(k):
        st[k] = st.get(k, 0) + 1

    for n, s in enumerate(sc["steps"]):
        op = dict(s["op"])
        desk.share([op])
        target = {"save": "%s.svd", "log": "%s.log.html"}.get(op["op"], "") % (op.get("to"),) if op["op"] in ("save", "log") else None
        gc.collect()
        DOT[0].fail = DOT[0].calls + s["dot"] if "dot" in s else None
        plan = {"inject": s.get("inject", [])}
        sm = sched.Sched(plan=plan, budget=8_000_000, mode=sc["mode"])
        f0, l0, p0 = fds(), files(home), settings()
        kids = children()
        if s.get("strict"):
            warnings.simplefilter("error")
        with disk.Armed(home, s["rules"], schema=True) as dk:
            r = sm.call(lambda: call(desk, op, keep))
        if s.get("strict"):
            sched.capture_warnings()
        steps += sm.step + dk.seq
        for rl, h in zip(s["rules"], dk.hits):
            if h:
                count("fault." + rl[0] + "." + (rl[4] if rl[3] == "errno" else rl[3]))
        if sm.fired:
            count("fault.interrupt")
        if s.get("dot") and DOT[0].calls >= DOT[0].fail:
            count("fault.dot")
        count("returned" if r[0] == "ok" else "raised")
        log.append([r[0], type(r[1]).__name__ if r[0] == "exc" else r[1], sm.step])
        what = f"step {n} ({ops.brief(op)}, faults {s['rules']}, {sm.fired}, " + (
            "returned)" if r[0] == "ok" else f"raised {r[1]!r})")
        # an interruption keeps the frames it passed through alive while it is held; and CPython removes a temporary file
        # whose close failed only then
        if sm.fired or any(h and rl[0] == "close" for rl, h in zip(s["rules"], dk.hits)):
            r = None
            gc.collect()
        if sm.fired and sys.exception() is not None:
            # CPython loses track of the exception being handled if a monitoring callback raises where a with block is left
            # by an exception; no real interruption can strike there
            count("artifact")
            break
        f1, l1, p1 = fds(), files(home), settings()
        d = canon.diff(f0, f1, "open files")
        if not d:
            d = [f"file {k!r}: {l0.get(k, 'absent')} -> {l1.get(k, 'absent')}" for k in sorted(set(l0) | set(l1))
                 if l0.get(k) != l1.get(k) and k != target]
            if d:
                bad = {"class": "files-left", "detail": [what] + d}
        else:
            bad = {"class": "open-files", "detail": [what] + [f"{k}: {v}" for k, v in f1.items() if f0.get(k) != v]}
        if not bad:
            d = canon.diff(p0, p1, "setting")
            if d or children() != kids:
                bad = {"class": "settings", "detail": [what] + (d or ["a child process is left"])}
        if bad:
            break
    return {"bad": bad, "stats": st, "steps": steps,
            "sig": hashlib.sha256(json.dumps([sc["steps"], log]).encode()).hexdigest()[:16] if st else None,
            "digest": hashlib.sha256(json.dumps(log).encode()).hexdigest()[:16],
            "sample": {"steps": [ops.brief(s["op"]) + f" {s['rules']} {s.get('inject', '')}" for s in sc["steps"]],
                       "outcomes": log}}


def call(desk, op, keep):
    """the operation without reading its output back"""
    from svdsuite import Process, Serializer
    if op["op"] == "log":
        to = "%s.log.html" % op["to"]
        i = op["d"]
        if op["src"] == "shared":
            p = Process(desk.parsed[i], to)
        else:
            p = Process.from_svd_file("in%d.svd" % i, to) if op["src"] == "file" else Process.from_xml_content(desk.bytes[i], to)
        keep.append(p)
        return "log"
    if op["op"] == "save":
        dev = desk.dev(op)
        keep.append(dev)
        Serializer.device_to_svd_file("%s.svd" % op["to"], dev, bool(op["pretty"]), bool(op["decl"]))
        return "save"
    desk.call(op, keep)
    return op["op"]


def shrink(sc):
    for l in sh.seq(sc["steps"], keep=1):
        yield {**sc, "steps": l}
    for k, s in enumerate(sc["steps"]):
        def put(x):
            return {**sc, "steps": sc["steps"][:k] + [x] + sc["steps"][k + 1:]}
        for l in sh.seq(s["rules"]):
            yield put({**s, "rules": l})
        for x in ("inject", "dot", "strict"):
            if x in s:
                yield put({a: b for a, b in s.items() if a != x})
    for i, d in enumerate(sc["docs"]):
        for b in docs.shrink(d):
            yield {**sc, "docs": sc["docs"][:i] + [b] + sc["docs"][i + 1:]}

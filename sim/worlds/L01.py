"""Processing with and without a log under the same seeded order of the resolver's work; the log is compared with what the
simulator saw at the seam, and with the description."""
import hashlib
import html
import json
import os
import re

from sim import agenda, ast, canon, docs, gen, ops, sched, shrink as sh

DOT = [None]
NEST = {"peripherals": [1, 2, 3], "kids": [1, 2, 3], "depth": [0, 1, 2], "fields": [0, 1, 2], "max_nodes": 40}


def prepare():
    DOT[0] = ops.fake_dot()


def scenario(rng, i, tier):
    r = rng.fork("sc")
    calls = []
    n = r.pick([1, 1, 2, 3])
    pool = docs.pool(rng.fork("docs"), r.range(1, 2), r.pick([{}, NEST, {**NEST, "p_df": 0.6}]))
    for d in pool:
        if r.p(0.15):
            b = gen.break_it(d["ast"], r)
            if b:
                d["ast"] = b[1]
    for _ in range(n):
        c = {"d": r.below(len(pool)), "agenda": agenda.draw(r.fork("agenda")), "to": r.pick(["a", "a", "b"]),
             "src": r.pick(["content", "file", "str"]), "first": r.below(2),
             "by": r.pick(["process", "process", "device", "map", "map"])}
        if r.p(0.25):
            c["inject"] = [sched.strike(r, 7, 14, ["KeyboardInterrupt", "MemoryError"])]
        calls.append(c)
    return {"docs": pool, "calls": calls}


class Seen(agenda.Plan):
    """steers as planned, and notes what goes by"""

    def __init__(self, plan):
        super().__init__(plan or {"seed": 0, "until": 0})
        self.rounds_seen = []
        self.pending = []

    def order_placeholders(self, items):
        out = super().order_placeholders(items)
        self.pending.append(list(out))
        return out

    def limit_round(self, items):
        out = super().limit_round(items)
        self.rounds_seen.append([f"{getattr(x, 'name', '?') or 'no name'} "
                                 f"({getattr(getattr(x, 'level', None), 'value', '?')})" for x in out])
        return out


def process(desk, c, log, plan):
    from sim import env
    from svdsuite import Process, PeripheralRegisterMap
    env.repo_agenda.install(plan)
    try:
        i, by = c["d"], c.get("by", "process")
        if by == "device":
            return canon.processed(Process(desk.parse(c), log).get_processed_device())
        how = PeripheralRegisterMap if by == "map" else Process
        if c["src"] == "file":
            p = how.from_svd_file("in%d.svd" % i, log)
        elif c["src"] == "str":
            p = how.from_xml_str(desk.text(i), log)
        else:
            p = how.from_xml_content(desk.bytes[i], log)
        return canon.regmap(p) if by == "map" else canon.processed(p.get_processed_device())
    finally:
        env.repo_agenda.install(None)


def attempt(desk, c, log, inject=None):
    plan = Seen(c["agenda"])
    s = sched.Sched(plan={"inject": inject or []}, budget=8_000_000)
    sched.take_warnings()
    r = s.call(lambda: process(desk, c, log, plan))
    out = {"r": r[1]} if r[0] == "ok" else {"e": canon.exc(r[1])}
    out["w"] = [list(w) for w in s.warns]
    return out, plan, s


ENTRY = re.compile(r"\d+: (.*)\Z", re.S)


def read(text):
    """log document -> {"rounds": [{"no", "paths", "elements"}], "svg": [ids], "end": texts after the last round}"""
    rounds = []
    for m in re.finditer(r"<h2>(\d+)\. Round</h2>(.*?)(?=<h2>|<h1>|<script>|\Z)", text, re.S):
        x = {"no": int(m.group(1)), "paths": [], "elements": []}
        for desc, body in re.findall(r'([\w ()]+): <div class="scrollable-div">(.*?)</div>', m.group(2), re.S):
            items = body.split("<br />")
            if "laceholder" in desc:
                x["paths"] += [html.unescape(y) for y in items]
            else:
                x["elements"] += [ENTRY.match(html.unescape(y)).group(1) if ENTRY.match(y) else "?" + y for y in items]
        rounds.append(x)
    return {"rounds": rounds, "svg": re.findall(r'<svg [^>]*id="svg(\d+)"', text)}


def judge(c, out, plan, text, d):
    """-> complaints about one log"""
    bad = []
    if not text.rstrip().endswith("</html>") or "<body>" not in text or "BODY_CONTENT" in text:
        return [f"the log is no complete document: {text[:80]!r} ... {text[-80:]!r}"]
    lg = read(text)
    if lg["svg"] != [str(k + 1) for k in range(len(lg["svg"]))]:
        bad.append(f"graphs numbered {lg['svg']}")
    n = len(plan.rounds_seen)
    if [x["no"] for x in lg["rounds"]][:n] != list(range(1, n + 1)) or len(lg["rounds"]) > n + 1:
        bad.append(f"{n} rounds took place, the log has {[x['no'] for x in lg['rounds']]}")
        return bad
    for k in range(n):
        d1 = canon.diff(plan.rounds_seen[k], lg["rounds"][k]["elements"], f"round {k + 1} elements")
        bad += d1
    def path(p):
        return getattr(p, "derive_path", None)
    for k in range(len(plan.pending)):
        if k + 1 < len(plan.pending):
            left = {id(p) for p in plan.pending[k + 1]}
        elif "r" in out:
            left = set()
        else:
            continue
        want = [path(p) for p in plan.pending[k] if id(p) not in left]
        if None in want:
            break
        bad += canon.diff(want, lg["rounds"][k]["paths"], f"round {k + 1} resolved derivedFrom paths")
    if "r" in out:
        if "finished successfully" not in text:
            bad.append("success is not noted")
        # independent of the seam: what the description derives, and what it declares
        paths = [p for x in lg["rounds"] for p in x["paths"]]
        names = [e.rsplit(" (", 1)[0] for x in lg["rounds"] for e in x["elements"]]
        for node, _ in ast.walk(d["ast"]) if not d["dmg"] else ():
            if "df" in node and node["df"] not in paths:
                bad.append(f"derivedFrom {node['df']!r} is not listed in any round")
            nm = node["p"].get("name") if node["k"] != "enums" else None
            if nm and node["k"] != "device" and not any(nm == x or ("%s" in nm and x.startswith(nm.split("[")[0].split("%")[0]))
                                                        for x in names):
                bad.append(f"{node['k']} {nm!r} is not listed in any round")
    elif "finished successfully" in text and out["e"][0] in ("LoopException", "CycleException"):
        bad.append("a failure is noted as success")
    return bad[:8]


def execute(sc, ctx):
    home = ctx.dir()
    desk = ops.Desk(sc["docs"], home).sweeping()
    bad, st, steps, seen = None, {}, 0, []

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    logs = {}
    for n, c in enumerate(sc["calls"]):
        log = "%s.log.html" % c["to"]
        what = f"call {n} (document {c['d']} from {c['src']}, agenda {c['agenda']})"
        a = attempt(desk, c, None) if c["first"] else None
        b = attempt(desk, c, log)
        a = a or attempt(desk, c, None)
        steps += a[2].step + b[2].step
        seen.append([a[0], b[0]])
        count("failed" if "e" in b[0] else "succeeded")
        count("agenda.reordered", b[1].moved)
        count("agenda.rounds", len(b[1].rounds_seen))
        d = ops.compare(a[0], b[0])
        if d:
            bad = {"class": "log-changes-outcome", "detail": [what + " ends differently with a log"] + d}
            break
        d = canon.diff(a[1].rounds_seen, b[1].rounds_seen, "rounds")
        if d:
            bad = {"class": "log-changes-work", "detail": [what + " proceeds differently with a log"] + d}
            break
        if not os.path.exists(log):
            if b[1].pending:
                bad = {"class": "no-log", "detail": [what + f" wrote no log ({b[0].get('e', 'success')})"]}
                break
            count("not resolved")
            continue
        if b[1].pending or "r" in b[0]:
            text = ops.log_text(log)
            seen[-1].append(hashlib.sha256(text.encode()).hexdigest()[:10])
            d = judge(c, b[0], b[1], text, sc["docs"][c["d"]])
            if d:
                bad = {"class": "log-wrong", "detail": [what] + d}
                break
            count("logs read")
            logs[log] = text
            if c.get("inject"):
                # cut short: what is written is a complete document with the beginning of the full log
                x = "cut%d.log.html" % n
                o, _, s = attempt(desk, c, x, c["inject"])
                steps += s.step
                if s.fired and "e" in o and os.path.exists(x) and not (
                        s.fired[0][4] in ("html_generator.py", "logger.py") and ops.log_text(x)[:1] == "?"):
                    count("cut short")
                    t = ops.log_text(x)
                    full, part = body(text), body(t)
                    if part is None or not full.startswith(part):
                        bad = {"class": "log-cut", "detail": [what + f" interrupted by {s.fired} left a log that is not the "
                                                              f"beginning of the full one: {t[-300:]!r}"]}
                        break
    if not bad:
        for log, text in logs.items():
            if ops.log_text(log) != text:
                bad = {"class": "log-changed-later", "detail": [log]}
    return {"bad": bad, "stats": st, "steps": steps,
            "sig": hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:16] if logs else None,
            "digest": hashlib.sha256(json.dumps(seen).encode()).hexdigest()[:16],
            "sample": {"calls": [{k: v for k, v in c.items()} for c in sc["calls"]], "did": st}}


def body(text):
    m = re.search(r"<body>(.*)<script>\s*window.onload", text, re.S)
    return m.group(1).rstrip() if m else None


def shrink(sc):
    for l in sh.seq(sc["calls"], keep=1):
        yield {**sc, "calls": l}
    for k, c in enumerate(sc["calls"]):
        def put(x):
            return {**sc, "calls": sc["calls"][:k] + [x] + sc["calls"][k + 1:]}
        for p in agenda.shrink(c["agenda"]):
            yield put({**c, "agenda": p})
        if c.get("by", "process") != "process":
            yield put({**c, "by": "process"})
        if "inject" in c:
            yield put({a: b for a, b in c.items() if a != "inject"})
    for i, d in enumerate(sc["docs"]):
        for b in docs.shrink(d):
            yield {**sc, "docs": sc["docs"][:i] + [b] + sc["docs"][i + 1:]}

"""Termination: meaningful, broken, chaotic and schema-violating descriptions; the verdict must come, and be a device or a
library error."""
import hashlib

from sim import agenda, ast, canon, gen, sched, shrink as sh
from sim.ast import clone, walk
from sim.worlds import _resolver as w
from sim.worlds._knobs import KNOBS


def chaos(a, r):
    """arbitrary derivedFrom graph: wrong levels, cycles, ancestors, shared and missing names"""
    a = clone(a)
    nodes = [n for n, _ in walk(a) if n["k"] != "device"]

    def full(path):
        q, n = [], a
        for i in path:
            n = n["c"][i]
            q.append(n["p"].get("name") or "?")
        return q
    paths = [full(p) for n, p in walk(a) if p]
    for _ in range(r.range(1, 6)):
        n = r.pick(nodes)
        p = list(r.pick(paths))
        if r.p(0.3):
            p = p[r.below(len(p)):]
        if r.p(0.1):
            p.append(r.pick(paths)[-1])
        if r.p(0.05):
            p[r.below(len(p))] = r.pick(["", "%s", "Nope", "[%s]"])
        n["df"] = ".".join(p)
        if r.p(0.5):
            for t in ("dim", "dimIncrement", "dimIndex"):
                n["p"].pop(t, None)
        if r.p(0.3):
            n["c"] = []
    if r.p(0.2):
        n = r.pick(nodes)
        n["p"]["name"] = r.pick(nodes)["p"].get("name") or "X"
    return a


VALUES = ["", "  ", "0", "-1", "5", "0x10", "abc", "[%s]", "A%s", "%s", "[3:7]", "[7:3]", "7:3", "[1:x]", "[2:]", "0-3", "0-3x", "3-0-1",
          "A-C", "A-Cx", "B-A", "a,b", "a,,b", "true", "1", "1e3", "0xx1", "#1x0x", "0b", "0b1x", "x", "read-only", "oneToClear",
          "\u00b2", "12", "1_0", "A.B", ".", "..", "any", "uint8_t", "\u0663"]


def mess(r):
    k = r.pick(["remove", "copy", "text", "twin", "empty", "attr", "attr", "move", "rename"])
    return [k, r.below(1 << 20), r.pick(VALUES), r.below(1 << 20)]


def messed(data, edits):
    """the document after edits that keep it well-formed"""
    from lxml import etree
    root = etree.fromstring(data)

    def clone(e):
        return etree.fromstring(etree.tostring(e))
    for k, where, text, other in edits:
        els = [e for e in root.iter() if isinstance(e.tag, str) and e is not root]
        if not els:
            break
        e = els[where % len(els)]
        leaf = len(e) == 0
        if k == "remove":
            e.getparent().remove(e)
        elif k == "copy":
            e.addnext(clone(e))
        elif k == "text" and leaf:
            e.text = text
        elif k == "twin" and leaf:
            n = clone(e)
            n.text = text
            (e.addnext if other % 2 else e.addprevious)(n)
        elif k == "empty":
            (e.addnext if other % 2 else e.addprevious)(etree.Element(e.tag))
        elif k == "attr":
            if e.tag in ("peripheral", "cluster", "register", "field", "enumeratedValues") and other % 4:
                names = [x.text or "" for x in root.iter("name")]
                e.set("derivedFrom", names[other % len(names)] if names and other % 3 else text)
            else:
                e.set("derivedFrom", text)
        elif k == "move":
            e.getparent().append(e)
        elif k == "rename":
            e.tag = els[other % len(els)].tag
    return etree.tostring(root)


def scenario(rng, i, tier):
    sc = w.make(rng, i, tier, KNOBS["R06"])
    r = rng.fork("break")
    k = r.below(6)
    sc["kind"] = "valid"
    if k >= 4:
        sc["kind"] = "messy"
        sc["edits"] = [mess(r) for _ in range(r.pick([1, 1, 1, 2, 3, 5]))]
    elif k == 0:
        b = gen.break_it(sc["ast"], r)
        if b:
            sc["kind"], sc["ast"] = b
    elif k < 3:
        sc["kind"], sc["ast"] = "chaos", chaos(sc["ast"], r)
    return sc


def refusal(e):
    """an error of the library, or what it raises for a value that it cannot read"""
    return w.library_error(e) or isinstance(e, NotImplementedError)


def messy(sc):
    from svdsuite.process import Process
    from svdsuite.map import PeripheralRegisterMap
    data = messed(ast.render(sc["ast"], noise=sc["noise"]), sc["edits"])
    s = sched.Sched(budget=w.budget(sc["ast"]))

    def body():
        with agenda.use(sc["agenda"]):
            d = Process(w.load(data), None).get_processed_device()
            return canon.processed(d), canon.regmap(PeripheralRegisterMap(d))
    r = s.call(body)
    bad, label = None, "device" if r[0] == "ok" else "rejected"
    if b"isDefault" in data and (s.over or (r[0] == "exc" and isinstance(r[1], MemoryError))):
        label = "huge"                      # a default value stands for 2**width values
    elif s.over:
        bad = {"class": "no-answer", "detail": [f"still running after {s.step} executed lines"]}
    elif r[0] == "exc" and not refusal(r[1]):
        bad = {"class": "foreign-error", "detail": [repr(r[1])[:300], sched.tb(r[1])]}
    elif r[0] == "exc" and isinstance(r[1], NotImplementedError):
        label = "unreadable value"
    dg = hashlib.sha256(repr(r[1] if r[0] == "ok" else canon.exc(r[1])).encode()).hexdigest()[:16]
    return {"bad": bad, "stats": {"outcome." + label: 1}, "steps": s.step, "digest": dg,
            "sig": hashlib.sha256(data).hexdigest()[:16], "sample": {"edits": sc["edits"], "outcome": label}}


def execute(sc, ctx):
    out = messy(sc) if "edits" in sc else w.execute(sc, ctx)
    out["stats"]["kind." + sc.get("kind", "?")] = 1
    return out


def shrink(sc):
    if "edits" in sc:
        for l in sh.seq(sc["edits"], keep=1):
            yield {**sc, "edits": l}
    yield from w.shrinker(sc)

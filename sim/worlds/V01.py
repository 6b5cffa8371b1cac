"""Histories and threads of validations of valid and invalid documents against all schema versions; every verdict is the
one lxml gives for the shipped schema in a process without history."""
import hashlib
import json
import os

from sim import canon, docs, ops, sched, shrink as sh
from sim.pristine import Pristine
from sim.rng import Rng

CPU = ["CM0", "CM3", "CM4", "CM7", "CM1", "CM23", "CM33", "CM35P", "CM52", "CM55", "CM85", "ARMV8MML", "ARMV81MML", "SMC1", "CA7",
       "CM99"]


GOLDEN = 1500
RECORD = {}


def prepare():
    ops.fake_dot()


# ------------------------------------------------------------------------------------------------- documents
def text(r):
    """a small document that some schema versions accept and others do not"""
    L = []

    def tag(n, v, p=1.0, ind=1):
        if r.p(p):
            L.append("  " * ind + f"<{n}>{v}</{n}>")

    def dims(p, ind):
        if r.p(p):
            tag("dim", r.pick(["2", "0x2"]), ind=ind)
            tag("dimIncrement", "4", ind=ind)
            tag("dimIndex", r.pick(["0-1", "A,B", "A-B"]), 0.4, ind)
            tag("dimName", "Idx", 0.15, ind)
            tag("dimArrayIndex", "<enumeratedValue><name>a</name><value>0</value></enumeratedValue>", 0.2, ind)
            return True
        return False
    rare = r.pick([0.0, 0.0, 0.0, 0.1, 0.3])
    odd = 1 if rare else 0
    tag("vendor", "V", 0.5)
    tag("name", r.pick(["Dev", "D-ev"][:1 + odd * r.below(2)]))
    tag("version", "1.0")
    tag("description", r.pick(["text", "text", "text", "\u00e4", "\u20ac"][:4 + odd]))
    if r.p(0.8):
        L.append("  <cpu>")
        tag("name", r.pick(CPU[:4] if r.p(0.4) else CPU), ind=2)
        tag("revision", r.pick(["r0p0", "r1"][:1 + odd]), ind=2)
        tag("endian", "little", ind=2)
        tag("mpuPresent", r.pick(["true", "1", "1", "0"]), 0.95 - 0.2 * odd, 2)
        tag("fpuPresent", "false", 0.95 - 0.2 * odd, 2)
        tag("fpuDP", "1", rare, 2)
        tag("dspPresent", "true", rare, 2)
        tag("nvicPrioBits", r.pick(["4", "2", "8", "9"] if r.p(rare) else ["4"]), ind=2)
        tag("vendorSystickConfig", "false", ind=2)
        L.append("  </cpu>")
    tag("addressUnitBits", "8")
    tag("width", "32")
    tag("size", "0x20", 0.7)
    tag("access", "read-write", 0.3)
    tag("protection", "s", rare)
    tag("resetValue", "0x0", 0.6)
    tag("resetMask", "0xFFFFFFFF", 0.6)
    L.append("  <peripherals>")
    n = r.range(1, 3)
    for k in range(n):
        df = f' derivedFrom="P{k - 1}"' if k and r.p(0.3) else ""
        L.append(f"    <peripheral{df}>")
        arr = dims(rare, 3)
        tag("name", f"P{k}[%s]" if arr else f"P{k}", ind=3)
        tag("description", "p", 0.7, 3)
        tag("groupName", r.pick(["G", "G", "1G"] if r.p(rare) else ["G"]), 0.6, 3)
        tag("baseAddress", "0x%X" % (0x40000000 + 0x1000 * k), ind=3)
        tag("size", "32", 0.2, 3)
        L.append("      <addressBlock>")
        tag("offset", "0", ind=4)
        tag("size", "0x100", ind=4)
        tag("usage", "registers", ind=4)
        tag("protection", r.pick(["s", "p"]), rare, 4)
        L.append("      </addressBlock>")
        L.append("      <registers>")
        for m in range(r.range(1, 2)):
            df = r.pick([f' derivedFrom="P{k}.R0"', ' derivedFrom="R0"']) if m and r.p(0.4) else ""
            L.append(f"        <register{df}>")
            arr = dims(rare, 5)
            tag("name", f"R{m}%s" if arr else f"R{m}", ind=5)
            tag("description", "r", 0.9, 5)
            tag("addressOffset", "0x%X" % (16 * m), ind=5)
            tag("access", r.pick(["read-only", "read-write", "write"] if r.p(rare) else ["read-only"]), 0.4, 5)
            if r.p(0.6):
                L.append("          <fields><field>")
                tag("name", "F", ind=6)
                tag("description", "f", 0.8, 6)
                tag("bitRange", r.pick(["[3:0]", "[31:0]", "[63:60]"] if r.p(rare) else ["[3:0]"]), ind=6)
                if r.p(0.5):
                    L.append(r.pick(["            <enumeratedValues>", "            <enumeratedValues>",
                                     '            <enumeratedValues derivedFrom="P0.R0.F.E">']))
                    tag("name", r.pick(["E", "E", "E%s"][:2 + odd]), 0.7, 7)
                    tag("headerEnumName", "H", rare, 7)
                    if r.p(0.9):
                        L.append("              <enumeratedValue>")
                        tag("name", r.pick(["on", "on", "1on"][:2 + odd]), ind=8)
                        tag("value", r.pick(["1", "0x1", "#x1", "0b1", "1x"] if r.p(rare) else ["1"]), ind=8)
                        L.append("              </enumeratedValue>")
                    L.append("            </enumeratedValues>")
                L.append("          </field></fields>")
            L.append("        </register>")
        L.append("      </registers>")
        L.append("    </peripheral>")
    L.append("  </peripherals>")
    for _ in range(r.pick([0, 0, 0, 0, 0, 0, 1, 2])):
        k = r.below(5)
        leaf = [i for i, x in enumerate(L) if "</" in x and x.strip()[1] != "/"]
        i = r.pick(leaf)
        if k == 0:
            L.pop(i)
        elif k == 1:
            L.insert(i, L[i])
        elif k == 2:
            L[i], L[i - 1] = L[i - 1], L[i]
        elif k == 3:
            L.insert(i, "  <extra>1</extra>")
        else:
            L[i] = L[i].replace(">", ">x", 1)
    ver = r.pick(["1.0", "1.1", "1.1", "1.2"] + ["1.3"] * 8 + ["1.3.11"][:odd])
    return ("\n".join(['<?xml version="1.0" encoding="%s"?>', f'<device schemaVersion="{ver}" '
                       'xmlns:xs="http://www.w3.org/2001/XMLSchema-instance">'] + L + ["</device>"]))


def vdoc(r):
    enc = r.pick(["utf-8", "utf-8", "utf-8", "utf-16"])
    return {"raw": text(r).replace("%s", enc, 1), "enc": enc, "dmg": [docs.damage(r) for _ in range(r.pick([0, 0, 0, 0, 0, 0, 1]))]}


def golden(g):
    """documents whose verdicts are on record (mkverdicts.py)"""
    return {"raw": text(Rng(7, "golden", g)).replace("%s", "utf-8", 1), "enc": "utf-8", "dmg": []}


def on_record(data, v):
    """the verdict on record for these bytes, if there is one"""
    if not RECORD:
        with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "verdicts.json")) as f:
            RECORD.update(json.load(f))
    bits = RECORD["docs"].get(hashlib.sha256(data).hexdigest()[:16])
    return None if bits is None else bits[RECORD["versions"].index(v or RECORD["newest"])] == "1"


def scenario(rng, i, tier):
    r = rng.fork("sc")
    nd = r.range(2, 4)
    pool = [vdoc(r.fork("doc")) for _ in range(nd)]
    if r.p(0.5):
        pool[0] = golden(r.below(GOLDEN))
    if r.p(0.3):
        pool[-1] = docs.doc(r.fork("gen"))
    if r.p(0.25):                             # the same document, one line less
        x = pool[0]["raw"].split("\n")
        x.pop(2 + r.below(len(x) - 4))
        pool[1] = {**pool[0], "raw": "\n".join(x)}
    n = r.weighted([(1, 5), (2, 3), (3, 1)])
    few = r.sample(ops.VERSIONS, 2)
    lists = []
    for t in range(n):
        l = []
        for _ in range(r.range(3, 8) if n == 1 else r.range(1, 3)):
            k = r.below(20)
            if n == 1 and k == 0:
                l.append({"op": "rewrite", "d": r.below(nd), "as": r.below(nd)})
            elif n == 1 and k == 1:
                l.append({"op": r.pick(["parse", "process", "serialize"]), "d": r.below(nd), "src": "content", "pretty": 0, "decl": 0})
            else:
                o = {"op": "validate", "d": r.below(nd), "src": r.pick(["content", "file", "str"]), "exc": r.below(2),
                     "v": r.pick(few) if r.p(0.4) else r.pick(ops.VERSIONS + [None, None, None])}
                if n == 1 and r.p(0.12):
                    o["inject"] = [[1 + r.below(60), r.pick(["KeyboardInterrupt", "MemoryError"])]]
                l.append(o)
            if n == 1 and r.p(0.2):           # once more
                l.append(dict(l[-1]))
        lists.append(l)
    sw = []
    at = 0
    d = r.pick([1, 3, 10, 40])
    while n > 1 and at < 900:
        at += 1 + r.below(2 * d)
        sw.append([at, r.below(n)])
    return {"docs": pool, "ops": lists, "switch": sw, "order": r.below(n)}


# ------------------------------------------------------------------------------------------------- oracle
def verdict(data, how, v, exc):
    """the shipped schema, straight"""
    import lxml.etree as E
    import svdsuite
    if v is None:
        d = os.path.join(os.path.dirname(svdsuite.__file__), "schema")
        v = max((f[:-4] for f in os.listdir(d) if f.endswith(".xsd")), key=lambda x: [int(y) for y in x.split(".")])
    with open(os.path.join(os.path.dirname(svdsuite.__file__), "schema", v + ".xsd"), "rb") as f:
        schema = E.XMLSchema(E.parse(f))
    try:
        if how == "file":
            tree = E.parse(data)
        else:
            p = E.XMLParser(encoding="utf-8") if isinstance(data, str) else E.XMLParser()
            tree = E.fromstring(data.encode() if isinstance(data, str) else data, parser=p).getroottree()
    except (E.XMLSyntaxError, OSError):
        return None
    if schema.validate(tree):
        return {"r": True}
    if not exc:
        return {"r": False}
    try:
        schema.assertValid(tree)
    except E.DocumentInvalid as e:
        return {"e": canon.exc(e)}
    raise AssertionError


def oracle(home, blobs, enc, op):
    """-> the outcome of one validation in a process without history"""
    desk = ops.Desk.__new__(ops.Desk)
    desk.bytes, desk.enc, desk.home, desk.parsed, desk.processed, desk.late = [b.encode("latin-1") for b in blobs], enc, home, {}, {}, False
    os.chdir(home)
    for i, b in enumerate(desk.bytes):
        with open("in%d.svd" % i, "wb") as f:
            f.write(b)
    how = op["src"]
    data = "in%d.svd" % op["d"] if how == "file" else desk.text(op["d"]) if how == "str" else desk.bytes[op["d"]]
    v = verdict(data, how, op["v"], op["exc"]) if op["op"] == "validate" else None
    sched.take_warnings()
    s = sched.Sched(budget=20_000_000)
    r = s.run([lambda: desk.do(op)])[0]
    own = r[1] if r[0] == "ok" else {"e": ["!" + repr(r[1])[:200], "", []], "w": []}
    return [v, own]


def execute(sc, ctx):
    home = ctx.dir()
    desk = ops.Desk(sc["docs"], home).sweeping()
    bad, st, seen = None, {}, []

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    got = [[] for _ in sc["ops"]]
    inputs = [[] for _ in sc["ops"]]
    single = len(sc["ops"]) == 1

    def body(t, todo):
        for o in todo:
            if o["op"] == "rewrite":
                b = desk.bytes[o["as"]]
                desk.bytes[o["d"]], desk.enc[o["d"]] = b, desk.enc[o["as"]]
                with open("in%d.svd" % o["d"], "wb") as f:
                    f.write(b)
                os.utime("in%d.svd" % o["d"], ns=(10**18, 10**18))
                got[t].append(None)
                inputs[t].append(None)
                continue
            inputs[t].append([list(desk.bytes), list(desk.enc)])
            got[t].append(desk.do(o))
    with Pristine() as pri:
        steps = 0
        sched.take_warnings()
        if single:
            for o in sc["ops"][0]:
                s = sched.Sched(plan={"inject": o.get("inject", [])}, budget=8_000_000)
                s.call(lambda: body(0, [o]))  # noqa: B023
                steps += s.step
                if s.fired and got[0]:
                    got[0][-1] = None
                    count("interrupted")
            switches = 0
        else:
            s = sched.Sched(plan={"switch": sc["switch"], "order": sc["order"]}, budget=8_000_000)
            s.run([lambda t=t: body(t, sc["ops"][t]) for t in range(len(sc["ops"]))])
            steps, switches = s.step, s.switches
            if s.deadlock:
                bad = {"class": "deadlock", "detail": [str(s.deadlock)]}
        count("switches", switches)
        for t, l in enumerate(sc["ops"]):
            for k, o in enumerate(l):
                g = got[t][k] if k < len(got[t]) else {"e": ["!no answer", "", []], "w": []}
                seen.append(g)
                if g is None or bad:
                    continue
                b, enc = inputs[t][k]
                op = {a: x for a, x in o.items() if a != "inject"}
                v, own = pri.ask(oracle, home, [x.decode("latin-1") for x in b], enc, op)
                what = f"thread {t}, call {k}: {ops.brief(op)}"
                d = ops.compare(own, g)
                if d:
                    bad = {"class": "verdict-depends", "detail": [what + " ends otherwise than in a fresh process"] + d}
                elif v is not None:
                    d = canon.diff(v.get("r"), g.get("r"), "verdict") or canon.diff(v.get("e"), g.get("e"), "error")
                    if d:
                        bad = {"class": "verdict-wrong", "detail": [what + " differs from the shipped schema"] + d}
                    rec = on_record(b[o["d"]], o["v"])
                    if rec is not None:
                        count("on record")
                        if rec != (g.get("r") is True):
                            bad = {"class": "verdict-changed", "detail": [what + f" ends with {g}; the schema of that version "
                                                                          f"{'accepts' if rec else 'rejects'} this document"]}
                    count("valid" if v.get("r") else "invalid")
                    count("version.%s" % o.get("v"))
                else:
                    count("other")
    return {"bad": bad, "stats": st, "steps": steps,
            "sig": hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:16],
            "digest": hashlib.sha256(json.dumps(seen).encode()).hexdigest()[:16],
            "sample": {"calls": [[ops.brief({k: v for k, v in o.items() if k != "inject"}) for o in l] for l in sc["ops"]], "did": st}}


def shrink(sc):
    n = len(sc["ops"])
    if n > 1:
        for t in range(n):
            yield {**sc, "ops": sc["ops"][:t] + sc["ops"][t + 1:], "order": 0,
                   "switch": [[a, b % (n - 1)] for a, b in sc["switch"]]}
    for t in range(n):
        for l in sh.seq(sc["ops"][t], keep=1):
            yield {**sc, "ops": sc["ops"][:t] + [l] + sc["ops"][t + 1:]}
    for sw in sh.seq(sc["switch"]):
        yield {**sc, "switch": sw}
    for i, d in enumerate(sc["docs"]):
        for b in docs.shrink(d):
            yield {**sc, "docs": sc["docs"][:i] + [b] + sc["docs"][i + 1:]}

"""Histories of loads and saves of descriptions that are valid for a version of the schema: whatever is written has to be
valid for that version, too."""
import hashlib
import json
import os
import re

from lxml import etree

from sim import ast, docs, ops, sched, shrink as sh

VERSIONS = ["1.0", "1.1", "1.2"] + ["1.3.%d" % i for i in range(1, 12)]
SCHEMAS = {}
KNOBS = {"p_enum": 0.6, "p_df": [0, 0.2], "fields": [1, 2, 3], "p_drop": [0, 0, 0.2], "max_nodes": 30, "depth": [0, 1, 2]}


def prepare():
    ops.fake_dot()


def schema(v):
    if v not in SCHEMAS:
        import svdsuite
        SCHEMAS[v] = etree.XMLSchema(etree.parse(os.path.join(os.path.dirname(svdsuite.__file__), "schema", v + ".xsd")))
    return SCHEMAS[v]


def prune(data, v):
    """drop or add what the schema does not want or misses -> valid document, or None"""
    t, s = etree.fromstring(data), schema(v)
    t.set("schemaVersion", v[:3])
    for _ in range(400):
        if s.validate(t):
            return etree.tostring(t).decode()
        e = s.error_log[0]
        n = t.getroottree().xpath(e.path)[0]
        m = re.search(r"Expected is (?:one of )?\( ([^)]*)\)", e.message)
        need = [x for x in ("description", "name") if m and x in re.split(r"[ ,]+", m.group(1))]
        a = re.search(r"attribute '([^']*)'", e.message)
        if need and "Missing child" in e.message:
            etree.SubElement(n, need[0]).text = "t"
        elif need and "not expected" in e.message:
            k = etree.Element(need[0])
            k.text = "t"
            n.addprevious(k)
        elif a and a.group(1) in n.attrib:
            del n.attrib[a.group(1)]
        elif n.getparent() is not None:
            n.getparent().remove(n)
        else:
            return None
    return None


def document(r, v):
    for k in range(20):
        d = docs.doc(r.fork(f"doc{k}"), KNOBS)
        raw = prune(ast.render(d["ast"], noise=d["noise"]), v)
        if raw is not None and raw.count("<") > 30:
            return {"raw": raw, "enc": "utf-8", "dmg": []}
    return None


def scenario(rng, i, tier):
    r = rng.fork("sc")
    pool, vers, nd = [], [], r.range(1, 2)
    while len(pool) < nd:
        v = r.pick(VERSIONS[:3] + VERSIONS[3:] * 2)
        d = document(r.fork(f"d{len(pool)}"), v)
        if d:
            pool.append(d)
            vers.append(v)
    calls = []
    for _ in range(r.range(2, 6)):
        c = ops.draw(r, len(pool), ["serialize", "serialize", "serialize", "save", "save", "process", "validate", "map"])
        c["again"] = r.pick([0, 0, 1, 2])
        if r.p(0.1):
            c["inject"] = [sched.strike(r, 7, 14, ["KeyboardInterrupt", "MemoryError"])]
        calls.append(c)
    return {"docs": pool, "versions": vers, "calls": calls}


def execute(sc, ctx):
    from svdsuite import Parser, Serializer
    desk = ops.Desk(sc["docs"], ctx.dir()).sweeping()
    bad, st, steps, seen = None, {}, 0, []
    fit = [schema(v).validate(etree.fromstring(b)) for v, b in zip(sc["versions"], desk.bytes)]

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    for n, c in enumerate(sc["calls"]):
        i = c["d"]
        if not fit[i]:
            count("unfit document")
            continue
        s = sched.Sched(plan={"inject": c.get("inject") or []}, budget=8_000_000)

        def body():
            if c["src"] == "shared":
                desk.share([c])
            return desk.call(c)
        r = s.call(body)
        steps += s.step
        count("op." + c["op"])
        if c.get("inject"):
            count("cut short")
            desk.parsed.pop(i, None)
            desk.processed.pop(i, None)
            continue
        if c["op"] not in ("serialize", "save"):
            continue
        what = f"call {n} ({ops.brief({k: c[k] for k in ('op', 'd', 'src')})}, schema {sc['versions'][i]})"
        if r[0] != "ok":
            bad = {"class": "cannot-save", "detail": [what, f"{type(r[1]).__name__}: {str(r[1])[:200]}"]}
            break
        out = r[1]
        for k in range(c["again"] + 1):
            seen.append(hashlib.sha256(out.encode()).hexdigest()[:8])
            count("judged")
            x = schema(sc["versions"][i])
            try:
                ok = x.validate(etree.fromstring(out.encode() if out.startswith("<?xml") else out))
                why = "" if ok else str(x.error_log[0].message)
            except etree.XMLSyntaxError as e:
                ok, why = False, "not well-formed: " + str(e)
            if not ok:
                bad = {"class": "does-not-conform", "detail": [what, f"round {k}", why[:300]]}
                break
            if k < c["again"]:
                out = Serializer.device_to_svd_content(Parser.from_xml_content(out.encode()).get_parsed_device(),
                                                       bool(c["pretty"]), bool(c["decl"])).decode()
        if bad:
            break
    return {"bad": bad, "stats": {**st, **{"schema." + v: 1 for v in sc["versions"]}}, "steps": steps,
            "sig": hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:16],
            "digest": hashlib.sha256(json.dumps(seen).encode()).hexdigest()[:16],
            "sample": {"versions": sc["versions"], "calls": sc["calls"], "did": st}}


def less(raw):
    """the document without one element"""
    t = etree.fromstring(raw)
    for k in range(1, sum(1 for _ in t.iter())):
        u = etree.fromstring(raw)
        x = list(u.iter())[k]
        x.getparent().remove(x)
        yield etree.tostring(u).decode()


def shrink(sc):
    for l in sh.seq(sc["calls"], keep=1):
        yield {**sc, "calls": l}
    for k, c in enumerate(sc["calls"]):
        for key, v in (("src", "content"), ("op", "serialize"), ("again", 0), ("pretty", 0), ("decl", 1)):
            if key in c and c[key] != v:
                yield {**sc, "calls": sc["calls"][:k] + [{**c, key: v}] + sc["calls"][k + 1:]}
    for i, d in enumerate(sc["docs"]):
        for raw in less(d["raw"]):
            if schema(sc["versions"][i]).validate(etree.fromstring(raw)):
                yield {**sc, "docs": sc["docs"][:i] + [{**d, "raw": raw}] + sc["docs"][i + 1:]}

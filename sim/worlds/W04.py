"""Histories of readings of descriptions that lack something mandatory, hold unreadable values, or spell values in other
permitted ways; every reading either refuses or reads exactly what the description says."""
import hashlib
import json
import os
import re

from sim import ast, canon, docs, model, ops, rng as rngs, sched, shrink as sh
from sim.worlds import W03

FAULTS = ["lack", "lack", "lack", "garble", "garble", "garble", "garble"]
MUST = {"device": ["name", "version", "addressUnitBits", "width", "peripherals"],
        "cpu": ["name", "revision", "endian", "nvicPrioBits", "vendorSystickConfig"],
        "region": ["base", "limit", "access"], "peripheral": ["name", "baseAddress"], "cluster": ["name", "addressOffset"],
        "register": ["name", "addressOffset"], "field": ["name"], "enumeratedValue": ["name"],
        "range": ["minimum", "maximum"], "addressBlock": ["size", "usage"], "interrupt": ["name"]}
NUMBERS = ast.INTS | {"offset", "base", "limit", "minimum", "maximum"}
WORDS = {"access", "protection", "usage", "modifiedWriteValues", "readAction", "endian", "dataType"}
BAD = {"number": ["0x", "12abc", "0xZZ", "1.5", "#12", "twelve", "0x1 0", "1e3", "--1", "12 4", "1,000", "$U", "FFh", "0x-1",
                  "#0x1", "true", "$,1", "$ $"],
       "bool": ["maybe", "yes", "2", "tru", "on", "true false", "10", "-1", "t", "None"],
       "word": ["JUNK", "$x", "$ $", "$,", "x$", "0", "read only"],
       "range": ["7:0", "[7-0]", "[a:0]", "[7:]", "[:0]", "(7:0)", "[7:0:0]", "[0x7:0]", "7", "[[$]]", "[$]5", "[$] [$]"],
       "pattern": ["0xZZ", "#12", "12abc", "-1", "1.5", "0b2", "twelve", "0x", "#", "$ $", "$,1", "$U"]}


def prepare():
    ops.fake_dot()


def scenario(rng, i, tier):
    r = rng.fork("sc")
    nd = r.range(1, 3)
    pool = [{**d, "dmg": []} for d in docs.pool(r.fork("docs"), nd, {"irqs": 2})]
    for d in pool:
        d["fault"] = [[r.pick(FAULTS), r.below(1 << 30)] for _ in range(r.pick([0, 1, 1, 1, 1, 2]))]
        d["spell"] = [r.below(1 << 30) for _ in range(r.pick([0, 0, 2, 8]))]
    calls = []
    for _ in range(r.range(1, 7)):
        c = {"d": r.below(nd), "src": r.pick(["content", "str", "file"]),
             "op": r.pick(["parse", "parse", "process", "map", "convert", "log", "serialize", "save"]), "to": "x",
             "pretty": 0, "decl": 1, "filter": r.pick(["always", "always", "ignore", "error"])}
        if r.p(0.08):
            c["inject"] = [sched.strike(r, 7, 13, ["KeyboardInterrupt", "MemoryError"])]
        calls.append(c)
    return {"docs": pool, "calls": calls}


# ------------------------------------------------------------------------------------------------- faulty documents
def sort(e):
    """what the text of a leaf has to be"""
    up = e.getparent().tag
    if e.tag in ast.BOOLS:
        return "bool"
    if e.tag in NUMBERS or e.tag == "value" and up == "interrupt":
        return "number"
    if e.tag == "access" and up != "region":      # an unknown one is left out with a warning: see W03
        return None
    if e.tag in WORDS or e.tag == "name" and up == "cpu":
        return "word"
    if e.tag == "value" and up == "enumeratedValue":
        up = e.getparent().getparent()                # values of a container that is derived are not used
        return "pattern" if up.tag == "enumeratedValues" and "derivedFrom" not in up.attrib else None
    return "range" if e.tag == "bitRange" else None


def spelling(e):
    """in which way its text may be spelt otherwise"""
    k = sort(e)
    if k in ("bool", "number"):
        return k
    up = e.getparent().tag
    return "access" if e.tag == "access" and up != "region" else "cpu" if (up, e.tag) == ("cpu", "name") else None


def respell(kind, t, r):
    if kind == "bool":
        return r.pick(["true", "1", "TRUE", "True"] if t.lower() in ("true", "1") else ["false", "0", "FALSE", "False"])
    if kind == "number":
        v = int(t.replace("#", "0b"), 0) if not t.isdigit() else int(t)
        forms = [str(v), hex(v), "0X%X" % v, "0x%X" % v, "0x%012x" % v, "000%d" % v, "+%d" % v]
        if v < 1 << 20:
            forms += ["#" + bin(v)[2:], "#000" + bin(v)[2:]]
        return r.pick(forms)
    if kind == "access":                              # in any case; two are known by a shorter name as well
        short = {"read-only": "read", "write-only": "write"}
        t = r.pick([short.get(t.lower(), t), t])
        return r.pick([t, t.upper(), t.capitalize(), t.title(), t.swapcase()])
    return r.pick([t.lower(), t.upper(), t.title()]) if kind == "cpu" and t != "CM0+" else t


def spoil(d):
    """-> (bytes, AST, words the refusal may be about | None if the description is fine, only processing refuses)"""
    import lxml.etree as et
    root = et.fromstring(ast.render(d["ast"], noise=d["noise"], encoding=d["enc"]), et.XMLParser(remove_comments=True, remove_pis=True))
    for e in root.findall("vendorExtensions"):
        root.remove(e)
    used, faults, late, spelt = set(), [], True, {}

    def leaves(every=False):
        return [e for e in root.iter(et.Element) if len(e) == 0 and e.text and e.getparent() is not None
                and e not in used and (every or sort(e))]
    for seed in d["spell"]:
        r = rngs.Rng(seed)
        l = [(e, k) for e, k in ((e, spelling(e)) for e in leaves(True)) if k]
        if l:
            k = r.pick(sorted({k for _, k in l}))
            e = r.pick([e for e, q in l if q == k])
            e.text = respell(k, e.text, r)
            spelt[k] = spelt.get(k, 0) + 1
    for kind, seed in d["fault"]:
        r = rngs.Rng(seed)
        if kind == "garble":
            k = r.pick(sorted({sort(e) for e in leaves()} - {None}))
            tags = sorted({e.tag for e in leaves() if sort(e) == k})
            tag = r.pick(tags)
            e = r.pick([e for e in leaves() if sort(e) == k and e.tag == tag])
            e.text = r.pick(BAD[k]).replace("$", e.text.strip("[]") if k == "range" else e.text)
            used.add(e)
            late = late and k in ("range", "pattern")
            faults.append([kind, e.tag, e.text])
        else:
            spots = [(up, t) for up in sorted(MUST) for t in MUST[up] if root.find(".//%s/%s" % (up, t)) is not None
                     or up == "device" and root.find(t) is not None]
            up, t = r.pick(spots + [("device", "@schemaVersion")])
            if t[0] == "@":
                if root.attrib.pop(t[1:], None) is None:
                    continue
            else:
                e = r.pick([x for x in root.iter(t) if x.getparent().tag == up])
                if e in used:
                    continue
                if r.p(0.7) or len(e):
                    e.getparent().remove(e)
                else:
                    e.text = None
                    used.add(e)
            late = False
            faults.append([kind, t.strip("@"), up])
    return et.tostring(root, encoding=d["enc"], xml_declaration=True), d["ast"], faults, late, spelt


def execute(sc, ctx):
    made = [spoil(d) for d in sc["docs"]]
    home = ctx.dir()
    desk = W03.Desk([{"raw": "", "enc": d["enc"], "dmg": []} for d in sc["docs"]], home).sweeping()
    tidy = ops.Desk([{"ast": m[1], "noise": 0, "enc": "utf-8", "dmg": []} for m in made], home)
    for n, (b, *_) in enumerate(made):
        desk.bytes[n] = b
        with open("in%d.svd" % n, "wb") as f:
            f.write(b)
    bad, st, steps, seen, readable = None, {}, 0, [], {}

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    for m in made:
        for f in m[2]:
            count("fault." + f[0])
        for k, v in m[4].items():
            count("respelt." + k, v)
        count("faulty" if m[2] else "readable")
    for n, c in enumerate(sc["calls"]):
        what = f"call {n} ({ops.brief({k: c[k] for k in ('op', 'd', 'src')})}, filter {c['filter']})"
        i = c["d"]
        _, a, faults, late, _ = made[i]
        before = sorted(os.listdir("."))
        out, ws, s = W03.attempt(desk, c, c["filter"], c.get("inject"))
        steps += s.step
        seen.append([out.get("e"), ws])
        if c.get("inject"):
            count("cut short")
            continue
        if i not in readable:                 # a variant may have become unreadable by itself
            readable[i] = "r" in W03.attempt(tidy, {"op": "parse", "d": i, "src": "content"}, "ignore")[0]
        if not readable[i]:
            count("unreadable")
            continue
        refuses = faults and (not late or c["op"] in ("process", "map", "log", "convert"))
        untold = not a.get("schemaLocation") or "description" not in a["p"]
        if refuses:
            count("refusal expected")
            kinds = ["ParserException", "NotImplementedError"] + ["ParserWarning"] * (c["filter"] == "error" and untold)
            if "e" not in out:
                bad = {"class": "not-refused", "detail": [what, f"returned although {faults!r}"]}
            elif not (out["lib"] if late else out["e"][0] in kinds):
                bad = {"class": "other-error", "detail": [what, f"raised {out['e']!r} because of {faults!r}"]}
            elif out["e"][0] == "ParserException" and not late and not any(f[1] in out["text"] for f in faults):
                bad = {"class": "other-reason", "detail": [what, f"raised {out['e']!r} because of {faults!r}"]}
            elif sorted(os.listdir(".")) != before and not late:
                bad = {"class": "left-files", "detail": [what, repr(sorted(set(os.listdir(".")) ^ set(before)))]}
        elif c["filter"] == "error":
            count("strict")
        elif c["op"] == "parse":
            if "e" in out:
                d = [f"error {out['e']!r}"]
            else:
                d = canon.diff(model.parsed(a), out["r"][0], "device")
                if faults:
                    d = [x for x in d if not re.search(r"bit_range|enumerated_values.*\.value: ", x)]
            count("read")
            if d:
                bad = {"class": "other-meaning", "detail": [what] + d[:8]}
        elif not faults:
            ref, _, s = W03.attempt(tidy, {**c, "src": "str" if c["src"] == "str" else "content"}, "ignore")
            steps += s.step
            d = ops.compare({**ref, "w": []}, {**out, "w": []})
            count("compared")
            if d:
                bad = {"class": "other-meaning", "detail": [what] + d[:8]}
        if bad:
            break
    return {"bad": bad, "stats": st, "steps": steps,
            "sig": hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:16],
            "digest": hashlib.sha256(json.dumps(seen).encode()).hexdigest()[:16],
            "sample": {"calls": sc["calls"], "faults": [m[2] for m in made]}}


def shrink(sc):
    for l in sh.seq(sc["calls"], keep=1):
        yield {**sc, "calls": l}
    for i, d in enumerate(sc["docs"]):
        for key in ("fault", "spell"):
            for l in sh.seq(d[key]):
                yield {**sc, "docs": sc["docs"][:i] + [{**d, key: l}] + sc["docs"][i + 1:]}
    for k, c in enumerate(sc["calls"]):
        for key, v in (("src", "content"), ("op", "parse"), ("filter", "always")):
            if c[key] != v:
                yield {**sc, "calls": sc["calls"][:k] + [{**c, key: v}] + sc["calls"][k + 1:]}
        if "inject" in c:
            yield {**sc, "calls": sc["calls"][:k] + [{x: y for x, y in c.items() if x != "inject"}] + sc["calls"][k + 1:]}
    for i, d in enumerate(sc["docs"]):
        if not d["fault"]:
            for b in docs.shrink({k: v for k, v in d.items() if k not in ("fault", "spell")}):
                yield {**sc, "docs": sc["docs"][:i] + [{**b, "fault": [], "spell": d["spell"]}] + sc["docs"][i + 1:]}

"""Histories of readings of untidy descriptions; what each reading announces is compared with what it had to amend."""
import gc
import hashlib
import json
import os
import re
import warnings

from sim import ast, canon, docs, model, ops, rng as rngs, sched, shrink as sh

VERBATIM = ("description", "licenseText", "disableCondition")
KINDS = ["double", "double", "double", "pad", "pad", "pad", "attr", "attr", "novalue", "nodesc", "nolocation", "note", "noaccess"]
BLANKS = [" ", "  ", "\n", "\t", "\n    "]
XSI = "{http://www.w3.org/2001/XMLSchema-instance}noNamespaceSchemaLocation"


def prepare():
    ops.fake_dot()


def scenario(rng, i, tier):
    r = rng.fork("sc")
    nd = r.range(1, 3)
    pool = [{**d, "dmg": []} for d in docs.pool(r.fork("docs"), nd, {"irqs": 2})]
    for d in pool:
        d["amend"] = [[r.pick(KINDS), r.below(1 << 30)] for _ in range(r.pick([0, 1, 1, 2, 3, 6, 12]))]
    calls = []
    for _ in range(r.range(1, 6)):
        c = {"d": r.below(nd), "src": r.pick(["content", "str", "file"]),
             "op": r.pick(["parse", "parse", "process", "map", "convert", "log", "serialize"]), "to": "x", "pretty": 0,
             "decl": 1, "filter": r.pick(["always", "always", "always", "error", "ignore"])}
        if r.p(0.1):
            c["inject"] = [sched.strike(r, 7, 13, ["KeyboardInterrupt", "MemoryError"])]
        calls.append(c)
    return {"docs": pool, "calls": calls}


# ------------------------------------------------------------------------------------------------- untidy documents
def amend(d):
    """-> (bytes of the untidy document, AST of what it means, announcements: lists of words each one has to contain)"""
    import lxml.etree as et
    a = ast.clone(d["ast"])
    root = et.fromstring(ast.render(a, noise=d["noise"], encoding=d["enc"]), et.XMLParser(remove_comments=True, remove_pis=True))
    for e in root.findall("vendorExtensions"):
        root.remove(e)
    say, used = [], set()

    def leaves(ok=lambda e: True):
        return [e for e in root.iter(et.Element) if len(e) == 0 and e.text and e.text.strip() and e.getparent() is not root.getparent()
                and e not in used and ok(e)]
    for kind, seed in d["amend"]:
        r = rngs.Rng(seed)
        if kind == "double":
            l = leaves()
            if not l:
                continue
            e = r.pick(l)
            others = [x.text for x in root.iter(e.tag) if x.text and x is not e]
            t = r.pick(["JUNK", "0x77", "true", "a  b", "\u00fc"] + others[:3])
            x = et.Element(e.tag)
            x.text = t
            p = e.getparent()
            p.insert(r.range(0, p.index(e)), x)
            used.update((e, x))
            say.append([e.tag, t.strip(), e.text])
        elif kind == "pad":
            l = leaves(lambda e: e.tag not in VERBATIM)
            if not l:
                continue
            e = r.pick(l)
            how = r.below(3)
            old = e.text
            e.text = (r.pick(BLANKS) if how != 1 else "") + old + (r.pick(BLANKS) if how else "")
            used.add(e)
            say.append([e.tag, old])
        elif kind == "attr":
            l = [(e, k) for e in root.iter(et.Element) for k in e.attrib if not k.startswith("{") and (e, k) not in used]
            if not l:
                continue
            e, k = r.pick(l)
            used.add((e, k))
            say.append([k, e.get(k)])
            e.set(k, " " * r.below(2) + e.get(k) + " " * r.range(1, 2))
        elif kind == "novalue":
            l = [e for e in root.iter("interrupt") if e not in used]
            if not l:
                continue
            e = r.pick(l)
            v = e.find("value")
            if v in used or e.find("name") in used or len(e.findall("value")) > 1 or len(e.findall("name")) > 1:
                continue
            n = list(root.iter("interrupt")).index(e)
            irqs = [q for p in a["c"] for q in p.get("irq", [])]
            irqs[n]["value"] = 0
            used.update((e, v, e.find("name")))
            if r.p(0.5):
                e.remove(v)
            else:
                v.text = None
            say.append(["value", e.find("name").text])
        elif kind == "noaccess":               # a keyword nobody knows counts as none
            up = [e for e in root.iter(*ast.ORDER) if e.tag != "enums"] + [None]
            nodes = [n for n, _ in ast.walk(a) if n["k"] != "enums"] + [None]
            l = [(e, n) for e, n in zip(up, nodes) if n and "access" in n["p"] and e.find("access") not in used
                 and len(e.findall("access")) == 1]
            if len(up) != len(nodes) or not l:
                continue
            e, n = r.pick(l)
            x = e.find("access")
            used.add(x)
            x.text = r.pick(["JUNK", x.text + "x", x.text.replace("-", " "), "readwrite", "execute", "0"])
            if x.text in ("read-only", "write-only", "writeOnce", "read", "write"):
                x.text = "write only"
            n["p"].pop("access")
            say.append(["AccessType", x.text])
        elif kind == "nodesc":
            e = root.findall("description")
            if len(e) != 1 or e[0] in used:
                continue
            a["p"].pop("description")
            if r.p(0.7):
                root.remove(e[0])
            else:
                e[0].text = None
                used.add(e[0])
            say.append(["description"])
        elif kind == "nolocation" and XSI in root.attrib:
            del root.attrib[XSI]
            a["schemaLocation"] = None
            say.append(["noNamespaceSchemaLocation"])
        elif kind == "note":                   # a remark within a text is no part of it
            l = leaves()
            if not l:
                continue
            e = r.pick(l)
            used.add(e)
            x = et.Comment(" JUNK ") if r.p(0.8) else et.ProcessingInstruction("junk", "x")
            k = r.range(0, len(e.text))
            x.tail = e.text[k:] or None
            e.text = e.text[:k] or None
            e.insert(0, x)
    if "description" not in a["p"] and not any(x == ["description"] for x in say):
        say.append(["description"])
    if not a.get("schemaLocation") and not any(x == ["noNamespaceSchemaLocation"] for x in say):
        say.append(["noNamespaceSchemaLocation"])
    return et.tostring(root, encoding=d["enc"], xml_declaration=True), a, say


class Desk(ops.Desk):
    def text(self, i):
        return re.sub(r"encoding=(['\"])[^'\"]*\1", 'encoding="utf-8"', self.bytes[i].decode(self.enc[i]), count=1)


def judge(ws, say):
    texts = [t for c, t in ws if c == "ParserWarning"]
    fits = [[k for k, t in enumerate(texts) if re.search(r"\b%s\b" % re.escape(words[0]), t) and all(w in t for w in words[1:])]
            for words in say]
    taken = {}                                  # announcement -> amendment: as many pairs as possible

    def place(n, seen):
        for k in fits[n]:
            if k not in seen:
                seen.add(k)
                if k not in taken or place(taken[k], seen):
                    taken[k] = n
                    return True
        return False
    bad = [f"amended {words!r}, not announced among {texts[:6]!r}" for n, words in enumerate(say) if not place(n, set())]
    return bad[:4] + [f"nothing of this kind was amended: {t!r}" for k, t in enumerate(texts) if k not in taken][:4]


def attempt(desk, c, how, inject=None):
    from svdsuite import ParserWarning
    s = sched.Sched(plan={"inject": inject or []}, budget=8_000_000)
    sched.take_warnings()

    def body():
        with warnings.catch_warnings():
            if how != "always":
                warnings.simplefilter(how, ParserWarning)
            return desk.call(c)
    r = s.call(body)
    out = {"r": r[1]} if r[0] == "ok" else {"e": canon.exc(r[1]), "text": str(r[1]),
                                              "lib": type(r[1]).__module__.startswith("svdsuite")}
    del r
    if desk.sweep:
        gc.collect()
    return out, [list(w[:2]) for w in s.warns], s


def execute(sc, ctx):
    made = [amend(d) for d in sc["docs"]]
    home = ctx.dir()
    desk = Desk([{"raw": "", "enc": d["enc"], "dmg": []} for d in sc["docs"]], home).sweeping()
    tidy = ops.Desk([{"ast": m[1], "noise": 0, "enc": "utf-8", "dmg": []} for m in made], home)
    for n, (b, _, _) in enumerate(made):
        desk.bytes[n] = b
        with open("in%d.svd" % n, "wb") as f:
            f.write(b)
    bad, st, steps, seen, readable = None, {}, 0, [], {}

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    for d in sc["docs"]:
        for k, _ in d["amend"]:
            count("amend." + k)
    for n, c in enumerate(sc["calls"]):
        what = f"call {n} ({ops.brief({k: c[k] for k in ('op', 'd', 'src')})}, filter {c['filter']})"
        i = c["d"]
        say = made[i][2]
        out, ws, s = attempt(desk, c, c["filter"], c.get("inject"))
        steps += s.step
        seen.append([out.get("e"), ws])
        if c.get("inject"):
            count("cut short")
            continue
        if i not in readable:
            readable[i] = "r" in attempt(tidy, {"op": "parse", "d": i, "src": "content"}, "ignore")[0]
        if not readable[i]:                   # only while a failure is minimised
            continue
        count("filter." + c["filter"])
        count("op." + c["op"])
        if c["filter"] == "error":
            count("strict raised" if "e" in out else "strict returned")
            if say and "r" in out:
                bad = {"class": "strict-ignored", "detail": [what, f"returned although it amended {say[:4]!r}"]}
            elif say and (out["e"][0] != "ParserWarning" or judge([["ParserWarning", out["text"]]], say)[-1:] and
                          judge([["ParserWarning", out["text"]]], say)[-1].startswith("nothing")):
                bad = {"class": "strict-other", "detail": [what, f"raised {out['e']!r}, but amended {say[:4]!r}"]}
        else:
            if c["filter"] == "always":
                d = judge(ws, say)
                if d:
                    bad = {"class": "not-announced" if d[0].startswith("amended") else "wrongly-announced",
                           "detail": [what] + d}
            elif any(w[0] == "ParserWarning" for w in ws):
                bad = {"class": "filter", "detail": [what, repr(ws[:3])]}
        if bad is None and (c["filter"] != "error" or not say):
            if c["op"] == "parse":
                if "e" in out:
                    d = [f"error {out['e']!r}"]
                else:
                    d = canon.diff(model.parsed(made[i][1]), out["r"][0], "device")
            else:
                ref, _, s = attempt(tidy, {**c, "src": "str" if c["src"] == "str" else "content"}, "ignore")
                steps += s.step
                d = ops.compare({**ref, "w": []}, {**out, "w": []})
                count("compared")
            if d:
                bad = {"class": "other-meaning", "detail": [what] + d[:8]}
        if bad:
            break
    return {"bad": bad, "stats": st, "steps": steps,
            "sig": hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:16],
            "digest": hashlib.sha256(json.dumps(seen).encode()).hexdigest()[:16],
            "sample": {"calls": sc["calls"], "said": [m[2] for m in made]}}


def shrink(sc):
    for l in sh.seq(sc["calls"], keep=1):
        yield {**sc, "calls": l}
    for i, d in enumerate(sc["docs"]):
        for l in sh.seq(d["amend"]):
            yield {**sc, "docs": sc["docs"][:i] + [{**d, "amend": l}] + sc["docs"][i + 1:]}
    for k, c in enumerate(sc["calls"]):
        for key, v in (("src", "content"), ("op", "parse"), ("filter", "always")):
            if c[key] != v:
                yield {**sc, "calls": sc["calls"][:k] + [{**c, key: v}] + sc["calls"][k + 1:]}
        if "inject" in c:
            yield {**sc, "calls": sc["calls"][:k] + [{x: y for x, y in c.items() if x != "inject"}] + sc["calls"][k + 1:]}
    for i, d in enumerate(sc["docs"]):
        for b in docs.shrink({k: v for k, v in d.items() if k != "amend"}):
            yield {**sc, "docs": sc["docs"][:i] + [{**b, "amend": d["amend"]}] + sc["docs"][i + 1:]}

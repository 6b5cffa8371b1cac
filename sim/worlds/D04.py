"""Damaged and oddly encoded bytes through every way of loading; expat judges whether the bytes are a well-formed document."""
import hashlib
import json
import re
import xml.parsers.expat

from sim import ast, canon, docs, model, ops, shrink as sh
from sim.worlds import _resolver

DECL = ["utf-8", "UTF-8", "utf-16", "iso-8859-1", "ISO-8859-1", "windows-1252", "us-ascii", "ascii", None, "utf-8-sig",
        "utf-16-le", "utf-16-be"]
NAMECHAR = re.compile("[\u00b7\u00c0-\u00d6\u00d8-\u00f6\u00f8-\u037d\u037f-\u1fff\u200c-\u200d\u203f-\u2040"
                      "\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd\U00010000-\U000effff]")
ILL = ["\udc80", "\udcff", "\ud800", "\udfff", "\x0b", "\x1f", "\0", "\ufffe", "\uffff"]      # no characters of a document
WAYS = ["parse", "process", "map", "validate"]


def prepare():
    ops.fake_dot()


def scenario(rng, i, tier):
    r = rng.fork("sc")
    enc = r.pick(DECL)
    fix = {"latin": True} if enc in ("iso-8859-1", "ISO-8859-1", "windows-1252") else {}
    if enc in ("us-ascii", "ascii"):
        fix["p_text"] = 0.0
    d = docs.doc(rng.fork("docs"), fix)
    n = r.weighted([(0, 3), (1, 5), (2, 2), (5, 1)])
    d.update(enc=enc, dmg=[docs.damage(r) for _ in range(n)])
    # where the text really is in another encoding than declared
    return {"doc": d, "really": r.pick([None, None, None, None, "utf-8", "iso-8859-1", "utf-16", "cp1252"]),
            "way": r.pick(WAYS), "v": r.pick(ops.VERSIONS), "ill": [r.below(1 << 30), r.pick(ILL)] if r.p(0.3) else None}


def data(sc):
    d = sc["doc"]
    enc = d["enc"]
    t = ast.render(d["ast"], noise=d["noise"], encoding="utf-8", declaration=False).decode()
    name = {"utf-8-sig": "utf-8", "utf-16-le": "utf-16", "utf-16-be": "utf-16"}.get(enc, enc)
    if enc is not None:
        t = f'<?xml version="1.0" encoding="{name}"?>\n' + t
    real = sc["really"] or enc or "utf-8"
    bom = {"utf-16-le": b"\xff\xfe", "utf-16-be": b"\xfe\xff"}.get(real, b"")
    try:
        b = bom + t.encode(real)
    except UnicodeEncodeError:
        b = t.encode("utf-8")
        real = "utf-8"
    return docs.apply(b, d["dmg"]), real


def _expat(b, encoding):
    p = xml.parsers.expat.ParserCreate(encoding, " ")
    try:
        p.Parse(b, True)
    except (xml.parsers.expat.ExpatError, LookupError, ValueError) as e:
        return str(e)


def wellformed(b):
    """expat's view: None if fine, else its complaint; "?" if only the declared encoding contradicts the first bytes"""
    why = _expat(b, None)
    m = re.match(rb"(?:\xef\xbb\xbf)?<\?xml[^>]*encoding=.([^'\"]*)", b)
    declared = m.group(1).decode("latin-1") if m else None
    if why is None:
        return None if declared in DECL else "?"
    real = "utf-16" if b[:2] in (b"\xff\xfe", b"\xfe\xff", b"<\0", b"\0<") else "utf-8"
    really = _expat(b, real)
    if really is None:
        return "?"
    # what expat objects to once the declared encoding is out of the way
    if why.startswith("encoding specified in XML declaration is incorrect"):
        why = really
    # expat knows the names of XML 1.0's fourth edition only, the fifth allows many more characters
    for e in (declared if declared and declared.lower() in ("iso-8859-1", "windows-1252") else real,):
        try:
            t = NAMECHAR.sub("x", b.decode(e))
        except UnicodeDecodeError:
            continue
        try:
            if _expat(re.sub(r"^\ufeff?<\?xml[^>]*\?>", "", t).encode(), "utf-8") is None and "invalid token" in why:
                return "?"
        except UnicodeEncodeError:
            pass
    return why


def execute(sc, ctx):
    b, real = data(sc)
    home = ctx.dir()
    desk = ops.Desk([], home)
    desk.bytes, desk.enc = [b], [real]
    with open("in0.svd", "wb") as f:
        f.write(b)
    op = {"op": sc["way"], "d": 0, "exc": 1, "v": sc["v"]}
    mem = desk.do({**op, "src": "content"})
    fil = desk.do({**op, "src": "file"})
    why = wellformed(b)
    st = {"wellformed": int(why is None), "malformed": int(why not in (None, "?")), "way." + sc["way"]: 1,
          "enc." + str(sc["doc"]["enc"]): 1}
    for d in sc["doc"]["dmg"]:
        st["fault." + d[0]] = st.get("fault." + d[0], 0) + 1
    if sc["really"]:
        st["fault.other encoding"] = 1
    bad = None
    pw = [w for w in mem["w"] if w[0] == "ParserWarning" and "fallback" in w[1]]
    st["outcome." + ("error" if "e" in mem else "warned" if pw else "silent")] = 1
    if why not in (None, "?") and "e" not in mem and not pw:
        bad = {"class": "accepted-silently", "detail": [f"not well-formed ({why}), but {sc['way']} from memory succeeded "
                                                        "without a ParserWarning"]}
    pf = [w for w in fil["w"] if w[0] == "ParserWarning" and "fallback" in w[1]]
    if bad is None and why not in (None, "?") and "e" not in fil and not pf:
        bad = {"class": "accepted-silently", "detail": [f"not well-formed ({why}), but {sc['way']} from a file succeeded "
                                                        "without a ParserWarning"]}
    # libxml2 also complains of namespace names that are no URI: only where the start of the document is as written
    clean = data({**sc, "doc": {**sc["doc"], "dmg": []}})[0]
    head = clean.find(">".encode(real if real != "utf-16" else "utf-16-le"), clean.find("device".encode(
        real if real != "utf-16" else "utf-16-le")))
    if bad is None and why is None and (pw or pf) and b[:head] == clean[:head]:
        bad = {"class": "healthy-warned", "detail": [f"a well-formed document was announced as damaged: {pw or pf}"]}
    if bad is None:
        a, c = norm(mem), norm(fil)
        d = canon.diff(a, c, "memory vs file")
        if d:
            bad = {"class": "file-differs", "detail": d}
    intact = not sc["doc"]["dmg"] and why is None and real == (sc["doc"]["enc"] or "utf-8")
    if bad is None and intact and sc["way"] in ("parse", "process", "map"):
        st["intact"] = 1
        if sc["way"] == "parse":
            want = model.parsed(sc["doc"]["ast"])
            d = [str(mem["e"])] if "e" in mem else canon.diff(want, mem["r"][0])
        else:
            m = model.denote(sc["doc"]["ast"])
            if m[0] != "device":
                d = []
            elif "e" in mem:
                d = [str(mem["e"])]
            elif sc["way"] == "map":
                d = canon.diff(_resolver.model_map(m[1]), mem["r"])
            else:
                d = canon.diff(m[1], mem["r"][0])
        if d:
            bad = {"class": "read-differently", "detail": ["an intact document was not read as what it says"] + d}
        s = desk.do({**op, "src": "str"})
        d = canon.diff(norm(mem), norm(s), "bytes vs str")
        if bad is None and d:
            bad = {"class": "str-differs", "detail": d}
    if bad is None and sc.get("ill"):
        t = ast.render(sc["doc"]["ast"], noise=sc["doc"]["noise"], encoding="utf-8", declaration=False).decode()
        at = sc["ill"][0] % (len(t) + 1)
        desk.text = lambda i: t[:at] + sc["ill"][1] + t[at:]
        s = desk.do({**op, "src": "str"})
        st["fault.ill character"] = 1
        if "e" not in s and not [w for w in s["w"] if w[0] == "ParserWarning" and "fallback" in w[1]]:
            bad = {"class": "accepted-silently", "detail": [f"a string with {ascii(sc['ill'][1])} at {at} ({ascii(t[max(0, at - 20):at])}) "
                                                            f"was accepted by {sc['way']} without a ParserWarning"]}
    dig = hashlib.sha256(json.dumps([mem, norm(fil)]).encode()).hexdigest()[:16]
    return {"bad": bad, "stats": st, "steps": len(b), "sig": hashlib.sha256(b + sc["way"].encode()).hexdigest()[:16],
            "digest": dig, "sample": {"bytes": len(b), "declared": sc["doc"]["enc"], "really": sc["really"],
                                      "damage": sc["doc"]["dmg"], "way": sc["way"], "expat": why,
                                      "outcome": mem.get("e") or ("warned" if pw else "silent")}}


def norm(o):
    """outcome without the words that say where the bytes came from"""
    def t(s):
        return s.replace("XML file", "XML content").replace("in0.svd", "<string>")
    out = {k: v for k, v in o.items() if k == "r"}
    if "e" in o:
        out["e"] = o["e"][0]
    out["w"] = [[c, t(m)] for c, m in o["w"]]
    return out


def shrink(sc):
    if sc["really"]:
        yield {**sc, "really": None}
    for l in sh.seq(sc["doc"]["dmg"]):
        yield {**sc, "doc": {**sc["doc"], "dmg": l}}
    if sc["doc"]["enc"] != "utf-8":
        yield {**sc, "doc": {**sc["doc"], "enc": "utf-8"}}
    if sc["doc"]["noise"]:
        yield {**sc, "doc": {**sc["doc"], "noise": 0}}
    for b in sh.ast(sc["doc"]["ast"]):
        yield {**sc, "doc": {**sc["doc"], "ast": b}}

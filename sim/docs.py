"""Pools of related documents for the worlds about histories, threads and faults.

doc = {"ast": tree, "noise": n, "enc": encoding, "dmg": [[kind, where (per mille), value], ...]}"""
from sim import ast, gen
from sim.ast import clone, walk

SMALL = {"peripherals": [1, 1, 2], "kids": [1, 2, 3], "depth": [0, 1, 1], "fields": [0, 1, 2], "max_nodes": 16, "p_tower": 0.02}
ENC = ["utf-8", "utf-8", "utf-8", "utf-8", "utf-16", "iso-8859-1", "windows-1252"]


CHOICES = {"access": gen.ACCESS, "protection": gen.PROT, "modifiedWriteValues": gen.MWV, "readAction": gen.RA,
           "size": [8, 16, 32], "dim": [1, 2, 3, 4], "dimIndex": ["A,B", "A,B,C", "0-1", "0-2", "1-3", "X-Z", "Q"],
           "usage": ["read", "write", "read-write"]}


def spots(a):
    """{tag: [the dictionaries that have it]}; attributes are tags, too"""
    out = {}

    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for k, v in x.items():
                if k in ("k", "c", "p", "v", "ab", "irq", "wc", "dai", "cpu", "sau", "regions"):
                    go(v)
                else:
                    out.setdefault(k, []).append(x)
    go(a)
    return out


def change(x, k, peers, r):
    """another value for x[k]"""
    v = x[k]
    peers = [y for y in peers if type(y[k]) is type(v)]
    if r.p(0.2):
        return r.pick(peers)[k]
    if isinstance(v, bool):
        return not v
    if k in CHOICES and not ("offset" in x and k in ("usage", "size")):
        return r.pick(CHOICES[k])
    if isinstance(v, int):
        if k == "addressOffset":
            return v + 4 * r.below(4)
        return max(0, v + r.pick([-1, 1]) * 0x1000 * r.range(1, 3)) if k == "baseAddress" else v ^ 1 << r.below(3)
    if k == "description":
        return r.pick(gen.WORDS) + " %d" % r.below(100)
    if k == "displayName":
        return v + "v"
    return r.pick(peers)[k]


def variant(a, r, focus=None):
    """same structure, some other content (of one kind of element only, if the document has it)"""
    b = clone(a)
    n = r.pick([1, 1, 1, 2, 3, 5])
    for j in range(n + 4):
        if j >= n and b != a:
            break
        at = spots(b["c"] if r.p(0.75) else b)
        k = focus if focus in at else r.pick(sorted(at) + ["pop", "drop"])
        if k in ("name", "derivedFrom", "df") and r.p(0.6):
            k = "description" if "description" in at else "pop"     # mostly dangling references
        if k == "pop":
            l = [n["c"] for n, _ in walk(b) if n["k"] != "device" and len(n.get("c", [])) > 1]
            if l:
                l = r.pick(l)
                l.pop(r.below(len(l)))
        elif k == "drop":
            l = [(n["p"], t) for n, _ in walk(b) for t in n["p"] if t not in (
                "name", "description", "baseAddress", "addressOffset", "dim", "version", "addressUnitBits", "width")]
            if l:
                x, t = r.pick(l)
                x.pop(t)
        else:
            x = r.pick(at[k])
            x[k] = change(x, k, at[k], r)
    return b


def twin(a, r):
    """a document of the same length: descriptions spelled with other letters, from some element on"""
    b = clone(a)
    at, k = r.f(), r.range(1, 25)
    nodes = [n for n, _ in walk(b)]
    for j, n in enumerate(nodes):
        if j < at * len(nodes):
            continue
        for x in [n["p"]] + n.get("v", []):
            for t in ("description", "displayName"):
                if isinstance(x.get(t), str):
                    x[t] = "".join(chr(97 + (ord(c) - 97 + k) % 26) if "a" <= c <= "z" else c for c in x[t])
    return b


def doc(rng, fix=None):
    knobs = {k: (rng.pick(v) if isinstance(v, list) else v) for k, v in {**SMALL, **(fix or {})}.items()}
    enc = rng.pick(ENC)
    if enc in ("iso-8859-1", "windows-1252"):
        knobs["latin"] = True
    return {"ast": gen.device(rng.fork("doc"), **knobs), "noise": rng.pick([0, rng.below(1 << 20)]), "enc": enc,
            "dmg": []}


def damage(rng):
    k = rng.pick(["flip", "byte", "del", "dup", "zero", "cut", "swap", "insert"])
    return [k, rng.below(1000), rng.below(256)]


def pool(rng, n, fix=None):
    out = [doc(rng, fix)]
    focus = rng.pick(sorted(spots(out[0]["ast"]["c"]))) if rng.p(0.4) else None
    while len(out) < n:
        d = rng.pick(out)
        k = rng.below(20)
        if k < 9:
            out.append({**d, "ast": variant(d["ast"], rng, focus), "dmg": []})
        elif k < 12:
            out.append(doc(rng, fix))
        elif k < 14:
            out.append(doc(rng, {**(fix or {}), "p_drop": 0.3, "p_overlap": 0.3, "p_enum": 0.7, "fields": 2}))
        elif k < 15:
            b = d["ast"]
            for _ in range(rng.range(1, 4)):     # wrong in several places
                x = gen.break_it(b, rng, ["dangling", "dangling", "cycle2", "nodim"])
                b = x[1] if x else b
            out.append({**d, "ast": b, "dmg": []})
        elif k < 17:
            b = gen.break_it(d["ast"], rng)
            out.append({**d, "ast": b[1], "dmg": []} if b else doc(rng, fix))
        else:
            out.append({**d, "dmg": [damage(rng) for _ in range(rng.range(1, 2))]})
    return out


def siblings(rng, n):
    """documents of one structure with other values in many places"""
    out = [doc(rng, {"p_wc": 0.5, "p_enum": 0.5, "p_tower": 0, "fields": 2, "peripherals": 1})]
    while len(out) < n:
        a = out[0]["ast"]
        for _ in range(rng.range(3, 12)):
            a = variant(a, rng)
        out.append({**out[0], "ast": a})
    return out


def apply(data, dmg):
    for k, where, v in dmg:
        if not data:
            return data
        i = min(len(data) - 1, where * len(data) // 1000)
        if k == "flip":
            data = data[:i] + bytes([data[i] ^ (1 << v % 8)]) + data[i + 1:]
        elif k == "byte":
            data = data[:i] + bytes([v]) + data[i + 1:]
        elif k == "insert":
            data = data[:i] + bytes([v]) + data[i:]
        elif k == "del":
            data = data[:i] + data[i + 1 + v % 32:]
        elif k == "dup":
            n = 1 + v % 64
            data = data[:i + n] + data[i:i + n] + data[i + n:]
        elif k == "zero":
            n = 1 + v % 64
            data = data[:i] + bytes(min(n, len(data) - i)) + data[i + n:]
        elif k == "cut":
            data = data[:i]
        elif k == "swap":
            n = 1 + v % 16
            data = data[:i] + data[i + n:i + 2 * n] + data[i:i + n] + data[i + 2 * n:]
    return data


def data(d):
    if "raw" in d:
        return apply(d["raw"].encode(d["enc"]), d["dmg"])
    return apply(ast.render(d["ast"], noise=d["noise"], encoding=d["enc"]), d["dmg"])


def shrink(d):
    from sim import shrink as sh
    for x in sh.seq(d["dmg"]):
        yield {**d, "dmg": x}
    if "raw" in d:
        for x in sh.seq(d["raw"].split("\n"), keep=1):
            yield {**d, "raw": "\n".join(x)}
        return
    if d["enc"] != "utf-8":
        yield {**d, "enc": "utf-8"}
    if d["noise"]:
        yield {**d, "noise": 0}
    for b in sh.ast(d["ast"]):
        yield {**d, "ast": b}

"""What a processed device (canonical form of sim/model.py) has in problems of layout, and what warnings say about it."""
import collections
import re

ALIGN = {1: 1, 2: 2, 4: 4, 8: 4, 16: 4}
PATTERNS = [
    ("effective", re.compile(r"^Effective peripheral address overlap: '([^']*)' overlaps with '([^']*)'")),
    ("specified", re.compile(r"^Specified peripheral address overlap in address_blocks: '([^']*)' overlaps\s+with '([^']*)'")),
    ("overlap", re.compile(r"^(?:Register|Cluster) '([^']*)' overlaps with '([^']*)'")),
    ("base", re.compile(r"^Peripheral '([^']*)' base address is not 4 byte aligned")),
    ("offset", re.compile(r"^Register/Cluster '([^']*)' offset \((0x[0-9a-f]+)\) is not properly aligned to (\d+) bytes")),
    ("block", re.compile(r"^Address block with offset '(\d+)' overlaps with address block with offset '(\d+)'")),
    ("msb", re.compile(r"^Field '([^']*)' msb (\d+) exceeds register size limit of (\d+) bits")),
]


def said(ws):
    """warnings -> (Counter of keys, texts about layout that have no known form)"""
    out, odd = collections.Counter(), []
    for cat, text in ws:
        if cat != "ProcessWarning":
            continue
        for kind, pat in PATTERNS:
            m = pat.match(text)
            if m:
                g = m.groups()
                out[(kind,) + (tuple(sorted(g)) if len(g) == 2 and kind != "base" else g)] += 1
                break
        else:
            if re.search(r"overlap|aligned|exceeds", text):
                odd.append(text)
    return out, odd


def family(items, attr):
    """name -> names connected with it by alternate declarations"""
    near = collections.defaultdict(set)
    for x in items:
        if x.get(attr):
            near[x["name"]].add(x[attr])
            near[x[attr]].add(x["name"])
    out = {}
    for n in list(near):
        seen, todo = {n}, [n]
        while todo:
            for y in near[todo.pop()]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        out[n] = seen
    return out


def problems(dev):
    """-> (must, may): Counters of keys that have to be, and may besides be reported"""
    must, may = collections.Counter(), collections.Counter()

    def pairs(kind, spans, allowed):
        for i, (a0, a1, a) in enumerate(spans):
            for b0, b1, b in spans[:i]:
                if a0 <= b1 and b0 <= a1:
                    v = allowed(a, b)
                    if v is None:
                        may[(kind,) + tuple(sorted((a["name"], b["name"])))] += 1
                    elif not v:
                        must[(kind,) + tuple(sorted((a["name"], b["name"])))] += 1

    def level(items):
        fams = {"Register": family([x for x in items if x["_"] == "Register"], "alternate_register"),
                "Cluster": family([x for x in items if x["_"] == "Cluster"], "alternate_cluster")}

        def allowed(a, b):
            if a["_"] != b["_"]:
                names = {x.get("alternate_register") or x.get("alternate_cluster") for x in items}
                return None if a["name"] in names or b["name"] in names else False
            return b["name"] in fams[a["_"]].get(a["name"], ())
        spans = []
        for x in items:
            size = x["size"] // 8
            if x["address_offset"] % ALIGN[size]:
                must[("offset", x["name"], hex(x["address_offset"]), str(ALIGN[size]))] += 1
            if x["_"] == "Cluster":
                spans.append((x["base_address"], x["end_address"], x))
                level(x["registers_clusters"])
            else:
                if x.get("alternate_group") is None:
                    spans.append((x["base_address"], x["base_address"] + size - 1, x))
                for f in x["fields"]:
                    if f["msb"] >= x["size"]:
                        must[("msb", f["name"], str(f["msb"]), str(x["size"]))] += 1
        pairs("overlap", spans, allowed)
    ps = dev["peripherals"]
    fam = family(ps, "alternate_peripheral")

    def alternates(a, b):
        return b["name"] in fam.get(a["name"], ())
    for p in ps:
        if p["base_address"] % 4:
            must[("base", p["name"])] += 1
        level(p["registers_clusters"])
        bs = sorted(p["address_blocks"], key=lambda b: b["offset"])
        for i, b in enumerate(bs):
            for j, c in enumerate(bs[:i]):
                if b["offset"] < c["offset"] + c["size"] and c["offset"] < b["offset"] + b["size"]:
                    key = ("block",) + tuple(sorted((str(b["offset"]), str(c["offset"]))))
                    (must if i == j + 1 else may)[key] += 1
    pairs("effective", [(p["base_address"], p["end_address_effective"], p) for p in ps], alternates)
    pairs("specified", [(p["base_address"], p["end_address"], p) for p in ps], alternates)
    return must, may


def complaints(m, ws):
    """m: ("device", canonical device, drops) of the model"""
    have, odd = said(ws)
    must, may = problems(m[1])
    gone = {n for _, n, _ in m[2]}
    bad = [f"{n} time(s) {k}, reported {have[k]} time(s)" for k, n in must.items() if have[k] < n]
    if not any(k == "peripheral" and why == "size" for k, _, why in m[2]):
        for k, n in have.items():
            if n > must[k] + may[k] and not set(k[1:]) & gone:
                bad.append(f"{k} reported {n} time(s), there are {must[k]}")
    return bad + [f"not understood: {t!r}" for t in odd]


def crowd(dev, r):
    """put things on top of each other, off their boundaries, and declare alternates; in place"""
    from sim.ast import walk
    from sim.gen import alpha
    for n, _ in list(walk(dev)):
        kids = n.get("c") or []
        if n["k"] in ("peripheral", "cluster"):
            for a in kids:
                b = r.pick(kids)
                if a["k"] == "register" and r.p(0.08):
                    a["p"]["size"] = r.pick([64, 128])
                if r.p(0.3) and isinstance(b["p"].get("addressOffset"), int):
                    a["p"]["addressOffset"] = b["p"]["addressOffset"] + r.pick([0, 0, 0, 1, 2, 3, 4])
                elif r.p(0.15) and isinstance(a["p"].get("addressOffset"), int):
                    a["p"]["addressOffset"] += r.range(0, 3)
                if r.p(0.3):
                    attr = "alternateRegister" if a["k"] == "register" else "alternateCluster"
                    if "alternateGroup" not in a["p"]:
                        a["p"][attr] = r.pick([b["p"]["name"]] * 6 + ["Ghost"]).replace("[%s]", "0").replace("%s", "0")
                elif a["k"] == "register" and r.p(0.05) and "alternateRegister" not in a["p"]:
                    a["p"]["alternateGroup"] = "Grp" + alpha(r.below(3))
        elif n["k"] == "device":
            for a in kids:
                b = r.pick(kids)
                if r.p(0.4) and isinstance(b["p"].get("baseAddress"), int):
                    a["p"]["baseAddress"] = b["p"]["baseAddress"] + r.pick([0, 0, 0, 1, 4, 0x10, 0x100])
                if r.p(0.35):
                    a["p"]["alternatePeripheral"] = r.pick([b["p"]["name"]] * 6 + ["Ghost"]).replace("[%s]", "0").replace("%s", "0")
                if a.get("ab") and r.p(0.3):
                    c = r.pick(a["ab"])
                    a["ab"].append({**c, "offset": c["offset"] + r.pick([0, 4, 0x10, c["size"] - 1 if c["size"] else 0, c["size"]])})
                    r.shuffle(a["ab"])
        elif n["k"] == "register" and kids and r.p(0.15):
            p = r.pick(kids)["p"]
            for key in ("lsb", "msb", "bitOffset"):
                if isinstance(p.get(key), int):
                    p[key] += 16
    return dev

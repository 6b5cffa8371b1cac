"""Seeded generator of SVD descriptions (ASTs), swarm style: every run draws its own feature mix."""
from sim import model
from sim.ast import clone, walk
from sim.rng import Rng

WORDS = ["clear", "status", "Timer & counter", "a < b", "fifo", "x > 0 ? y : z", "\"quoted\"", "tab\tsep", "baud rate",
         "mode", "lock", "Überlauf", "µs tick", "enable", "reset", "line1\n      line2", "50 %", "don't"]
ACCESS = ["read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"]
PROT = ["s", "n", "p", "any"]
MWV = ["oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear", "set", "modify"]
RA = ["clear", "set", "modify", "modifyExternal"]
DT = ["uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t *",
      "uint32_t *", "int16_t *"]
CPUS = ["CM0", "CM0PLUS", "CM0+", "CM1", "CM3", "CM4", "CM7", "CM23", "CM33", "CM35P", "CM55", "CM85", "SC000", "SC300",
        "ARMV8MML", "ARMV8MBL", "CA7", "CA53", "SMC1", "other"]


def alpha(n):
    s = ""
    n += 1
    while n:
        n, r = divmod(n - 1, 26)
        s = chr(65 + r) + s
    return s


def swarm(rng: Rng, **fix):
    """feature mix of one run; `fix` pins knobs for a world that needs them"""
    def lvl(*opts):
        return rng.pick(opts)
    c = {
        "peripherals": lvl(1, 2, 2, 3, 4, 5), "kids": lvl(1, 2, 3, 4), "depth": lvl(0, 1, 1, 2, 3),
        "fields": lvl(0, 1, 2, 4), "p_cluster": lvl(0.0, 0.2, 0.4, 0.6), "p_enum": lvl(0.0, 0.3, 0.7),
        "p_dim": lvl(0.0, 0.15, 0.35, 0.6), "p_df": lvl(0.0, 0.2, 0.4, 0.7), "p_props": lvl(0.0, 0.15, 0.4, 0.8),
        "p_meta": lvl(0.0, 0.3, 0.8), "p_default": lvl(0.0, 0.4), "p_wild": lvl(0.0, 0.4),
        "p_drop": lvl(0.0, 0.0, 0.1, 0.3), "p_overlap": lvl(0.0, 0.0, 0.15), "p_alt": lvl(0.0, 0.0, 0.2, 0.4),
        "p_cpu": lvl(0.0, 0.5, 1.0), "p_devprops": lvl(0.0, 0.5), "p_text": lvl(0.0, 0.3, 0.8), "p_wc": lvl(0.0, 0.3),
        "shuffle": lvl(0, 1), "max_nodes": 60, "bigdim": lvl(0, 0, 0, 1), "wide": lvl(0, 0, 1),
    }
    c.update(fix)
    return c


class Gen:
    def __init__(self, rng: Rng, cfg):
        self.r, self.c = rng, cfg
        self.n = {}
        self.total = 0
        self.latin = cfg.get("latin", False)
        self.shared = bool(cfg.get("reuse")) and rng.p(0.4)   # one name pool for all kinds

    def scope(self):
        """names repeat from scope to scope in 'reuse' mode"""
        old = self.n
        if self.c.get("reuse"):
            self.n = {}
        return old

    def nm(self, kind):
        if self.c.get("reuse") and kind != "enums" and self.shared:
            i = self.n.get("*", 0)
            self.n["*"] = i + 1
            return "Nod" + alpha(i)
        i = self.n.get(kind, 0)
        self.n[kind] = i + 1
        return {"peripheral": "Per", "cluster": "Clu", "register": "Reg", "field": "Fld", "enums": "Enm"}[kind] + alpha(i)

    def words(self):
        r = self.r
        w = [r.pick(WORDS) for _ in range(r.range(1, 4))]
        return " ".join(w).strip()

    def maybe(self, p, tag, prob, f):
        if self.r.p(prob):
            p[tag] = f()

    def props(self, p, sizes=(8, 16, 32, 64), prob=None):
        r = self.r
        q = self.c["p_props"] if prob is None else prob
        self.maybe(p, "size", q, lambda: r.pick(sizes))
        self.maybe(p, "access", q, lambda: r.pick(ACCESS))
        self.maybe(p, "protection", q, lambda: r.pick(PROT))
        self.maybe(p, "resetValue", q, lambda: r.pick([0, 1, 0xFF, 0xDEADBEEF, 0x12345678, r.below(1 << 32), r.below(1 << 64)]))
        self.maybe(p, "resetMask", q, lambda: r.pick([0, 0xFFFFFFFF, 0xFF00FF00, r.below(1 << 32), (1 << 64) - 1]))

    def dims(self, n, array_ok, list_ok, inc, dai_ok=True):
        """turn n into a template; returns the number of instances"""
        r, p = self.r, n["p"]
        if not r.p(self.c["p_dim"]) or not (array_ok or list_ok):
            return 1
        k = r.pick([1, 2, 2, 3, 3, 4])
        if self.c.get("bigdim") and r.p(0.3):
            k = r.pick({"register": [10, 11, 12, 13, 16, 27, 33], "field": [8, 16, 32], "cluster": [8, 11, 16],
                        "peripheral": [5, 11]}[n["k"]])
        p["dim"], p["dimIncrement"] = k, inc
        if array_ok and (not list_ok or r.p(0.5)):
            p["name"] += "[%s]"
            if n["k"] == "register" and r.p(self.c["p_meta"]):
                p["displayName"] = p["name"]
            if r.p(0.1):
                p["dimIndex"] = "0-%d" % (k - 1)
        else:
            p["name"] = r.pick([p["name"] + "_%s", p["name"] + "%sQ", p["name"][:3] + "%s" + p["name"][3:]])
            style = r.below(4)
            if k == 1 and r.p(0.5):
                p["dimIndex"] = r.pick(["x", "7", "A_1", "iX"])
            elif style == 1:
                a = r.below(9)
                p["dimIndex"] = f"{a}-{a + k - 1}"
            elif style == 2 and 1 < k <= 26:
                a = r.below(min(20, 27 - k))
                p["dimIndex"] = f"{chr(65 + a)}-{chr(65 + a + k - 1)}"
            elif style == 3 and k > 1:
                p["dimIndex"] = r.pick([",", ", ", ",\n  ", ",\t"]).join("i%s%d" % (alpha(r.below(26)), j) for j in range(k))
            if n["k"] == "register" and r.p(self.c["p_meta"]):
                p["displayName"] = "D " + p["name"]
        if dai_ok and r.p(0.15):
            p["dimName"] = "Dim" + p["name"][:4].replace("%", "").replace("[", "")
            n["dai"] = {"v": [{"name": "ix%d" % j, "value": str(j)} for j in range(k)]}
            if r.p(0.5):
                n["dai"]["headerEnumName"] = "HE_" + n["dai"]["v"][0]["name"]
        return k

    # ------------------------------------------------------------------ elements
    def wcons(self):
        r = self.r
        k = r.below(3)
        if k == 0:
            return {"writeAsRead": r.p(0.5)}
        if k == 1:
            return {"useEnumeratedValues": r.p(0.5)}
        a = r.below(16)
        return {"range": [a, a + r.below(r.pick([100, 100, 1 << 20, 1 << 33]))]}

    def enums(self, width, usage):
        r = self.r
        n = {"k": "enums", "p": {}, "v": []}
        n["p"]["name"] = self.nm("enums")
        if usage is not None:
            n["p"]["usage"] = usage
        self.maybe(n["p"], "headerEnumName", self.c["p_meta"] * 0.5, lambda: "H" + n["p"]["name"])
        top = 1 << width
        vals = r.sample(range(min(top, 16)), r.range(1, min(top, 4)))
        if self.c.get("wide") and r.p(0.5):
            vals = sorted({top - 1, *(r.below(top) for _ in range(r.pick([1, 3, 15])))}) if r.p(0.5) else \
                r.sample(range(min(top, 64)), r.range(1, min(top, 12)))
        for i, v in enumerate(vals):
            e = {"name": f"v{alpha(i).lower()}", "value": r.pick([str(v), hex(v), "0b" + bin(v)[2:], "#" + bin(v)[2:], "0X%03X" % v,
                                                          "0B" + bin(v)[2:], "0%d" % v])}
            self.maybe(e, "description", self.c["p_text"], self.words)
            n["v"].append(e)
        if width >= 2 and width <= 8 and r.p(self.c["p_wild"]):
            n["v"] = [{"name": "w", "value": r.pick(["0b", "#"]) + "1" + "x" * (width - 1 if width < 4 else 2)}]
            if width < 4:
                n["v"].append({"name": "z", "value": "0"})
            if r.p(0.2):
                n["v"][0]["value"] = n["v"][0]["value"].upper()
            if self.c.get("wide"):
                # don't care bits anywhere, and values it leaves out
                w = "".join(r.pick("01xx") if n["v"][0]["value"].lower().count("x") < 5 else r.pick("01") for _ in range(width))
                while w.count("x") > 5:
                    w = w.replace("x", "1", 1)
                n["v"] = [{"name": "w", "value": r.pick(["0b", "#"]) + w}]
                have = set(model.enum_value("0b" + w))
                for v in r.sample(range(top), min(top, 5)):
                    if v not in have:
                        n["v"].insert(r.below(len(n["v"]) + 1), {"name": "z%d" % v, "value": r.pick([str(v), hex(v)])})
        if width <= 6 and r.p(self.c["p_default"]):
            d = {"name": "dflt", "isDefault": True}
            self.maybe(d, "description", 0.5, self.words)
            if r.p(0.2):
                d["value"] = str(r.below(top))
                if any(model.enum_value(v["value"]) == [int(d["value"])] or "x" in v["value"].lower()[2:] or
                       v["value"].startswith("#") for v in n["v"]):
                    del d["value"]
            n["v"].insert(r.below(len(n["v"]) + 1), d)
        if r.p(0.2):
            for v in n["v"]:
                if "isDefault" not in v and r.p(0.5):
                    v["isDefault"] = False
        return n

    def field(self, lo, hi):
        r = self.r
        self.total += 1
        w = r.pick([1, 1, 2, 3, 4, min(8, hi - lo + 1)])
        if self.c.get("wide") and r.p(0.15):
            w = r.range(1, hi - lo + 1)
        w = min(w, hi - lo + 1)
        n = {"k": "field", "p": {"name": self.nm("field")}, "c": []}
        p = n["p"]
        k = 1
        if w * 2 <= hi - lo + 1:
            k = self.dims(n, False, True, w)
            while k > 1 and lo + k * w - 1 > hi:
                k -= 1
                p["dim"] = k
                p.pop("dimIndex", None)
                n.pop("dai", None)
        self.bits(p, lo, lo + w - 1)
        self.maybe(p, "description", self.c["p_text"], self.words)
        self.maybe(p, "access", self.c["p_props"], lambda: r.pick(ACCESS))
        self.maybe(p, "modifiedWriteValues", self.c["p_meta"] * 0.5, lambda: r.pick(MWV))
        self.maybe(p, "readAction", self.c["p_meta"] * 0.5, lambda: r.pick(RA))
        if r.p(self.c["p_wc"]):
            n["wc"] = self.wcons()
        if r.p(self.c["p_enum"]):
            old = self.scope()
            us = r.pick([[None], [None], ["read-write"], ["read"], ["write"], ["read", "write"], ["write", "read"]])
            n["c"] = [self.enums(w, u) for u in us]
            self.n = old
        return n, lo + k * w

    def bits(self, p, lsb, msb):
        style = self.r.below(3)
        if style == 0:
            p["bitOffset"], p["bitWidth"] = lsb, msb - lsb + 1
        elif style == 1:
            p["lsb"], p["msb"] = lsb, msb
        else:
            p["bitRange"] = f"[{msb}:{lsb}]" if not self.r.p(self.c["p_overlap"] * 0.5) else f"[{lsb}:{msb}]"
        if style < 2 and self.r.p(self.c["p_overlap"] * 0.3):
            # an MSB below the LSB is only warned about
            if style == 0:
                p["bitWidth"] = 0
            else:
                p["lsb"], p["msb"] = msb, lsb

    def register(self, off, per_size):
        r = self.r
        self.total += 1
        n = {"k": "register", "p": {"name": self.nm("register"), "addressOffset": off}, "c": []}
        p = n["p"]
        self.props(p)
        nb = (p.get("size") or per_size or 32) // 8
        k = self.dims(n, True, True, nb if r.p(0.8) else nb * 2)
        if "displayName" not in p:
            self.maybe(p, "displayName", self.c["p_meta"] * 0.4,
                       lambda: "Show " + p["name"].replace("%s", "").replace("[]", "").replace("_", ""))
        self.maybe(p, "description", self.c["p_text"], self.words)
        self.maybe(p, "dataType", self.c["p_meta"] * 0.4, lambda: r.pick(DT))
        self.maybe(p, "modifiedWriteValues", self.c["p_meta"] * 0.5, lambda: r.pick(MWV))
        self.maybe(p, "readAction", self.c["p_meta"] * 0.5, lambda: r.pick(RA))
        if r.p(self.c["p_wc"]):
            n["wc"] = self.wcons()
        bit, top = 0, nb * 8 - 1
        old = self.scope()
        for _ in range(r.range(0, self.c["fields"])):
            if bit > top or self.total > self.c["max_nodes"]:
                break
            bit += r.pick([0, 0, 0, 1, 3])
            if bit > top:
                break
            f, bit = self.field(bit, top)
            n["c"].append(f)
        self.n = old
        step = p.get("dimIncrement", nb)
        return n, off + max(nb, 1) * 1 + step * (k - 1)

    def level(self, depth, per_size):
        """registers/clusters of one scope -> (children, byte length)"""
        r = self.r
        out, off = [], 0
        old = self.scope()
        for _ in range(r.range(1, self.c["kids"])):
            if self.total > self.c["max_nodes"]:
                break
            off = (off + 7) // 8 * 8 if r.p(0.9) else off + r.below(3)
            at = off
            if out and r.p(self.c["p_overlap"]):
                at = max(0, off - r.pick([4, 8]))
            if depth > 0 and r.p(self.c["p_cluster"]):
                n, end = self.cluster(at, depth - 1, per_size)
            else:
                n, end = self.register(at, per_size)
            out.append(n)
            off = max(off, end)
        regs = [n for n in out if n["k"] == "register" and "%s" not in n["p"]["name"]]
        for n in regs[1:]:
            # registers in alternate groups may share the name of another register
            if r.p(self.c["p_alt"] * 0.5):
                n["p"]["name"] = regs[0]["p"]["name"]
                n["p"]["alternateGroup"] = "Grp" + alpha(r.below(3))
        self.n = old
        return out, max(off, 4)

    def cluster(self, off, depth, per_size):
        r = self.r
        self.total += 1
        n = {"k": "cluster", "p": {"name": self.nm("cluster"), "addressOffset": off}, "c": []}
        p = n["p"]
        self.props(p)
        n["c"], ln = self.level(depth, p.get("size") or per_size)
        ln = (ln + 7) // 8 * 8
        k = self.dims(n, True, True, ln)
        self.maybe(p, "description", self.c["p_text"], self.words)
        self.maybe(p, "headerStructName", self.c["p_meta"] * 0.3, lambda: "HS_" + p["name"][:4])
        return n, off + ln * k

    def peripheral(self, base):
        r = self.r
        self.total += 1
        n = {"k": "peripheral", "p": {"name": self.nm("peripheral"), "baseAddress": base}, "c": [], "ab": [], "irq": []}
        p = n["p"]
        self.props(p)
        n["c"], ln = self.level(self.c["depth"], p.get("size"))
        ln = max(0x20, (ln + 0x1F) // 0x20 * 0x20)
        k = self.dims(n, True, False, max(ln, 0x100))
        cut = ln // 2
        if r.p(0.2):
            # any blocks: with gaps, beginning late, inside or over each other, in any order
            n["ab"] = [{"offset": 4 * r.below(ln // 2), "size": 4 * r.range(1, ln // 4),
                        "usage": r.pick(["registers", "buffer", "reserved"])} for _ in range(r.range(1, 3))]
        elif r.p(0.25):
            n["ab"] = [{"offset": cut, "size": ln - cut, "usage": "registers"},
                       {"offset": 0, "size": cut, "usage": r.pick(["registers", "buffer", "reserved"])}]
            if r.p(0.5):
                n["ab"].reverse()
        else:
            n["ab"] = [{"offset": 0, "size": ln, "usage": "registers"}]
        for b in n["ab"]:
            self.maybe(b, "protection", self.c["p_props"] * 0.5, lambda: r.pick(PROT))
        for i in range(r.pick([0, 0, 1, 2, 2, 4])):
            q = {"name": f"IRQ_{p['name'][:6].replace('[', '')}_{i}", "value": r.below(240)}
            if n["irq"] and r.p(0.1):
                q["value"] = n["irq"][-1]["value"]
            self.maybe(q, "description", self.c["p_text"], self.words)
            n["irq"].append(q)
        for t in ("version", "groupName", "prependToName", "appendToName", "headerStructName", "disableCondition"):
            self.maybe(p, t, self.c["p_meta"] * 0.4, lambda t=t: t[:2].upper() + alpha(r.below(200)))
        self.maybe(p, "description", self.c["p_text"], self.words)
        return n, base + max(ln, 0x100) * k

    def device(self):
        r, c = self.r, self.c
        dev = {"k": "device", "p": {}, "c": [], "schemaVersion": r.pick(["1.1", "1.3", "1.3.9"]),
               "schemaLocation": r.pick(["CMSIS-SVD.xsd", "CMSIS-SVD_Schema_1_1.xsd", "svd/x.xsd"])}
        p = dev["p"]
        p.update(name="Dev" + alpha(r.below(500)), version=r.pick(["1.0", "1.2.3", "0A"]),
                 description=self.words() or "d", addressUnitBits=8, width=32)
        for t, f in (("vendor", "ACME"), ("vendorID", "ACM"), ("series", "SER"), ("licenseText", "lic & text"),
                     ("headerSystemFilename", "system_dev"), ("headerDefinitionsPrefix", "PFX_")):
            self.maybe(p, t, c["p_meta"] * 0.6, lambda f=f: f + alpha(r.below(99)))
        self.props(p, sizes=(16, 32, 32, 64, 8), prob=c["p_devprops"])
        if r.p(c["p_cpu"]):
            u = {"name": r.pick(CPUS), "revision": "r%dp%d" % (r.below(3), r.below(3)),
                 "endian": r.pick(["little", "big", "selectable", "other"]), "nvicPrioBits": r.range(2, 8),
                 "vendorSystickConfig": r.p(0.5)}
            for t in ("mpuPresent", "fpuPresent", "fpuDP", "dspPresent", "icachePresent", "dcachePresent",
                      "itcmPresent", "dtcmPresent", "vtorPresent"):
                self.maybe(u, t, 0.4, lambda: r.p(0.5))
            self.maybe(u, "deviceNumInterrupts", 0.4, lambda: r.range(1, 240))
            if r.p(0.4):
                u["sauNumRegions"] = r.range(0, 8)
                s = {"regions": []}
                self.maybe(s, "enabled", 0.5, lambda: r.p(0.5))
                self.maybe(s, "protectionWhenDisabled", 0.5, lambda: r.pick(["s", "n", "p"]))
                for i in range(r.below(3)):
                    g = {"base": 0x1000 * (i + 1), "limit": 0x1000 * (i + 1) + 0xFE0, "access": r.pick(["c", "n"])}
                    self.maybe(g, "enabled", 0.5, lambda: r.p(0.5))
                    self.maybe(g, "name", 0.5, lambda i=i: f"SAU{i}")
                    s["regions"].append(g)
                u["sau"] = s
            dev["cpu"] = u
        base = r.pick([0x40000000] * 8 + [0, 0x3FFFFE00, 0xE0000000, 0xFFFFF800, 1 << 32, 1 << 52])
        for _ in range(c["peripherals"]):
            n, end = self.peripheral(base)
            dev["c"].append(n)
            base = end if r.p(0.9) else base + 0x80
            base = (base + 3) // 4 * 4
        derive(dev, r, c)
        if c.get("decoys"):
            decoys(dev, r, c)
            if r.p(0.5):
                late(dev, r)
        extras(dev, r, c)
        if c.get("p_tower") and r.p(c["p_tower"]):
            saved = clone(dev)
            tower(dev, r)
            if not _size_ok(dev, 4000):
                dev.clear()
                dev.update(saved)
        if self.latin:
            for n, _ in walk(dev):
                for k, v in n["p"].items():
                    if isinstance(v, str):
                        n["p"][k] = v.encode("latin-1", "ignore").decode("latin-1")
        if c["shuffle"]:
            permute(dev, r)
        return dev


def _size_ok(dev, limit=400):
    # the model refuses blow-ups; keep devices small
    out = model.denote(dev, limit)
    return out[0] == "device"


def count(x):
    if isinstance(x, dict):
        return (1 if x.get("_") in ("Register", "Field", "Cluster", "Peripheral") else 0) + sum(
            count(v) for v in x.values())
    if isinstance(x, list):
        return sum(count(v) for v in x)
    return 0


def addresses(d):
    """every way to name an element in the expanded tree: [(path parts, kind, E or I)]"""
    out = []

    def go(els, pre):
        for e in els:
            views = [e]
            if e.kind != "enums" and e.is_dim():
                views += e.instances()
            for v in views:
                if v.name is None:
                    continue
                out.append((pre + [v.name], v.kind, v))
            for v in views[:2]:
                if v.name is not None and len(out) < 600:
                    go(e.kids(), pre + [v.name])
    go(d.top(), [])
    return out


def derive(dev, r, c, tries=None):
    """add derivedFrom links, keeping the description meaningful according to the model"""
    if c["p_df"] == 0 and tries is None:
        return
    kinds = c.get("df_kinds") or ["peripheral", "cluster", "register", "field", "enums"]
    todo = [n for n, _ in walk(dev) if n["k"] in kinds and "df" not in n and r.p(c["p_df"])]
    r.shuffle(todo)
    for n in todo[: tries or 8]:
        d = model.Dev(dev)
        try:
            adr = addresses(d)
        except (model.ModelError, model.Unsure):
            return
        me = [(pp, v) for pp, k, v in adr if v.ast is n and isinstance(v, model.E) and v.origin is None]
        if not me:
            continue
        mypath, mine = me[0]
        # bases: same kind, biased to near ones; includes templates, instances and inherited elements
        cand = [(pp, v) for pp, k, v in adr if k == n["k"] and v.ast is not n]
        if n["k"] == "field":
            cand = [(pp, v) for pp, v in cand if "[" not in pp[-1]] or cand
        if not cand:
            continue
        pp, v = r.pick(cand)
        path = pp
        # shorten to a sibling-relative path where one exists
        up = mine.parent
        if up is not None and r.p(0.6):
            depth = len(mypath) - 1
            if pp[:depth] == mypath[:depth]:
                path = pp[depth:]
        saved = clone(n)
        n["df"] = ".".join(path)
        drop_for_derivation(n, r)
        if not _size_ok(dev):
            n.clear()
            n.update(saved)
            continue


def decoys(dev, r, c):
    """for a path that names an element near the deriving one: a peripheral for which the same path would mean another
    element of the same kind if the near one were overlooked"""
    have = {n["p"]["name"] for n in dev["c"]}
    marks = 0
    for n, path in list(walk(dev)):
        parts = (n.get("df") or "").split(".")
        if len(parts) < 2 or parts[0] in have or marks >= 2 or not r.p(0.7) or n["k"] == "enums":
            continue
        if any("%" in x for x in parts):
            continue
        leaf = {"k": n["k"], "p": {"name": parts[-1]}, "c": []}
        if n["k"] == "field":
            leaf["p"].update(bitOffset=0, bitWidth=1)
        else:
            leaf["p"]["addressOffset"] = 0
        if r.p(0.8):
            leaf["p"]["description"] = "decoy %d" % marks
        kinds = {"field": ["register"], "register": [], "cluster": []}[n["k"]]
        mids = ["cluster"] * (len(parts) - 2 - len(kinds)) + kinds
        if len(mids) != len(parts) - 2:
            continue
        for name, kind in reversed(list(zip(parts[1:-1], mids))):
            leaf = {"k": kind, "p": {"name": name, "addressOffset": 0}, "c": [leaf]}
        if n["k"] == "cluster":
            at = leaf
            while at["c"]:
                at = at["c"][0]
            at["c"] = [{"k": "register", "p": {"name": "DecoyReg", "addressOffset": 0}, "c": []}]
        per = {"k": "peripheral", "p": {"name": parts[0], "baseAddress": 0x60000000 + 0x1000 * marks}, "c": [leaf],
               "ab": [{"offset": 0, "size": 0x100, "usage": "registers"}], "irq": []}
        dev["c"].insert(r.below(len(dev["c"]) + 1), per)
        if not _size_ok(dev):
            dev["c"].remove(per)
            continue
        have.add(parts[0])
        marks += 1


def late(dev, r):
    """a path through a cluster that only inherits what the path names, while the same path from the peripherals down names
    something that is there from the beginning"""
    saved = clone(dev)
    nodes = list(walk(dev))

    def full(path):
        q, n = [], dev
        for i in path:
            n = n["c"][i]
            q.append(n["p"]["name"])
        return q
    bases = [(n, p) for n, p in nodes if n["k"] == "cluster" and n.get("c")]
    if not bases:
        return
    b, bp = r.pick(bases)
    t = r.pick(b["c"])
    homes = [n for n, p in nodes if n["k"] in ("peripheral", "cluster") and p[:len(bp)] != bp and n.get("c")]
    if not homes:
        return
    home = r.pick(homes)
    name = r.pick(["Late", "Late", "Late%s"])
    x = {"k": "cluster", "df": ".".join(full(bp)), "c": [], "p": {"name": name, "addressOffset": 0x400}}
    if "%s" in name:
        x["p"].update(dim=2, dimIncrement=0x40)
    first = r.pick(["Late0", "Late1", "Late%s"]) if "%s" in name else "Late"
    y = {"k": t["k"], "df": first + "." + t["p"]["name"].replace("[%s]", r.pick(["0", "[%s]"])), "c": [],
         "p": {"name": "Taker", "addressOffset": 0x800}}
    if t["p"].get("dim"):
        y["p"]["name"] = r.pick(["Taker%s", "Taker[%s]"])
    leaf = {"k": t["k"], "p": {"name": y["df"].split(".")[1], "addressOffset": 0, "description": "decoy"}, "c": []}
    if "%s" in leaf["p"]["name"]:
        leaf["p"].update(dim=2, dimIncrement=4)
    if t["k"] == "cluster":
        leaf["c"] = [{"k": "register", "p": {"name": "DecoyReg", "addressOffset": 0}, "c": []}]
    for z in (x, y):
        home["c"].insert(r.below(len(home["c"]) + 1), z)
    if "%" not in first:
        dev["c"].insert(r.below(len(dev["c"]) + 1), {
            "k": "peripheral", "p": {"name": first, "baseAddress": 0x70000000}, "c": [leaf],
            "ab": [{"offset": 0, "size": 0x100, "usage": "registers"}], "irq": []})
    if not _size_ok(dev):
        dev.clear()
        dev.update(saved)


def tower(dev, r):
    """something far larger than the rest: a long chain of derivations, deep nesting, or very many elements"""
    size = r.pick([9, 17, 33, 40, 65, 70, 101, 130])
    kind = r.pick(["chain", "chain", "deep", "deep", "flat", "dims", "peripherals", "fields", "relay",
                   "relay"])
    if kind == "peripherals":                  # a chain or star of peripherals
        star = r.p(0.5)
        new = []
        for i in range(size):
            n = {"k": "peripheral", "c": [], "irq": [], "ab": [], "p": {"name": "Tower%d" % i, "baseAddress": 0x80000000 + 0x1000 * i}}
            if i:
                n["df"] = "Tower%d" % (0 if star else i - 1)
            else:
                n["ab"] = [{"offset": 0, "size": 0x100, "usage": "registers"}]
                n["p"].update(size=16, description="tower", version="7")
                n["c"] = [{"k": "register", "p": {"name": "R", "addressOffset": 0}, "c": []}]
            if r.p(0.1):
                n["p"]["access"] = r.pick(ACCESS)
            new.append(n)
        r.shuffle(new)
        dev["c"] += new
        return
    top = {"k": "peripheral", "p": {"name": "Tower", "baseAddress": 0x80000000}, "irq": [],
           "ab": [{"offset": 0, "size": 0x10000, "usage": "registers"}], "c": []}
    if kind == "chain":
        sort = r.pick(["register", "register", "cluster", "field", "enums"])
        size = min(size, 31 if sort == "field" else 40)
        new, star = [], r.p(0.2)
        for i in range(size):
            n = {"k": sort, "c": [], "p": {"name": "T%d" % i}}
            if i:
                n["df"] = ("Tower.Top." if sort in ("field", "enums") and r.p(0.3) else "") + "T%d" % (0 if star else i - 1)
            if sort == "field":
                n["p"].update(bitOffset=i, bitWidth=1)
            elif sort == "enums":
                n["v"] = []
            else:
                n["p"]["addressOffset"] = 0x10 * i
            if not i:
                if sort == "enums":
                    n["v"] = [{"name": "v%d" % j, "value": str(j)} for j in range(2)]
                else:
                    n["p"].update(description="tower", access="write-only")
                if sort == "register":
                    n["p"].update(size=16, resetValue=0, resetMask=0)
                if sort == "cluster":
                    n["c"] = [{"k": "register", "p": {"name": "R", "addressOffset": 4}, "c": []}]
            elif sort != "enums" and r.p(0.1):
                n["p"]["access"] = r.pick(ACCESS)
            new.append(n)
        if sort == "enums":
            for i, n in enumerate(new):
                if i and r.p(0.7):
                    n["df"] = n["df"].split(".")[-1]
                new[i] = {"k": "field", "p": {"name": "F%d" % i, "bitOffset": i, "bitWidth": 1}, "c": [n]}
                if i:
                    n["df"] = "Tower.Top.F%d.T%d" % ((0, 0) if star else (i - 1, i - 1))
            new = new[:31]
        r.shuffle(new)
        top["c"] = [{"k": "register", "p": {"name": "Top", "addressOffset": 0}, "c": new}] if sort in ("field", "enums") else new
    elif kind == "relay":                      # every path names what exists only when the one before has been expanded
        sort = r.pick(["register", "register", "cluster", "field"])
        new = []
        for i in range(min(size, 15 if sort == "field" else 40)):
            n = {"k": sort, "c": [], "p": {"name": "T%d_%%s" % i, "dim": 2, "dimIncrement": 1 if sort == "field" else 8}}
            if sort == "field":
                n["p"].update(bitOffset=2 * i, bitWidth=1)
            else:
                n["p"]["addressOffset"] = 0x10 * i
            if i:
                n["df"] = "T%d_%d" % (i - 1, r.below(2))
                if r.p(0.1):
                    n["p"]["description"] = "tower %d" % i
            else:
                n["p"].update(description="tower", access="read-only")
                if sort == "cluster":
                    n["c"] = [{"k": "register", "p": {"name": "R", "addressOffset": 0}, "c": []}]
            new.append(n)
        r.shuffle(new)
        top["c"] = [{"k": "register", "p": {"name": "Top", "addressOffset": 0}, "c": new}] if sort == "field" else new
    elif kind == "deep":
        depth = min(size, 24)
        leaf = {"k": "register", "p": {"name": "Leaf", "addressOffset": 4, "description": "leaf"},
                "c": [{"k": "field", "p": {"name": "F", "bitOffset": 0, "bitWidth": 3}, "c": []}]}
        names = ["Leaf"]
        for i in range(depth):
            leaf = {"k": "cluster", "p": {"name": "C%d" % i, "addressOffset": 0}, "c": [leaf]}
            if r.p(0.1):
                leaf["p"]["access"] = r.pick(ACCESS)
            if r.p(0.1):
                leaf["p"]["size"] = r.pick([8, 16, 32])
            names.append("C%d" % i)
        top["c"] = [leaf]
        cut = r.below(depth)
        path = ["Tower"] + names[:cut:-1]
        if cut == 0:
            path = ["Tower"] + names[::-1]
            top["c"].append({"k": "register", "df": ".".join(path[r.below(2):]), "p": {"name": "X", "addressOffset": 0x400}, "c": []})
        else:
            top["c"].append({"k": "cluster", "df": ".".join(path[r.below(2):]), "p": {"name": "X", "addressOffset": 0x400}, "c": []})
        r.shuffle(top["c"])
    elif kind == "flat":
        top["c"] = [{"k": "register", "p": {"name": "R%d" % i, "addressOffset": 4 * i}, "c": []} for i in range(size * 3)]
        r.shuffle(top["c"])
    elif kind == "dims":
        a, b, d = r.pick([(6, 6, 6), (2, 40, 2), (70, 2, 1), (2, 2, 65), (130, 1, 1), (1, 11, 11)])
        top["c"] = [{"k": "cluster", "p": {"name": "A[%s]", "addressOffset": 0, "dim": a, "dimIncrement": 4 * b * d}, "c": [
            {"k": "cluster", "p": {"name": "B%s", "addressOffset": 0, "dim": b, "dimIncrement": 4 * d}, "c": [
                {"k": "register", "p": {"name": r.pick(["R[%s]", "R%s"]), "addressOffset": 0, "dim": d, "dimIncrement": 4}, "c": []}]}]}]
    else:
        top["c"] = [{"k": "register", "p": {"name": "Top", "addressOffset": 0, "size": 128}, "c": [
            {"k": "field", "p": {"name": "F%d" % i, "bitOffset": i, "bitWidth": 1}, "c": []} for i in range(min(size, 128))]}]
        r.shuffle(top["c"][0]["c"])
    dev["c"].insert(r.below(len(dev["c"]) + 1), top)


def drop_for_derivation(n, r):
    """a derived element usually states only what differs"""
    p = n["p"]
    keep = {"name", "baseAddress", "addressOffset"}
    for t in list(p):
        if t in keep:
            continue
        if t in ("bitOffset", "bitWidth", "lsb", "msb", "bitRange"):
            continue
        if t in ("dim", "dimIncrement", "dimIndex") or t == "displayName":
            continue
        if r.p(0.6):
            del p[t]
    if n["k"] == "field" and "bitOffset" in p and r.p(0.4):
        del p["bitWidth"]
    if n["k"] == "field" and "lsb" in p and r.p(0.1):
        del p["msb"]
    if "dim" in p and r.p(0.3):
        # inherit the dimension instead (only meaningful when the base is a template; the model decides)
        for t in ("dim", "dimIncrement", "dimIndex"):
            p.pop(t, None)
        p.pop("dimName", None)
        n.pop("dai", None)
    elif r.p(0.5):
        n.pop("wc", None)
    if n["k"] == "peripheral" and r.p(0.6):
        n["ab"] = []
    if n["k"] == "enums":
        if r.p(0.8):
            n["v"] = []
        return
    if r.p(0.6):
        n["c"] = []
    if "%s" not in p["name"]:
        for t in ("dim", "dimIncrement", "dimIndex"):
            p.pop(t, None)


def extras(dev, r, c):
    """constructs that make the library leave elements out, warn, or use alternates"""
    nodes = [n for n, _ in walk(dev)]
    for n in nodes:
        k, p = n["k"], n["p"]
        if r.p(c["p_drop"]) and k != "device":
            saved = clone(n)
            if k in ("register", "field") and r.p(0.6) and "%s" not in p["name"]:
                p["name"] = r.pick(["reserved", "Reserved", "RESERVED"])
            elif k in ("register", "cluster", "peripheral") and r.p(0.5):
                p["size"] = r.pick([12, 20, 33])
            elif k == "enums" and n["v"]:
                n["v"].insert(r.below(len(n["v"]) + 1), r.pick([
                    {"name": "Reserved", "value": "1"}, {"name": "toobig", "value": str(1 << 33)},
                    {"name": n["v"][0]["name"], "value": "1"}, {"name": "dupv", "value": n["v"][0].get("value", "0")}]))
            elif k == "cluster" and "df" not in n and r.p(0.3):
                n["c"] = []
            elif k == "peripheral" and r.p(0.3):
                n["c"] = []
            if not _size_ok(dev):
                n.clear()
                n.update(saved)
    if c["p_alt"]:
        for n in nodes:
            if n["k"] not in ("peripheral", "cluster", "device"):
                continue
            kids = n["c"]
            for a in kids:
                if not r.p(c["p_alt"]):
                    continue
                b = r.pick(kids)
                if b is a or b["k"] != a["k"] or "%s" in a["p"]["name"] or "%s" in b["p"]["name"]:
                    continue
                saved = clone(a)
                if a["k"] == "register":
                    if r.p(0.4):
                        a["p"]["alternateGroup"] = "Grp" + alpha(r.below(3))
                    else:
                        a["p"]["alternateRegister"] = b["p"]["name"]
                    a["p"]["addressOffset"] = b["p"]["addressOffset"]
                elif a["k"] == "cluster":
                    a["p"]["alternateCluster"] = b["p"]["name"]
                    a["p"]["addressOffset"] = b["p"]["addressOffset"]
                else:
                    a["p"]["alternatePeripheral"] = b["p"]["name"]
                    a["p"]["baseAddress"] = b["p"]["baseAddress"]
                if not _size_ok(dev):
                    a.clear()
                    a.update(saved)


def permute(dev, r):
    """permute the declaration order (peripherals, registers/clusters, fields, enum containers) in place"""
    for n, _ in walk(dev):
        if n.get("c"):
            r.shuffle(n["c"])


def device(seed_or_rng, **fix):
    """-> AST of a description that denotes a device (per the model)"""
    rng = seed_or_rng if isinstance(seed_or_rng, Rng) else Rng(seed_or_rng, "device")
    for _ in range(6):
        cfg = swarm(rng, **fix)
        dev = Gen(rng, cfg).device()
        if _size_ok(dev, 4000 if fix.get("p_tower") else 400):
            return dev
    cfg = swarm(rng, **{**fix, "p_df": 0.0, "p_dim": 0.0, "p_drop": 0.0, "p_alt": 0.0})
    return Gen(rng, cfg).device()


# ---------------------------------------------------------------------------------------------- broken documents
def break_it(dev, r: Rng, kinds=None):
    """-> (label, AST that denotes no device) or None"""
    d = clone(dev)
    nodes = [(n, p) for n, p in walk(d) if n["k"] != "device"]
    kind = r.pick(kinds or ["dangling", "dangling", "self", "cycle2", "cycle3", "ancestor", "dup", "nodim", "dimindex",
                            "overlap", "enumuse", "noaddr", "altboth", "dimzero", "twodefault", "badsize", "fieldarray",
                            "narrow", "ambiguous", "display", "display", "access", "threeenums"])
    r.shuffle(nodes)

    def full(path):
        q, n = [], d
        for i in path:
            n = n["c"][i]
            q.append(n["p"].get("name") or "?")
        return q
    try:
        if kind == "dangling":
            n, p = nodes[0]
            parts = full(p)
            parts[r.below(len(parts))] += "Missing"
            n["df"] = ".".join(parts)
        elif kind == "self":
            n, p = nodes[0]
            n["df"] = r.pick([".".join(full(p)), n["p"].get("name") or "x"])
        elif kind in ("cycle2", "cycle3"):
            same = [(n, p) for n, p in nodes if n["k"] == nodes[0][0]["k"] and n["k"] != "enums"]
            k = 2 if kind == "cycle2" else 3
            if len(same) < k:
                return None
            for i in range(k):
                same[i][0]["df"] = ".".join(full(same[(i + 1) % k][1]))
        elif kind == "ancestor":
            deep = [(n, p) for n, p in nodes if n["k"] == "cluster" and len(p) > 2]
            if not deep:
                return None
            n, p = deep[0]
            n["df"] = ".".join(full(p[:-1]))
        elif kind == "dup":
            n, p = nodes[0]
            if n["k"] == "enums":
                return None
            par = d
            for i in p[:-1]:
                par = par["c"][i]
            par["c"].append(clone(n))
        elif kind == "nodim":
            n, p = nodes[0]
            if "%s" in (n["p"].get("name") or "%s") or "df" in n:
                return None
            n["p"]["name"] += "%s"
        elif kind == "dimindex":
            t = [n for n, p in nodes if n["p"].get("dim") and "[%s]" not in n["p"]["name"]]
            if not t:
                return None
            t[0]["p"]["dimIndex"] = r.pick(["0-50", "A-Z", "a,b,c,d,e,f,g", "9-2", "?"])
        elif kind == "narrow":
            # the elements of a field list are wider than their increment, stated or inherited, so they overlap
            t = [n for n, p in nodes if n["k"] == "field" and "%s" in n["p"]["name"]]
            if not t:
                return None
            f = r.pick(t)
            q = f["p"]
            inc = q.get("dimIncrement")
            if inc and r.p(0.6):
                # a list that inherits the increment and states wider bits of its own
                reg = next(n for n, p in nodes if any(x is f for x in n.get("c", [])))
                if r.p(0.5):
                    reg["c"] = [f]
                w = inc + r.range(1, 2)
                b = {"k": "field", "df": q["name"], "c": [], "p": {"name": "FldNarrow%s", "dim": 2}}
                lo = r.below(32)
                b["p"].update(r.pick([{"bitRange": f"[{lo + w - 1}:{lo}]"}, {"lsb": lo, "msb": lo + w - 1},
                                      {"bitOffset": lo, "bitWidth": w}]))
                reg["c"].append(b)
            elif "lsb" in q and "msb" in q:
                q["msb"] += r.range(1, 3)
            elif "bitWidth" in q:
                q["bitWidth"] += r.range(1, 3)
            elif "bitRange" in q:
                m, l = map(int, q["bitRange"][1:-1].split(":"))
                q["bitRange"] = f"[{m + r.range(1, 3)}:{l}]"
        elif kind == "ambiguous":
            # two elements of one name: no error by themselves in different scopes, but a path may mean either
            t = [(n, p) for n, p in nodes if len(p) == 1 and n["c"]]
            if len(t) < 2:
                return None
            t[1][0]["p"]["name"] = t[0][0]["p"]["name"]
        elif kind == "dimzero":
            t = [n for n, p in nodes if n["p"].get("dim")]
            if not t:
                return None
            t[0]["p"]["dim"] = 0
        elif kind == "overlap":
            t = [n for n, p in nodes if n["k"] == "register" and n["c"]]
            if not t:
                return None
            f = clone(t[0]["c"][0])
            f["p"]["name"] = "FldOverlap"
            for q in ("dim", "dimIncrement", "dimIndex"):
                f["p"].pop(q, None)
            f["c"] = []
            t[0]["c"].append(f)
        elif kind == "display":                # a display name of another sort than the name
            t = [n for n, p in nodes if n["k"] == "register"]
            q = r.pick(t)["p"]
            q["displayName"] = r.pick(["Shown%s", "Shown[%s]", "%s", "[%s]x"])
            if r.p(0.2) and nodes[0][0]["k"] == "peripheral" and "dim" not in nodes[0][0]["p"]:
                q = nodes[0][0]["p"]
                q.update(dim=2, dimIncrement=0x1000, name=q["name"] + "%s")
        elif kind == "access":                 # two fields in one place, which may be read, or written, in one of them only
            t = [n for n, p in nodes if n["k"] == "register" and n["c"]]
            reg = r.pick(t)
            f = clone(reg["c"][0])
            for q in ("dim", "dimIncrement", "dimIndex"):
                f["p"].pop(q, None)
            f["p"].update(name="FldOverlap", access=r.pick(ACCESS))
            f["c"] = []
            reg["c"][0]["p"]["access"] = r.pick(ACCESS)
            reg["c"].append(f)
        elif kind == "threeenums":
            t = [n for n, p in nodes if n["k"] == "field" and n["c"]]
            if not t:
                return None
            for k, u in enumerate(r.sample(["read", "write", "read-write", "read"], 2)):
                e = clone(t[0]["c"][0])
                e["p"].update(name="EnmMore%d" % k, usage=u)
                t[0]["c"].append(e)
        elif kind == "enumuse":
            t = [n for n, p in nodes if n["k"] == "field" and n["c"]]
            if not t:
                return None
            e = clone(t[0]["c"][0])
            e["p"]["name"] = "EnmOther"
            t[0]["c"].append(e)
        elif kind == "noaddr":
            t = [n for n, p in nodes if n["k"] == "peripheral" and "df" not in n]
            if not t:
                return None
            t[0]["ab"] = []
        elif kind == "altboth":
            t = [n for n, p in nodes if n["k"] == "register"]
            t[0]["p"]["alternateGroup"] = "G1"
            t[0]["p"]["alternateRegister"] = "RegA"
        elif kind == "twodefault":
            t = [n for n, p in nodes if n["k"] == "enums" and n["v"]]
            if not t:
                return None
            t[0]["v"] += [{"name": "dx1", "isDefault": True}, {"name": "dx2", "isDefault": True}]
        elif kind == "badsize":
            t = [n for n, p in nodes if n["k"] == "register"]
            t[0]["p"]["size"] = r.pick([24, 48, 256])
        elif kind == "fieldarray":
            t = [n for n, p in nodes if n["k"] == "field" and "dim" not in n["p"]]
            if not t:
                return None
            t[0]["p"].update(dim=2, dimIncrement=1, name="FldArr[%s]")
    except (IndexError, ZeroDivisionError):
        return None
    if model.denote(d, 3000)[0] != "error":
        return None
    return kind, d

"""Executable reference model: what device does an SVD description denote?

Written from the documented semantics (README, test docstrings), on the AST of sim/ast.py, as a *lazy, demand-driven*
evaluation: there is no work list, no order of resolution and no graph, so it cannot share an ordering mistake with the
code under test.  `denote(ast)` returns a canonical dict comparable with canon.processed(device).
"""
import itertools
import re

LEVEL = {"peripheral": "P", "cluster": "C", "register": "R", "field": "F", "enums": "E"}


class ModelError(Exception):
    """The document denotes no device: the code under test must report an error."""


class Unsure(Exception):
    """The model declines (the outcome is legitimately a matter of the implementation)."""


class E:
    """An element as it occurs in the expanded tree, before dim expansion (a 'template' when it has a dim)."""
    __slots__ = ("ast", "parent", "origin", "_base", "_kids", "_busy", "dev", "_dim", "root", "_pa")

    def __init__(self, dev, ast, parent, origin=None):
        self.dev, self.ast, self.parent, self.origin = dev, ast, parent, origin
        self._base = self._kids = self._dim = None
        self._busy = False
        self.root = self if origin is None else origin.root
        self._pa = {}

    @property
    def name(self):
        return self.ast["p"].get("name")

    @property
    def kind(self):
        return self.ast["k"]

    # -- inheritance
    def base(self):
        if self.origin is not None:
            return self.root.base()
        if self._base is None:
            df = self.ast.get("df")
            if df is None:
                self._base = (None,)
            else:
                if self._busy:
                    raise ModelError("cycle")
                self._busy = True
                try:
                    self._base = (self.dev.lookup(df, self),)
                finally:
                    self._busy = False
        return self._base[0]

    def pa(self, tag):
        """property with derivedFrom applied (no parent inheritance)"""
        if self.origin is not None:
            return self.root.pa(tag)
        if tag in self._pa:
            return self._pa[tag]
        v = self.ast["p"].get(tag)
        if v is None:
            b = self.base()
            if b is not None:
                v = b.pa(tag)
        self._pa[tag] = v
        return v

    def chain(self):
        """self and its bases, for cycle detection"""
        seen = []
        e = self
        while e is not None:
            u = e.tmpl() if isinstance(e, I) else e
            u = u.root
            if u in seen:
                raise ModelError("cycle")
            seen.append(u)
            e = u.base()
        return seen

    # -- dims
    def is_dim(self):
        return self.kind != "enums" and self.pa("dim") is not None and "%s" in self.name

    def instances(self):
        if self._dim is None:
            self._dim = [I(self, i, n, dn) for i, (n, dn) in enumerate(self._names())]
        return self._dim

    def display(self):
        """display name as written (own, or the base's processed one)"""
        if self.kind != "register":
            return None
        if self.origin is not None:
            return self.root.display()
        v = self.ast["p"].get("displayName")
        if v is None:
            b = self.base()
            if b is not None:
                v = b.shown()
        return v

    def shown(self):
        if self.is_dim():
            return self.instances()[0].dn     # a template shows its first instance (see DESIGN: known finding)
        v = self.display()
        if v is not None and "[%s]" in v:
            v = v.replace("[%s]", "0")
        return v

    def _names(self):
        dim, name, dn = self.pa("dim"), self.name, self.display()
        if dim < 1:
            raise ModelError("dim < 1")
        if "[%s]" in name:
            if self.kind == "field":
                raise ModelError("field array")
            if dn is not None and "[%s]" not in dn and "%s" in dn:
                raise ModelError("display list in array")
            return [(name.replace("[%s]", str(i)), None if dn is None else dn.replace("[%s]", str(i)))
                    for i in range(dim)]
        if self.kind == "peripheral":
            raise ModelError("peripheral list")
        if dn is not None and "[%s]" in dn:
            raise ModelError("display array in list")
        idx = dim_index(self.pa("dimIndex"), dim)
        return [(name.replace("%s", i), None if dn is None else dn.replace("%s", i)) for i in idx]

    # -- children
    def kids(self):
        if self._kids is None:
            if self._busy:
                raise ModelError("cycle")
            own = [E(self.dev, a, self) for a in self.ast.get("c", [])] if self.origin is None else \
                [E(self.dev, k.ast, self, k) for k in self.origin.kids()]
            b = self.base() if self.origin is None else None
            self._busy = True
            try:
                inh = [E(self.dev, k.ast, self, k) for k in b.kids()] if b is not None else []
            finally:
                self._busy = False
            self._kids = own + inh
            if len(self._kids) > 4000:
                raise ModelError("unbounded")
        return self._kids

    def tmpl(self):
        return self


class I:
    """One instance of a dimensioned element: own name and offset, children shared with the template."""
    __slots__ = ("t", "i", "name", "dn")

    def __init__(self, t, i, name, dn):
        self.t, self.i, self.name, self.dn = t, i, name, dn

    kind = property(lambda s: s.t.kind)
    ast = property(lambda s: s.t.ast)
    parent = property(lambda s: s.t.parent)

    def tmpl(self):
        return self.t

    def base(self):
        return self.t.base()

    def kids(self):
        return self.t.kids()

    def shown(self):
        return self.dn

    def pa(self, tag):
        return None if tag in ("dim", "dimIncrement", "dimIndex") else self.t.pa(tag)


def dim_index(s, dim):
    if s is None:
        out = [str(i) for i in range(dim)]
    elif re.match(r"[0-9]+-[0-9]+$", s):
        a, b = map(int, s.split("-"))
        if a > b:
            raise ModelError("dimIndex order")
        out = [str(i) for i in range(a, b + 1)]
    elif re.match(r"[A-Z]-[A-Z]$", s):
        a, b = s.split("-")
        if a >= b:
            raise ModelError("dimIndex order")
        out = [chr(i) for i in range(ord(a), ord(b) + 1)]
    elif re.match(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+$", s):
        out = [x.strip() for x in s.split(",")]
    elif re.match(r"[_0-9a-zA-Z]+$", s):
        out = [s]
    else:
        raise ModelError("dimIndex format")
    if len(out) != dim:
        raise ModelError("dimIndex count")
    return out


def could_be(declared, part):
    if declared is None or part is None:
        return False
    if declared == part:
        return True
    if "%s" not in declared:
        return False
    pat = re.escape(declared).replace(re.escape("[%s]"), "[0-9]+").replace("%s", "[_0-9a-zA-Z]+")
    return re.fullmatch(pat, part) is not None


# what an element of a kind can be in, at whatever depth
HOLDS = {"peripheral": (), "cluster": ("peripheral", "cluster"), "register": ("peripheral", "cluster"),
         "field": ("peripheral", "cluster", "register"), "enums": ("peripheral", "cluster", "register", "field")}


class Dev:
    def __init__(self, ast):
        self.ast = ast
        self._top = None
        self.limit, self.size = None, 0
        self.drops = []       # (kind, name, reason): everything the device leaves out
        self.notes = set()    # features exercised, for reach measurement

    def top(self):
        if self._top is None:
            self._top = [E(self, a, None) for a in self.ast["c"]]
        return self._top

    def siblings(self, e):
        src = self.top() if e.parent is None else e.parent.kids()
        return [k for k in src if k is not e]

    @staticmethod
    def named(els, part):
        for k in els:
            if could_be(k.name, part):
                if k.name == part:
                    yield k
                elif k.is_dim():
                    for i in k.instances():
                        if i.name == part:
                            yield i

    def search(self, els, parts, e):
        hits = []
        holds = (e.kind,) if len(parts) == 1 else HOLDS[e.kind]
        for k in self.named([k for k in els if k.kind in holds], parts[0]):
            if k is e:
                self.own = True
                continue
            if len(parts) == 1:
                if k.kind == e.kind:
                    hits.append(k)
            else:
                hits.extend(self.search(k.kids(), parts[1:], e))
        return hits

    def lookup(self, path, e):
        parts = path.split(".")
        for els in (self.siblings(e), self.top()):
            self.own = False
            h = self.search(els, parts, e)
            if h and self.own and e.kind != "register":
                raise Unsure("the path also names the element itself")    # but not its copies elsewhere
            if len(h) > 1:
                # registers in alternate groups may share the name of the one that is in none
                h = [x for x in h if x.kind == "register" and x.pa("alternateGroup") is None]
                if len(h) != 1:
                    raise ModelError("ambiguous path")
            if h:
                return h[0]
        raise ModelError("dangling derivedFrom " + path)

    where = None

    def src(self, x):
        """where in the description x stands, if somebody wants to know"""
        if self.where is None:
            return {}
        return {"@": self.where[id(x)]}

    def traced(self):
        self.where = {}

        def go(n, at):
            self.where[id(n)] = at
            for t in ("ab", "irq", "v"):
                for i, x in enumerate(n.get(t, [])):
                    self.where[id(x)] = f"{at}/{t}{i}"
            if n.get("wc") is not None:
                self.where[id(n["wc"])] = at + "/wc"
            for i, c in enumerate(n.get("c", [])):
                go(c, f"{at}/{i}")
        go(self.ast, "")
        return self

    # ------------------------------------------------------------------------------------------ denotation
    def run(self):
        p = self.ast["p"]
        self.d_size = p.get("size", 32)
        top = {"size": self.d_size, "access": p.get("access") or "read-write", "protection": p.get("protection", "any"),
               "reset_value": p.get("resetValue", 0), "reset_mask": p.get("resetMask", 0xFFFFFFFF)}
        out = {"_": "Device", **top}
        for t in ("vendor", "vendorID", "name", "series", "version", "description", "licenseText",
                  "headerSystemFilename", "headerDefinitionsPrefix", "addressUnitBits", "width"):
            out[snake(t)] = p.get(t)
        if out["description"] is None:
            out["description"] = ""
        out["cpu"] = cpu(self.ast.get("cpu"))
        pers = []
        for v in self.expand(self.top()):
            t = self.tree(v)
            t = self.finish_peripheral(t, top)
            if t is not None:
                pers.append(t)
        names = [x["name"] for x in pers]
        if len(set(names)) != len(names):
            raise ModelError("duplicate peripheral")
        pers.sort(key=lambda x: (x["base_address"], x["name"]))
        out["peripherals"] = pers
        return out

    def expand(self, els):
        out = []
        for e in els:
            e.chain()
            if e.kind == "enums":
                out.append(e)
                continue
            dim = e.pa("dim")
            if dim is None and "%s" in e.name:
                raise ModelError("%s without dim")
            if dim is not None and "%s" not in e.name:
                self.notes.add("dim-ignored")
            if e.is_dim():
                self.notes.add("dim")
                out.extend(e.instances())
            else:
                d = e.display()
                if d is not None and "%s" in d:
                    raise ModelError("display %s without dim")
                out.append(e)
        return out

    def tree(self, v):
        """explicit (not yet parent-inherited) values of an occurrence, with its expanded subtree"""
        self.size += 1
        if self.limit is not None and self.size > self.limit:
            raise Unsure("too big")
        t = v.tmpl()
        k = v.kind
        inst = v.i if isinstance(v, I) else 0
        inc = t.pa("dimIncrement")
        add = 0 if inc is None else inc * inst
        n = {"k": k, "name": v.name, "parsed": t.name, **self.src(t.ast)}
        if k != "field":
            for a in ("size", "access", "protection", "resetValue", "resetMask"):
                n[snake(a)] = t.pa(a)
        n["description"] = t.pa("description")
        if k == "peripheral":
            for a in ("version", "alternatePeripheral", "groupName", "prependToName", "appendToName",
                      "disableCondition"):
                n[snake(a)] = t.pa(a)
            n["header_struct_name"] = t.ast["p"].get("headerStructName")
            n["base_address"] = t.ast["p"]["baseAddress"] + add
            n["address_blocks"] = self.blocks(t)
            n["interrupts"] = sorted(({"_": "Interrupt", "name": q["name"], "description": q.get("description"),
                                       "value": q["value"], **self.src(q)} for q in t.ast.get("irq", [])),
                                     key=lambda q: q["value"])
        elif k in ("cluster", "register"):
            n["address_offset"] = t.ast["p"]["addressOffset"] + add
            if k == "cluster":
                n["alternate_cluster"] = t.pa("alternateCluster")
                n["header_struct_name"] = t.pa("headerStructName")
            else:
                dn = v.dn if isinstance(v, I) else t.display()
                if dn is not None and "[%s]" in dn:
                    dn = dn.replace("[%s]", str(inst))
                n["display_name"] = dn
                for a in ("alternateGroup", "alternateRegister", "dataType", "readAction"):
                    n[snake(a)] = t.pa(a)
        if k == "field":
            n["access"] = t.pa("access")
            n["read_action"] = t.pa("readAction")
            lsb, msb = bits(t)
            n["lsb"], n["msb"] = lsb + add, msb + add
        if k in ("register", "field"):
            n["modified_write_values"] = t.pa("modifiedWriteValues") or "modify"
            n["write_constraint"] = self.wcons(t)
        if k == "field":
            n["enums"] = self.enums(v, n["lsb"], n["msb"])
        else:
            n["c"] = [self.tree(x) for x in self.expand(v.kids())]
        return n

    def blocks(self, t):
        own = t.ast.get("ab", [])
        if own:
            out = [{"_": "AddressBlock", "offset": b["offset"], "size": b["size"], "usage": b["usage"],
                    "protection": b.get("protection") or "any", **self.src(b)} for b in own]
            return sorted(out, key=lambda b: b["offset"])
        b = t.base()
        return self.blocks(b.tmpl()) if b is not None else []

    def wcons(self, t):
        if t.origin is not None:
            return self.wcons(t.root)
        w = t.ast.get("wc")
        if w is not None:
            return {"_": "WriteConstraint", "write_as_read": w.get("writeAsRead"),
                    "use_enumerated_values": w.get("useEnumeratedValues"),
                    "range_": list(w["range"]) if w.get("range") else None, **self.src(w)}
        b = t.base()
        return self.wcons(b.tmpl()) if b is not None else None

    def enums(self, v, lsb, msb):
        out = []
        for e in v.kids():
            e.chain()
            src = e
            while True:
                b = src.base()
                if b is None:
                    break
                src = b
            out.append(self.container(src.ast, lsb, msb))
        us = [c["usage"] for c in out]
        if len(us) != len(set(us)) or len(us) > 2 or (len(us) == 2 and "read-write" in us):
            raise ModelError("enum containers")
        return sorted(out, key=lambda c: (c["usage"], len(c["enumerated_values"])))

    def container(self, a, lsb, msb):
        p = a["p"]
        vals, seen_n, seen_v, default = [], set(), set(), None
        for v in a["v"]:
            raw = v.get("value")
            nums = enum_value(raw) if raw else [None]
            for num in nums:
                nm = v["name"]
                if nm.lower() == "reserved":
                    self.drops.append(("enum", nm, "reserved"))
                    continue
                if num is not None:
                    sub = raw[2:] if raw.lower().startswith("0x") else raw.lower()
                    if "x" in sub.lower():
                        nm = f"{nm}_{num}"
                        self.notes.add("enum-wildcard")
                if nm in seen_n or num in seen_v:
                    self.drops.append(("enum", nm, "duplicate"))
                    continue
                if v.get("isDefault"):
                    if num is not None:
                        self.notes.add("enum-default-value-ignored")
                        num = None
                    if default is not None:
                        raise ModelError("two defaults")
                    default = (nm, v)
                    seen_n.add(nm)
                    continue
                seen_n.add(nm)
                if num is not None:
                    seen_v.add(num)
                vals.append((num, nm, v))
        if default is not None:
            self.notes.add("enum-default")
            if msb - lsb + 1 > 12:
                raise Unsure("one value for each of very many numbers")
            have = {x[0] for x in vals}
            for i in range(1 << max(0, msb - lsb + 1)):
                if i not in have:
                    vals.append((i, f"{default[0]}_{i}", default[1]))
        if any(x[0] is None for x in vals):
            raise ModelError("enum without value")
        out = []
        for num, nm, v in sorted(vals, key=lambda x: x[0]):
            out.append({"_": "EnumeratedValue", "name": nm, "description": v.get("description"), "value": num,
                        "parsed": v["name"], **self.src(v)})
        return {"_": "EnumeratedValueContainer", "name": p.get("name"), "header_enum_name": p.get("headerEnumName"),
                "usage": p.get("usage") or "read-write", "enumerated_values": out, "parsed": p.get("name"), **self.src(a)}

    # -- sizes and inherited properties
    def adjust(self, n, up):
        """bottom-up size of peripherals and clusters; `up` = nearest explicit size above n"""
        mine = n["size"] if n["size"] is not None else up
        if not n["c"]:
            return
        best = 0
        for c in n["c"]:
            if c["k"] == "cluster":
                self.adjust(c, mine)
            s = c["size"]
            if s is not None and s % 8:
                s = 0
            if s is None:
                s = mine
            best = max(best, s)
        n["size"] = best

    def inherit(self, n, up):
        for a in ("size", "access", "protection", "reset_value", "reset_mask"):
            if n[a] is None:
                n[a] = up[a]
        for c in n.get("c", []):
            if c["k"] == "field":
                if c["access"] is None:
                    c["access"] = n["access"]
                if c["write_constraint"] is None:
                    c["write_constraint"] = n["write_constraint"]
            else:
                self.inherit(c, n)

    def finish_peripheral(self, n, top):
        self.adjust(n, self.d_size)
        self.inherit(n, top)
        kids = self.finish_level(n["c"], n["base_address"])
        if not kids:
            self.drops.append(("peripheral", n["name"], "empty"))
            return None
        if n["size"] % 8:
            self.drops.append(("peripheral", n["name"], "size"))
            return None
        if not n["address_blocks"]:
            raise ModelError("no address blocks")
        base = n["base_address"]
        end = max(k["end"] for k in kids)
        o = {k: v for k, v in n.items() if k not in ("c", "k")}
        o["_"] = "Peripheral"
        o["end_address"] = max(base + b["offset"] + b["size"] - 1 for b in n["address_blocks"])
        o["peripheral_size"] = sum(b["size"] for b in n["address_blocks"])
        o["end_address_effective"] = end
        o["peripheral_size_effective"] = end - base + 1
        flat = []

        def collect(ks):
            for k in ks:
                if k["_"] == "Register":
                    flat.append(k)
                else:
                    collect(k["registers_clusters"])
        o["registers_clusters"] = strip(kids)
        collect(o["registers_clusters"])
        o["registers"] = [r["name"] + "@" + hex(r["base_address"]) for r in
                          sorted(flat, key=lambda r: (r["base_address"], r["name"]))]
        return o

    def finish_level(self, items, base):
        out, seen = [], set()
        for n in items:
            a = base + n["address_offset"]
            if n["size"] % 8:
                self.drops.append((n["k"], n["name"], "size"))
                continue
            if n["size"] // 8 not in (1, 2, 4, 8, 16):
                raise ModelError("size")
            o = {k: v for k, v in n.items() if k not in ("c", "k", "enums")}
            o["base_address"] = a
            if n["k"] == "cluster":
                kids = self.finish_level(n["c"], a)
                if not kids:
                    self.drops.append(("cluster", n["name"], "empty"))
                    continue
                o["_"] = "Cluster"
                o["end_address"] = o["end"] = max(k["end"] for k in kids)
                o["cluster_size"] = o["end"] - a + 1
                o["registers_clusters"] = strip(kids)
                key = n["name"]
                alt = (0, "")
            else:
                if n["name"].lower() == "reserved":
                    self.drops.append(("register", n["name"], "reserved"))
                    continue
                if n["alternate_register"] is not None and n["alternate_group"] is not None:
                    raise ModelError("alternate register and group")
                o["_"] = "Register"
                o["end"] = a + n["size"] // 8 - 1
                o["fields"] = self.finish_fields(n["c"])
                g = n["alternate_group"]
                key = n["name"] + "_" + g if g else n["name"]
                alt = (0, "") if g is None else (1, g)
            if key in seen:
                raise ModelError("duplicate register/cluster")
            seen.add(key)
            out.append(((a, alt, n["name"]), o))
        return [o for _, o in sorted(out, key=lambda x: x[0])]

    def finish_fields(self, items):
        out, seen = [], set()
        for n in sorted(items, key=lambda f: (f["lsb"], f["name"])):
            if n["name"].lower() == "reserved":
                self.drops.append(("field", n["name"], "reserved"))
                continue
            if n["name"] in seen:
                raise ModelError("duplicate field")
            seen.add(n["name"])
            o = {k: v for k, v in n.items() if k not in ("k", "enums")}
            o["_"] = "Field"
            o["bit_offset"] = n["lsb"]
            o["bit_width"] = n["msb"] - n["lsb"] + 1
            o["bit_range"] = [n["msb"], n["lsb"]]
            wide = n["msb"] - n["lsb"] + 1          # a field with swapped bits is only warned about
            top = (1 << wide) - 1 if wide >= 0 else -1
            o["enumerated_value_containers"] = []
            for c in n["enums"]:
                self.drops += [("enum", v["name"], "range") for v in c["enumerated_values"] if v["value"] > top]
                o["enumerated_value_containers"].append(
                    {**c, "enumerated_values": [v for v in c["enumerated_values"] if v["value"] <= top]})
            out.append(o)
        for a, b in itertools.combinations(out, 2):
            if a["lsb"] <= b["msb"] and b["lsb"] <= a["msb"]:
                ra, wa = rw(a["access"])
                rb, wb = rw(b["access"])
                if (ra and rb) or (wa and wb):
                    raise ModelError("field overlap")
        return out


def rw(a):
    return a != "write-only", a != "read-only"


def strip(kids):
    return [{k: v for k, v in o.items() if k != "end"} for o in kids]


def bits(t):
    """(lsb, msb) of a field, own position completed from the base's"""
    if t.origin is not None:
        return bits(t.root)
    p = t.ast["p"]
    b = t.base()
    bl = bm = None
    if b is not None:
        bt = b.tmpl()
        bl, bm = bits(bt)
        inc = bt.pa("dimIncrement")
        if isinstance(b, I) and inc is not None:
            bl, bm = bl + inc * b.i, bm + inc * b.i
    lsb = msb = None
    if p.get("bitOffset") is not None or p.get("bitWidth") is not None:
        o = p.get("bitOffset", bl)
        w = p.get("bitWidth", None if bl is None else bm - bl + 1)
        if o is not None and w is not None:
            lsb, msb = o, o + w - 1
    if p.get("lsb") is not None or p.get("msb") is not None:
        o = p.get("lsb", bl)
        m = p.get("msb", bm)
        if o is not None and m is not None:
            lsb, msb = o, m
    if p.get("bitRange") is not None:
        m = re.match(r"\[(\d+):(\d+)\]", p["bitRange"])
        if not m:
            raise ModelError("bitRange")
        msb, lsb = int(m.group(1)), int(m.group(2))
        if msb < lsb:
            msb, lsb = lsb, msb
    if lsb is None:
        raise ModelError("field without position")
    if msb < lsb:
        raise Unsure("negative width")
    return lsb, msb


def enum_value(s):
    s = s.lower().replace("#", "0b")
    try:
        if s.startswith("0b"):
            b = s[2:]
            n = b.count("x")
            out = []
            for combo in itertools.product("01", repeat=n):
                it = iter(combo)
                out.append(int("".join(next(it) if ch == "x" else ch for ch in b), 2))
            return out
        if s.startswith("0x"):
            return [int(s, 16)]
        if s.isdigit():
            return [int(s)]
    except ValueError:
        pass
    raise ModelError("enum value")


def cpu(c):
    if c is None:
        return None
    o = {"_": "CPU", "name": {"CM0+": "CM0PLUS"}.get(c["name"], c["name"]), "revision": c["revision"],
         "endian": c["endian"], "nvic_prio_bits": c["nvicPrioBits"],
         "vendor_systick_config": c["vendorSystickConfig"], "device_num_interrupts": c.get("deviceNumInterrupts"),
         "sau_num_regions": c.get("sauNumRegions")}
    for t in ("mpuPresent", "fpuPresent", "fpuDP", "dspPresent", "icachePresent", "dcachePresent", "itcmPresent",
              "dtcmPresent", "vtorPresent"):
        v = c.get(t)
        o[snake(t)] = v if v is not None else t == "vtorPresent"
    s = c.get("sau")
    o["sau_regions_config"] = None if s is None else {
        "_": "SauRegionsConfig", "enabled": s.get("enabled", True),
        "protection_when_disabled": s.get("protectionWhenDisabled", "s"),
        "regions": [{"_": "SauRegion", "enabled": r.get("enabled", True), "name": r.get("name"), "base": r["base"],
                     "limit": r["limit"], "access": r["access"]} for r in s["regions"]]}
    return o


_SNAKE = {"vendorID": "vendor_id", "fpuDP": "fpu_dp"}


def snake(t):
    if t not in _SNAKE:
        _SNAKE[t] = re.sub(r"([A-Z])", lambda m: "_" + m.group(1).lower(), t)
    return _SNAKE[t]


def may_be_huge(ast):
    """a default may stand for so many numbers that neither time nor memory suffices"""
    top = default = 0

    def go(n):
        nonlocal top, default
        if n["k"] == "field":
            p = n["p"]
            nums = [int(x) for t in ("lsb", "msb", "bitOffset", "bitWidth", "bitRange")
                    for x in re.findall(r"[0-9]+", str(p.get(t, "")))]
            top = max([top] + nums)
        default += any(v.get("isDefault") for v in n.get("v", []))
        for c in n.get("c", []):
            go(c)
    go(ast)
    return bool(default) and top > 10


def denote(ast, limit=None, trace=False):
    """-> ("device", canonical dict, drops, notes) | ("error", why, drops, notes) | ("unsure", why, ...)"""
    d = Dev(ast)
    if trace:
        d.traced()
    d.limit = limit
    try:
        return "device", d.run(), d.drops, d.notes
    except ModelError as e:
        return "error", str(e), d.drops, d.notes
    except Unsure as e:
        return "unsure", str(e), d.drops, d.notes
    except RecursionError:
        return "error", "unbounded", d.drops, d.notes


# ---------------------------------------------------------------------------------------------- parsed form
def parsed(ast):
    """canonical parsed form (what Parser must deliver) of the AST"""
    p = ast["p"]
    o = {"_": "SVDDevice", "xs_no_namespace_schema_location": ast.get("schemaLocation") or "",
         "schema_version": ast["schemaVersion"]}
    for t in ("vendor", "vendorID", "name", "series", "version", "description", "licenseText", "headerSystemFilename",
              "headerDefinitionsPrefix", "addressUnitBits", "width", "size", "access", "protection", "resetValue",
              "resetMask"):
        o[snake(t)] = p.get(t)
    if o["description"] is None:
        o["description"] = ""
    c = ast.get("cpu")
    if c is None:
        o["cpu"] = None
    else:
        q = {"_": "SVDCPU"}
        for t in ("name", "revision", "endian", "mpuPresent", "fpuPresent", "fpuDP", "dspPresent", "icachePresent",
                  "dcachePresent", "itcmPresent", "dtcmPresent", "vtorPresent", "nvicPrioBits",
                  "vendorSystickConfig", "deviceNumInterrupts", "sauNumRegions"):
            q[snake(t)] = c.get(t)
        s = c.get("sau")
        q["sau_regions_config"] = None if s is None else {
            "_": "SVDSauRegionsConfig", "enabled": s.get("enabled"),
            "protection_when_disabled": s.get("protectionWhenDisabled"),
            "regions": [{"_": "SVDSauRegion", "enabled": r.get("enabled"), "name": r.get("name"), "base": r["base"],
                         "limit": r["limit"], "access": r["access"]} for r in s["regions"]]}
        o["cpu"] = q
    o["peripherals"] = [_parsed(n) for n in ast["c"]]
    return o


_TAGS = {
    "peripheral": ["name", "version", "description", "alternatePeripheral", "groupName", "prependToName",
                   "appendToName", "headerStructName", "disableCondition", "baseAddress"],
    "cluster": ["name", "description", "alternateCluster", "headerStructName", "addressOffset"],
    "register": ["name", "displayName", "description", "alternateGroup", "alternateRegister", "addressOffset",
                 "dataType", "modifiedWriteValues", "readAction"],
    "field": ["name", "description", "bitOffset", "bitWidth", "lsb", "msb", "bitRange", "access",
              "modifiedWriteValues", "readAction"],
}


def _evs(vs):
    return [{"_": "SVDEnumeratedValue", "name": v["name"], "description": v.get("description"),
             "value": v.get("value"), "is_default": v.get("isDefault")} for v in vs]


def _parsed(n):
    k, p = n["k"], n["p"]
    if k == "enums":
        return {"_": "SVDEnumeratedValueContainer", "name": p.get("name"), "header_enum_name": p.get("headerEnumName"),
                "usage": p.get("usage"), "enumerated_values": _evs(n["v"]), "derived_from": n.get("df")}
    o = {"_": "SVD" + k.capitalize(), "derived_from": n.get("df")}
    for t in _TAGS[k] + ["dim", "dimIncrement", "dimIndex", "dimName"]:
        o[snake(t)] = p.get(t)
    d = n.get("dai")
    o["dim_array_index"] = None if not d else {"_": "SVDDimArrayIndex", "header_enum_name": d.get("headerEnumName"),
                                               "enumerated_values": _evs(d["v"])}
    if k != "field":
        for t in ("size", "access", "protection", "resetValue", "resetMask"):
            o[snake(t)] = p.get(t)
    if k in ("register", "field"):
        w = n.get("wc")
        o["write_constraint"] = None if w is None else {
            "_": "SVDWriteConstraint", "write_as_read": w.get("writeAsRead"),
            "use_enumerated_values": w.get("useEnumeratedValues"),
            "range_": list(w["range"]) if w.get("range") else None}
    kids = [_parsed(c) for c in n.get("c", [])]
    if k == "peripheral":
        o["address_blocks"] = [{"_": "SVDAddressBlock", "offset": b["offset"], "size": b["size"], "usage": b["usage"],
                                "protection": b.get("protection")} for b in n.get("ab", [])]
        o["interrupts"] = [{"_": "SVDInterrupt", "name": q["name"], "description": q.get("description"),
                            "value": q["value"]} for q in n.get("irq", [])]
    o[{"peripheral": "registers_clusters", "cluster": "registers_clusters", "register": "fields",
       "field": "enumerated_value_containers"}[k]] = kids
    return o

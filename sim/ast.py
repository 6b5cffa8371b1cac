"""The simulator's own description of an SVD document (plain JSON), independent of the code under test.

node = {"k": kind, "df": derivedFrom?, "p": {xml tag: typed value}, "c": [child nodes],
        "ab": [address blocks], "irq": [interrupts], "wc": write constraint, "dai": dimArrayIndex,
        "v": [enumerated values]}
kinds: device, peripheral, cluster, register, field, enums
Typed values: int for numeric tags, bool for boolean tags, str otherwise (spelled as in XML).
"""
import copy
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from sim.rng import derive

DIM = ["dim", "dimIncrement", "dimIndex", "dimName"]
PROPS = ["size", "access", "protection", "resetValue", "resetMask"]
ORDER = {
    "device": ["vendor", "vendorID", "name", "series", "version", "description", "licenseText", "headerSystemFilename",
               "headerDefinitionsPrefix", "addressUnitBits", "width"] + PROPS,
    "peripheral": DIM + ["name", "version", "description", "alternatePeripheral", "groupName", "prependToName",
                         "appendToName", "headerStructName", "disableCondition", "baseAddress"] + PROPS,
    "cluster": DIM + ["name", "description", "alternateCluster", "headerStructName", "addressOffset"] + PROPS,
    "register": DIM + ["name", "displayName", "description", "alternateGroup", "alternateRegister", "addressOffset"]
    + PROPS + ["dataType", "modifiedWriteValues", "readAction"],
    "field": DIM + ["name", "description", "bitOffset", "bitWidth", "lsb", "msb", "bitRange", "access",
                    "modifiedWriteValues", "readAction"],
    "enums": ["name", "headerEnumName", "usage"],
}
CPU_ORDER = ["name", "revision", "endian", "mpuPresent", "fpuPresent", "fpuDP", "dspPresent", "icachePresent",
             "dcachePresent", "itcmPresent", "dtcmPresent", "vtorPresent", "nvicPrioBits", "vendorSystickConfig",
             "deviceNumInterrupts", "sauNumRegions"]
BOOLS = {"mpuPresent", "fpuPresent", "fpuDP", "dspPresent", "icachePresent", "dcachePresent", "itcmPresent",
         "dtcmPresent", "vtorPresent", "vendorSystickConfig", "writeAsRead", "useEnumeratedValues", "isDefault"}
INTS = {"dim", "dimIncrement", "addressUnitBits", "width", "size", "resetValue", "resetMask", "baseAddress",
        "addressOffset", "bitOffset", "bitWidth", "lsb", "msb", "nvicPrioBits", "deviceNumInterrupts",
        "sauNumRegions"}
HEXY = {"resetValue", "resetMask", "baseAddress", "addressOffset", "offset", "base", "limit", "dimIncrement", "value",
        "size", "minimum", "maximum"}


def clone(x):
    return copy.deepcopy(x)


def walk(node, path=()):
    yield node, path
    for i, c in enumerate(node.get("c", [])):
        yield from walk(c, path + (i,))


def at(node, path):
    for i in path:
        node = node["c"][i]
    return node


# ---------------------------------------------------------------------------------------------- XML out
class Renderer:
    """AST -> XML bytes.  Lexical noise is a pure function of (noise seed, element text), so that removing one
    element during minimisation leaves the spelling of the others alone."""

    def __init__(self, noise=0, indent=True, comments=True):
        self.noise = noise
        self.indent = indent
        self.comments = comments

    def _h(self, *k):
        return derive(self.noise, *k)

    def num(self, tag, v, key):
        if not self.noise:
            return hex(v) if tag in HEXY else str(v)
        h = self._h("num", tag, v, key)
        forms = [str(v), hex(v), "0X%X" % v, "0x%08x" % v]
        if v < 4096:
            forms += ["#" + bin(v)[2:], "0B" + bin(v)[2:]]
        forms += ["%03d" % v, "+%d" % v]
        if tag in ("dim", "width", "addressUnitBits", "bitOffset", "bitWidth", "lsb", "msb"):
            forms = [str(v), str(v), hex(v)]
        return forms[h % len(forms)]

    def boolean(self, v, key):
        forms = ["true", "1", "True"] if v else ["false", "0", "False"]
        return forms[self._h("b", key) % 3 if self.noise else 0]

    def text(self, tag, v, key):
        if isinstance(v, bool):
            return self.boolean(v, (tag, key))
        if isinstance(v, int):
            return self.num(tag, v, key)
        h = self._h("lex", tag, v, key) % 40 if self.noise and v else 99
        if h == 0 and "]]>" not in v:
            return f"<![CDATA[{v}]]>"
        if h == 1:
            return f"&#{ord(v[0])};" + escape(v[1:])
        if h in (2, 3):
            k = len(v) // 2
            return escape(v[:k]) + ["<!-- noise -->", "<?noise noise?>"][h - 2] + escape(v[k:])
        return escape(v)

    def el(self, out, depth, tag, v, key):
        pad = "  " * depth if self.indent else ""
        out.append(f"{pad}<{tag}>{self.text(tag, v, key)}</{tag}>")

    def dai(self, out, d, depth, key):
        out.append("<dimArrayIndex>")
        if d.get("headerEnumName") is not None:
            self.el(out, depth, "headerEnumName", d["headerEnumName"], key)
        for v in d["v"]:
            self.value(out, v, depth, key)
        out.append("</dimArrayIndex>")

    def value(self, out, v, depth, key):
        out.append("<enumeratedValue>")
        for t in ("name", "description", "value", "isDefault"):
            if v.get(t) is not None:
                self.el(out, depth + 1, t, v[t], (key, v["name"]))
        out.append("</enumeratedValue>")

    def wc(self, out, w, depth, key):
        out.append("<writeConstraint>")
        for t in ("writeAsRead", "useEnumeratedValues"):
            if w.get(t) is not None:
                self.el(out, depth + 1, t, w[t], key)
        if w.get("range"):
            out.append("<range>")
            self.el(out, depth + 1, "minimum", w["range"][0], key)
            self.el(out, depth + 1, "maximum", w["range"][1], key)
            out.append("</range>")
        out.append("</writeConstraint>")

    def node(self, out, n, depth):
        k, p = n["k"], n["p"]
        tag = {"enums": "enumeratedValues"}.get(k, k)
        key = p.get("name", "?")
        attr = f" derivedFrom={quoteattr(n['df'])}" if n.get("df") is not None else ""
        pad = "  " * depth if self.indent else ""
        out.append(f"{pad}<{tag}{attr}>")
        if self.noise and self.comments and self._h("c", key) % 9 == 0:
            out.append("<!-- noise -->")
        d = depth + 1
        for t in ORDER[k]:
            if t in DIM or k in ("enums",):
                if p.get(t) is not None:
                    self.el(out, d, t, p[t], key)
        if n.get("dai"):
            self.dai(out, n["dai"], d, key)
        if k != "enums":
            for t in ORDER[k]:
                if t in DIM or p.get(t) is None:
                    continue
                self.el(out, d, t, p[t], key)
                if t == "modifiedWriteValues" and n.get("wc") is not None:
                    self.wc(out, n["wc"], d, key)
            if n.get("wc") is not None and p.get("modifiedWriteValues") is None:
                self.wc(out, n["wc"], d, key)
        for b in n.get("ab", []):
            out.append("<addressBlock>")
            for t in ("offset", "size", "usage", "protection"):
                if b.get(t) is not None:
                    self.el(out, d + 1, t, b[t], (key, b["offset"]))
            out.append("</addressBlock>")
        for q in n.get("irq", []):
            out.append("<interrupt>")
            for t in ("name", "description", "value"):
                if q.get(t) is not None:
                    self.el(out, d + 1, t, q[t], (key, q["name"]))
            out.append("</interrupt>")
        for v in n.get("v", []):
            self.value(out, v, d, key)
        ch = n.get("c", [])
        wrap = {"peripheral": "registers", "register": "fields"}.get(k)
        if ch:
            cut = self._h("group", key, len(ch)) % (40 * len(ch)) if self.noise and wrap else 0      # in two groups
            if wrap:
                out.append(f"<{wrap}>")
            for i, c in enumerate(ch):
                if i and i == cut:
                    out.append(f"</{wrap}><{wrap}>")
                self.node(out, c, d)
            if wrap:
                out.append(f"</{wrap}>")
        elif wrap and self.noise and self._h("empty", key) % 30 == 0:
            out.append(f"<{wrap}></{wrap}>")
        out.append(f"{pad}</{tag}>")

    def cpu(self, out, c, d):
        out.append("<cpu>")
        for t in CPU_ORDER:
            if c.get(t) is not None:
                self.el(out, d, t, c[t], "cpu")
        s = c.get("sau")
        if s is not None:
            a = ""
            if s.get("enabled") is not None:
                a += f' enabled="{self.boolean(s["enabled"], "sau")}"'
            if s.get("protectionWhenDisabled") is not None:
                a += f' protectionWhenDisabled="{s["protectionWhenDisabled"]}"'
            out.append(f"<sauRegionsConfig{a}>")
            for r in s["regions"]:
                a = ""
                if r.get("enabled") is not None:
                    a += f' enabled="{self.boolean(r["enabled"], r["base"])}"'
                if r.get("name") is not None:
                    a += f" name={quoteattr(r['name'])}"
                out.append(f"<region{a}>")
                for t in ("base", "limit", "access"):
                    self.el(out, d + 1, t, r[t], r["base"])
                out.append("</region>")
            out.append("</sauRegionsConfig>")
        out.append("</cpu>")

    def document(self, dev) -> str:
        out = []
        p = dev["p"]
        loc = dev.get("schemaLocation")
        ns = "xs" if not self.noise or self._h("ns") % 2 else "xsi"
        sl = f' xmlns:{ns}="http://www.w3.org/2001/XMLSchema-instance" {ns}:noNamespaceSchemaLocation={quoteattr(loc)}' \
            if loc is not None else ""
        out.append(f'<device schemaVersion={quoteattr(dev["schemaVersion"])}{sl}>')
        cpu_done = False
        for t in ORDER["device"]:
            if t == "headerSystemFilename" and not cpu_done:
                cpu_done = True
                if dev.get("cpu"):
                    self.cpu(out, dev["cpu"], 1)
            if p.get(t) is not None:
                self.el(out, 1, t, p[t], "device")
        out.append("<peripherals>")
        for c in dev["c"]:
            self.node(out, c, 2)
        out.append("</peripherals>")
        if self.noise and self._h("vx") % 5 == 0:
            out.append("<vendorExtensions><peripherals><peripheral><name>X</name></peripheral></peripherals><cpu>1</cpu>"
                       "<register><name>X</name></register></vendorExtensions>")
        out.append("</device>")
        return ("\n" if self.indent else "").join(out)


def render(dev, noise=0, encoding="utf-8", declaration=True, indent=True) -> bytes:
    s = Renderer(noise, indent).document(dev)
    if declaration:
        s = f'<?xml version="1.0" encoding="{encoding}"?>\n' + s + "\n"
    return s.encode(encoding)


# ---------------------------------------------------------------------------------------------- XML in (corpus)
def _int(s):
    s = s.strip().replace("#", "0b")
    try:
        return int(s, 0)
    except ValueError:
        return int(s)


def _bool(s):
    return s.strip().lower() in ("true", "1")


def _val(tag, s):
    if tag in BOOLS:
        return _bool(s)
    if tag in INTS:
        return _int(s)
    if tag in ("description", "licenseText", "disableCondition"):
        return s
    return s.strip()


def _props(e, tags):
    p = {}
    for t in tags:
        x = e.findall(t)
        if x and x[-1].text is not None:
            p[t] = _val(t, x[-1].text)
    return p


def _values(e):
    out = []
    for v in e.findall("enumeratedValue"):
        d = _props(v, ("name", "description", "isDefault"))
        x = v.find("value")
        if x is not None and x.text is not None:
            d["value"] = x.text.strip()
        out.append(d)
    return out


def _read(e):
    k = {"enumeratedValues": "enums"}.get(e.tag, e.tag)
    n = {"k": k, "p": _props(e, ORDER[k]), "c": []}
    if e.get("derivedFrom") is not None:
        n["df"] = e.get("derivedFrom").strip()
    x = e.find("dimArrayIndex")
    if x is not None:
        n["dai"] = {**_props(x, ["headerEnumName"]), "v": _values(x)}
    if k == "peripheral":
        n["ab"] = []
        for b in e.findall("addressBlock"):
            d = {t: (_int(b.find(t).text) if t in ("offset", "size") else b.find(t).text.strip())
                 for t in ("offset", "size", "usage", "protection") if b.find(t) is not None}
            d.setdefault("offset", 0)
            n["ab"].append(d)
        n["irq"] = []
        for b in e.findall("interrupt"):
            d = _props(b, ("name", "description"))
            d["value"] = _int(b.find("value").text)
            n["irq"].append(d)
        for r in e.findall("registers"):
            n["c"] += [_read(x) for x in r if x.tag in ("register", "cluster")]
    elif k == "cluster":
        n["c"] += [_read(x) for x in e if x.tag in ("register", "cluster")]
    elif k == "register":
        for f in e.findall("fields"):
            n["c"] += [_read(x) for x in f.findall("field")]
    elif k == "field":
        n["c"] += [_read(x) for x in e.findall("enumeratedValues")]
    elif k == "enums":
        n["v"] = _values(e)
    w = e.find("writeConstraint")
    if w is not None and k in ("register", "field"):
        n["wc"] = _props(w, ("writeAsRead", "useEnumeratedValues"))
        r = w.find("range")
        if r is not None:
            n["wc"]["range"] = [_int(r.find("minimum").text), _int(r.find("maximum").text)]
    return n


def read_xml(data: bytes):
    root = ET.fromstring(data)
    loc = None
    for a, v in root.attrib.items():
        if a.endswith("}noNamespaceSchemaLocation"):
            loc = v
    dev = {"k": "device", "p": _props(root, ORDER["device"]), "c": [], "schemaVersion": root.get("schemaVersion"),
           "schemaLocation": loc}
    c = root.find("cpu")
    if c is not None:
        cpu = _props(c, CPU_ORDER)
        s = c.find("sauRegionsConfig")
        if s is not None:
            cpu["sau"] = {"regions": []}
            if s.get("enabled") is not None:
                cpu["sau"]["enabled"] = _bool(s.get("enabled"))
            if s.get("protectionWhenDisabled") is not None:
                cpu["sau"]["protectionWhenDisabled"] = s.get("protectionWhenDisabled")
            for r in s.findall("region"):
                d = {"base": _int(r.find("base").text), "limit": _int(r.find("limit").text),
                     "access": r.find("access").text.strip()}
                if r.get("enabled") is not None:
                    d["enabled"] = _bool(r.get("enabled"))
                if r.get("name") is not None:
                    d["name"] = r.get("name")
                cpu["sau"]["regions"].append(d)
        dev["cpu"] = cpu
    for x in root.find("peripherals").findall("peripheral"):
        dev["c"].append(_read(x))
    return dev

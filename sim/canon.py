"""Canonical (JSON-able) forms of what the code under test returns.  Uses public model classes only."""
import re
import dataclasses
import enum


def _v(x):
    if isinstance(x, enum.Enum):
        return x.value
    return x


def parsed(x):
    """SVD* dataclass tree without the parent back links"""
    if dataclasses.is_dataclass(x):
        o = {"_": type(x).__name__}
        for f in dataclasses.fields(x):
            if f.name != "parent":
                o[f.name] = parsed(getattr(x, f.name))
        return o
    if isinstance(x, (list, tuple)):
        return [parsed(i) for i in x]
    return _v(x)


def parents_ok(x, parent=None, path="device"):
    """every back link in a parsed device points at the element that contains it -> list of complaints"""
    bad = []
    if dataclasses.is_dataclass(x):
        for f in dataclasses.fields(x):
            if f.name == "parent":
                continue
            v = getattr(x, f.name)
            for i, c in enumerate(v if isinstance(v, list) else [v]):
                if dataclasses.is_dataclass(c):
                    if getattr(c, "parent", None) is not x:
                        bad.append(f"{path}.{f.name}[{i}].parent")
                    bad += parents_ok(c, x, f"{path}.{f.name}[{i}]")
    return bad


_KEEP_PARSED = {"Peripheral", "Cluster", "Register", "Field", "EnumeratedValue", "EnumeratedValueContainer"}


def processed(x):
    """Device tree; `parsed` links become the declared name; Peripheral.registers becomes name@address"""
    if dataclasses.is_dataclass(x):
        t = type(x).__name__
        o = {"_": t}
        for f in dataclasses.fields(x):
            v = getattr(x, f.name)
            if f.name == "parsed":
                if t in _KEEP_PARSED:
                    o["parsed"] = getattr(v, "name", "?")
                continue
            if t == "Peripheral" and f.name == "registers":
                o["registers"] = [f"{r.name}@{hex(r.base_address)}" for r in v]
                continue
            o[f.name] = processed(v)
        return o
    if isinstance(x, (list, tuple)):
        return [processed(i) for i in x]
    return _v(x)


_KIDS = ("peripherals", "registers_clusters", "fields", "enumerated_value_containers")
_SIDE = {"address_blocks": "ab", "interrupts": "irq", "enumerated_values": "v"}


def places(x, at="", out=None):
    """where in the parsed device each of its elements stands: id -> place"""
    out = {} if out is None else out
    out[id(x)] = at
    for f in dataclasses.fields(x):
        v = getattr(x, f.name)
        if f.name in _KIDS:
            for i, c in enumerate(v):
                places(c, f"{at}/{i}", out)
        elif f.name in _SIDE:
            for i, c in enumerate(v):
                out[id(c)] = f"{at}/{_SIDE[f.name]}{i}"
        elif f.name == "write_constraint" and v is not None:
            out[id(v)] = at + "/wc"
        elif f.name == "cpu" and v is not None:
            out[id(v)] = "/cpu"
            if v.sau_regions_config is not None:
                out[id(v.sau_regions_config)] = "/cpu/sau"
                for i, c in enumerate(v.sau_regions_config.regions):
                    out[id(c)] = f"/cpu/sau/{i}"
    return out


def origins(x, at):
    """Device tree: only names and the place of the element each part refers to as `parsed`"""
    if dataclasses.is_dataclass(x):
        o = {"_": type(x).__name__}
        for f in dataclasses.fields(x):
            v = getattr(x, f.name)
            if f.name == "parsed":
                o["@"] = at.get(id(v), "an object that is no part of the parsed device")
            elif f.name == "name":
                o["name"] = _v(v)
            elif isinstance(v, list) and f.name not in ("registers", "range_") or dataclasses.is_dataclass(v):
                o[f.name] = origins(v, at)
        return o
    return [origins(i, at) for i in x]


def regmap(m):
    out = []
    for p in m.peripheral_map:
        out.append({"name": p.name, "description": p.description, "address": p.address,
                    "range": list(p.allocated_range), "processed": p.processed.name,
                    "registers": [{"name": r.name, "display_name": r.display_name, "description": r.description,
                                   "address": r.address, "size": r.size, "access": _v(r.access),
                                   "protection": _v(r.protection), "reset_value": r.reset_value,
                                   "reset_mask": r.reset_mask, "fields": processed(r.fields),
                                   "processed": r.processed.name} for r in p.registers]})
    return out


SCRATCH = re.compile(r"/[\w/.]*/svdsim\.\w+|\b0x[0-9a-f]{10,}\b")


def exc(e):
    """stable description of an exception: class, message, the same of its causes"""
    chain = []
    c = e.__cause__
    while c is not None and len(chain) < 5:
        chain.append(f"{type(c).__name__}: {SCRATCH.sub('$D', str(c))[:600]}")
        c = c.__cause__
    return [type(e).__name__, SCRATCH.sub("$D", str(e))[:300], chain]


def diff(a, b, path="", out=None, limit=8):
    """list of 'path: a != b' (a expected, b observed)"""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        tag = a.get("name") or a.get("_") or ""
        here = f"{path}<{tag}>" if tag else path
        for k in sorted(set(a) | set(b)):
            if k not in a:
                out.append(f"{here}.{k}: unexpected {short(b[k])}")
            elif k not in b:
                out.append(f"{here}.{k}: missing (expected {short(a[k])})")
            else:
                diff(a[k], b[k], f"{here}.{k}", out, limit)
            if len(out) >= limit:
                return out
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            na = [i.get("name") if isinstance(i, dict) else i for i in a]
            nb = [i.get("name") if isinstance(i, dict) else i for i in b]
            out.append(f"{path}: {len(a)} items expected {short(na)}, got {len(b)} {short(nb)}")
            return out
        for i, (x, y) in enumerate(zip(a, b)):
            diff(x, y, f"{path}[{i}]", out, limit)
            if len(out) >= limit:
                return out
    elif type(a) is not type(b) or a != b:
        out.append(f"{path}: expected {short(a)}, got {short(b)}")
    return out


def short(x, n=120):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."

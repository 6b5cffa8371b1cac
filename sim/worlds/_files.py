"""Shared parts of the worlds about saving."""
import os

from sim import docs, objs, ops


def parsed(d):
    from svdsuite import Parser
    return Parser.from_xml_content(docs.data(d)).get_parsed_device()


def content(dev, op):
    from svdsuite import Serializer
    return Serializer.device_to_svd_content(dev, bool(op["pretty"]), bool(op["decl"]))


def save(path, dev, op):
    from svdsuite import Serializer
    Serializer.device_to_svd_file(path, dev, bool(op["pretty"]), bool(op["decl"]))


class Odd:
    def __repr__(self):
        return "odd"


def spoil(dev, where):
    """make a device that cannot be serialized: one text or enum value becomes something without a spelling"""
    s = [(o, n, v) for o, n, v in objs.spots(dev) if v is not None and not isinstance(v, (list, tuple))
         and not hasattr(v, "__dataclass_fields__")]
    o, n, v = s[where % len(s)]
    setattr(o, n, "a\x00b" if isinstance(v, str) else Odd())


def old_content(kind, good, other):
    return {"none": None, "empty": b"", "same": good, "other": other, "longer": good + b"<!-- tail -->" * 80 + b"\n",
            "twice": good + good, "garbage": b"\x00\x01 garbage" * 50, "short": good[:len(good) // 3]}[kind]


OLD = ["none", "empty", "same", "other", "other", "longer", "twice", "garbage", "short"]


def listing(d):
    out = []
    for a, b, c in os.walk(d):
        out += [os.path.relpath(os.path.join(a, x), d) for x in b + c]
    return sorted(out)


def options(r):
    return {"pretty": int(r.p(0.5)), "decl": int(r.p(0.7))}


__all__ = ["ops"]

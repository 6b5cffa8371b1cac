"""Candidate generators for minimisation: each yields smaller variants of a scenario part, biggest cuts first."""
from sim.ast import at, clone, walk


def ast(a):
    """smaller descriptions; children are cut in chunks, then links and properties one at a time"""
    paths = [p for n, p in walk(a)]
    for p in paths:
        kids = at(a, p).get("c", [])
        n = len(kids)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                if size == n == 1 and p == ():
                    continue
                b = clone(a)
                del at(b, p)["c"][i:i + size]
                if not b["c"]:
                    continue
                yield b
            size //= 2
    for key in ("df", "irq", "wc", "dai", "cpu"):
        for p in paths:
            if at(a, p).get(key):
                b = clone(a)
                del at(b, p)[key]
                if key == "irq":
                    at(b, p)[key] = []
                yield b
    for p in paths:
        for key in ("v", "ab"):
            for i in range(len(at(a, p).get(key, []))):
                b = clone(a)
                del at(b, p)[key][i]
                yield b
    for p in paths:
        ks = list(at(a, p)["p"])
        opt = [k for k in ks if k not in ("name",)]
        if len(opt) > 2:
            b = clone(a)
            for k in opt:
                if k not in ("baseAddress", "addressOffset", "lsb", "msb", "bitOffset", "bitWidth", "bitRange", "dim",
                             "dimIncrement"):
                    del at(b, p)["p"][k]
            if b != a:
                yield b
        for k in opt:
            b = clone(a)
            del at(b, p)["p"][k]
            yield b
    for p in paths:
        d = at(a, p)["p"].get("dim")
        if isinstance(d, int) and d > 1:
            b = clone(a)
            at(b, p)["p"]["dim"] = d - 1
            yield b


def seq(xs, keep=0):
    """shorter lists"""
    n = len(xs)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            y = xs[:i] + xs[i + size:]
            if len(y) >= keep and len(y) < n:
                yield y
        size //= 2


def field(sc, key, gen):
    for v in gen:
        yield {**sc, key: v}

"""Deep copies, snapshots and edits of the library's model objects, by their dataclass fields only."""
import dataclasses
import enum

from sim import canon

LINK = {"parsed", "parent", "processed"}


def rebuild(x, memo=None):
    """a copy that has nothing but the declared fields"""
    memo = {} if memo is None else memo
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        if id(x) in memo:
            return memo[id(x)][1]
        y = object.__new__(type(x))
        memo[id(x)] = (x, y)
        for f in dataclasses.fields(x):
            object.__setattr__(y, f.name, rebuild(getattr(x, f.name), memo))
        return y
    if isinstance(x, list):
        if id(x) in memo:
            return memo[id(x)][1]
        y = []
        memo[id(x)] = (x, y)
        y += [rebuild(i, memo) for i in x]
        return y
    if isinstance(x, tuple):
        return tuple(rebuild(i, memo) for i in x)
    return x


def plain(x):
    """canonical form without links to other results"""
    if dataclasses.is_dataclass(x):
        o = {"_": type(x).__name__}
        for f in dataclasses.fields(x):
            if f.name not in LINK:
                v = getattr(x, f.name)
                if type(x).__name__ == "Peripheral" and f.name == "registers":
                    o[f.name] = [f"{r.name}@{r.base_address}" for r in v]
                else:
                    o[f.name] = plain(v)
        return o
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if isinstance(x, enum.Enum):
        return x.value
    return x


def snapshot(x):
    return [plain(x), canon.parents_ok(x) if type(x).__name__ == "SVDDevice" else []]


def spots(x, path=(), skip=()):
    """every editable place: (owner, field name, value)"""
    if dataclasses.is_dataclass(x):
        for f in dataclasses.fields(x):
            if f.name in LINK or f.name in skip:
                continue
            v = getattr(x, f.name)
            yield x, f.name, v
            if type(x).__name__ == "Peripheral" and f.name == "registers":
                continue
            for c in v if isinstance(v, list) else [v]:
                if dataclasses.is_dataclass(c):
                    yield from spots(c, path, skip)


def edit(x, where, what):
    """one in-place change; where/what are integers -> what was done"""
    s = list(spots(x))
    o, name, v = s[where % len(s)]
    t = f"{type(o).__name__}.{name}"
    if isinstance(v, list):
        k = what % 4
        if k == 0 and v:
            v.pop(what // 4 % len(v))
            return t + " pop"
        if k == 1:
            v.reverse()
            return t + " reverse"
        if k == 2 and v:
            y = rebuild_one(v[what // 4 % len(v)])
            v.append(y)
            return t + " append"
        v.clear()
        return t + " clear"
    if isinstance(v, bool):
        n = not v
    elif isinstance(v, int):
        n = v + 4 * (1 + what % 3) if what % 5 else max(0, v - 4)
    elif isinstance(v, enum.Enum):
        m = list(type(v))
        n = m[(m.index(v) + 1 + what % 3) % len(m)]
    elif isinstance(v, str):
        n = v + "_%d" % (what % 7)
    elif isinstance(v, tuple):
        n = tuple(reversed(v))
    elif v is None:
        return t + " None"
    else:                       # nested object: replace by a copy or drop
        n = rebuild_one(v)
    setattr(o, name, n)
    return t


def rebuild_one(x):
    """copy of a subtree that keeps its parent link"""
    p = getattr(x, "parent", None)
    y = rebuild(x, {id(p): (p, p)} if p is not None else None)
    return y

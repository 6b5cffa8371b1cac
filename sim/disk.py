"""Handle on the system call shim (faultfs.c), and the model of what a disk keeps after a crash."""
import ctypes
import errno
import os

from sim import env

ERR = {k: getattr(errno, k) for k in ("EIO", "ENOSPC", "EINTR", "EACCES", "EMFILE", "EDQUOT", "EFBIG", "ESTALE", "EPERM",
                                      "EROFS", "ENOENT", "EAGAIN")}
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.ffs_arm.argtypes = [ctypes.c_char_p] * 3
        for f in ("ffs_count", "ffs_seq", "ffs_fired", "ffs_rule_hits"):
            getattr(_lib, f).restype = ctypes.c_long
        _lib.ffs_clock.argtypes = [ctypes.c_long]
    return _lib


def rule_text(r):
    """r = [kind, nth, 'n'|'+', action, arg(, path)]"""
    kind, nth, on, act, arg = r[:5]
    if act == "errno":
        arg = ERR[arg]
    return f"{kind} {nth} {on} {act} {arg} {r[5] if len(r) > 5 else ''}".rstrip()


SCHEMA = os.path.join(env.REPO, "src", "svdsuite", "schema")


class Armed:
    """with Armed(home, rules) as d: ...   then d.ops, d.fired"""

    def __init__(self, home, rules=(), log=None, schema=False):
        self.prefixes = [home] + ([SCHEMA] if schema else [])
        self.rules = rules
        self.log = log
        self.fired = self.seq = 0
        self.hits = []
        self.ops = []

    def __enter__(self):
        n = lib().ffs_arm("\n".join(self.prefixes).encode(), "\n".join(rule_text(r) for r in self.rules).encode(),
                          (self.log or "").encode())
        assert n == len(self.rules), (n, self.rules)
        return self

    def __exit__(self, *a):
        lb = lib()
        self.fired, self.seq = lb.ffs_fired(), lb.ffs_seq()
        self.hits = [lb.ffs_rule_hits(i) for i in range(len(self.rules))]
        lb.ffs_disarm()
        if self.log:
            self.ops = read_log(self.log)
        return False


def read_log(path):
    out = []
    with open(path, encoding="utf-8", errors="surrogateescape") as f:
        for line in f:
            p = line.rstrip("\n").split(" ", 7)
            o = {"seq": int(p[0]), "kind": p[1], "fd": int(p[2]), "res": int(p[3]), "err": int(p[4]), "off": int(p[5]),
                 "path": p[6].replace("\x01", " ")}
            x = p[7] if len(p) > 7 else ""
            if x == "CRASH":
                o["crash"] = 1
            elif p[1] == "write":
                o["data"] = bytes.fromhex(x)
            elif x:
                o["to"] = x.replace("\x01", " ")
            out.append(o)
    return out


def clock(offset):
    lib().ffs_clock(offset)


# ---------------------------------------------------------------------------------------------- crash model
SECTOR = 512


class Inode:
    def __init__(self, data=b""):
        self.durable = data
        self.now = data
        self.pending = []


def apply_op(data, op):
    if op[0] == "trunc":
        return data[:op[1]] + bytes(max(0, op[1] - len(data)))
    _, off, d = op
    if off > len(data):
        data += bytes(off - len(data))
    return data[:off] + d + data[off + len(d):]


def replay(ops, before):
    """-> (inodes, durable names, pending directory operations)"""
    inodes, names, dirops = [], {}, []
    for p, d in before.items():
        inodes.append(Inode(d))
        names[p] = len(inodes) - 1
    start = dict(names)
    fds = {}
    for o in ops:
        k, ok = o["kind"], o["err"] == 0 and o["res"] >= 0
        if not ok:
            if k == "close":
                fds.pop(o["fd"], None)
            continue
        if k == "open":
            fl = o["off"]
            p = os.path.normpath(o["path"])
            if p not in names:
                if not fl & os.O_CREAT:
                    continue
                inodes.append(Inode())
                names[p] = len(inodes) - 1
                dirops.append(("link", p, names[p]))
            i = inodes[names[p]]
            fds[o["fd"]] = i
            if fl & os.O_TRUNC and fl & (os.O_WRONLY | os.O_RDWR):
                i.pending.append(("trunc", 0))
                i.now = b""
        elif k == "write" and o["fd"] in fds:
            i = fds[o["fd"]]
            i.pending.append(("write", o["off"], o["data"]))
        elif k == "trunc":
            i = fds.get(o["fd"]) or (inodes[names[os.path.normpath(o["path"])]]
                                     if os.path.normpath(o["path"]) in names else None)
            if i:
                i.pending.append(("trunc", o["off"]))
        elif k == "fsync" and o["fd"] in fds:
            i = fds[o["fd"]]
            for q in i.pending:
                i.durable = apply_op(i.durable, q)
            i.pending = []
        elif k == "close":
            fds.pop(o["fd"], None)
        elif k == "rename":
            a, b = os.path.normpath(o["path"]), os.path.normpath(o["to"])
            if a in names:
                names[b] = names.pop(a)
                dirops.append(("rename", a, b))
        elif k == "unlink":
            names.pop(os.path.normpath(o["path"]), None)
            dirops.append(("unlink", os.path.normpath(o["path"])))
    return inodes, start, dirops


def image(ops, before, rng):
    """one state of the disk after power loss: {path: bytes}.  Directory operations survive in order up to some point;
    of a file's unsynced changes a prefix of the size changes survives, and any subset of the sectors written"""
    inodes, names, dirops = replay(ops, before)
    mode = rng.below(4)
    k = len(dirops) if mode < 2 else rng.below(len(dirops) + 1)
    for d in dirops[:k]:
        if d[0] == "link":
            names[d[1]] = d[2]
        elif d[0] == "rename" and d[1] in names:
            names[d[2]] = names.pop(d[1])
        elif d[0] == "unlink":
            names.pop(d[1], None)
    out = {}
    for p, n in names.items():
        i = inodes[n]
        data = i.durable
        j = len(i.pending) if rng.p(0.6) else rng.below(len(i.pending) + 1)
        keep = rng.pick([0.0, 0.3, 0.7, 0.9, 1.0])
        for q in i.pending[:j]:
            if q[0] == "trunc":
                data = apply_op(data, q)
                continue
            off, d = q[1], q[2]
            end = off + len(d)
            if end > len(data):
                data += bytes(end - len(data))
            a = off
            while a < end:
                b = min(end, (a // SECTOR + 1) * SECTOR)
                if rng.p(keep):
                    data = data[:a] + d[a - off:b - off] + data[b:]
                a = b
        if rng.p(0.15) and i.pending and data:
            data = data[:rng.below(len(data) + 1)]
        out[p] = data
    return out

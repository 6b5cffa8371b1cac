"""Interpreter processes with other settings (hash seed, time zone, locale, optimisation, allocator), each a zygote that
answers every request from a fork of itself."""
import os
import pickle
import subprocess
import sys

from sim.forks import Stuck, fork
from sim.pristine import Pristine

_PEERS = {}


class Peer:
    def __init__(self, conf, prop):
        e = dict(os.environ)
        e.update({k: str(v) for k, v in conf.items()})
        self.p = subprocess.Popen([sys.executable, "-m", "sim.worker", "serve", prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=e, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def ask(self, fn, *args):
        Pristine._write(self.p.stdin.fileno(), pickle.dumps((fn.__module__, fn.__name__, args)))
        data = Pristine._read(self.p.stdout.fileno())
        if data is None:
            raise RuntimeError("peer died")
        out = pickle.loads(data)
        if "stuck" in out:
            raise Stuck(out["stuck"])
        if "value" not in out:
            raise RuntimeError("peer failed: " + str(out)[:2000])
        return out["value"]


def get(conf, prop):
    k = repr(sorted(conf.items()))
    if k not in _PEERS:
        _PEERS[k] = Peer(conf, prop)
    return _PEERS[k]


def serve(out_fd):
    """the peer's side"""
    import importlib
    while True:
        req = Pristine._read(0)
        if req is None:
            return
        mod, name, args = pickle.loads(req)
        Pristine._write(out_fd, pickle.dumps(fork(getattr(importlib.import_module(mod), name), *args)))

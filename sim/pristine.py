"""A process without history: forked before the run makes its first call; every request is answered by a fork of it."""
import os
import pickle
import struct
import sys

from sim.forks import Stuck, fork


class Pristine:
    def __init__(self):
        self.a = os.pipe()
        self.b = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.a[1])
            os.close(self.b[0])
            try:
                self._serve(self.a[0], self.b[1])
            finally:
                os._exit(0)
        os.close(self.a[0])
        os.close(self.b[1])

    @staticmethod
    def _read(fd):
        def exactly(n):
            out = b""
            while len(out) < n:
                x = os.read(fd, n - len(out))
                if not x:
                    return None
                out += x
            return out
        h = exactly(4)
        return None if h is None else exactly(struct.unpack("<I", h)[0])

    @staticmethod
    def _write(fd, data):
        data = struct.pack("<I", len(data)) + data
        while data:
            data = data[os.write(fd, data):]

    def _serve(self, r, w):
        while True:
            req = self._read(r)
            if req is None:
                return
            out = fork(_answer, req)
            self._write(w, pickle.dumps(out))

    def ask(self, fn, *args):
        """fn(*args) in a fresh process; fn is a module level function, the result must be JSON-able"""
        sys.setrecursionlimit(20000)
        self._write(self.a[1], pickle.dumps((fn, args)))
        out = pickle.loads(self._read(self.b[0]))
        sys.setrecursionlimit(1000)
        if "stuck" in out:
            raise Stuck(out["stuck"])
        if "value" not in out:
            raise RuntimeError("pristine process failed: " + str(out)[:2000])
        return out["value"]

    def close(self):
        os.close(self.a[1])
        os.close(self.b[0])
        os.waitpid(self.pid, 0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _answer(req):
    fn, args = pickle.loads(req)
    return fn(*args)

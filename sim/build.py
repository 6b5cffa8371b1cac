"""Builds what is not Python: the system call shim (build/faultfs-<hash>.so)."""
import hashlib
import os
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(HERE, "sim", "faultfs.c")


def faultfs():
    with open(SRC, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:12]
    d = os.path.join(HERE, "build")
    out = os.path.join(d, f"faultfs-{h}.so")
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        tmp = f"{out}.{os.getpid()}.{threading.get_ident()}"
        subprocess.run(["gcc", "-O1", "-Wall", "-fPIC", "-shared", "-o", tmp, SRC, "-ldl", "-pthread"], check=True)
        os.replace(tmp, out)
    return out


if __name__ == "__main__":
    if os.path.exists(SRC):
        print(faultfs())
    sys.exit(0)

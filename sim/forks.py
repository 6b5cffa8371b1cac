"""Forked children that answer with JSON."""
import json
import os
import select
import signal
import time

WALL = 90
STILL = 40          # seconds without any execution, all threads asleep: nothing in a run waits for anything but locks


class Stuck(Exception):
    """a process a run asked does not go on"""


def activity(pid):
    """-> (all threads sleep, cpu time used) of a child"""
    try:
        asleep = True
        for t in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                asleep = asleep and f.read().rsplit(")", 1)[1].split()[0] == "S"
        with open("/proc/%d/stat" % pid) as f:
            q = f.read().rsplit(")", 1)[1].split()
        return asleep, int(q[11]) + int(q[12])
    except (OSError, IndexError):
        return False, -1


def _child(fn, args, wfd):
    try:
        try:
            out = {"value": fn(*args)}
        except Stuck as e:
            out = {"stuck": str(e)}
        except BaseException as e:  # noqa
            import traceback
            out = {"error": "".join(traceback.format_exception(e))[-4000:]}
        data = json.dumps(out).encode()
        while data:
            n = os.write(wfd, data)
            data = data[n:]
    finally:
        os._exit(0)


def fork(fn, *args, wall=WALL):
    """call fn in a forked child -> {"value"} | {"error"} | {"died": status} | {"timeout"} | {"stuck"}"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(fn, args, w)
    os.close(w)
    chunks, end = [], time.monotonic() + wall
    timeout = stuck = False
    since, last = time.monotonic(), None
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timeout = True
            break
        if not select.select([r], [], [], min(left, 2))[0]:
            asleep, cpu = activity(pid)
            if not asleep or cpu != last:
                since, last = time.monotonic(), cpu
            elif time.monotonic() - since > STILL:
                timeout = stuck = True
                break
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timeout:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if stuck:
        return {"stuck": "a process slept for %d s and nothing is left that could wake it" % STILL}
    if timeout:
        return {"timeout": wall}
    data = b"".join(chunks)
    if not data:
        return {"died": os.waitstatus_to_exitcode(st)}
    return json.loads(data)

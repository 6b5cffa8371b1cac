"""The scheduler: real caller threads, parked and released one at a time, at points the simulator decides.

Every executed line (or, in 'instr' mode, every executed bytecode instruction) of the code under test is one simulated
step.  A plan says at which step which thread continues, at which step which exception is thrown into the running
thread, and at which step the garbage collector runs.  Nothing else switches threads: all but one are parked on a gate.
"""
import _thread
import gc
import hashlib
import os
import sys
import threading
import traceback
import warnings

MON = sys.monitoring
TOOL = 4
SRC = os.path.realpath(os.environ.get("SIM_SRC", "/repo/src")) + os.sep + "svdsuite" + os.sep
_RealLock = _thread.allocate_lock


class StepBudget(BaseException):
    """the code under test executed more steps than the run allows"""


class Deadlock(BaseException):
    pass


class Abort(BaseException):
    """unwinds parked threads after a deadlock"""


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit,
       "RecursionError": RecursionError}


def strike(r, lo, hi, kinds):
    """one interruption: at a step (short runs preferred), or where some line is reached for the first time"""
    at = 1 + r.below(1 << r.range(lo, hi))
    return [["new", 1 + r.below(r.pick([200, 700, 1400]))] if r.p(0.5) else at, r.pick(kinds)]


class Injected:
    """marks injected exceptions"""
    TEXT = "injected by the simulator"


class Thread:
    def __init__(self, tid, body):
        self.tid, self.body = tid, body
        self.gate = _RealLock()
        self.gate.acquire()
        self.state = "ready"          # ready, blocked, done
        self.waits = None
        self.result = None
        self.warns = []
        self.injected = []


class Sched:
    def __init__(self, plan=None, budget=4_000_000, mode="line"):
        plan = plan or {}
        self.switch = {int(s): t for s, t in plan.get("switch", [])}
        # at a step, or ("new", n): at the n-th line that is reached for the first time
        self.inject = {int(s): e for s, e in plan.get("inject", []) if not isinstance(s, list)}
        self.first = {s[1]: e for s, e in plan.get("inject", []) if isinstance(s, list)}
        self.lines = set()
        self.collect = set(plan.get("gc", []))
        self.order = plan.get("order", 0)          # who runs when a thread ends or blocks: (order + k) mod n
        self.budget = budget
        self.mode = mode
        self.step = 0
        self.marks = sorted(set(self.switch) | set(self.inject) | self.collect | {budget})
        self.mi = 0
        self.next = self.marks[0]
        self.threads = []
        self.cur = None
        self.main_gate = _RealLock()
        self.active = False
        self.trace = hashlib.sha256()
        self.switches = 0
        self.fired = []
        self.warns = []
        self.deadlock = None
        self.over = False
        self.log_lines = None
        self.watch = None                           # optional callback(step, code, line) at every step
        self.unraisable = []

    # ------------------------------------------------------------------ steps
    def on_line(self, code, line):
        if not code.co_filename.startswith(SRC):
            return MON.DISABLE
        self.step += 1
        if self.log_lines is not None:
            self.log_lines.append((self.cur.tid if self.cur else 0, code.co_name, line))
        if self.first and (code, line) not in self.lines:
            self.lines.add((code, line))
            if len(self.lines) in self.first:
                self.throw(self.first.pop(len(self.lines)), code, line)
        if self.step >= self.next:
            self.fire(code, line)

    def fire(self, code, line):
        at = self.step
        while self.mi < len(self.marks) and self.marks[self.mi] <= at:
            self.mi += 1
        self.next = self.marks[self.mi] if self.mi < len(self.marks) else at + 1000
        if at >= self.budget:
            self.next = at + 1
            self.over = True
            raise StepBudget()
        if at in self.collect:
            gc.collect()
            self.fired.append(["gc", at])
        if at in self.switch and self.cur is not None and code.co_name != "<module>":
            self.to(self.switch[at], (code.co_name, line))
        if at in self.inject:
            self.throw(self.inject[at], code, line)

    def throw(self, e, code, line):
        self.fired.append(["inject", self.step, e, code.co_name, os.path.basename(code.co_filename), line])
        if self.cur is not None:
            self.cur.injected.append(e)
        raise EXC[e](Injected.TEXT)

    # ------------------------------------------------------------------ switching
    def ready(self):
        return [t for t in self.threads if t.state == "ready"]

    def to(self, tid, where):
        me = self.cur
        r = self.ready()
        if len(r) < 2:
            return
        t = self.threads[tid % len(self.threads)]
        if t.state != "ready" or t is me:
            k = [x for x in r if x is not me]
            t = k[tid % len(k)]
        self.switches += 1
        self.trace.update(repr((me.tid, t.tid, where)).encode())
        self.cur = t
        t.gate.release()
        me.gate.acquire()
        if self.deadlock:
            raise Abort()

    def yield_blocked(self, lock):
        """the current thread waits for a lock"""
        me = self.cur
        me.state, me.waits = "blocked", lock
        self.pass_on(me)
        me.gate.acquire()
        if self.deadlock:
            raise Abort()

    def unblock(self, lock):
        for t in self.threads:
            if t.state == "blocked" and t.waits is lock:
                t.state, t.waits = "ready", None

    def pass_on(self, me):
        r = self.ready()
        if not r:
            if any(t.state == "blocked" for t in self.threads):
                self.deadlock = [t.tid for t in self.threads if t.state == "blocked"]
                for t in self.threads:
                    if t.state == "blocked":
                        t.state = "ready"
                r = self.ready()
            else:
                self.main_gate.release()
                return
        t = r[(self.order + me.tid) % len(r)]
        self.trace.update(repr(("next", me.tid, t.tid)).encode())
        self.cur = t
        t.gate.release()

    def _main(self, t):
        t.gate.acquire()
        try:
            if self.deadlock:
                raise Abort()
            t.result = ("ok", t.body())
        except BaseException as e:  # noqa: the simulator must see everything
            t.result = ("exc", e)
        t.state = "done"
        self.pass_on(t)

    def run(self, bodies):
        """run callables as caller threads under the plan -> list of ('ok', value) | ('exc', exception)"""
        self.threads = [Thread(i, b) for i, b in enumerate(bodies)]
        self.main_gate.acquire()
        with self:
            for t in self.threads:
                _thread.start_new_thread(self._main, (t,))
            self.cur = self.threads[self.order % len(self.threads)]
            self.cur.gate.release()
            self.main_gate.acquire()
            self.cur = None
        return [t.result for t in self.threads]

    def call(self, body):
        """run one callable in the main thread with step counting and injection"""
        with self:
            try:
                return ("ok", body())
            except BaseException as e:  # noqa
                return ("exc", e)

    def __enter__(self):
        global CURRENT
        CURRENT = self
        MON.use_tool_id(TOOL, "sim")
        ev = MON.events.LINE if self.mode == "line" else MON.events.INSTRUCTION
        MON.register_callback(TOOL, ev, self.on_line)
        MON.restart_events()
        MON.set_events(TOOL, ev)
        self.active = True
        return self

    def __exit__(self, *a):
        global CURRENT
        self.active = False
        ev = MON.events.LINE if self.mode == "line" else MON.events.INSTRUCTION
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, ev, None)
        MON.free_tool_id(TOOL)
        CURRENT = None
        return False

    def warn_sink(self):
        return self.cur.warns if self.cur is not None else self.warns


CURRENT = None


# ---------------------------------------------------------------------------------------------- locks
class SimLock:
    """threading.Lock whose blocking is decided by the simulator"""

    def __init__(self):
        self._owner = None
        self._real = _RealLock()

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        if s is None or s.cur is None:
            if self._real.acquire(False):
                return True
            if not blocking:
                return False
            if _thread._count() == 0:          # nobody is there who could release it
                if timeout >= 0:
                    return False
                raise Deadlock("waits for a lock that nobody will release")
            return self._real.acquire(blocking, timeout) if timeout != -1 else self._real.acquire(blocking)
        while not self._real.acquire(False):
            if not blocking or timeout == 0:
                return False
            s.yield_blocked(self)
        return True

    def release(self):
        self._real.release()
        s = CURRENT
        if s is not None and s.cur is not None:
            s.unblock(self)

    def locked(self):
        return self._real.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner, self._count = me, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._lock.release()
        return st

    def _acquire_restore(self, st):
        self._lock.acquire()
        self._count, self._owner = st


def patch_locks():
    """before the code under test is imported, after everything it depends on"""
    threading.Lock = SimLock
    threading.RLock = SimRLock


# ---------------------------------------------------------------------------------------------- warnings
_PLAIN = []


def _show(message, category, filename, lineno, file=None, line=None):
    rec = [category.__name__, str(message)]
    s = CURRENT
    (s.warn_sink() if s is not None else _PLAIN).append(rec)


def capture_warnings():
    warnings.resetwarnings()
    warnings.simplefilter("always")
    warnings.showwarning = _show


def take_warnings():
    out = list(_PLAIN)
    _PLAIN.clear()
    return out


def tb(e):
    return "".join(traceback.format_exception(e))[-1500:]

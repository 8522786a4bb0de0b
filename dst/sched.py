"""Caller threads under a scheduler we own.

Every caller is a real thread, but exactly one holds the baton.  It may be parked
only at intercepted points: explicit seam points (calls into simulated backends)
and, when line stepping is on, before any source line of the code under test.
Which point switches to which caller comes from the scenario; a random schedule
is recorded so that it can be replayed and minimised as an explicit list of
[step, caller] switches.  An asynchronous interrupt (KeyboardInterrupt) or an
allocation failure (MemoryError) can be injected before any chosen line.
"""
import os
import random
import sys
import threading

from .core import HarnessError, SimInterrupt, Violation

SRC = os.path.realpath(os.environ.get("DST_REPO", "/repo")) + "/src/"

_active = None
_RealLock = threading.Lock
_RealRLock = threading.RLock


class _SimLock:
    """Lock used by code under test: a blocked caller hands the baton on."""

    def __init__(self, reentrant=False):
        self._real = _RealRLock() if reentrant else _RealLock()

    def acquire(self, blocking=True, timeout=-1):
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        spins = 0
        while not self._real.acquire(False):
            s = _active
            spins += 1
            if s is None or spins > 10000:
                raise HarnessError("simulated lock can never be acquired")
            s.blocked()
        return True

    def release(self):
        self._real.release()

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _lock_factory(real, reentrant):
    def make(*a, **k):
        if sys._getframe(1).f_code.co_filename.startswith(SRC):
            return _SimLock(reentrant)
        return real(*a, **k)

    return make


def install_lock_seam():
    threading.Lock = _lock_factory(_RealLock, False)
    threading.RLock = _lock_factory(_RealRLock, True)


class Callers:
    def __init__(self, ctx, plan):
        """plan: {"mode": "random", "seed", "p"} or {"mode": "list", "switches": [[step, tid]..]}
        plus optional "line": bool, "interrupts": [[tid, op_no, line_no, kind]]."""
        self.ctx = ctx
        self.plan = plan
        self.line = plan.get("line", False)
        self.rng = random.Random(plan.get("seed", 0))
        self.p = plan.get("p", 0.0)
        self.seam_p = plan.get("seam_p", 0.5)
        self.switches = {int(s): int(t) for s, t in plan.get("switches", [])}
        self.explicit = plan.get("mode") == "list"
        self.interrupts = {(int(t), int(o)): (int(l), k) for t, o, l, k in plan.get("interrupts", [])}
        self.recorded = []
        self.step = 0
        self.alive = []
        self.sems = []
        self.local = threading.local()
        self.error = None
        self.done = _RealLock()
        self.lines = 0
        self.op_lines = []  # lines executed by each finished op (for interrupt placement)
        self.call = ctx.call
        if self.line or self.interrupts:
            ctx.call = self.op  # every call into the code under test is stepped

    # -- scheduling
    def _switch_to(self, target):
        tid = self.local.tid
        self.current = target
        self.sems[target].release()
        self.sems[tid].acquire()

    def point(self, label=None, prob=None):
        """A point where the running caller may be parked."""
        tid = getattr(self.local, "tid", None)
        if tid is None or self.local.nopreempt:
            return
        self.step += 1
        target = None
        if self.explicit:
            target = self.switches.get(self.step)
        elif len(self.alive) > 1 and self.rng.random() < (self.seam_p if prob is None else prob):
            others = [t for t in self.alive if t != tid]
            target = self.rng.choice(others)
        if target is None or target == tid or target not in self.alive:
            return
        self.recorded.append([self.step, target])
        self.ctx.log("switch", self.step, tid, target, label)
        self._switch_to(target)

    def blocked(self):
        tid = self.local.tid
        others = [t for t in self.alive if t != tid]
        if not others:
            raise HarnessError("caller blocked with no other caller to run")
        nxt = min((t for t in others if t > tid), default=min(others))
        self._switch_to(nxt)

    # -- tracing
    def _global_trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        return self._local_trace

    def _local_trace(self, frame, event, arg):
        if event != "line":
            return self._local_trace
        loc = self.local
        if not loc.in_op:
            return self._local_trace
        self.lines += 1
        loc.op_line += 1
        hit = loc.interrupt
        if hit is not None and loc.op_line == hit[0]:
            loc.interrupt = None
            kind = hit[1]
            loc.fired = kind
            self.ctx.fault("async." + kind)
            self.ctx.log("interrupt", loc.tid, loc.op_line, kind)
            if kind == "memory":
                raise MemoryError("injected allocation failure")
            raise SimInterrupt("injected interrupt")
        if self.line:
            self.point("line", self.p)
        return self._local_trace

    # -- callers
    def run(self, programs):
        global _active
        _active = self
        n = len(programs)
        self.alive = list(range(n))
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.done.acquire()
        threads = [
            threading.Thread(target=self._body, args=(i, p), daemon=True)
            for i, p in enumerate(programs)
        ]
        for t in threads:
            t.start()
        self.current = 0
        self.sems[0].release()
        if not self.done.acquire(timeout=600):
            raise HarnessError("callers did not finish")
        _active = None
        if self.error is not None:
            raise self.error

    def _body(self, tid, program):
        loc = self.local
        loc.tid = tid
        loc.in_op = False
        loc.nopreempt = False
        loc.op_no = 0
        loc.op_line = 0
        loc.interrupt = None
        loc.fired = None
        self.sems[tid].acquire()
        try:
            program(self)
        except BaseException as e:  # noqa: BLE001
            self.error = self.error or e
            sys.settrace(None)
            self.done.release()
            return  # the run is over; the others stay parked until the process exits
        sys.settrace(None)
        self.alive.remove(tid)
        if not self.alive:
            self.done.release()
            return
        nxt = min((t for t in self.alive if t > tid), default=min(self.alive))
        self.current = nxt
        self.sems[nxt].release()

    def op(self, fn, *args, **kwargs):
        """Run one call of the code under test with stepping and interrupts on."""
        loc = self.local
        if getattr(loc, "tid", None) is None or loc.in_op:
            return self.call(fn, *args, **kwargs)
        loc.interrupt = self.interrupts.get((loc.tid, loc.op_no))
        loc.fired = None
        loc.op_line = 0
        loc.in_op = True
        if self.line or loc.interrupt is not None:
            sys.settrace(self._global_trace)
        try:
            return self.call(fn, *args, **kwargs)
        finally:
            sys.settrace(None)
            loc.in_op = False
            self.op_lines.append((loc.tid, loc.op_no, loc.op_line))
            loc.op_no += 1
            loc.interrupt = None


__all__ = ["Callers", "install_lock_seam", "Violation"]

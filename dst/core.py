"""Core of the deterministic simulator: run context, violations, entropy derivation.

A *scenario* is a plain JSON value.  It fixes everything one simulated execution
depends on: the operations, their arguments, the schedule, the faults and the
entropy the code under test will see.  ``execute(scenario, ctx)`` of a property
module is a pure function of the scenario and the code in /repo.
"""
import collections
import contextlib
import hashlib
import json
import random
import traceback


class Violation(BaseException):
    """The property under test is broken in this execution."""

    def __init__(self, cls, msg, details=None):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg
        self.details = details or {}


class HarnessError(BaseException):
    """The simulator itself failed; never reported as a violation."""


class SimCrash(BaseException):
    """Simulated death of the process: only durable state survives."""


class SimInterrupt(KeyboardInterrupt):
    """Simulated asynchronous interrupt of a call (Ctrl-C, cancellation)."""


class SimFault(Exception):
    """A failure raised by a simulated external component."""


class SimJobError(SimFault, RuntimeError):
    pass


class SimConnError(SimFault, ConnectionError):
    pass


class SimTimeout(SimFault, TimeoutError):
    pass


FAULT_EXC = {
    "job": SimJobError,
    "conn": SimConnError,
    "timeout": SimTimeout,
}


def derive(*parts):
    """A 64 bit integer determined by the parts, stable across processes."""
    text = "\x1f".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


def rng_for(*parts):
    return random.Random(derive(*parts))


class Outcome:
    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value=None, exc=None):
        self.ok = ok
        self.value = value
        self.exc = exc

    @property
    def kind(self):
        return "ok" if self.ok else "err:" + type(self.exc).__name__

    def __repr__(self):
        if self.ok:
            return "returned"
        return f"raised {type(self.exc).__name__}: {str(self.exc)[:300]}"


class Ctx:
    """What one simulated execution records and asserts."""

    MAX_EVENTS = 20000

    def __init__(self, prop, keep_log=False):
        self.prop = prop
        self.keep_log = keep_log
        self.events = []
        self.n_events = 0
        self.hash = hashlib.sha256()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.ops = 0
        self.time = 0
        self.nontrivial = False
        self.marks = []  # (measure, value): distinct states / interleavings reached
        self.cleanups = []

    def log(self, *event):
        self.n_events += 1
        if self.n_events > self.MAX_EVENTS:
            raise HarnessError("event cap exceeded")
        text = json.dumps(event, default=str, sort_keys=True)
        self.hash.update(text.encode())
        self.hash.update(b"\n")
        if self.keep_log:
            self.events.append(text)

    def digest(self):
        return self.hash.hexdigest()[:24]

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def mark(self, measure, value):
        self.marks.append((measure, hashlib.sha256(
            json.dumps(value, default=str, sort_keys=True).encode()).hexdigest()[:12]))

    def fail(self, cls, msg, **details):
        raise Violation(cls, msg, details)

    def check(self, cond, cls, msg, **details):
        if not cond:
            if callable(msg):
                msg = msg()
            raise Violation(cls, msg, details)

    def call(self, fn, *args, **kwargs):
        """Call into the code under test; ordinary exceptions become outcomes."""
        self.ops += 1
        try:
            return Outcome(True, fn(*args, **kwargs))
        except (MemoryError, RecursionError):
            raise
        except Exception as e:  # noqa: BLE001
            return Outcome(False, exc=e)
        except SystemExit as e:
            return Outcome(False, exc=e)

    @contextlib.contextmanager
    def oracle(self, what):
        """Reading results of the code under test: a result so malformed that the
        oracle cannot even read it is a violation, not a harness failure."""
        try:
            yield
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                "malformed-result",
                f"{what}: result could not be evaluated "
                f"({type(e).__name__}: {str(e)[:200]} at {tb.name})",
            )

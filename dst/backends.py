"""Simulated quantum services behind the library's own seams.

The abstract methods of BaseCircuitRunner / BaseWavefunctionSimulator are the
network boundary of this code base: everything below them is a simulated job
service with scripted failures, extra shots, latency in logical time and
out-of-order completion.  Everything above them is the real code.
"""
import random
import threading

import numpy as np

from . import objs
from .core import FAULT_EXC


class Service:
    """Job service; per caller it keeps the log of the call in progress."""

    def __init__(self, ctx, callers=None):
        self.ctx = ctx
        self.callers = callers
        self.local = threading.local()
        self.jobs = 0

    def arm(self, op):
        """Install seed and fault of the next call by this caller."""
        loc = self.local
        loc.fault = op.get("fault")
        loc.calls = 0
        loc.seed = op.get("seed", 0)
        loc.extra = op.get("extra", 0)
        loc.np_ints = op.get("np", False)
        loc.share = op.get("share", False)  # equal members of a batch are answered with one object
        loc.log = []  # dicts: kind, circuit, n, result/ok

    @property
    def log(self):
        return self.local.log

    def invoke(self, kind, **info):
        ctx, loc = self.ctx, self.local
        k = loc.calls
        loc.calls += 1
        self.jobs += 1
        entry = {"kind": kind, "ok": False, "k": k, **info}
        loc.log.append(entry)
        rng = random.Random(f"{loc.seed}/{k}")
        ctx.time += rng.randrange(1, 50)
        ctx.log("job", kind, k)
        if self.callers is not None:
            self.callers.point("job")
        f = loc.fault
        if f and f["at"] == k and f["when"] == "before":
            self._fail(f)
        return entry, rng

    def _fail(self, f):
        self.ctx.fault("backend." + f["kind"])
        self.ctx.log("backend-fault", f["kind"])
        raise FAULT_EXC[f["kind"]]("simulated " + f["kind"] + " failure")

    def finish(self, entry, result):
        entry["result"] = result
        if self.callers is not None:
            self.callers.point("job-done")
        f = self.local.fault
        if f and f["at"] == entry["k"] and f["when"] == "after":
            # the service did the work, the answer was lost
            self._fail(f)
        entry["ok"] = True
        return result

    def bitstrings(self, rng, width, n):
        out = []
        for _ in range(n + (rng.randrange(self.local.extra + 1) if self.local.extra else 0)):
            v = rng.getrandbits(width) if width else 0
            t = tuple((v >> i) & 1 for i in range(width))
            if self.local.np_ints:
                t = cast_bits(t, self.local.np_ints)
            out.append(t)
        return out


def cast_bits(bits, how):
    """The number types devices' SDKs answer with: rows of arrays of bytes or of booleans."""
    if not how:
        return tuple(bits)
    cast = {"bool": np.bool_, "pybool": bool}.get(how, np.int8)
    return tuple(cast(b) for b in bits)


def gen_bits(rng):
    return rng.choice([True, True, "bool", "pybool"])


def gen_fault(rng, max_at=3):
    return {"at": rng.randrange(max_at + 1), "kind": rng.choice(sorted(FAULT_EXC)),
            "when": rng.choice(["before", "before", "after"])}


def native_predicate(spec):
    """spec: {"kind": "all"|"none"|"gates"|"mp"|"names"|"qubit"|"wrapped", ...}"""
    kind = spec["kind"]

    def is_gate(op):
        return hasattr(op, "gate")

    if kind == "all":
        return lambda op: True
    if kind == "none":
        return lambda op: False
    if kind == "gates":
        return is_gate
    if kind == "mp":
        return lambda op: not is_gate(op)
    if kind == "names":
        names = set(spec["names"])
        return lambda op: is_gate(op) and op.gate.name in names
    if kind == "qubit":
        return lambda op: is_gate(op) and (min(op.qubit_indices) % 2 == spec["r"])
    if kind == "arity":
        return lambda op: is_gate(op) and len(op.qubit_indices) <= spec["k"]
    raise ValueError(kind)


def gen_native(rng):
    kind = rng.choice(["all", "none", "gates", "mp", "names", "qubit", "arity"])
    if kind == "names":
        return {"kind": kind, "names": rng.sample(objs.BUILTINS, 8)}
    if kind == "qubit":
        return {"kind": kind, "r": rng.randrange(2)}
    if kind == "arity":
        return {"kind": kind, "k": rng.choice([1, 2])}
    return {"kind": kind}


def segments(circuit, pred):
    """(number of maximal runs, number of native runs)"""
    total = native = 0
    prev = None
    for op in circuit.operations:
        p = bool(pred(op))
        if p != prev:
            total += 1
            native += p
        prev = p
    return total, native


def engine_state(circuit, state):
    """The simulated third-party engine: independent dense linear algebra."""
    state = np.array([complex(x) for x in np.asarray(state, dtype=object).reshape(-1)])
    for op in circuit.operations:
        if hasattr(op, "gate"):
            m = np.array(op.gate.matrix, dtype=complex)
            state = objs.apply_matrix(m, tuple(op.qubit_indices), state)
        else:
            state = state * np.exp(1j * np.array([float(p) for p in op.params]))
    return state


def classes():
    """Runner classes built on the library's base classes (defined lazily: they subclass the code under test)."""
    from orquestra.quantum.api.circuit_runner import BaseCircuitRunner
    from orquestra.quantum.api.wavefunction_simulator import BaseWavefunctionSimulator
    from orquestra.quantum.measurements import Measurements

    class SimRunner(BaseCircuitRunner):
        """One job per circuit."""

        def __init__(self, service):
            super().__init__()
            self.service = service

        def _run_and_measure(self, circuit, n_samples):
            entry, rng = self.service.invoke("run", circuit=circuit, n=n_samples)
            return self.service.finish(
                entry, Measurements(self.service.bitstrings(rng, circuit.n_qubits, n_samples)))

    class SimBatchRunner(SimRunner):
        """Submits a whole batch as one job; the service completes members out of order."""

        def _run_batch_and_measure(self, batch, samples_per_circuit):
            entry, rng = self.service.invoke("batch", circuits=list(batch), ns=list(samples_per_circuit))
            order = list(range(len(batch)))
            rng.shuffle(order)
            results = [None] * len(batch)
            answered = {}
            for i in order:
                key = (batch[i].n_qubits, samples_per_circuit[i])
                if self.service.local.share and key in answered:
                    results[i] = answered[key]
                    continue
                results[i] = answered[key] = Measurements(self.service.bitstrings(rng, batch[i].n_qubits, samples_per_circuit[i]))
            self.service.ctx.log("completion-order", order)
            out = self.service.finish(entry, results)
            self._n_circuits_executed += len(batch)
            self._n_jobs_executed += 1
            return out

    class SimWf(BaseWavefunctionSimulator):
        """A wavefunction service with a restricted native operation set."""

        def __init__(self, service, native, seed=None, default_native=False):
            super().__init__(seed=seed)
            self.service = service
            self.pred = native_predicate(native)
            if default_native:
                self.pred = super().is_natively_supported
                self.is_natively_supported = self.pred

        def is_natively_supported(self, operation):
            return self.pred(operation)

        def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
            # the base class promises an engine nothing but operations declared native
            foreign = [str(op) for op in circuit.operations if not self.pred(op)]
            if foreign:
                raise ValueError(f"operations {foreign} were sent to an engine that doesn't know them")
            # and a part of a circuit acts on the whole register of that circuit
            size = int(np.asarray(initial_state, dtype=object).size)
            if size != 2 ** int(circuit.n_qubits):
                raise ValueError(f"a state of {size} amplitudes was sent with a circuit of {circuit.n_qubits} qubits")
            entry, _ = self.service.invoke("native", circuit=circuit, state=initial_state)
            return self.service.finish(entry, engine_state(circuit, initial_state))

    return SimRunner, SimBatchRunner, SimWf

"""C20: operations returning a value or a report never modify their arguments.

One execution is a history of calls over a pool of objects shared by one to
three callers: gates, circuits, operators, measurements, distributions and
wavefunctions, and everything those calls return.  The simulator decides which
caller runs before every source line of the code under test, interrupts calls
or fails allocations in the middle of them, and fails disk writes while values
are being saved.  After every call (finished, refused or interrupted) every
object of the pool and every plain argument must look exactly as before; the
same call on the same arguments, and on pristine copies of them that took part
in no earlier call, must give an equal result.
"""
import copy
import operator
import random
import warnings

import numpy as np
import sympy

from .. import disk as disk_mod
from .. import entropy, objs, store
from ..core import HarnessError, SimInterrupt
from ..sched import Callers
from ..snap import same, snap

RUNS = {"quick": 6000, "thorough": 150000}
RULE = "a run is non-trivial if it made at least three calls that returned a value, on at least two kinds of object"
REAL = ["gates, circuits, serialisation, decomposition, simulation and estimation of circuits", "Pauli operator algebra, conversion, parsing, evolution",
        "Measurements, parities, expectation values", "outcome distributions and their distances", "Wavefunction and sampling",
        "Python's buffering and text encoding", "json", "numpy, scipy, sympy"]
STUB = ["disk (simulated raw layer on a scratch directory)", "scheduler of caller threads (baton, line granularity)",
        "asynchronous interrupts and allocation failures", "entropy source"]
ASSUMPTIONS = [
    "operations documented to work in place (Measurements.add_counts, assignment to an amplitude, normalising a plain dictionary, "
    "expectation_values_to_real) may change their receiver, nothing else",
    "an object's state is what its public attributes show: operations, parameters, matrices of custom definitions, terms, coefficients, bitstrings, "
    "outcome dictionaries (with their order), amplitudes",
    "results are compared to 1e-9; results that consume entropy are not compared",
]
LIST_FIELDS = ["ops", "plan.interrupts", "plan.switches", "pool"]

KINDS = ["gate", "op", "circ", "def", "pauli", "meas", "dist", "wf", "ev", "par"]
MAIN = ["gate", "circ", "pauli", "meas", "dist", "wf"]
MAXPOOL = 26
S = sympy.Symbol

# ---------------------------------------------------------------- generation


def _gen_param(rng, symbols):
    r = rng.random()
    if symbols and r < 0.5:
        return objs.gen_expr(rng, symbols, rng.choice([0, 1, 2]), objs.REAL_FUNS)
    return objs.gen_float(rng)


def _gen_item(rng, kind, defs, pool):
    if kind == "def":
        return {"k": "def", "i": rng.randrange(max(1, len(defs)))}
    if kind == "gate":
        g, n = objs.gen_gate(rng, defs, lambda: _gen_param(rng, ["a", "b"]), 2, rng.choice([0, 1, 2]), exponents=(2, -1, 3))
        return {"k": "gate", "gate": g}
    if kind == "op":
        if rng.random() < 0.2:
            n = rng.choice([1, 2])
            return {"k": "op", "op": {"mp": [_gen_param(rng, ["a"] if rng.random() < 0.4 else []) for _ in range(2**n)]}}
        g, n = objs.gen_gate(rng, defs, lambda: _gen_param(rng, ["a", "b"]), 2, rng.choice([0, 1]), exponents=(2, -1))
        return {"k": "op", "op": {"gate": g, "q": rng.sample(range(3), n)}}
    if kind == "circ":
        n = rng.choice([1, 2, 2, 3])
        syms = rng.choice([[], [], ["a", "b"], ["a", "b", "c"]])
        ds = [d for d in defs if objs.def_qubits(d) <= n]
        c = objs.gen_circuit(rng, n, rng.choice([0, 1, 2, 3, 4, rng.choice([4, 9, 18])]), ds, lambda: _gen_param(rng, syms), rng.random() < 0.12,
                             rng.choice([0, 1]), exponents=(2, -1))
        r = rng.random()
        if r < 0.2 and any(p["k"] == "op" for p in pool):
            return {"k": "circof", "i": [rng.randrange(64) for _ in range(rng.choice([1, 2, 3]))], "n": rng.choice([None, 3])}
        return {"k": "circ", "c": c}
    if kind == "pauli":
        n = rng.choice([1, 2, 3, 4])
        alpha = rng.choice(["XYZ", "XYZ", "Z"])
        r = rng.random()
        if r < 0.35:
            return {"k": "pauli", "d": objs.gen_term(rng, n, alpha)}
        if r < 0.55 and any(p["k"] == "pauli" for p in pool):
            return {"k": "sumof", "i": [rng.randrange(64) for _ in range(rng.choice([1, 2, 3, 4]))]}
        d = objs.gen_sum(rng, n, rng.choice([0, 1, 2, 3, 4, rng.choice([4, 8])]), alpha)
        if d["terms"] and rng.random() < 0.4:  # repeated and cancelling terms
            t = copy.deepcopy(rng.choice(d["terms"]))
            if rng.random() < 0.5:
                c = objs.coeff(t["c"])
                t["c"] = ["c", -c.real, -c.imag] if isinstance(c, complex) else -c
            d["terms"].insert(rng.randrange(len(d["terms"]) + 1), t)
        return {"k": "pauli", "d": d}
    if kind == "meas":
        n = rng.choice([1, 2, 3])
        count = rng.choice([1, 2, 5, 9, 20, 20, rng.choice([70, 200])])
        if rng.random() < 0.08:  # more distinct outcomes than a memo of the library holds
            n, count = 9, 200
        return {"k": "meas", "shots": [[rng.randrange(2) for _ in range(n)] for _ in range(count)],
                "as": rng.choice(["tuple", "tuple", "npint", "npbool", "bool"])}
    if kind == "dist":
        n = rng.choice([1, 2, 2, 3, rng.choice([3, 4, 5])])
        keys = [list(k) for k in objs.product_states(n)]
        if rng.random() < 0.2:
            keys = [[x * rng.choice([1, 2, 5]) for x in k] for k in keys]
            keys = [list(k) for k in sorted({tuple(k) for k in keys})]
        keys = rng.sample(keys, rng.randrange(1, len(keys) + 1))
        w = [rng.choice([0.0, 1.0, 2.5, rng.random(), rng.random()]) for _ in keys]
        if not sum(w):
            w[0] = 1.0
        return {"k": "dist", "keys": keys, "w": w, "norm": rng.random() < 0.9, "form": rng.choice(["tuple", "tuple", "str"])}
    if kind == "wf":
        n = rng.choice([1, 2, 2, 3, rng.choice([3, 4, 5])])
        v = [complex(rng.gauss(0, 1), rng.gauss(0, 1)) if rng.random() < 0.8 else 0j for _ in range(2**n)]
        if not any(v):
            v[0] = 1 + 0j
        s = sum(abs(x) ** 2 for x in v) ** 0.5
        amps = [[x.real / s, x.imag / s] for x in v]
        sym = {}
        if rng.random() < 0.3:
            for i in rng.sample(range(2**n), rng.choice([1, 1, 2])):
                sym[str(i)] = rng.choice([["sym", "a"], ["sym", "b"], ["mul", ["sym", "a"], ["sym", "b"]], ["neg", ["sym", "a"]]])
        return {"k": "wf", "amps": amps, "sym": sym, "real": rng.random() < 0.2}
    raise ValueError(kind)


def generate(rng, tier, index):
    callers = rng.choice([1, 1, 1, 2, 2, 3])
    focus = [k for k in MAIN if rng.random() < 0.45] or [rng.choice(MAIN)]
    defs = []
    for i in range(rng.choice([0, 1, 2])):
        defs.append(objs.gen_custom_def(rng, f"cust{i}", ["u", "v"], 2))
    pool = []
    for _ in range(rng.choice([2, 4, 6, 8])):
        kind = rng.choice(focus)
        if kind == "gate":
            kind = rng.choice(["gate", "gate", "op"] + (["def"] if defs else []))
        elif kind == "circ":
            kind = rng.choice(["circ", "circ", "circ", "op"])
        pool.append(_gen_item(rng, kind, defs, pool))
    p_fault = rng.choice([0.0, 0.0, 0.4])
    ops = []
    for _ in range(rng.choice([4, 8, 12, 20])):
        op = {"t": rng.randrange(callers), "s": rng.randrange(1 << 30), "r": rng.random(), "keep": rng.random() < 0.6,
              "fresh": rng.random() < 0.5, "spoil": rng.random() < 0.2}
        if rng.random() < 0.22:
            op["again"] = rng.randrange(1 << 16)
        elif callers == 1 and rng.random() < 0.12:
            op["edit"] = rng.choice(["add_counts", "amplitude", "report", "report", "source"])
        if rng.random() < p_fault:
            op["fault"] = disk_mod.gen_write_fault(rng, 300)
            if op["fault"]["kind"] == "crash":
                op["fault"]["kind"] = "enospc"
        ops.append(op)
    scn = {"defs": defs, "pool": pool, "ops": ops, "callers": callers, "entropy": {"seed": rng.randrange(1 << 30), "mode": None}}
    if callers > 1 or rng.random() < 0.4:
        plan = {"mode": "random", "seed": rng.randrange(1 << 30), "line": True, "p": rng.choice([0.02, 0.1, 0.4]) if callers > 1 else 0.0,
                "seam_p": 0.5}
        if rng.random() < 0.6:
            plan["interrupts"] = [[rng.randrange(callers), rng.randrange(16), int(10 ** rng.uniform(0, 2.0)),
                                   rng.choice(["interrupt", "memory"])] for _ in range(rng.choice([1, 2, 4, 8]))]
        scn["plan"] = plan
    return scn


# ---------------------------------------------------------------- the pool


class Entry:
    def __init__(self, kind, obj, clone=None):
        self.kind = kind
        self.obj = obj
        self.snap = snap(obj)
        self.clone = copy.deepcopy(obj)  # takes part in no call before it is copied again
        self.version = 0


def kind_of(x):
    from orquestra.quantum import circuits as c
    from orquestra.quantum.circuits import _gates
    from orquestra.quantum.distributions import MeasurementOutcomeDistribution
    from orquestra.quantum.measurements import ExpectationValues, Measurements, Parities
    from orquestra.quantum.operators import PauliSum, PauliTerm
    from orquestra.quantum.wavefunction import Wavefunction

    for kind, types in (("circ", c.Circuit), ("op", (c.GateOperation, c.MultiPhaseOperation)), ("def", _gates.CustomGateDefinition),
                        ("pauli", (PauliSum, PauliTerm)), ("meas", Measurements), ("dist", MeasurementOutcomeDistribution),
                        ("wf", Wavefunction), ("ev", ExpectationValues), ("par", Parities)):
        if isinstance(x, types):
            return kind
    if hasattr(x, "wrapped_gate") or hasattr(x, "matrix_factory"):
        return "gate"
    return None


def _gate_depth(g):
    d = 0
    while hasattr(g, "wrapped_gate"):
        g, d = g.wrapped_gate, d + 1
    return d


def _small(kind, x):
    """Results are kept in the pool only while they stay cheap to work with."""
    if kind == "gate":
        return _gate_depth(x) <= 3 and x.num_qubits <= 4
    if kind == "op":
        return not hasattr(x, "gate") or _small("gate", x.gate)
    if kind == "circ":
        return x.n_qubits <= 5 and len(x.operations) <= 10 and all(_small("op", o) for o in x.operations)
    if kind == "pauli":
        return len(x.terms) <= 12 and x.n_qubits <= 6 and all(abs(complex(t.coefficient)) < 1e9 for t in x.terms)
    if kind == "meas":
        return len(x.bitstrings) <= 200
    return True


def _cheap_gate(g, depth=0):
    """Is evaluating the gate's matrix fast?"""
    t = type(g).__name__
    if hasattr(g, "matrix_factory"):
        return not (g.name == "U3" and g.free_symbols)
    inner = g.wrapped_gate
    if t in ("Power", "Exponential"):
        if not hasattr(inner, "matrix_factory") or inner.name not in ("X", "Y", "Z", "I", "S") + (("H", "T", "SX") if t == "Power" else ()):
            return False
        e = getattr(g, "exponent", 2)
        return isinstance(e, int) and abs(e) <= 3
    return g.num_qubits <= 3 and _cheap_gate(inner)


def _cheap_circ(c, symbolic_ops=2):
    ops = c.operations
    if c.n_qubits > 3 or not all(hasattr(o, "gate") and _cheap_gate(o.gate) for o in ops):
        return False
    return not c.free_symbols or c.n_qubits <= 2 and len(ops) <= symbolic_ops


def _num_circ(c, width=4):
    return 0 < c.n_qubits <= width and not c.free_symbols and all(
        _cheap_gate(o.gate) if hasattr(o, "gate") else len(o.params) == 2**c.n_qubits for o in c.operations)


class Skip(BaseException):
    pass


class World:
    def __init__(self, scn, ctx, st, callers):
        self.scn, self.ctx, self.st, self.callers = scn, ctx, st, callers
        self.pool = []
        self.records = []  # (name, fn, args, result, versions)
        self.kinds = set()
        self.values = 0

    def add(self, kind, obj):
        if len(self.pool) < MAXPOOL:
            self.pool.append(Entry(kind, obj))

    def pick(self, rng, kind, pred=None):
        c = [e for e in self.pool if e.kind == kind and (pred is None or pred(e.obj))]
        if not c:
            raise Skip
        return rng.choice(c)

    def some(self, rng, kind, pred=None, most=3):
        c = [e for e in self.pool if e.kind == kind and (pred is None or pred(e.obj))]
        if not c:
            raise Skip
        return [rng.choice(c) for _ in range(rng.randrange(1, most + 1))]

    def intact(self, what):
        ctx = self.ctx
        for e in self.pool:
            with ctx.oracle(f"reading a {e.kind} of the pool"):
                now = snap(e.obj)
            ctx.check(now == e.snap, "argument-changed", lambda: f"after {what}: a {e.kind} changed from {e.snap} to {now}"[:3000])


def build(item, defs, built, pool):
    from orquestra.quantum.circuits import Circuit
    from orquestra.quantum.distributions import MeasurementOutcomeDistribution
    from orquestra.quantum.measurements import Measurements
    from orquestra.quantum.operators import PauliSum, PauliTerm
    from orquestra.quantum.wavefunction import Wavefunction

    k = item["k"]
    if k == "def":
        return "def", list(built.values())[item["i"] % len(built)]
    if k == "gate":
        return "gate", objs.build_gate(item["gate"], built)
    if k == "op":
        if "mp" in item["op"]:
            from orquestra.quantum.circuits import MultiPhaseOperation

            return "op", MultiPhaseOperation(tuple(objs.build_expr(p) for p in item["op"]["mp"]))
        return "op", objs.build_op(item["op"], built)
    if k == "circ":
        return "circ", objs.build_circuit(item["c"], built)
    if k == "circof":
        ops = [e.obj for e in pool if e.kind == "op" and hasattr(e.obj, "gate")]
        if not ops:
            return None, None
        return "circ", Circuit([ops[i % len(ops)] for i in item["i"]], n_qubits=item["n"])
    if k == "pauli":
        return "pauli", objs.build_operator(item["d"])
    if k == "sumof":
        terms = [t for e in pool if e.kind == "pauli" for t in e.obj.terms]
        return "pauli", PauliSum([terms[i % len(terms)] for i in item["i"]] if terms else [PauliTerm("X0")])
    if k == "meas":
        cast = {"npint": np.int64, "npbool": np.bool_, "bool": bool}.get(item["as"], int)
        return "meas", Measurements([tuple(cast(b) for b in s) for s in item["shots"]])
    if k == "dist":
        f = (lambda x: "".join(map(str, x))) if item["form"] == "str" else tuple
        d = {f(key): w for key, w in zip(item["keys"], item["w"])}
        return "dist", MeasurementOutcomeDistribution(d) if item["norm"] else MeasurementOutcomeDistribution(d, normalize=False)
    if k == "wf":
        amps = [complex(a, b) for a, b in item["amps"]]
        if item["sym"]:
            return "wf", Wavefunction(sympy.Matrix([objs.build_expr(item["sym"][str(i)]) if str(i) in item["sym"] else 0.9 * a
                                                    for i, a in enumerate(amps)]))
        if item["real"]:
            r = np.abs(np.array(amps))
            return "wf", Wavefunction(r / np.linalg.norm(r))
        return "wf", Wavefunction(np.array(amps))
    raise HarnessError(k)


# ---------------------------------------------------------------- operations

OPS = {}
ONAMES = {}


def op(kind, weight=1, entropic=False, save=False):
    def register(fn):
        OPS.setdefault(kind, []).extend([(fn, entropic, save)] * weight)
        return fn
    return register


# Each function draws the arguments of one call and returns (callable, [arguments]);
# pool entries may appear anywhere inside the arguments.

def _symbol_map(rng):
    m = {}
    for s in rng.sample(["a", "b", "c", "u", "v", "zz"], rng.choice([0, 1, 2, 3, 5])):
        r = rng.random()
        m[S(s)] = (round(rng.uniform(-2, 2), 3) if r < 0.6 else rng.randrange(-3, 4) if r < 0.75 else
                   S(rng.choice(["a", "b", "q"])) if r < 0.9 else S("a") * 2 + S("q"))
    return m


def _params(rng, n):
    return tuple(rng.choice([round(rng.uniform(-2, 2), 3), S("a"), S("b") / 2, sympy.pi / 3]) for _ in range(n))


def _cg(e):
    return _cheap_gate(e)


@op("gate")
def g_dagger(w, rng):
    return lambda g: g.dagger, [w.pick(rng, "gate")]


@op("gate")
def g_controlled(w, rng):
    return lambda g, k: g.controlled(k), [w.pick(rng, "gate", lambda g: g.num_qubits < 3), rng.choice([1, 1, 2])]


@op("gate")
def g_power(w, rng):
    return lambda g, k: g.power(k), [w.pick(rng, "gate"), rng.choice([2, 3, -1, 0.5, 1])]


@op("gate")
def g_exp(w, rng):
    return lambda g: g.exp, [w.pick(rng, "gate")]


@op("gate", 2)
def g_bind(w, rng):
    return lambda g, m: g.bind(m), [w.pick(rng, "gate"), _symbol_map(rng)]


@op("gate")
def g_replace(w, rng):
    e = w.pick(rng, "gate")
    return lambda g, p: g.replace_params(p), [e, _params(rng, len(e.obj.params))]


@op("gate", 3)
def g_matrix(w, rng):
    return lambda g: g.matrix, [w.pick(rng, "gate", _cg)]


@op("gate")
def g_report(w, rng):
    return lambda g: (g.name, g.params, g.num_qubits, list(g.free_symbols), str(g), repr(g)), [w.pick(rng, "gate")]


@op("gate")
def g_eq(w, rng):
    return lambda a, b: (a == b, b == a, a != b), [w.pick(rng, "gate"), w.pick(rng, "gate")]


@op("gate", 2)
def g_call(w, rng):
    e = w.pick(rng, "gate", lambda g: g.num_qubits <= 3)
    return lambda g, q: g(*q), [e, rng.sample(range(3), e.obj.num_qubits)]


@op("gate")
def g_to_dict(w, rng):
    from orquestra.quantum.circuits import to_dict

    return to_dict, [w.pick(rng, "gate")]


@op("gate")
def d_call(w, rng):
    e = w.pick(rng, "def")
    return lambda d, p: d(*p), [e, _params(rng, len(e.obj.params_ordering))]


@op("gate")
def d_to_dict(w, rng):
    from orquestra.quantum.circuits import to_dict

    return to_dict, [w.pick(rng, "def")]


@op("gate")
def d_eq(w, rng):
    return lambda a, b: (a == b, a != b), [w.pick(rng, "def"), w.pick(rng, "def")]


@op("gate")
def d_make(w, rng):
    from orquestra.quantum.circuits import CustomGateDefinition

    e = w.pick(rng, "def")
    return lambda m, p: CustomGateDefinition("other", m, p)(*p).matrix, [sympy.Matrix(e.obj.matrix), e.obj.params_ordering]


@op("gate")
@op("circ")
def o_bind(w, rng):
    return lambda o, m: o.bind(m), [w.pick(rng, "op"), _symbol_map(rng)]


@op("gate")
@op("circ")
def o_replace(w, rng):
    e = w.pick(rng, "op")
    p = _params(rng, len(e.obj.params))
    return lambda o, p: o.replace_params(p), [e, p]


def _cheap_op(o):
    return not hasattr(o, "gate") or _cheap_gate(o.gate)


@op("gate")
def o_lifted(w, rng):
    return lambda o, n: o.lifted_matrix(n), [w.pick(rng, "op", lambda o: hasattr(o, "gate") and _cheap_gate(o.gate)), 3]


def _state(rng, n):
    v = [complex(round(rng.uniform(-1, 1), 4), round(rng.uniform(-1, 1), 4)) for _ in range(2**n)]
    v[0] += 0.001
    return np.array(v) / np.linalg.norm(v)


@op("gate", 2)
@op("circ")
def o_apply(w, rng):
    e = w.pick(rng, "op", _cheap_op)
    n = 3 if hasattr(e.obj, "gate") else len(e.obj.params).bit_length() - 1
    v = _state(rng, n)
    r = rng.random()
    if r < 0.2:
        v = v.real.copy()
    elif r < 0.35:
        v = v.tolist()
    elif r < 0.5:
        v = sympy.Matrix([sympy.Float(round(x.real, 5)) for x in v])
    return lambda o, v: o.apply(v), [e, v]


@op("gate")
@op("circ")
def o_report(w, rng):
    return lambda o: (o.params, list(o.free_symbols), o.qubit_indices, str(o)), [w.pick(rng, "op")]


@op("gate")
def o_eq(w, rng):
    return lambda a, b: (a == b, a != b), [w.pick(rng, "op"), w.pick(rng, "op")]


# -- circuits

@op("circ", 3)
def c_add(w, rng):
    return operator.add, [w.pick(rng, "circ"), w.pick(rng, "circ")]


@op("circ", 2)
def c_add_op(w, rng):
    return operator.add, [w.pick(rng, "circ"), w.pick(rng, "op")]


@op("circ")
def c_iadd(w, rng):
    return operator.iadd, [w.pick(rng, "circ"), w.pick(rng, rng.choice(["circ", "op"]))]


@op("circ", 3)
def c_bind(w, rng):
    return lambda c, m: c.bind(m), [w.pick(rng, "circ"), _symbol_map(rng)]


@op("circ", 2)
def c_inverse(w, rng):
    return lambda c: c.inverse(), [w.pick(rng, "circ", lambda c: all(hasattr(o, "gate") for o in c.operations))]


@op("circ", 2)
def c_controlled(w, rng):
    return lambda c, i: c.controlled(i), [w.pick(rng, "circ", lambda c: all(hasattr(o, "gate") for o in c.operations)), rng.randrange(4)]


@op("circ", 2)
def c_unitary(w, rng):
    return lambda c: c.to_unitary(), [w.pick(rng, "circ", _cheap_circ)]


@op("circ", 2)
def c_report(w, rng):
    return lambda c: (c.free_symbols, c.n_qubits, repr(c), list(c.operations)), [w.pick(rng, "circ")]


@op("circ")
def c_defs(w, rng):
    return lambda c: list(c.collect_custom_gate_definitions()), [
        w.pick(rng, "circ", lambda c: all(hasattr(o, "gate") for o in c.operations))]


@op("circ")
def c_eq(w, rng):
    return lambda a, b: (a == b, a != b), [w.pick(rng, "circ"), w.pick(rng, "circ")]


@op("circ")
def c_make(w, rng):
    from orquestra.quantum.circuits import Circuit

    r = rng.random()
    n = rng.choice([None, None, 4])
    if r < 0.5:
        return lambda ops, n: Circuit(ops, n), [w.some(rng, "op"), n]
    return lambda c, n: Circuit(c.operations, n), [w.pick(rng, "circ"), n]


@op("circ")
def c_edit_copy(w, rng):
    """A circuit built from a list stays as it is when the list grows."""
    from orquestra.quantum.circuits import Circuit

    def fn(ops, extra):
        ops = list(ops)
        c = Circuit(ops)
        before = len(c.operations)
        ops.append(extra)
        return len(c.operations) == before

    return fn, [w.some(rng, "op"), w.pick(rng, "op")]


@op("circ")
def c_split(w, rng):
    from orquestra.quantum.circuits import split_circuit

    n = rng.choice([1, 2])
    return lambda c: list(split_circuit(c, lambda o: len(o.qubit_indices) == n)), [w.pick(rng, "circ")]


def _gates_only(c):
    return all(hasattr(o, "gate") for o in c.operations)


@op("circ", 2)
def c_to_dict(w, rng):
    from orquestra.quantum.circuits import to_dict

    return to_dict, [w.pick(rng, "circ", _gates_only)]


@op("circ")
def c_set_to_dict(w, rng):
    from orquestra.quantum.circuits import to_dict

    return to_dict, [w.some(rng, "circ", _gates_only)]


def _settled(c):
    try:
        list(c.collect_custom_gate_definitions())
    except ValueError:
        return False
    return True


@op("circ", 2)
def c_from_dict(w, rng):
    from orquestra.quantum.circuits import circuit_from_dict, circuitset_from_dict, to_dict

    cs = w.some(rng, "circ", lambda c: _gates_only(c) and _settled(c))
    if rng.random() < 0.3:
        return circuitset_from_dict, [to_dict([e.obj for e in cs])]
    return circuit_from_dict, [to_dict(cs[0].obj)]


@op("circ", 2, save=True)
def c_save(w, rng):
    from orquestra.quantum.circuits import save_circuit, save_circuitset

    ok = lambda c: _gates_only(c) and _settled(c)  # noqa: E731
    if rng.random() < 0.5:
        return save_circuit, [w.pick(rng, "circ", ok)]
    return save_circuitset, [w.some(rng, "circ", ok)]


@op("circ")
def c_ancilla(w, rng):
    from orquestra.quantum.circuits import add_ancilla_register

    return add_ancilla_register, [w.pick(rng, "circ"), rng.choice([0, 1, 2])]


@op("circ", 2)
def c_apply_gate(w, rng):
    from orquestra.quantum.circuits import RX, H, apply_gate_to_qubits

    qs = rng.sample(range(3), rng.choice([1, 2, 3]))
    if rng.random() < 0.5:
        return apply_gate_to_qubits, [w.pick(rng, "circ"), qs, H]
    return apply_gate_to_qubits, [w.pick(rng, "circ"), qs, RX, np.array([[round(rng.uniform(-1, 1), 3)] for _ in qs])]


@op("circ")
def c_layer(w, rng):
    from orquestra.quantum.circuits import RY, X, create_layer_of_gates

    n = rng.choice([1, 2, 3])
    if rng.random() < 0.5:
        return create_layer_of_gates, [n, X]
    return create_layer_of_gates, [n, RY, np.array([[round(rng.uniform(-1, 1), 3)] for _ in range(n)])]


@op("circ")
def c_decompose(w, rng):
    from orquestra.quantum.decompositions import U3GateToRotation, decompose_orquestra_circuit

    return lambda c: decompose_orquestra_circuit(c, [U3GateToRotation()]), [w.pick(rng, "circ", _gates_only)]


def _sim(seed=7):
    from orquestra.quantum.runners.symbolic_simulator import SymbolicSimulator

    return SymbolicSimulator(seed=seed)


@op("circ", 3)
def c_wavefunction(w, rng):
    e = w.pick(rng, "circ", _num_circ)
    if rng.random() < 0.5:
        return lambda c: _sim().get_wavefunction(c), [e]
    v = _state(rng, e.obj.n_qubits)
    if rng.random() < 0.3:
        v = v.real / np.linalg.norm(v.real)
    return lambda c, v: _sim().get_wavefunction(c, initial_state=v), [e, v]


@op("circ")
def c_outcomes(w, rng):
    e = w.pick(rng, "circ", _num_circ)
    n = rng.choice([None, None, 30])
    return lambda c, n: _sim().get_measurement_outcome_distribution(c, n), [e, n]


@op("circ")
def c_measure(w, rng):
    e = w.pick(rng, "circ", _num_circ)
    return lambda c, n: _sim().run_and_measure(c, n), [e, rng.choice([1, 5, 40])]


@op("circ")
def c_measure_batch(w, rng):
    es = w.some(rng, "circ", _num_circ)
    n = rng.choice([3, [rng.choice([1, 4, 20]) for _ in es]])
    return lambda cs, n: _sim().run_batch_and_measure(cs, n), [es, n]


@op("circ")
@op("pauli", 3)
def c_exact(w, rng):
    e = w.pick(rng, "circ", _num_circ)
    o = w.pick(rng, "pauli", lambda p: p.n_qubits <= e.obj.n_qubits)
    return lambda c, o: _sim().get_exact_expectation_values(c, o), [e, o]


def _tasks(w, rng):
    from orquestra.quantum.api import EstimationTask

    out = []
    for _ in range(rng.choice([1, 2, 3])):
        c = w.pick(rng, "circ", lambda c: _num_circ(c, 3))
        o = w.pick(rng, "pauli", lambda p: 0 < len(p.terms) and p.n_qubits <= c.obj.n_qubits and p.is_ising)
        out.append(EstimationTask(o.obj, c.obj, rng.choice([None, 0, 10, 10])))
    return out


@op("circ")
@op("pauli", 3)
def t_exact(w, rng):
    from orquestra.quantum.estimation import calculate_exact_expectation_values

    return lambda ts: calculate_exact_expectation_values(_sim(), ts), [_tasks(w, rng)]


@op("circ")
@op("pauli", 3)
def t_average(w, rng):
    from orquestra.quantum.estimation import estimate_expectation_values_by_averaging

    ts = [copy.copy(t) if t.number_of_shots is not None else type(t)(t.operator, t.circuit, 12) for t in _tasks(w, rng)]
    return lambda ts: estimate_expectation_values_by_averaging(_sim(), ts), [ts]


@op("circ", 3)
def t_split(w, rng):
    from orquestra.quantum.estimation import split_estimation_tasks_to_measure

    return split_estimation_tasks_to_measure, [_tasks(w, rng)]


@op("circ", 3)
def t_evaluate(w, rng):
    from orquestra.quantum.api import EstimationTask
    from orquestra.quantum.estimation import evaluate_estimation_circuits

    ts = [EstimationTask(w.pick(rng, "pauli").obj, w.pick(rng, "circ").obj, 5) for _ in range(rng.choice([1, 2]))]
    return evaluate_estimation_circuits, [ts, [_symbol_map(rng) for _ in ts]]


# -- operators

def _number(rng):
    return rng.choice([0, 1, -1, 2, 0.5, -1.5, 1j, 1 - 2j, 1e-9, round(rng.uniform(-3, 3), 3)])


def _sum_only(p):
    return type(p).__name__ == "PauliSum"


@op("pauli", 4)
def p_binary(w, rng):
    f = rng.choice([operator.add, operator.sub, operator.mul])
    return f, [w.pick(rng, "pauli"), w.pick(rng, "pauli")]


@op("pauli", 3)
def p_number(w, rng):
    f = rng.choice([operator.add, operator.sub, operator.mul])
    a, x = w.pick(rng, "pauli"), _number(rng)
    return (f, [a, x]) if rng.random() < 0.5 else (f, [x, a])


@op("pauli")
def p_inplace(w, rng):
    f = rng.choice([operator.iadd, operator.isub, operator.imul])
    return f, [w.pick(rng, "pauli"), w.pick(rng, "pauli") if rng.random() < 0.7 else _number(rng)]


@op("pauli")
def p_div(w, rng):
    return operator.truediv, [w.pick(rng, "pauli"), rng.choice([2, -0.5, 1j, 3.7])]


@op("pauli", 2)
def p_pow(w, rng):
    return operator.pow, [w.pick(rng, "pauli", lambda p: len(p.terms) <= 5), rng.choice([0, 1, 2, 3])]


@op("pauli", 3)
def p_simplify(w, rng):
    return lambda p: p.simplify(), [w.pick(rng, "pauli", _sum_only)]


@op("pauli")
def p_copy(w, rng):
    c = rng.choice([None, 0.25, 2j])
    return lambda p, c: p.copy(c), [w.pick(rng, "pauli", lambda p: not _sum_only(p)), c]


@op("pauli", 2)
def p_conj(w, rng):
    from orquestra.quantum.operators import hermitian_conjugated

    return hermitian_conjugated, [w.pick(rng, "pauli")]


@op("pauli")
def p_hermitian(w, rng):
    from orquestra.quantum.operators import is_hermitian

    return is_hermitian, [w.pick(rng, "pauli")]


@op("pauli", 2)
def p_sparse(w, rng):
    from orquestra.quantum.operators import get_sparse_operator

    e = w.pick(rng, "pauli", lambda p: p.n_qubits <= 5)
    return get_sparse_operator, [e, rng.choice([None, max(1, e.obj.n_qubits), e.obj.n_qubits + 1])]


@op("pauli", 2)
@op("wf", 2)
def p_expect(w, rng):
    from orquestra.quantum.operators import get_expectation_value

    v = w.pick(rng, "wf", lambda v: not v.free_symbols)
    o = w.pick(rng, "pauli", lambda p: p.n_qubits <= v.obj.n_qubits)
    return get_expectation_value, [o, v, rng.random() < 0.5]


@op("pauli")
def p_expectation(w, rng):
    from orquestra.quantum.operators import expectation, get_sparse_operator

    o = w.pick(rng, "pauli", lambda p: 0 < p.n_qubits <= 3)
    m = get_sparse_operator(o.obj)
    return expectation, [m, _state(rng, o.obj.n_qubits)]


@op("pauli", 2)
def p_to_dict(w, rng):
    from orquestra.quantum.operators import convert_op_to_dict

    return convert_op_to_dict, [w.pick(rng, "pauli")]


@op("pauli", 2)
def p_from_dict(w, rng):
    from orquestra.quantum.operators import convert_dict_to_op, convert_op_to_dict

    d = convert_op_to_dict(w.pick(rng, "pauli").obj)
    return convert_dict_to_op, [d]


@op("pauli")
def p_parse(w, rng):
    e = w.pick(rng, "pauli", lambda p: len(p.terms) > 0)
    t = type(e.obj)
    return lambda p: t(str(p)), [e]


@op("pauli", 3)
def p_report(w, rng):
    return lambda p: (str(p), repr(p), p.qubits, p.n_qubits, p.is_constant, p.is_ising, len(p.terms)), [w.pick(rng, "pauli")]


@op("pauli", 2)
def p_circuits(w, rng):
    e = w.pick(rng, "pauli")
    if _sum_only(e.obj):
        return lambda p: list(p.circuits), [e]
    return lambda p: p.circuit, [e]


@op("pauli")
def p_circuit_use(w, rng):
    """Composing with a term's circuit."""
    from orquestra.quantum.circuits import H

    e = w.pick(rng, "pauli", lambda p: len(p.terms) > 0)
    return lambda p: [t.circuit + H(0) for t in p.terms] + [t.circuit for t in p.terms], [e]


@op("pauli")
def p_sum_report(w, rng):
    return lambda p: (p.constant_term, len(p), list(p), p[0] if len(p) else None), [w.pick(rng, "pauli", _sum_only)]


@op("pauli")
def p_term_report(w, rng):
    return lambda p: (len(p), sorted(p), p.operations, p[0], p[7]), [w.pick(rng, "pauli", lambda p: not _sum_only(p))]


@op("pauli", 2)
def p_eq(w, rng):
    return lambda a, b: (a == b, b == a, hash(a) == hash(a)), [w.pick(rng, "pauli"), w.pick(rng, "pauli")]


@op("pauli")
def p_eq_number(w, rng):
    return lambda a, b: (a == b, a != b), [w.pick(rng, "pauli"), _number(rng)]


@op("pauli")
def p_make(w, rng):
    from orquestra.quantum.operators import PauliSum, PauliTerm

    if rng.random() < 0.5:
        return PauliTerm, [{q: rng.choice("XYZI") for q in rng.sample(range(5), rng.choice([0, 1, 2, 3]))}, _number(rng)]
    e = w.pick(rng, "pauli")
    return lambda p: PauliSum(list(p.terms)), [e]


@op("pauli")
def p_from_iterable(w, rng):
    from orquestra.quantum.operators import PauliTerm

    return PauliTerm.from_iterable, [[(rng.choice("XYZI"), q) for q in rng.sample(range(5), rng.choice([1, 2, 3]))], _number(rng)]


@op("pauli")
def p_strings(w, rng):
    from orquestra.quantum.operators import get_pauli_strings

    return get_pauli_strings, [w.pick(rng, "pauli")]


@op("pauli", 2)
def p_reverse(w, rng):
    from orquestra.quantum.operators import reverse_qubit_order

    e = w.pick(rng, "pauli")
    return reverse_qubit_order, [e, rng.choice([None, e.obj.n_qubits, e.obj.n_qubits + 2])]


@op("pauli", 2, save=True)
def p_save(w, rng):
    from orquestra.quantum.operators import save_operator, save_operator_set

    if rng.random() < 0.5:
        return save_operator, [w.pick(rng, "pauli")]
    return save_operator_set, [w.some(rng, "pauli")]


@op("pauli")
def p_evolve(w, rng):
    from orquestra.quantum.evolution import time_evolution

    e = w.pick(rng, "pauli", lambda p: 0 < len(p.terms) <= 4 and all(complex(t.coefficient).imag == 0 for t in p.terms))
    return lambda p, t, n: time_evolution(p, t, n_steps=n), [e, rng.choice([0.3, 1.7, S("t"), S("a") * 2]), rng.choice([1, 2])]


@op("pauli")
def p_derivatives(w, rng):
    from orquestra.quantum.evolution import time_evolution_derivatives

    e = w.pick(rng, "pauli", lambda p: 0 < len(p.terms) <= 3 and all(complex(t.coefficient).imag == 0 for t in p.terms))
    return lambda p, t, n: time_evolution_derivatives(p, t, n_steps=n), [e, rng.choice([0.3, 1.7]), rng.choice([1, 2])]


def _evs(n, rng):
    from orquestra.quantum.measurements import ExpectationValues

    return ExpectationValues(np.array([round(rng.uniform(-1, 1), 3) for _ in range(n)]))


@op("pauli")
def p_evaluate(w, rng):
    from orquestra.quantum.operators._utils import evaluate_operator, evaluate_operator_list

    if rng.random() < 0.5:
        e = w.pick(rng, "pauli")
        return evaluate_operator, [e, _evs(len(e.obj.terms), rng)]
    es = w.some(rng, "pauli")
    return evaluate_operator_list, [es, _evs(sum(len(e.obj.terms) for e in es), rng)]


@op("pauli")
def p_matrix_op(w, rng):
    from orquestra.quantum.operators._utils import get_pauliop_from_matrix

    n = rng.choice([2, 4])
    m = [[complex(rng.randrange(-3, 4), rng.randrange(-2, 3)) for _ in range(n)] for _ in range(n)]
    return get_pauliop_from_matrix, [m]


# -- measurements

@op("meas", 3)
def m_counts(w, rng):
    return lambda m: m.get_counts(), [w.pick(rng, "meas")]


@op("meas", 3)
def m_distribution(w, rng):
    return lambda m: m.get_distribution(), [w.pick(rng, "meas")]


def _ising(w, rng, n):
    from orquestra.quantum.operators import PauliSum, PauliTerm

    try:
        if rng.random() < 0.5:
            return w.pick(rng, "pauli", lambda p: p.is_ising and 0 < len(p.terms) and p.n_qubits <= n)
    except Skip:
        pass
    return PauliSum([PauliTerm({q: "Z" for q in rng.sample(range(n), rng.randrange(0, n + 1))}, round(rng.uniform(-2, 2), 2))
                     for _ in range(rng.choice([1, 2, 3]))])


@op("meas", 3)
def m_expectations(w, rng):
    e = w.pick(rng, "meas", lambda m: m.bitstrings)
    return lambda m, o, b: m.get_expectation_values(o, b), [e, _ising(w, rng, len(e.obj.bitstrings[0])), rng.random() < 0.4]


@op("meas", 2)
def m_parities(w, rng):
    from orquestra.quantum.measurements import get_parities_from_measurements

    e = w.pick(rng, "meas", lambda m: m.bitstrings)
    return lambda m, o: get_parities_from_measurements(m.bitstrings, o), [e, _ising(w, rng, len(e.obj.bitstrings[0]))]


@op("meas")
def m_frequencies(w, rng):
    from orquestra.quantum.measurements import get_expectation_value_from_frequencies

    e = w.pick(rng, "meas", lambda m: m.bitstrings)
    n = len(e.obj.bitstrings[0])
    return get_expectation_value_from_frequencies, [rng.sample(range(n), rng.randrange(n + 1)), e.obj.get_counts()]


@op("meas")
def m_check_parity(w, rng):
    from orquestra.quantum.measurements import check_parity, check_parity_of_vector

    n = rng.choice([1, 2, 3])
    qs = rng.sample(range(n), rng.randrange(n + 1))
    if rng.random() < 0.5:
        return check_parity, [tuple(rng.randrange(2) for _ in range(n)), qs]
    return check_parity_of_vector, [np.array([[rng.randrange(2) for _ in range(n)] for _ in range(4)]), qs]


@op("meas")
def m_from_counts(w, rng):
    from orquestra.quantum.measurements import Measurements

    n = rng.choice([1, 2, 3])
    d = {"".join(map(str, k)): rng.choice([0, 1, 3]) for k in rng.sample(objs.product_states(n), rng.choice([1, 2]))}
    return Measurements.from_counts, [d]


@op("meas", 2, save=True)
def m_save(w, rng):
    return lambda m, f: m.save(f), [w.pick(rng, "meas")]


@op("meas", 2, entropic=True)
@op("dist", 2, entropic=True)
def m_represent(w, rng):
    from orquestra.quantum.measurements import Measurements

    d = w.pick(rng, "dist", lambda d: all(x in (0, 1) for k in d.distribution_dict for x in k))
    return Measurements.get_measurements_representing_distribution, [d, rng.choice([1, 2, 3, 5, 7, 10, 33])]


@op("meas")
def v_from_parities(w, rng):
    from orquestra.quantum.measurements import get_expectation_values_from_parities

    return get_expectation_values_from_parities, [w.pick(rng, "par")]


@op("meas")
def v_report(w, rng):
    return lambda v: v.to_dict(), [w.pick(rng, rng.choice(["ev", "par"]))]


@op("meas")
def v_from_dict(w, rng):
    e = w.pick(rng, rng.choice(["ev", "par"]))
    return type(e.obj).from_dict, [e.obj.to_dict()]


@op("meas", 3)
def v_concatenate(w, rng):
    from orquestra.quantum.measurements import concatenate_expectation_values

    return concatenate_expectation_values, [w.some(rng, "ev")]


@op("meas", save=True)
def v_save(w, rng):
    from orquestra.quantum.measurements import save_expectation_values, save_parities

    if rng.random() < 0.5:
        return save_expectation_values, [w.pick(rng, "ev")]
    return save_parities, [w.pick(rng, "par")]


# -- distributions

@op("dist", 5)
def s_marginal(w, rng):
    e = w.pick(rng, "dist")
    n = e.obj.get_number_of_subsystems()
    return lambda d, q: d.subdistribution(q), [e, rng.sample(range(n), rng.randrange(1, n + 1))]


def _mates(w, rng):
    a = w.pick(rng, "dist")
    n = a.obj.get_number_of_subsystems()
    norm = lambda d: abs(sum(d.distribution_dict.values()) - 1) < 1e-6  # noqa: E731
    return a, w.pick(rng, "dist", lambda d: d.get_number_of_subsystems() == n and norm(d) == norm(a.obj))


@op("dist", 4)
def s_distance(w, rng):
    from orquestra.quantum import distributions as m

    a, b = _mates(w, rng)
    k = rng.randrange(3)
    if k == 0:
        fn, params = m.compute_mmd, rng.choice([{}, {"sigma": 0.7}, {"sigma": [0.5, 2.0]}, {"sigma": np.array([1.0, 4.0])}])
    else:
        fn = m.compute_clipped_negative_log_likelihood if k == 1 else m.compute_jensen_shannon_divergence
        params = rng.choice([{}, {"epsilon": 1e-6}, {"epsilon": 0.1}])
    if rng.random() < 0.4:
        return lambda a, b, p: m.evaluate_distribution_distance(a, b, fn, distance_measure_parameters=p), [a, b, dict(params)]
    return fn, [a, b, dict(params)]


@op("dist", 2)
def s_make(w, rng):
    from orquestra.quantum.distributions import MeasurementOutcomeDistribution as D

    r = rng.random()
    if r < 0.3:
        e = w.pick(rng, "dist")
        return lambda d, k: D(d.distribution_dict, k), [e, rng.random() < 0.5]
    n = rng.choice([1, 2])
    ks = rng.sample(objs.product_states(n), rng.choice([1, 2]))
    form = rng.choice([tuple, lambda k: "".join(map(str, k))])
    return D, [{form(k): rng.choice([0.5, 2, rng.random() + 0.01]) for k in ks}, rng.random() < 0.8]


@op("dist")
def s_from_probabilities(w, rng):
    from orquestra.quantum.distributions import create_bitstring_distribution_from_probability_distribution as f

    v = np.array([rng.random() for _ in range(2 ** rng.choice([1, 2]))])
    return f, [v / v.sum() if rng.random() < 0.5 else v]


@op("dist", 2)
def s_report(w, rng):
    return lambda d: (repr(d), d.get_number_of_subsystems(), dict(d.distribution_dict)), [w.pick(rng, "dist")]


@op("dist")
def s_predicates(w, rng):
    from orquestra.quantum import distributions as m

    return lambda d: (m.is_normalized(d), m.is_measurement_outcome_distribution(d), m.preprocess_distibution_dict(d),
                      m.change_tuple_dict_keys_to_comma_separated_integers(d)), [dict(w.pick(rng, "dist").obj.distribution_dict)]


@op("dist", 3, save=True)
def s_save(w, rng):
    from orquestra.quantum.distributions import save_measurement_outcome_distribution, save_measurement_outcome_distributions

    if rng.random() < 0.5:
        return save_measurement_outcome_distribution, [w.pick(rng, "dist")]
    return save_measurement_outcome_distributions, [w.some(rng, "dist")]


# -- wavefunctions

@op("wf", 3)
def w_probabilities(w, rng):
    return lambda v: v.get_probabilities(), [w.pick(rng, "wf", lambda v: not v.free_symbols)]


@op("wf", 3)
def w_outcomes(w, rng):
    return lambda v: v.get_outcome_probs(), [w.pick(rng, "wf", lambda v: not v.free_symbols)]


@op("wf", 2)
def w_report(w, rng):
    return lambda v: (v.amplitudes, v.n_qubits, v.free_symbols, len(v), str(v), list(v), v[0]), [w.pick(rng, "wf")]


@op("wf")
def w_eq(w, rng):
    return lambda a, b: (a == b, a != b), [w.pick(rng, "wf"), w.pick(rng, "wf")]


@op("wf", 2)
def w_bind(w, rng):
    m = {S(s): round(rng.uniform(-0.5, 0.5), 3) for s in rng.sample(["a", "b", "c"], rng.choice([0, 1, 2]))}
    return lambda v, m: v.bind(m), [w.pick(rng, "wf"), m]


@op("wf", 2)
def w_flip(w, rng):
    from orquestra.quantum.wavefunction import flip_amplitudes, flip_wavefunction

    if rng.random() < 0.5:
        return flip_wavefunction, [w.pick(rng, "wf", lambda v: not v.free_symbols)]
    v = _state(rng, rng.choice([1, 2, 3]))
    return flip_amplitudes, [v if rng.random() < 0.5 else v.tolist()]


@op("wf", 2)
def w_sample(w, rng):
    from orquestra.quantum.wavefunction import sample_from_wavefunction

    return sample_from_wavefunction, [w.pick(rng, "wf", lambda v: not v.free_symbols), rng.choice([1, 3, 40]), rng.choice([1, 2])]


@op("wf", 2, save=True)
def w_save(w, rng):
    from orquestra.quantum.wavefunction import save_wavefunction

    return save_wavefunction, [w.pick(rng, "wf", lambda v: not v.free_symbols)]


@op("wf", 2)
def w_make(w, rng):
    from orquestra.quantum.wavefunction import Wavefunction

    v = _state(rng, rng.choice([1, 2, 3]))
    r = rng.random()
    return Wavefunction, [v if r < 0.5 else v.tolist() if r < 0.75 else sympy.Matrix([sympy.Float(0.6), S("a")])]


# operations that hand out the object's own containers by design
LIVE_VIEWS = {"w_report"}


# ---------------------------------------------------------------- one call

def _resolve(x, live):
    """Replace pool entries inside an argument by live objects or by pristine copies."""
    if isinstance(x, Entry):
        return x.obj if live else copy.deepcopy(x.clone)
    if type(x) in (list, tuple) and any(isinstance(y, (Entry, list, tuple)) for y in x):
        return type(x)(_resolve(y, live) for y in x)
    return x


def _entries(x):
    if isinstance(x, Entry):
        return [x]
    if type(x) in (list, tuple):
        return [e for y in x for e in _entries(y)]
    return []


def _result(out):
    return snap(out.value) if out.ok else ("raised", type(out.exc).__name__)


def _call(w, name, fn, args, entropic, again=None):
    ctx = w.ctx
    live = [_resolve(a, True) for a in args]
    with ctx.oracle("reading arguments"):
        before = snap(live)
    try:
        out = ctx.call(fn, *live)
    except (SimInterrupt, MemoryError):
        if w.callers is None or not w.callers.local.fired:
            raise
        ctx.probe("interrupted")
        ctx.log("call", name, "interrupted")
        with ctx.oracle("reading arguments"):
            now = snap(live)
        ctx.check(now == before, "argument-changed", lambda: f"interrupted {name}: arguments changed from {before} to {now}"[:3000])
        w.intact(f"an interrupted {name}")
        return None
    ctx.log("call", name, out.kind)
    with ctx.oracle("reading arguments"):
        now = snap(live)
    ctx.check(now == before, "argument-changed", lambda: f"{name}: arguments changed from {before} to {now}"[:3000])
    w.intact(name)
    with ctx.oracle(f"reading the result of {name}"):
        res = _result(out)
    if again is not None and not entropic:
        ctx.check(same(again, res), "repeat-differs", lambda: f"{name} called again on the same arguments gave {res} instead of {again}"[:3000])
        ctx.probe("repeated")
    return out, res


def _step(w, op):
    ctx = w.ctx
    rng = random.Random(op["s"])
    if "again" in op and w.records:
        name, fn, args, res, entropic, versions = w.records[op["again"] % len(w.records)]
        if [e.version for e in _entries(args)] == versions:
            _call(w, name, fn, args, entropic, res)
        return
    if op.get("edit"):
        return _edit(w, op, rng)
    kinds = sorted({e.kind if e.kind in MAIN else {"op": "circ", "def": "gate", "ev": "meas", "par": "meas"}[e.kind] for e in w.pool})
    if not kinds:
        return
    kind = kinds[int(op["r"] * len(kinds)) % len(kinds)]
    for _ in range(4):
        maker, entropic, save = rng.choice(OPS[kind])
        try:
            with ctx.oracle("preparing arguments"):
                fn, args = maker(w, rng)
            break
        except Skip:
            continue
    else:
        return
    name = maker.__name__
    if save:
        return _save(w, op, name, fn, args, rng)
    got = _call(w, name, fn, args, entropic)
    if got is None:
        return
    out, res = got
    if out.ok:
        ctx.probe(name)
        w.values += 1
        w.kinds.add(kind)
        if w.values >= 3 and len(w.kinds) >= 2:
            ctx.nontrivial = True
    else:
        ctx.probe("refused")
    if not entropic:
        if op["fresh"]:
            twin = ctx.call(fn, *copy.deepcopy([_resolve(a, False) for a in args])) if w.callers is None else _plain(w, fn, args)
            with ctx.oracle(f"reading the result of {name}"):
                fresh = _result(twin)
            ctx.check(same(res, fresh), "history-matters",
                      lambda: f"{name} gave {res} on objects with a history, {fresh} on equal pristine ones"[:3000])
            ctx.probe("pristine-agrees")
        if len(w.records) < 40:
            w.records.append((name, fn, args, res, entropic, [e.version for e in _entries(args)]))
    if out.ok and op.get("spoil") and not entropic and name not in LIVE_VIEWS and _spoilable(out.value):
        # what was returned belongs to the caller: writing into it changes no object and no later answer
        with ctx.oracle("writing into a result"):
            _spoil(out.value, rng)
        w.intact(f"writing into the result of {name}")
        _call(w, name, fn, args, entropic, res)
        ctx.probe("spoiled-result")
        return
    if out.ok and op["keep"]:
        values = out.value if isinstance(out.value, (list, tuple)) else [out.value]
        for v in list(values)[:3]:
            k = kind_of(v)
            if k and _small(k, v):
                w.add(k, v)
                ctx.probe("kept-result")


def _plain(w, fn, args):
    """The same call on pristine copies, without pre-emption or interrupts."""
    return w.callers.call(fn, *copy.deepcopy([_resolve(a, False) for a in args]))


def _save(w, op, name, fn, args, rng):
    ctx = w.ctx
    live = [_resolve(a, True) for a in args]
    before = snap(live)
    try:
        how = w.st.save(f"{op['t']}.{rng.randrange(3)}", store.gen_how_save(rng, False), lambda target: fn(*live, target), 0, op.get("fault"))
    except (SimInterrupt, MemoryError):
        if w.callers is None or not w.callers.local.fired:
            raise
        ctx.probe("interrupted")
        how = "interrupted"
    ctx.probe(name)
    ctx.probe("save-" + how)
    with ctx.oracle("reading arguments"):
        now = snap(live)
    ctx.check(now == before, "argument-changed", lambda: f"{name} ({how}): arguments changed from {before} to {now}"[:3000])
    w.intact(name)


def _edit(w, op, rng):
    """Things a user may do that legitimately change one object: nothing else may change."""
    ctx = w.ctx
    try:
        if op["edit"] == "add_counts":
            e = w.pick(rng, "meas", lambda m: m.bitstrings)
            n = len(e.obj.bitstrings[0])
            d = {"".join(str(rng.randrange(2)) for _ in range(n)): rng.choice([0, 1, 2])}
            before = snap(d)
            call = lambda: e.obj.add_counts(d)  # noqa: E731
        elif op["edit"] == "amplitude":
            e = w.pick(rng, "wf", lambda v: not v.free_symbols)
            i = rng.randrange(len(e.obj))
            if any(o is not e and o.obj is e.obj for o in w.pool):
                raise Skip  # binding nothing returns the same object
            value, before, d = e.obj[i] * 1j, None, None
            call = lambda: operator.setitem(e.obj, i, value)  # noqa: E731
        elif op["edit"] == "source":
            return _spoil_source(w, rng)
        else:
            return _scribble(w, rng)
    except Skip:
        return
    try:
        out = ctx.call(call)
        ctx.log("edit", op["edit"], out.kind)
    except (SimInterrupt, MemoryError):
        if w.callers is None or not w.callers.local.fired:
            raise
    e.snap = snap(e.obj)
    e.clone = copy.deepcopy(e.obj)
    e.version += 1
    ctx.check(d is None or snap(d) == before, "argument-changed", lambda: f"{op['edit']}: counts became {d}")
    w.intact(op["edit"])
    ctx.probe("edit-" + op["edit"])


def _scribble(w, rng):
    """A returned report belongs to the caller: writing into it changes no object."""
    from orquestra.quantum.circuits import to_dict
    from orquestra.quantum.operators import convert_op_to_dict

    ctx = w.ctx
    kind, fn = rng.choice([("meas", lambda m: m.get_counts()), ("wf", lambda v: v.get_probabilities()), ("wf", lambda v: v.get_outcome_probs()),
                           ("pauli", convert_op_to_dict), ("circ", to_dict), ("circ", lambda c: c.free_symbols), ("circ", lambda c: c.to_unitary()),
                           ("gate", lambda g: g.matrix), ("ev", lambda v: v.to_dict()), ("pauli", lambda p: p.qubits)])
    ok = {"wf": lambda v: not v.free_symbols, "circ": lambda c: _gates_only(c) and _settled(c) and _cheap_circ(c), "gate": _cheap_gate}
    e = w.pick(rng, kind, ok.get(kind))
    try:
        out = ctx.call(fn, e.obj)
    except (SimInterrupt, MemoryError):
        if w.callers is None or not w.callers.local.fired:
            raise
        return
    if not out.ok:
        return
    res = snap(out.value)
    _spoil(out.value, rng)
    w.intact("writing into a returned report")
    twin = w.ctx.call(fn, e.obj) if w.callers is None else w.callers.call(fn, e.obj)
    with ctx.oracle("reading a report"):
        now = _result(twin)
    ctx.check(same(now, res), "repeat-differs",
              lambda: f"a report on {e.snap} was {res}; after the caller wrote into that report, it is {now}"[:3000])
    ctx.probe("edit-report")


def _spoil_source(w, rng):
    """Containers handed to a constructor stay the caller's: neither edited by the call nor read again later."""
    from orquestra.quantum.circuits import Circuit, circuit_from_dict, to_dict
    from orquestra.quantum.distributions import MeasurementOutcomeDistribution, create_bitstring_distribution_from_probability_distribution
    from orquestra.quantum.measurements import ExpectationValues, Measurements
    from orquestra.quantum.operators import PauliTerm, convert_dict_to_op, convert_op_to_dict

    ctx = w.ctx
    with ctx.oracle("preparing containers"):
        what = rng.choice(["circ", "dist", "dist", "array", "term", "iterable", "counts", "op-dict", "circ-dict", "ev-dict"])
        if what == "circ":
            fn, src = Circuit, w.some(rng, "op")
            if not src:
                return
        elif what == "dist":
            n = rng.choice([1, 2, 3])
            keys = rng.sample(list(objs.product_states(n)), rng.randrange(1, 2**n + 1))
            src = {tuple(k): rng.choice([0.25, 0.5, 1.0, 3.0]) for k in keys}
            if rng.random() < 0.5:
                total = sum(src.values())
                src = {k: v / total for k, v in src.items()}
            normalize = rng.random() < 0.7
            fn = lambda d: MeasurementOutcomeDistribution(d, normalize)  # noqa: E731
        elif what == "array":
            src = np.full(2 ** rng.choice([1, 2, 3]), 1.0)
            src /= len(src)
            fn = create_bitstring_distribution_from_probability_distribution
        elif what == "term":
            fn, src = PauliTerm, {q: rng.choice("XYZI") for q in rng.sample(range(4), rng.choice([1, 2, 3]))}
        elif what == "iterable":
            fn, src = PauliTerm.from_iterable, [(rng.choice("XYZI"), q) for q in rng.sample(range(4), rng.choice([1, 2, 3]))]
        elif what == "counts":
            n = rng.choice([1, 2])
            fn, src = Measurements.from_counts, {"".join(str(rng.randrange(2)) for _ in range(n)): rng.choice([1, 2, 3]) for _ in range(3)}
        elif what == "op-dict":
            fn, src = convert_dict_to_op, convert_op_to_dict(w.pick(rng, "pauli").obj)
        elif what == "circ-dict":
            fn, src = circuit_from_dict, to_dict(w.pick(rng, "circ", _gates_only).obj)
        else:
            fn, src = ExpectationValues.from_dict, w.pick(rng, "ev").obj.to_dict()
        kept = [_resolve(x, True) for x in src] if what == "circ" else src
        before = snap(kept)
    try:
        out = ctx.call(fn, kept)
    except (SimInterrupt, MemoryError):
        if w.callers is None or not w.callers.local.fired:
            raise
        out = None
    ctx.check(snap(kept) == before, "argument-changed", lambda: f"constructing ({what}): its argument changed from {before} to {snap(kept)}"[:3000])
    w.intact(f"constructing from a container ({what})")
    if out is None or not out.ok:
        return
    seen = snap(out.value)
    _spoil(kept, rng)
    ctx.check(snap(out.value) == seen, "aliased-source",
              lambda: f"{what}: {seen} became {snap(out.value)} when the caller edited the container it was made from"[:3000])
    w.intact("editing a container an object was made from")
    ctx.probe("edit-source")
    k = kind_of(out.value)
    if k and _small(k, out.value):
        w.add(k, out.value)


def _spoil(x, rng):
    """Write into a container: overwrite everything, or quietly move things around."""
    if isinstance(x, tuple):
        for y in x:
            _spoil(y, rng)
    elif isinstance(x, dict):
        keys = list(x)
        for k in keys:
            _spoil(x[k], rng)
        if len(keys) > 1 and rng.random() < 0.4:  # sums, sizes and keys stay
            vals = [x[k] for k in keys]
            if len({str(v) for v in vals}) > 1:
                for k, v in zip(keys, vals[1:] + vals[:1]):
                    x[k] = v
            elif all(type(v) in (int, float) for v in vals):
                x[keys[0]] += 1
                x[keys[1]] -= 1
            return
        if keys and rng.random() < 0.2:
            x.pop(rng.choice(keys))
            return
        for k in keys:
            if isinstance(x[k], (int, float, str)):
                x[k] = 77
        x["spoiled"] = 1
    elif isinstance(x, list):
        for y in x:
            _spoil(y, rng)
        r = rng.random()
        if len(x) > 1 and r < 0.3:
            x.reverse()
        elif x and r < 0.5:
            x.pop()
        else:
            x.append(77)
    elif isinstance(x, set):
        x.add(77)
    elif isinstance(x, np.ndarray) and x.size and x.flags.writeable:
        if x.size > 1 and rng.random() < 0.5:
            x.flat[0], x.flat[-1] = x.flat[-1], x.flat[0]
        else:
            x.flat[0] = 77
    elif isinstance(x, sympy.MatrixBase) and hasattr(x, "row_swap") and x.shape[0] > 1:
        x[0, 0] = 77


def _spoilable(x):
    if isinstance(x, tuple):
        return any(_spoilable(y) for y in x)
    return isinstance(x, (dict, list, set, np.ndarray)) or (isinstance(x, sympy.MatrixBase) and hasattr(x, "row_swap"))


PROBES = sorted({f.__name__ for fs in OPS.values() for f, _, _ in fs}) + [
    "repeated", "pristine-agrees", "kept-result", "interrupted", "overlap", "refused", "save-ok", "save-failed", "edit-add_counts",
    "edit-amplitude", "edit-report", "spoiled-result", "edit-source"]


def execute(scn, ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    callers = Callers(ctx, scn["plan"]) if scn.get("plan") else None
    disk = disk_mod.Disk(ctx, callers)
    ctx.mark("pool", scn["pool"])
    with disk.mounted(), entropy.controlled(scn["entropy"]):
        w = World(scn, ctx, store.Store(ctx, disk), callers)
        built = {}
        with ctx.oracle("building the pool"):
            for d in scn["defs"]:
                built[d["name"]] = objs.build_def(d)
            for item in scn["pool"]:
                kind, obj = build(item, scn["defs"], built, w.pool) if item["k"] != "def" or built else (None, None)
                if kind:
                    w.add(kind, obj)

        if callers is None:
            for op in scn["ops"]:
                _step(w, op)
        else:
            def program(t):
                def body(cs):
                    for op in scn["ops"]:
                        if op["t"] == t:
                            _step(w, op)
                            cs.point("between")
                return body

            callers.run([program(t) for t in range(scn["callers"])])
            ctx.schedule = callers.recorded
            if callers.recorded:
                ctx.probe("overlap")
                ctx.mark("interleaving", callers.recorded)
        w.intact("the whole history")


# ---------------------------------------------------------------- minimisation


def simplify(scn):
    for i, op in enumerate(scn["ops"]):
        for key, plain in (("fault", None), ("fresh", False), ("keep", False), ("spoil", False)):
            if op.get(key):
                c = copy.deepcopy(scn)
                c["ops"][i][key] = plain
                if plain is None:
                    c["ops"][i].pop(key)
                yield c
    for i, item in enumerate(scn["pool"]):
        if item["k"] == "circ":
            for j in range(len(item["c"]["ops"])):
                c = copy.deepcopy(scn)
                c["pool"][i]["c"]["ops"].pop(j)
                yield c
        if item["k"] == "pauli" and "terms" in item["d"]:
            for j in range(len(item["d"]["terms"])):
                c = copy.deepcopy(scn)
                c["pool"][i]["d"]["terms"].pop(j)
                yield c
        if item["k"] == "meas" and len(item["shots"]) > 1:
            c = copy.deepcopy(scn)
            c["pool"][i]["shots"].pop()
            yield c
    if scn.get("plan") and not scn["plan"].get("interrupts") and not scn["plan"].get("switches") and scn["callers"] == 1:
        c = copy.deepcopy(scn)
        c.pop("plan")
        yield c
    if scn["callers"] == 1 and scn["defs"] and not any("custom" in str(p) or p["k"] == "def" for p in scn["pool"]):
        c = copy.deepcopy(scn)
        c["defs"] = []
        yield c

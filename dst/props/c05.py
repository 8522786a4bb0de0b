"""C05: circuits survive JSON serialisation unchanged in structure and meaning.

Simulated clients keep a library of circuits in files on a simulated disk: they
save, load, save again what they loaded, pass circuits through JSON text, write
whole circuit sets, overlap with each other at every disk request, meet short
reads and writes, full disks and I/O errors, and die in the middle of a save.
Everything loaded is compared with the circuit that was stored: structure,
wrappers, parameters, custom definitions, free symbols, equality and matrices.
"""
import copy
import io
import json
import math
import random
import warnings

import numpy as np
import sympy

from .. import disk as disk_mod
from .. import objs, store
from ..core import SimCrash
from ..sched import Callers

RUNS = {"quick": 2600, "thorough": 60000}
RULE = (
    "one run = one seeded history of save, load, re-save, JSON-text and circuit-set operations by 1..3 clients on a "
    "simulated disk; non-trivial = a circuit holding a custom gate, a wrapper or a symbolic parameter came back"
)
REAL = ["circuits._serde", "circuits._circuit", "circuits._gates", "circuits._builtin_gates", "utils.ensure_open", "json",
        "sympy parser and printer"]
STUB = ["raw disk under Python's own buffering and text layers"]
ASSUMPTIONS = [
    "registers up to 9 qubits (plus idle ones), up to 12 operations per circuit, wrapper nesting up to 4",
    "real numeric parameters (Python int/float, sympy numbers) and expressions over +,-,*,/,** and elementary functions",
    "one fixed family of symbols with sympy assumptions (whose loss is a known finding)",
    "the symbols of a custom gate's matrix are its declared parameters",
]
PROBES = ["roundtrip-equal", "custom", "custom-wrapped", "custom-name-shared", "indexed", "indexed-mixed", "shadowing",
          "constant-shadowed", "float-coefficient", "deep-wrapper", "empty", "idle", "set", "text", "second-generation",
          "overlap", "crash-during-save", "torn-file-refused", "param-custom", "assumed-symbol", "large-index", "numpy-numbers", "name-clash", "non-gate-name", "stringio"]
LIST_FIELDS = ["ops", "plan.switches"]

PLAIN = ["theta", "x", "y", "alpha_1", "phi", "a", "b"]
INDEXED = ["x[3]", "x[0]", "x[10]", "theta[1]", "y[2]", "a[12]"]
SHADOW = ["lamda", "gamma", "beta", "zeta", "E", "I", "S", "N", "O", "Q", "C", "pi", "sin", "cos", "exp", "sqrt", "Integer",
          "Float", "Symbol", "Rational", "Function", "Max", "Add", "re", "im", "Abs", "oo", "zoo", "nan", "inf", "e", "j", "J",
          "e1", "E1", "x1", "_x", "_", "__x", "print", "self", "symbol", "_symbol_0", "_symbol_1", "test", "Dummy",
          "locals", "θ", "φ_2", "ﬁ", "Mod", "lambda_", "true", "false", "none", "evalf", "T", "H", "RX", "eval"]
NAMES = ["G", "G", "my_gate", "U", "cnot", "x", "Callable", "Union", "_gates", "_matrices", "RXX", "rx", "control", "dagger",
         "exp", "gate one", "H2", "Gate", "GateRef", "make_parametric_gate_prototype", "builtin_gate_by_name", "ü", "U3_",
         "GatePrototype", "__name__", "_factory", "gate", "name", "Power", "c-X"]
FUNS = objs.ALL_FUNS + objs.ALL_FUNS + ("abs", "abs", "atan", "tanh", "cosh", "sign")
NON_GATES = {"Callable", "Union", "_gates", "_matrices", "GateRef", "make_parametric_gate_prototype",
             "builtin_gate_by_name", "GatePrototype", "__name__"}


# ---------------------------------------------------------------- generation


def _gen_symbols(rng):
    k = rng.choice([1, 2, 3, 4])
    pool = rng.choice([PLAIN, PLAIN, PLAIN + INDEXED, ["x"] + INDEXED, SHADOW, SHADOW, PLAIN + SHADOW + INDEXED])
    return rng.sample(pool, min(k, len(pool)))


def _gen_float(rng):
    r = rng.random()
    if r < 0.6:
        return objs.gen_float(rng)
    if r < 0.8:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-18, 18)
    return rng.choice([1e-300, -1e300, 5e-324, 1e16, 1e22, 123456789012345680.0, 0.1 + 0.2, -0.0, 1 / 3, 2.0**-1074, 1e15,
                       1e-5, 12345678.9, math.nextafter(1.0, 2)])


def _gen_param(rng, symbols, numeric=False):
    r = rng.random()
    if numeric or not symbols or r < 0.3:
        r = rng.random()
        if r < 0.5:
            return _gen_float(rng)
        if r < 0.55:  # numpy's numbers
            t = rng.choice(["f64", "f64", "f32", "i64", "u8"])
            return [t, rng.choice([1.0, -0.3, 1e-7, rng.uniform(-7, 7)]) if t[0] == "f" else rng.choice([0, 1, 2, 5])]
        if r < 0.7:
            return rng.choice([0, 1, -3, 2, 7, 10**20, rng.choice([-1, 1]) * rng.getrandbits(rng.choice([8, 31, 53, 60, 64, 90, 200]))])
        if r < 0.8:
            return ["rat", rng.randrange(-9, 10), rng.randrange(1, 9)]
        if r < 0.9:
            return ["mul", ["rat", rng.randrange(-9, 10), rng.randrange(1, 9)], ["pi"]]
        return ["float", rng.uniform(-5, 5)]
    if r < 0.6:
        return ["sym", rng.choice(symbols)]
    if r < 0.75:  # a linear expression with a floating-point coefficient
        e = ["mul", ["float", rng.choice([rng.uniform(-5, 5), rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 2)])],
             ["sym", rng.choice(symbols)]]
        return ["add", e, ["float", rng.uniform(-5, 5)]] if rng.random() < 0.5 else e
    return objs.gen_expr(rng, symbols, rng.choice([1, 2, 3]), FUNS)


def _gen_assumed(rng):
    e = ["symp", rng.choice(PLAIN)]
    return rng.choice([e, ["mul", ["int", 2], e], ["add", e, ["int", 1]]])


def _gen_gate(rng, defs, symbols, max_qubits):
    numeric = rng.random() < 0.4
    g, n = objs.gen_base_gate(rng, defs, lambda: _gen_param(rng, symbols, numeric), max_qubits)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4])):
        w = rng.choice(["dagger", "dagger", "ctrl", "ctrl", "pow", "exp", "rdagger", "rctrl", "rpow"])
        if w in ("dagger", "rdagger"):
            g = {w: g}
        elif w in ("ctrl", "rctrl") and n < max_qubits:
            k = rng.randrange(1, max_qubits - n + 1)
            g, n = {w: [g, k]}, n + k
        elif w in ("pow", "rpow") and not _symbols(g):
            g = {w: [g, rng.choice([2, 3, -1, 1, 0, -2, 0.5, 0.25, -0.5, 1 / 3, 1.0, 10, 1e-7, 1e20, rng.uniform(-2, 2)])]}
        elif w == "exp" and not _symbols(g):
            g = {"exp": g}
    return g, n


WRAPPERS = ("dagger", "rdagger", "exp", "ctrl", "rctrl", "pow", "rpow")


def _inner(g):
    for k in WRAPPERS:
        if k in g:
            return _inner(g[k][0] if isinstance(g[k], list) else g[k])
    return g


def _depth(g):
    for k in WRAPPERS:
        if k in g:
            return 1 + _depth(g[k][0] if isinstance(g[k], list) else g[k])
    return 0


def _symbols(g):
    out = set()
    for p in _inner(g)["p"]:
        out |= objs.expr_symbols(p)
    return out


def _gen_circuit(rng):
    n = rng.choice([1, 1, 2, 3, 4, 6, 9, rng.choice([9, 11, 12, 40, 130])])
    symbols = _gen_symbols(rng)
    defs = []
    names = set()
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        name = rng.choice(NAMES)
        if name in names:
            continue
        names.add(name)
        dsyms = symbols if rng.random() < 0.5 else _gen_symbols(rng)
        d = objs.gen_custom_def(rng, name, dsyms, min(n, 2))
        if "nmatrix" in d and rng.random() < 0.5:
            d["flt"] = True
        if not d["params"] and "matrix" in d and rng.random() < 0.3 and symbols:
            d["params"] = [symbols[0]]  # declared and not used
        defs.append(d)
    if len(defs) > 1 and rng.random() < 0.15:
        defs[1]["alias"] = defs[0]["name"]  # different definitions under one name: refused, never mixed up
    ops = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8, 12]) if rng.random() < 0.97 else rng.choice([20, 35])):
        g, k = _gen_gate(rng, defs, symbols, min(n, rng.choice([1, 2, 3, 4, 8])))
        ops.append({"gate": g, "q": rng.sample(range(n), k)})
        if rng.random() < 0.06:
            ops[-1]["np"] = True  # numpy integers as qubit indices
        if rng.random() < 0.03:
            ops[-1]["q"] = [q + rng.choice([10, 100, 10**6, 2**40]) for q in ops[-1]["q"]]
    return {"defs": defs, "c": {"n": n + rng.choice([0, 0, 1, 5]) if rng.random() < 0.5 else None, "ops": ops}}


CONSTANTS = {"pi": ["pi"], "E": ["E"]}


def _has(g, wrappers):
    for k in WRAPPERS:
        if k in g:
            return k in wrappers or _has(g[k][0] if isinstance(g[k], list) else g[k], wrappers)
    return False


def _gen_named(rng):
    e = rng.choice([["pi"], ["E"], ["sym", "pi"], ["sym", "E"]])
    return rng.choice([e, ["mul", ["int", 2], e], ["div", e, ["int", 2]], ["add", e, ["sym", "x"]]])


def _twin(c, rng):
    """The same circuit with constants and symbols of the same spelling exchanged:
    one text, two meanings."""
    names = set(rng.sample(["pi", "E"], rng.choice([1, 2])))
    c = json.loads(json.dumps(c))

    def walk(e):
        if not isinstance(e, list) or not e or not isinstance(e[0], str):
            return e
        if len(e) == 1 and e[0] in names:
            return ["sym", e[0]]
        if e[0] == "sym" and e[1] in names:
            return list(CONSTANTS[e[1]])
        if e[0] in ("sym", "symp", "int", "float", "rat"):
            return e
        return [e[0]] + [walk(x) for x in e[1:]]

    for o in c["c"]["ops"]:
        g = _inner(o["gate"])
        if g["p"] and not _has(o["gate"], ("pow", "rpow", "exp")):
            g["p"] = [walk(p) for p in g["p"]]
    return c


def _gen_fault(rng, callers):
    f = disk_mod.gen_write_fault(rng, 1500)
    if callers > 1 and f["kind"] == "crash":
        f["kind"] = "enospc"
    return f


def generate(rng, tier, index):
    callers = rng.choice([1, 1, 1, 2, 3])
    k = rng.choice([1, 2, 3])
    circuits = [_gen_circuit(rng) for _ in range(k)]
    if k > 1 and rng.random() < 0.2:
        if rng.random() < 0.5:  # make sure there is something to exchange
            circuits[0]["c"]["ops"].append({"gate": {"g": "RX", "p": [_gen_named(rng)]}, "q": [0]})
        circuits[1] = _twin(circuits[0], rng)
    elif k > 1 and rng.random() < 0.2:
        circuits[1] = objs.nudge(rng, circuits[0])
    for c in circuits:  # one operation several times, a hair apart
        if c["c"]["ops"] and rng.random() < 0.1:
            c["c"]["ops"].insert(rng.randrange(len(c["c"]["ops"]) + 1), objs.nudge(rng, rng.choice(c["c"]["ops"]), 1.0))
    p_fault = rng.choice([0.0, 0.0, 0.25, 0.5])
    ops = []
    for _ in range(rng.choice([2, 4, 6, 9])):
        kind = rng.choice(["save", "save", "load", "load", "text", "saveset", "loadset", "resave", "textset"])
        op = {"op": kind, "t": rng.randrange(callers), "file": rng.choice(["a", "b", "c d.json"]), "i": rng.randrange(k),
              "seed": rng.randrange(1 << 30)}
        if kind in ("saveset", "textset"):
            op["set"] = [rng.randrange(k) for _ in range(rng.choice([0, 1, 2, 3]))]
        if kind in ("save", "saveset", "resave"):
            op["how"] = store.gen_how_save(rng, True)
            if rng.random() < p_fault:
                op["fault"] = _gen_fault(rng, callers)
        if kind in ("load", "loadset"):
            op["how"] = store.gen_how_load(rng)
            if rng.random() < p_fault:
                op["fault"] = disk_mod.gen_read_fault(rng, 1500)
        if kind in ("text", "textset"):
            op["opts"] = rng.choice([{}, {}, {"indent": 2}, {"sort_keys": True}, {"ensure_ascii": False},
                                     {"separators": [",", ":"]}])
        ops.append(op)
    if rng.random() < 0.25:
        t, f, which = rng.randrange(callers), rng.choice(["a", "b", "c d.json"]), [rng.randrange(k), rng.randrange(k)]
        as_set = [rng.random() < 0.15, rng.random() < 0.3]

        def save(w, how):
            op = {"op": "saveset" if as_set[w] else "save", "t": t, "file": f, "i": which[w], "seed": rng.randrange(1 << 30), "how": how}
            if as_set[w]:
                op["set"] = [which[w]] * rng.choice([1, 1, 2])
            return op

        def load(how):
            return {"op": "loadset" if as_set[0] else "load", "t": t, "file": f, "i": 0, "seed": rng.randrange(1 << 30), "how": how}

        at = rng.randrange(len(ops) + 1)
        ops[at:at] = store.history(rng, save, load, lambda: _gen_fault(rng, callers))
    if index % 500 == 250:
        ops.append({"op": "assumed", "t": 0, "p": _gen_assumed(rng), "opts": {}, "seed": 1})
    # every client ends by reading back what it stored
    scn = {"circuits": circuits, "ops": ops, "callers": callers, "readback": rng.random() < 0.8}
    if callers > 1:
        scn["plan"] = {"mode": "random", "seed": rng.randrange(1 << 30), "p": 0.0, "seam_p": rng.choice([0.2, 0.5, 0.9])}
    return scn


# ---------------------------------------------------------------- building


def _build_gate(desc, defs):
    from orquestra.quantum.circuits import _gates

    if "dagger" in desc:
        return _build_gate(desc["dagger"], defs).dagger
    if "rdagger" in desc:
        return _gates.Dagger(_build_gate(desc["rdagger"], defs))
    if "ctrl" in desc:
        return _build_gate(desc["ctrl"][0], defs).controlled(desc["ctrl"][1])
    if "rctrl" in desc:
        return _gates.ControlledGate(_build_gate(desc["rctrl"][0], defs), desc["rctrl"][1])
    if "pow" in desc:
        return _build_gate(desc["pow"][0], defs).power(desc["pow"][1])
    if "rpow" in desc:
        return _gates.Power(_build_gate(desc["rpow"][0], defs), desc["rpow"][1])
    if "exp" in desc:
        return _build_gate(desc["exp"], defs).exp
    return objs.build_gate(desc, defs)


def _build(desc):
    from orquestra.quantum.circuits import Circuit

    defs = {d["name"]: objs.build_def(dict(d, name=d.get("alias", d["name"]))) for d in desc["defs"]}
    ops = [_build_gate(o["gate"], defs)(*(np.array(o["q"]) if o.get("np") else o["q"])) for o in desc["c"]["ops"]]
    n = desc["c"]["n"]
    if n is not None:
        n = max([n] + [q + 1 for o in desc["c"]["ops"] for q in o["q"]])
    return Circuit(ops, n_qubits=np.int64(n) if n is not None and any(o.get("np") for o in desc["c"]["ops"]) else n)


# ---------------------------------------------------------------- comparison


def _num(x):
    """The value of a symbol-free parameter."""
    return complex(x)


def _is_number(x):
    return not isinstance(x, sympy.Basic)


def _close(a, b, rel):
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b))


def _values(expr, bindings):
    out = []
    for env in bindings:
        sub = {s: env[s.name] for s in expr.free_symbols}
        out.append(complex(expr.evalf(30, subs=sub) if sub else expr.evalf(30)))
    return out


def compare_expr(a, b, bindings, what, gen=1):
    """a: stored, b: loaded.  None or a description of the difference.

    A circuit that was loaded holds sympy numbers, so only its first trip is exact.
    """
    if _is_number(a) and gen > 1:
        a = sympy.sympify(a)
    if _is_number(a):
        if b != b or (isinstance(b, sympy.Basic) and b.free_symbols):
            return f"{what}: {a!r} became {b!r}"
        same = int(b) == a if isinstance(a, int) else _num(b) == complex(a)
        return None if same else f"{what}: the number {a!r} became {b!r} ({float(b)!r})"
    fa = {s.name for s in a.free_symbols}
    fb = {s.name for s in b.free_symbols} if isinstance(b, sympy.Basic) else set()
    if not fa:
        if fb:
            return f"{what}: {a} became {b} with symbols {sorted(fb)}"
        va, vb = _values(a, [{}])[0], _values(sympy.sympify(b), [{}])[0]
        return None if _close(va, vb, 1e-12) or (not a.atoms(sympy.Float) and a == b) else f"{what}: {a!r} became {b!r}"
    if isinstance(a, sympy.Symbol):
        return None if isinstance(b, sympy.Symbol) and b == a else f"{what}: symbol {a.name!r} became {b!r}"
    if not a.atoms(sympy.Float):
        if a == b:
            return None
    elif isinstance(b, sympy.Expr):
        if a == b:
            return None
        # coefficients of linear expressions are compared one by one
        terms = a.as_coefficients_dict()
        if all(t == 1 or isinstance(t, sympy.Symbol) for t in terms):
            got = b.as_coefficients_dict()
            for t in set(terms) | set(got):
                if not _close(complex(terms.get(t, 0)), complex(got.get(t, 0)), 1e-12):
                    return f"{what}: coefficient of {t} in {a} changed from {terms.get(t, 0)} to {got.get(t, 0)}"
            return None
    if fa != fb:
        return f"{what}: {a} with symbols {sorted(fa)} became {b} with symbols {sorted(fb)}"
    for x, y in zip(_values(a, bindings), _values(b, bindings)):
        if x != x or y != y:
            continue
        if not _close(x, y, 1e-9) and abs(x - y) > 1e-11:
            return f"{what}: {a} became {b}"
    return None


def _custom_def(gate):
    f = gate.matrix_factory
    return getattr(f, "gate_definition", None)


def _bindings(rng, symbols):
    return [{s: rng.uniform(-2.5, 2.5) for s in symbols} for _ in range(2)]


def compare_def(a, b, rng, what, gen=1):
    if (a is None) != (b is None):
        return f"{what}: {'built-in' if a is None else 'custom'} gate became {'built-in' if b is None else 'custom'}"
    if a is None:
        return None
    if a.gate_name != b.gate_name:
        return f"{what}: custom gate {a.gate_name!r} became {b.gate_name!r}"
    if tuple(a.params_ordering) != tuple(b.params_ordering):
        return f"{what}: parameters {a.params_ordering} became {b.params_ordering}"
    if tuple(a.matrix.shape) != tuple(b.matrix.shape):
        return f"{what}: matrix shape {a.matrix.shape} became {b.matrix.shape}"
    names = {s.name for s in a.matrix.free_symbols}
    bindings = _bindings(rng, sorted(names))
    for i in range(a.matrix.shape[0]):
        for j in range(a.matrix.shape[1]):
            d = compare_expr(sympy.sympify(a.matrix[i, j]), b.matrix[i, j], bindings,
                             f"{what}: matrix element {i},{j} of {a.gate_name!r}", gen)
            if d:
                return d
    return None


def compare_gate(a, b, rng, what, seen, gen=1):
    if type(a) is not type(b):
        return f"{what}: {type(a).__name__} {a} became {type(b).__name__} {b}"
    if a.name != b.name or a.num_qubits != b.num_qubits:
        return f"{what}: {a.name!r} on {a.num_qubits} qubits became {b.name!r} on {b.num_qubits}"
    if hasattr(a, "wrapped_gate"):
        for attr in ("num_control_qubits", "exponent"):
            if hasattr(a, attr):
                x, y = getattr(a, attr), getattr(b, attr)
                if not x == y:
                    return f"{what}: {attr} {x!r} became {y!r}"
        return compare_gate(a.wrapped_gate, b.wrapped_gate, rng, what, seen, gen)
    if len(a.params) != len(b.params):
        return f"{what}: {len(a.params)} parameters became {len(b.params)}"
    names = sorted({s.name for s in a.free_symbols})
    if [s.name for s in b.free_symbols] != [s.name for s in a.free_symbols]:
        return f"{what}: free symbols {a.free_symbols} became {b.free_symbols}"
    bindings = _bindings(rng, names)
    for k, (p, q) in enumerate(zip(a.params, b.params)):
        d = compare_expr(p, q, bindings, f"{what} {a.name}: parameter {k}", gen)
        if d:
            return d
    d = compare_def(_custom_def(a), _custom_def(b), rng, what, gen)
    if d:
        return d
    if a.is_hermitian != b.is_hermitian:
        return f"{what}: the inverse of {a.name} is {a.dagger} before and {b.dagger} after"
    key = (a.name, tuple(map(str, a.params)), id(_custom_def(a)), id(_custom_def(b)))
    if a.name == "U3" and names and rng.random() < 0.6:
        return None
    if any(isinstance(p, np.float32) for p in a.params):
        return None  # sympy evaluates such a gate's matrix in single precision
    if any(not getattr(p, "free_symbols", None) and abs(p) > 1e3 for p in a.params):
        return None  # the trigonometry of such angles is all rounding (the numbers themselves were compared)
    if key not in seen and len(seen) < 6:
        seen.add(key)
        d = compare_matrices(a, b, bindings[:1], what)
        if d:
            return d
    return None


def compare_matrices(a, b, bindings, what):
    for env in bindings:
        sub = {sympy.Symbol(n): v for n, v in env.items()}
        try:
            ma = np.array((a.bind(sub) if sub else a).matrix, dtype=complex)
        except (TypeError, ValueError, OverflowError, ZeroDivisionError):
            continue  # the stored gate has no numeric matrix here
        mb = np.array((b.bind(sub) if sub else b).matrix, dtype=complex)
        if ma.shape != mb.shape:
            return f"{what}: matrix of {a} changed shape"
        if not (np.isfinite(ma).all() and np.abs(ma).max() < 1e3):
            continue
        if not np.allclose(ma, mb, rtol=1e-8, atol=1e-8):
            return f"{what}: matrix of {a} at {env} changed by {np.abs(ma - mb).max():.3g}"
    return None


def _rounded(p):
    return isinstance(p, sympy.Basic) and bool(p.atoms(sympy.Float))


def _exact(gate, gen):
    """Every parameter and matrix element survives printing without rounding."""
    while hasattr(gate, "wrapped_gate"):
        gate = gate.wrapped_gate
    ps = list(gate.params)
    d = _custom_def(gate)
    if d is not None:
        ps += [e for e in d.matrix if isinstance(e, sympy.Basic)]
    return not any(_rounded(p) or gen > 1 and isinstance(p, (float, np.floating)) for p in ps)


def compare_circuit(a, b, seed, gen=1):
    rng = random.Random(seed)
    if type(b) is not type(a):
        return f"a {type(b).__name__} came back"
    if a.n_qubits != b.n_qubits:
        return f"register of {a.n_qubits} qubits became {b.n_qubits}"
    if len(a.operations) != len(b.operations):
        return f"{len(a.operations)} operations became {len(b.operations)}"
    seen = set()
    for k, (x, y) in enumerate(zip(a.operations, b.operations)):
        if type(x) is not type(y):
            return f"operation {k}: {type(x).__name__} became {type(y).__name__}"
        if tuple(x.qubit_indices) != tuple(y.qubit_indices):
            return f"operation {k}: qubits {x.qubit_indices} became {y.qubit_indices}"
        d = compare_gate(x.gate, y.gate, rng, f"operation {k}", seen, gen)
        if d:
            return d
    if [s.name for s in a.free_symbols] != [s.name for s in b.free_symbols]:
        return f"free symbols {a.free_symbols} became {b.free_symbols}"
    if a.free_symbols != b.free_symbols:
        return f"free symbols {a.free_symbols} became different symbols of the same names"
    if all(_exact(x.gate, gen) for x in a.operations) and not (a == b and b == a):
        return "the circuit compares unequal to the stored one although every parameter is exactly representable"
    return None


# ---------------------------------------------------------------- execution


class World:
    def __init__(self, scn, ctx):
        self.scn = scn
        self.ctx = ctx
        self.loaded = {}
        self.boot()

    def boot(self):
        """A process starts: circuits are built afresh, nothing loaded survives."""
        self.circuits = [_build(d) for d in self.scn["circuits"]]
        self.loaded = {}


def execute(scn, ctx):
    warnings.simplefilter("ignore")
    callers = Callers(ctx, scn["plan"]) if scn.get("plan") else None
    disk = disk_mod.Disk(ctx, callers)
    world = World(scn, ctx)
    _probes(scn, ctx)
    with disk.mounted():
        st = store.Store(ctx, disk)
        last = {}

        def run(op, t):
            OPS[op["op"]](world, st, op, t)
            if op["op"] in ("save", "saveset", "resave"):
                last[(t, op["file"])] = "loadset" if op["op"] == "saveset" else "load"

        def readback(t):
            if scn["readback"]:
                for (owner, f), kind in sorted(last.items()):
                    if owner == t:
                        OPS[kind](world, st, {"file": f, "how": "str", "seed": 7}, t)

        if callers is None:
            for op in scn["ops"]:
                run(op, 0)
            readback(0)
        else:
            def program(t):
                def body(cs):
                    for op in scn["ops"]:
                        if op["t"] == t:
                            run(op, t)
                            cs.point("between")
                    readback(t)
                return body

            callers.run([program(t) for t in range(scn["callers"])])
            ctx.schedule = callers.recorded
            if callers.recorded:
                ctx.probe("overlap")
                ctx.mark("interleaving", callers.recorded)


def _probes(scn, ctx):
    names = {}
    for d in scn["circuits"]:
        if not d["c"]["ops"]:
            ctx.probe("empty")
        for df in d["defs"]:
            names.setdefault(df["name"], []).append(df)
        for o in d["c"]["ops"]:
            g, syms = o["gate"], _symbols(o["gate"])
            inner = _inner(g)
            if "custom" in inner:
                ctx.probe("custom")
                if _depth(g):
                    ctx.probe("custom-wrapped")
                if inner["p"]:
                    ctx.probe("param-custom")
                if inner["custom"] in NON_GATES:
                    ctx.probe("non-gate-name")
            if _depth(g) > 2:
                ctx.probe("deep-wrapper")
            if max(o["q"]) > 20:
                ctx.probe("large-index")
            if o.get("np") or any(isinstance(p, list) and p[0] in objs.NUMPY for p in inner["p"]):
                ctx.probe("numpy-numbers")
            ind = {s.split("[")[0] for s in syms if "[" in s}
            if ind:
                ctx.probe("indexed")
            if ind & syms:
                ctx.probe("indexed-mixed")
            if syms & set(SHADOW):
                ctx.probe("shadowing")
            if "pi" in syms and '["pi"]' in json.dumps(inner["p"]):
                ctx.probe("constant-shadowed")
            if syms and '"float"' in json.dumps(inner["p"]):
                ctx.probe("float-coefficient")
            ctx.mark("gate", [g])
        if d["c"]["n"] and len({q for o in d["c"]["ops"] for q in o["q"]}) < d["c"]["n"]:
            ctx.probe("idle")
    if any(len(v) > 1 and v[0] != v[1] for v in names.values()):
        ctx.probe("custom-name-shared")


def _note(world, i):
    if any(_depth(o["gate"]) or "custom" in _inner(o["gate"]) or _symbols(o["gate"])
           for o in world.scn["circuits"][i]["c"]["ops"]):
        world.ctx.nontrivial = True


def _fname(t, op):
    return f"{t}.{op['file']}"


def _equal(world, seed):
    def eq(expected, got):
        kind, idx, gen = expected
        if kind == "one":
            if isinstance(got, list):
                return "a list came back where a single circuit was stored"
            d = compare_circuit(world.circuits[idx], got, seed, gen)
            if d is None:
                _note(world, idx)
            return d
        if not isinstance(got, list):
            return f"a {type(got).__name__} came back where a list of circuits was stored"
        if len(got) != len(idx):
            return f"{len(idx)} circuits became {len(got)}"
        for k, (i, g) in enumerate(zip(idx, got)):
            d = compare_circuit(world.circuits[i], g, seed + k, gen)
            if d:
                return f"circuit {k}: {d}"
            _note(world, i)
        return None

    return eq


def _clash(world, idx):
    """Some circuit uses two definitions of one name, which serialisation may refuse."""
    for i in idx:
        d = world.scn["circuits"][i]
        if any("alias" in x for x in d["defs"]):
            used = {_inner(o["gate"]).get("custom") for o in d["c"]["ops"]}
            if len(used & {x["name"] for x in d["defs"][:2]}) == 2:
                world.ctx.probe("name-clash")
                return True
    return False


def _do_save(world, st, op, t, obj, expected, fn):
    from orquestra.quantum.circuits import save_circuit, save_circuitset  # noqa: F401

    r = st.save(_fname(t, op), op["how"], lambda target: fn(obj, target), expected, op.get("fault"),
                may_raise=_clash(world, [expected[1]] if expected[0] == "one" else expected[1]))
    if r == "crash":
        world.boot()


def _save(world, st, op, t):
    from orquestra.quantum.circuits import save_circuit

    _do_save(world, st, op, t, world.circuits[op["i"]], ("one", op["i"], 1), save_circuit)


def _saveset(world, st, op, t):
    from orquestra.quantum.circuits import save_circuitset

    world.ctx.probe("set")
    _do_save(world, st, op, t, [world.circuits[i] for i in op["set"]], ("set", list(op["set"]), 1), save_circuitset)


def _resave(world, st, op, t):
    """Store again what was loaded from a file earlier in this process."""
    from orquestra.quantum.circuits import save_circuit, save_circuitset

    if not world.loaded.get(t):
        return
    expected, obj = world.loaded[t]
    expected = (*expected[:2], expected[2] + 1)
    world.ctx.probe("second-generation")
    _do_save(world, st, op, t, obj, expected, save_circuit if expected[0] == "one" else save_circuitset)


def _load_any(world, st, op, t, fn, want):
    accept = st.files.get(_fname(t, op), [store.ABSENT])
    kinds = {e[0] for e in accept if e is not store.ABSENT}
    if kinds - {want}:
        return  # the file holds the other kind of artefact
    if op["how"] == "stringio":
        world.ctx.probe("stringio")
    out = st.load(_fname(t, op), op["how"], fn, _equal(world, op["seed"]), op.get("fault"))
    if out is not None and len(accept) == 1:
        world.loaded[t] = (accept[0], out.value)


def _load(world, st, op, t):
    from orquestra.quantum.circuits import load_circuit

    _load_any(world, st, op, t, load_circuit, "one")


def _loadset(world, st, op, t):
    from orquestra.quantum.circuits import load_circuitset

    _load_any(world, st, op, t, load_circuitset, "set")


def _through_text(world, op, obj, from_dict, idx):
    from orquestra.quantum.circuits import to_dict

    ctx = world.ctx
    opts = dict(op["opts"])
    if "separators" in opts:
        opts["separators"] = tuple(opts["separators"])
    out = ctx.call(lambda: from_dict(json.loads(json.dumps(to_dict(obj), **opts))))
    ctx.log("text", op["op"], out.kind)
    ctx.probe("text")
    if not out.ok and _clash(world, idx):
        return None
    ctx.check(out.ok, "text-failed", lambda: f"serialising {obj} through JSON text {out!r}")
    return out.value


def _text(world, st, op, t):
    from orquestra.quantum.circuits import circuit_from_dict

    c = world.circuits[op["i"]]
    got = _through_text(world, op, c, circuit_from_dict, [op["i"]])
    if got is None:
        return
    with world.ctx.oracle("comparing a deserialised circuit"):
        d = _equal(world, op["seed"])(("one", op["i"], 1), got)
    world.ctx.check(d is None, "text-differs", lambda: f"JSON text round trip of {c}: {d}")


def _textset(world, st, op, t):
    from orquestra.quantum.circuits import circuitset_from_dict

    got = _through_text(world, op, [world.circuits[i] for i in op["set"]], circuitset_from_dict, op["set"])
    if got is None:
        return
    with world.ctx.oracle("comparing deserialised circuits"):
        d = _equal(world, op["seed"])(("set", op["set"], 1), got)
    world.ctx.check(d is None, "text-differs", lambda: f"JSON text round trip of circuits {op['set']}: {d}")


def _assumed(world, st, op, t):
    """A symbol with sympy assumptions: everything but the assumptions has to survive in any case."""
    from orquestra.quantum.circuits import RX, Circuit, circuit_from_dict

    ctx = world.ctx
    ctx.probe("assumed-symbol")
    c = Circuit([RX(objs.build_expr(op["p"]))(0)])
    got = _through_text(world, op, c, circuit_from_dict, [])
    with ctx.oracle("comparing a deserialised circuit"):
        (a,), (b,) = c.free_symbols, got.free_symbols
        ma, mb = (np.array(x.operations[0].gate.bind({s: 0.7}).matrix, dtype=complex) for x, s in ((c, a), (got, b)))
        same = a.name == b.name and np.allclose(ma, mb, atol=1e-9)
    ctx.check(same, "text-differs", lambda: f"JSON text round trip of {c}: {got}")
    ctx.check(a == b and c == got, "symbol-assumptions-lost",
              lambda: f"the symbol {a} declared positive came back without assumptions, as a different symbol")


OPS = {"assumed": _assumed, "save": _save, "load": _load, "saveset": _saveset, "loadset": _loadset, "resave": _resave, "text": _text,
       "textset": _textset}


# ---------------------------------------------------------------- minimisation


def simplify(scn):
    for i, d in enumerate(scn["circuits"]):
        for j in range(len(d["c"]["ops"])):
            c = copy.deepcopy(scn)
            c["circuits"][i]["c"]["ops"].pop(j)
            yield c
        for j, o in enumerate(d["c"]["ops"]):
            for k in WRAPPERS:
                if k in o["gate"] and k not in ("ctrl", "rctrl"):
                    c = copy.deepcopy(scn)
                    g = o["gate"][k]
                    c["circuits"][i]["c"]["ops"][j]["gate"] = copy.deepcopy(g[0] if isinstance(g, list) else g)
                    yield c
        used = {_inner(o["gate"]).get("custom") for o in d["c"]["ops"]}
        for j, df in enumerate(d["defs"]):
            if df["name"] not in used:
                c = copy.deepcopy(scn)
                c["circuits"][i]["defs"].pop(j)
                yield c
        if d["c"]["n"]:
            c = copy.deepcopy(scn)
            c["circuits"][i]["c"]["n"] = None
            yield c
    for i, op in enumerate(scn["ops"]):
        for k in ("fault", "opts"):
            if op.get(k):
                c = copy.deepcopy(scn)
                if k == "fault":
                    c["ops"][i].pop("fault")
                else:
                    c["ops"][i]["opts"] = {}
                yield c
        for j in range(len(op.get("set", []))):
            c = copy.deepcopy(scn)
            c["ops"][i]["set"].pop(j)
            yield c

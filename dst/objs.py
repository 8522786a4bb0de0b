"""JSON descriptors of circuits, operators and friends: generation, construction
in the code under test, and reference semantics computed by the simulator itself.
"""
import itertools
import math

import numpy as np
import sympy

# ------------------------------------------------------------------ parameters


def gen_float(rng, lo=-7.0, hi=7.0):
    r = rng.random()
    if r < 0.15:
        return rng.choice([0.0, 1.0, -1.0, 0.5, -0.5, math.pi, -math.pi / 2, 2 * math.pi])
    if r < 0.3:
        return round(rng.uniform(lo, hi), 2)
    return rng.uniform(lo, hi)


ALL_FUNS = ("add", "add", "mul", "mul", "sub", "div", "pow", "sin", "cos", "exp", "neg", "sqrt")
REAL_FUNS = ("add", "add", "mul", "mul", "sub", "div", "pow", "sin", "cos", "neg")


def gen_expr(rng, symbols, depth=2, funs=ALL_FUNS):
    """An expression tree; leaves: ["sym", n], ["int", k], ["float", x], ["rat", p, q], ["pi"]."""
    r = rng.random()
    if depth <= 0 or r < 0.25:
        r = rng.random()
        if symbols and r < 0.6:
            return ["sym", rng.choice(symbols)]
        if r < 0.75:
            return ["int", rng.randrange(-5, 6)]
        if r < 0.85:
            return ["rat", rng.randrange(-7, 8), rng.randrange(2, 9)]
        if r < 0.95:
            return ["float", gen_float(rng)]
        return ["pi"]
    op = rng.choice(list(funs))
    if op in ("sin", "cos", "exp", "neg", "sqrt", "abs", "atan", "tanh", "cosh", "sign"):
        return [op, gen_expr(rng, symbols, depth - 1, funs)]
    if op == "pow":
        return [op, gen_expr(rng, symbols, depth - 1, funs), ["int", rng.randrange(1, 4)]]
    if op == "div":
        return [op, gen_expr(rng, symbols, depth - 1, funs), ["int", rng.choice([2, 3, 4, 7])]]
    return [op, gen_expr(rng, symbols, depth - 1, funs), gen_expr(rng, symbols, depth - 1, funs)]


def expr_symbols(tree):
    if not isinstance(tree, list):
        return set()
    if tree[0] == "sym":
        return {tree[1]}
    out = set()
    for t in tree[1:]:
        if isinstance(t, list):
            out |= expr_symbols(t)
    return out


NUMPY = {"f64": np.float64, "f32": np.float32, "i64": np.int64, "u8": np.uint8}


def build_expr(tree):
    if not isinstance(tree, list):
        return tree  # a Python number
    op, *a = tree
    if op == "sym":
        return sympy.Symbol(a[0])
    if op == "int":
        return sympy.Integer(a[0])
    if op == "float":
        return sympy.Float(a[0])
    if op == "rat":
        return sympy.Rational(a[0], a[1])
    if op == "pi":
        return sympy.pi
    if op == "E":
        return sympy.E
    if op == "I":
        return sympy.I
    if op == "num":
        return a[0]
    if op in NUMPY:
        return NUMPY[op](a[0])
    if op == "symp":
        return sympy.Symbol(a[0], positive=True)
    b = [build_expr(x) for x in a]
    if op == "add":
        return b[0] + b[1]
    if op == "sub":
        return b[0] - b[1]
    if op == "mul":
        return b[0] * b[1]
    if op == "div":
        return b[0] / b[1]
    if op == "pow":
        return b[0] ** b[1]
    if op == "neg":
        return -b[0]
    return getattr(sympy, {"abs": "Abs"}.get(op, op))(b[0])


def eval_expr(tree, env):
    """Reference value of a tree, computed without sympy."""
    import cmath

    if not isinstance(tree, list):
        return complex(tree)
    op, *a = tree
    if op == "sym":
        return complex(env[a[0]])
    if op in ("int", "float", "num"):
        return complex(a[0])
    if op == "rat":
        return complex(a[0] / a[1])
    if op == "pi":
        return complex(math.pi)
    if op == "I":
        return 1j
    b = [eval_expr(x, env) for x in a]
    if op == "add":
        return b[0] + b[1]
    if op == "sub":
        return b[0] - b[1]
    if op == "mul":
        return b[0] * b[1]
    if op == "div":
        return b[0] / b[1]
    if op == "pow":
        return b[0] ** b[1].real
    if op == "neg":
        return -b[0]
    return {"sin": cmath.sin, "cos": cmath.cos, "exp": cmath.exp, "sqrt": cmath.sqrt}[op](b[0])


# ------------------------------------------------------------------ gates

FIXED1 = ["X", "Y", "Z", "H", "I", "S", "SX", "T"]
FIXED2 = ["CNOT", "CZ", "SWAP", "ISWAP"]
PARAM1 = ["RX", "RY", "RZ", "RH", "PHASE", "GPi", "GPi2", "Delay"]
PARAM2 = ["CPHASE", "XX", "YY", "ZZ", "XY"]
ARITY = {**{g: (0, 1) for g in FIXED1}, **{g: (0, 2) for g in FIXED2},
         **{g: (1, 1) for g in PARAM1}, **{g: (1, 2) for g in PARAM2},
         "U3": (3, 1), "MS": (2, 2)}
BUILTINS = list(ARITY)


def gen_unitary(rng, dim):
    """A random numeric unitary as nested [re, im] lists."""
    m = np.array([[complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(dim)] for _ in range(dim)])
    q, _ = np.linalg.qr(m)
    return [[[float(z.real), float(z.imag)] for z in row] for row in q]


def gen_custom_def(rng, name, symbols, max_qubits=2, symbolic=None):
    """{"name", "params": [symbol names], "matrix": [[expr or [re, im]]]}."""
    nq = rng.choice([1, 1, 2][: 3 if max_qubits > 1 else 2])
    symbolic = rng.random() < 0.5 if symbolic is None else symbolic
    if not symbolic or not symbols:
        if rng.random() < 0.3:
            # exact: a signed/phased permutation matrix
            dim = 2**nq
            perm = list(range(dim))
            rng.shuffle(perm)
            rows = [[["int", 0] for _ in range(dim)] for _ in range(dim)]
            for i, j in enumerate(perm):
                rows[i][j] = rng.choice([["int", 1], ["int", -1], ["I"], ["mul", ["int", -1], ["I"]]])
            return {"name": name, "params": [], "matrix": rows}
        return {"name": name, "params": [], "nmatrix": gen_unitary(rng, 2**nq)}
    k = rng.choice([1, 2, 2, 3])
    ps = rng.sample(symbols, min(k, len(symbols)))
    # diagonal phases exp(i * real expression), optionally with a rotation block
    dim = 2**nq
    rows = [[["int", 0] for _ in range(dim)] for _ in range(dim)]

    def phase():
        e = ["sym", rng.choice(ps)]
        if rng.random() < 0.5:
            e = [rng.choice(["add", "mul", "sub"]), e, rng.choice([["sym", rng.choice(ps)], ["int", 2], ["rat", 1, 3]])]
        return e

    i = 0
    while i < dim:
        if i + 1 < dim and rng.random() < 0.5:
            t = phase()
            rows[i][i] = ["cos", t]
            rows[i][i + 1] = ["neg", ["sin", t]]
            rows[i + 1][i] = ["sin", t]
            rows[i + 1][i + 1] = ["cos", t]
            i += 2
        else:
            rows[i][i] = ["exp", ["mul", ["I"], phase()]]
            i += 1
    # every declared parameter occurs
    used = set()
    for row in rows:
        for e in row:
            used |= expr_symbols(e)
    return {"name": name, "params": [p for p in ps if p in used] or ps[:1], "matrix": rows}


def def_qubits(d):
    return int(math.log2(len(d.get("matrix") or d["nmatrix"])))


def build_def(d):
    from orquestra.quantum.circuits import CustomGateDefinition

    if "nmatrix" in d:
        m = sympy.Matrix([[sympy.Float(z[0]) + sympy.I * sympy.Float(z[1]) if d.get("flt") else complex(z[0], z[1])
                           for z in row] for row in d["nmatrix"]])
    else:
        m = sympy.Matrix([[build_expr(e) for e in row] for row in d["matrix"]])
    return CustomGateDefinition(d["name"], m, tuple(sympy.Symbol(p) for p in d["params"]))


def gen_base_gate(rng, defs, param_fn, max_qubits):
    cands = [b for b in BUILTINS if ARITY[b][1] <= max_qubits]
    ds = [d for d in defs if def_qubits(d) <= max_qubits]
    if ds and rng.random() < 0.3:
        d = rng.choice(ds)
        return {"custom": d["name"], "p": [param_fn() for _ in d["params"]]}, def_qubits(d)
    g = rng.choice(cands)
    if g == "U3" and rng.random() < 0.75:
        g = rng.choice(cands)  # its matrix is slow to build (sympy simplification)
    return {"g": g, "p": [param_fn() for _ in range(ARITY[g][0])]}, ARITY[g][1]


def nudge(rng, obj, p=0.8):
    """A copy of a circuit description whose real parameters moved by less than what the
    tolerance of gate equality notices: equal to the library, different to the user."""

    def move(v):
        if isinstance(v, float) and abs(v) < 100 and rng.random() < p:
            return v + rng.choice([-1, 1]) * rng.uniform(4e-9, 9e-9)
        if isinstance(v, list) and v and isinstance(v[0], str):
            return v[:1] + [move(x) for x in v[1:]]
        return v

    def walk(x):
        if isinstance(x, dict):
            return {k: [move(v) for v in y] if k in ("p", "mp") else walk(y) for k, y in x.items()}
        return [walk(y) for y in x] if isinstance(x, list) else x

    return walk(obj)


def gate_symbols(g):
    for k in ("dagger", "exp"):
        if k in g:
            return gate_symbols(g[k])
    for k in ("ctrl", "pow"):
        if k in g:
            return gate_symbols(g[k][0])
    out = set()
    for p in g["p"]:
        out |= expr_symbols(p)
    return out


ALL_EXPONENTS = (2, 3, -1, 1, 0, 0.5, -2, 0.25)


def gen_gate(rng, defs, param_fn, max_qubits, depth=2, wrappers=("dagger", "ctrl", "pow", "exp"),
             pow_qubits=1, exponents=(2, 3, -1, 1, 0, -2)):
    """(descriptor, number of qubits); powers and exponentials of gates up to pow_qubits."""
    g, n = gen_base_gate(rng, defs, param_fn, max_qubits)
    for _ in range(depth):
        if rng.random() < 0.6:
            break
        w = rng.choice(list(wrappers))
        if w == "dagger":
            g = {"dagger": g}
        elif w == "ctrl" and n < max_qubits:
            k = rng.randrange(1, max_qubits - n + 1)
            g, n = {"ctrl": [g, k]}, n + k
        elif w == "pow" and not gate_symbols(g) and n <= pow_qubits:
            g = {"pow": [g, rng.choice(list(exponents))]}
        elif w == "exp" and not gate_symbols(g) and n <= pow_qubits:
            g = {"exp": g}
    return g, n


def build_gate(desc, defs):
    """defs: {name: CustomGateDefinition}."""
    from orquestra.quantum import circuits

    if "dagger" in desc:
        return build_gate(desc["dagger"], defs).dagger
    if "ctrl" in desc:
        return build_gate(desc["ctrl"][0], defs).controlled(desc["ctrl"][1])
    if "pow" in desc:
        return build_gate(desc["pow"][0], defs).power(desc["pow"][1])
    if "exp" in desc:
        return build_gate(desc["exp"], defs).exp
    ps = [build_expr(p) for p in desc["p"]]
    if "custom" in desc:
        return defs[desc["custom"]](*ps)
    ref = getattr(circuits, desc["g"])
    return ref(*ps) if ARITY[desc["g"]][0] else ref


def gate_width(desc, defs):
    if "dagger" in desc:
        return gate_width(desc["dagger"], defs)
    if "exp" in desc:
        return gate_width(desc["exp"], defs)
    if "pow" in desc:
        return gate_width(desc["pow"][0], defs)
    if "ctrl" in desc:
        return gate_width(desc["ctrl"][0], defs) + desc["ctrl"][1]
    if "custom" in desc:
        return next(def_qubits(d) for d in defs if d["name"] == desc["custom"])
    return ARITY[desc["g"]][1]


def gen_circuit(rng, n, length, defs=(), param_fn=None, multiphase=False, depth=2,
                wrappers=("dagger", "ctrl", "pow", "exp"), max_gate=3, widen=0.3, **gate_kw):
    param_fn = param_fn or (lambda: gen_float(rng))
    ops = []
    for _ in range(length):
        if multiphase and rng.random() < 0.2:
            ops.append({"mp": [gen_float(rng) for _ in range(2**n)]})
            continue
        g, k = gen_gate(rng, list(defs), param_fn, min(n, max_gate), depth, wrappers, **gate_kw)
        ops.append({"gate": g, "q": rng.sample(range(n), k)})
    c = {"n": n, "ops": ops}
    if rng.random() > widen and not multiphase:
        c["n"] = None  # width implied by the operations
    return c


def circuit_width(c):
    if c["n"]:
        return c["n"]
    w = 0
    for op in c["ops"]:
        w = max(w, int(math.log2(len(op["mp"]))) if "mp" in op else max(op["q"]) + 1)
    return w


def build_op(op, defs):
    from orquestra.quantum.circuits import MultiPhaseOperation

    if "mp" in op:
        return MultiPhaseOperation(tuple(op["mp"]))
    return build_gate(op["gate"], defs)(*op["q"])


def build_circuit(c, defs=()):
    from orquestra.quantum.circuits import Circuit

    built = defs if isinstance(defs, dict) else {d["name"]: build_def(d) for d in defs}
    return Circuit([build_op(o, built) for o in c["ops"]], n_qubits=c["n"])


# ------------------------------------------------------------------ reference linear algebra


def np_matrix(m):
    return np.array(m.tolist() if hasattr(m, "tolist") else m).astype(complex)


def gate_matrix(gate):
    m = gate.matrix
    return np.array(m, dtype=complex)


def apply_matrix(mat, qubits, state):
    """mat acting on the listed qubits (qubit 0 = most significant) of a state vector."""
    n = int(round(math.log2(len(state))))
    k = len(qubits)
    t = np.asarray(state, dtype=complex).reshape([2] * n)
    m = np.asarray(mat, dtype=complex).reshape([2] * (2 * k))
    t = np.tensordot(m, t, axes=(list(range(k, 2 * k)), list(qubits)))
    return np.moveaxis(t, list(range(k)), list(qubits)).reshape(-1)


def ref_state(ops_with_mats, n, initial=None):
    """ops: list of ("g", matrix, qubits) or ("mp", thetas)."""
    state = np.zeros(2**n, dtype=complex)
    if initial is None:
        state[0] = 1
    else:
        state = np.asarray(initial, dtype=complex)
    for op in ops_with_mats:
        if op[0] == "mp":
            state = state * np.exp(1j * np.asarray(op[1], dtype=float))
        else:
            state = apply_matrix(op[1], op[2], state)
    return state


def ref_ops(c, defs=()):
    """The operations of a circuit descriptor with each gate's own matrix."""
    built = defs if isinstance(defs, dict) else {d["name"]: build_def(d) for d in defs}
    out = []
    for op in c["ops"]:
        if "mp" in op:
            out.append(("mp", op["mp"]))
        else:
            out.append(("g", gate_matrix(build_gate(op["gate"], built)), tuple(op["q"])))
    return out


def ref_unitary(c, defs=()):
    n = circuit_width(c)
    ops = ref_ops(c, defs)
    cols = [ref_state(ops, n, np.eye(2**n)[:, i]) for i in range(2**n)]
    return np.array(cols).T


def bits(i, n):
    """Outcome tuple of basis state i: position q is qubit q."""
    return tuple((i >> (n - 1 - q)) & 1 for q in range(n))


# ------------------------------------------------------------------ Pauli operators

PAULI = {
    "I": np.eye(2, dtype=complex),
    "X": np.array([[0, 1], [1, 0]], dtype=complex),
    "Y": np.array([[0, -1j], [1j, 0]], dtype=complex),
    "Z": np.array([[1, 0], [0, -1]], dtype=complex),
}


def gen_coeff(rng, complex_ok=True):
    r = rng.random()
    if r < 0.2:
        v = rng.choice([1.0, -1.0, 0.5, 2.0, -0.25, 3])
    else:
        v = rng.uniform(-3, 3)
    if complex_ok and rng.random() < 0.35:
        return ["c", float(v), rng.uniform(-3, 3)] if rng.random() < 0.7 else ["c", 0.0, float(v)]
    return v


def coeff(v):
    return complex(v[1], v[2]) if isinstance(v, list) else v


def gen_term(rng, n, alphabet="XYZ", complex_ok=True, p_const=0.1):
    if rng.random() < p_const or n == 0:
        ops = []
    else:
        qs = rng.sample(range(n), rng.randrange(1, min(n, 4) + 1))
        ops = [[q, rng.choice(alphabet)] for q in qs]
    return {"ops": ops, "c": gen_coeff(rng, complex_ok)}


def gen_sum(rng, n, n_terms, alphabet="XYZ", complex_ok=True, p_const=0.1):
    return {"terms": [gen_term(rng, n, alphabet, complex_ok, p_const) for _ in range(n_terms)]}


def build_term(t):
    from orquestra.quantum.operators import PauliTerm

    return PauliTerm({q: o for q, o in t["ops"]}, coeff(t["c"]))


def build_operator(d):
    """{"terms": [...]} -> PauliSum, {"ops":..., "c":...} -> PauliTerm."""
    from orquestra.quantum.operators import PauliSum

    if "terms" in d:
        return PauliSum([build_term(t) for t in d["terms"]])
    return build_term(d)


def desc_terms(d):
    return d["terms"] if "terms" in d else [d]


def ref_operator_map(d):
    """{frozenset of (qubit, op)}: total coefficient}"""
    out = {}
    for t in desc_terms(d):
        key = tuple(sorted((int(q), o) for q, o in t["ops"]))
        out[key] = out.get(key, 0) + complex(coeff(t["c"]))
    return out


def live_operator_map(op):
    """The same map read off a live operator through its public interface."""
    out = {}
    for t in op.terms:
        key = tuple(sorted((int(q), str(o)) for q, o in t.operations))
        out[key] = out.get(key, 0) + complex(t.coefficient)
    return out


def maps_close(a, b, tol=1e-8, rel=1e-9):
    for k in set(a) | set(b):
        x, y = a.get(k, 0), b.get(k, 0)
        if not abs(x - y) <= tol + rel * max(abs(x), abs(y)):
            return False
    return True


def ref_operator_matrix(d, n):
    m = np.zeros((2**n, 2**n), dtype=complex)
    for key, c in ref_operator_map(d).items():
        ops = dict(key)
        mats = [PAULI[ops.get(q, "I")] for q in range(n)]
        t = np.array([[1.0 + 0j]])
        for x in mats:
            t = np.kron(t, x)
        m += c * t
    return m


def operator_width(d):
    qs = [q for t in desc_terms(d) for q, _ in t["ops"]]
    return max(qs) + 1 if qs else 0


def z_eigenvalue(ops, outcome):
    v = 1
    for q, _ in ops:
        v *= 1 - 2 * outcome[q]
    return v


def product_states(n):
    return list(itertools.product([0, 1], repeat=n))

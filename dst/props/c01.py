"""C01: a circuit acts as the ordered product of its gates on the named qubits.

A client hands programs to simulators built on the base class.  The state vector is
the message passed back and forth between the base class (which applies non-native
operations itself) and a simulated native engine (independent linear algebra) that
may fail, be retried, and be parked mid-job while another caller's program runs.
Every execution path - whole-circuit matrix, operation by operation, bundled
simulator, base-class simulator with any native set - is compared with one
independent reference: each gate's own matrix contracted onto its qubits.
"""
import warnings

import numpy as np
import sympy

from .. import backends, objs
from ..sched import Callers

RUNS = {"quick": 1500, "thorough": 40000}
RULE = (
    "one run = one seeded history of unitary / step-by-step / simulator / concatenation requests over a pool of "
    "circuits, with simulators of different native sets, failing and retried native jobs and overlapping callers; "
    "non-trivial = a program was split into at least two segments, or a backend call failed and was retried, or a "
    "gate touched non-adjacent or unordered qubits"
)
REAL = ["circuits (all gates, wrappers, custom gates, embedding, concatenation, split)", "api.wavefunction_simulator",
        "runners.symbolic_simulator", "wavefunction", "sympy", "numpy"]
STUB = ["native wavefunction engine behind _get_wavefunction_from_native_circuit (independent dense simulator)"]
ASSUMPTIONS = [
    "register width at most 6 (7 in the thorough tier), gate arity at most 4",
    "each gate's own matrix is taken as given (its correctness is C02/C07)",
    "matrices and states compared to 3e-10",
]
PROBES = ["unordered", "non-adjacent", "idle", "3-qubit", "4-qubit", "custom", "mp", "symbolic", "retry", "split",
          "concat", "concat-op", "overlap", "initial-state", "symbolic-state", "empty", "wide"]
LIST_FIELDS = ["ops", "plan.switches"]
SYMS = ["a", "b", "theta_1"]


def _gen_wide_def(rng, name, k):
    return {"name": name, "params": [], "nmatrix": objs.gen_unitary(rng, 2**k)}


def _gen_circ(rng, n, defs, symbolic, mp, length):
    def param():
        if symbolic and rng.random() < 0.6:
            return objs.gen_expr(rng, SYMS, 1, objs.REAL_FUNS)
        return objs.gen_float(rng)

    return objs.gen_circuit(rng, n, length, defs, param, multiphase=mp, depth=1,
                            wrappers=("dagger", "ctrl", "pow") if not symbolic else ("dagger", "ctrl"), max_gate=4)


def generate(rng, tier, index):
    nmax = 7 if tier == "thorough" and rng.random() < 0.1 else 6
    defs = []
    for i in range(rng.randrange(3)):
        if rng.random() < 0.35:
            defs.append(_gen_wide_def(rng, f"wide{i}", rng.choice([3, 3, 4])))
        else:
            defs.append(objs.gen_custom_def(rng, f"cust{i}", ["u", "v"]))
    style = rng.random()
    symbolic = style < 0.2
    circs = []
    base = rng.choice([2, 3, 3, 4, 4, 5, nmax]) if not symbolic else rng.choice([1, 2, 2, 3])
    for _ in range(rng.choice([1, 2, 3])):
        n = max(1, min(nmax, base + rng.choice([0, 0, 0, 1, -1])))
        if symbolic:
            n = min(n, 3)
        length = rng.choice([0, 1, 2, 3, 5, 8, 12]) if not symbolic else rng.choice([1, 2, 3])
        if not symbolic and rng.random() < 0.07:  # long programs on few qubits
            n, length = min(n, 3), rng.choice([17, 24, 40, 70])
        elif not symbolic and rng.random() < 0.025:  # short ones on many
            n, length = rng.choice([8, 8, 9, 10]), rng.choice([1, 2, 3])
        c = _gen_circ(rng, n, [d for d in defs if objs.def_qubits(d) <= n], symbolic, rng.random() < 0.4, length)
        if c["n"] is None and not c["ops"]:
            c["n"] = n
        if rng.random() < 0.15 and not any("mp" in o for o in c["ops"]):
            c["n"] = (objs.circuit_width(c) or 1) + rng.choice([1, 2])
        if c["ops"] and rng.random() < 0.15:  # the same operation again, a hair apart
            c["ops"].insert(rng.randrange(len(c["ops"]) + 1), objs.nudge(rng, rng.choice([o for o in c["ops"]]), 1.0))
        circs.append(c)
    if rng.random() < 0.25:
        circs.append(objs.nudge(rng, rng.choice(circs)))
    sims = [{"kind": "sym"}]
    for _ in range(rng.choice([1, 2, 3])):
        sims.append({"kind": "wf", "native": backends.gen_native(rng), "default": rng.random() < 0.15})
    callers = rng.choice([1, 1, 2, 3])
    p_fault = rng.choice([0.0, 0.2, 0.5])
    ops = []
    for _ in range(rng.choice([2, 4, 6])):
        kind = rng.choice(["unitary", "steps", "sim", "sim", "sim", "concat", "concat_op"])
        op = {"op": kind, "c": rng.randrange(len(circs)), "t": rng.randrange(callers), "seed": rng.randrange(1 << 30)}
        if kind == "steps":
            op["state"] = rng.choice(["array", "real", "list", "matrix", "basis"])
        if kind == "sim":
            op["s"] = rng.randrange(len(sims))
            op["init"] = rng.choice([None, None, "array", "real", "basis", "matrix"])
            op["retry"] = rng.randrange(3)
            if rng.random() < p_fault:
                op["fault"] = backends.gen_fault(rng, 2)
        if kind == "concat":
            op["d"] = rng.randrange(len(circs))
        if kind == "concat_op":
            n = rng.randrange(1, 5)
            g, k = objs.gen_gate(rng, [d for d in defs if objs.def_qubits(d) <= n], lambda: objs.gen_float(rng), n, 1,
                                 ("dagger", "ctrl"))
            op["gate"] = {"gate": g, "q": rng.sample(range(n), k)}
        ops.append(op)
    scn = {"defs": defs, "circuits": circs, "sims": sims, "ops": ops, "callers": callers,
           "values": {s: rng.uniform(-3, 3) for s in SYMS}}
    if callers > 1:
        scn["plan"] = {"mode": "random", "seed": rng.randrange(1 << 30), "p": 0.0,
                       "seam_p": rng.choice([0.3, 0.6, 0.9])}
    return scn


# ---------------------------------------------------------------- execution


def _numeric(m, values):
    """Complex array of a matrix or vector, symbols replaced by values."""
    if hasattr(m, "free_symbols") and m.free_symbols:
        m = m.subs({sympy.Symbol(k): v for k, v in values.items()})
    arr = np.asarray(m, dtype=object)
    out = np.empty(arr.shape, dtype=complex)
    for idx in np.ndindex(*arr.shape):
        x = arr[idx]
        if isinstance(x, sympy.Basic) and x.free_symbols:
            x = x.subs({sympy.Symbol(k): v for k, v in values.items()})
        out[idx] = complex(x)
    return out


class Ref:
    """Reference semantics of the pool, computed outside the code under test."""

    def __init__(self, scn, defs):
        self.scn = scn
        self.defs = defs
        self.values = scn["values"]
        self.cache = {}

    def op(self, desc):
        if "mp" in desc:
            return ("mp", desc["mp"])
        key = str(desc["gate"])
        if key not in self.cache:
            self.cache[key] = _numeric(objs.build_gate(desc["gate"], self.defs).matrix, self.values)
        return ("g", self.cache[key], tuple(desc["q"]))

    def ops(self, c):
        return [self.op(o) for o in c["ops"]]

    def unitary(self, ops, n):
        # one sweep over a batch of columns
        u = np.eye(2**n, dtype=complex)
        for op in ops:
            if op[0] == "mp":
                u = np.exp(1j * np.asarray(op[1], dtype=float))[:, None] * u
            else:
                k = len(op[2])
                t = u.reshape([2] * n + [2**n])
                m = op[1].reshape([2] * (2 * k))
                t = np.tensordot(m, t, axes=(list(range(k, 2 * k)), list(op[2])))
                u = np.moveaxis(t, list(range(k)), list(op[2])).reshape(2**n, 2**n)
        return u


def _state_kind(kind, c, n):
    """Exact (sympy) column vectors swell quickly: short programs on small registers only."""
    if kind == "matrix" and (n > 2 or len(c["ops"]) > 4):
        return "array"
    return kind


def _gen_state(seed, n, kind):
    r = np.random.Generator(np.random.PCG64(seed))
    N = 2**n
    if kind == "basis":
        v = np.zeros(N, dtype=complex)
        v[r.integers(N)] = 1
    elif kind == "real":
        v = r.normal(size=N)
    else:
        v = r.normal(size=N) + 1j * r.normal(size=N)
    v = v / np.linalg.norm(v)
    if kind == "list":
        return v, [complex(x) for x in v]
    if kind == "matrix":
        return v, sympy.Matrix([sympy.Float(x.real) + sympy.I * sympy.Float(x.imag) for x in v])
    return v, v.copy()


def execute(scn, ctx):
    warnings.simplefilter("ignore")
    from orquestra.quantum.runners import SymbolicSimulator

    _, _, SimWf = backends.classes()
    callers = Callers(ctx, scn["plan"]) if scn.get("plan") else None
    service = backends.Service(ctx, callers)
    defs = {d["name"]: objs.build_def(d) for d in scn["defs"]}
    circuits = [objs.build_circuit(c, defs) for c in scn["circuits"]]
    widths = [objs.circuit_width(c) for c in scn["circuits"]]
    ref = Ref(scn, defs)
    sims = []
    for s in scn["sims"]:
        sims.append(SymbolicSimulator() if s["kind"] == "sym" else SimWf(service, s["native"], None, s["default"]))
    env = dict(ctx=ctx, scn=scn, defs=defs, circuits=circuits, widths=widths, ref=ref, sims=sims, service=service)
    for ci, c in enumerate(scn["circuits"]):
        _probe(ctx, c, widths[ci], scn)
        ctx.check(int(circuits[ci].n_qubits) == widths[ci], "width",
                  lambda: f"circuit {ci} reports {circuits[ci].n_qubits} qubits, expected {widths[ci]}")
        with ctx.oracle("operations"):
            got = len(list(circuits[ci].operations))
        ctx.check(got == len(c["ops"]), "operations", lambda: f"circuit {ci} holds {got} operations of {len(c['ops'])}")
    if callers is None:
        for op in scn["ops"]:
            _one(env, op)
    else:
        def program(t):
            def body(cs):
                for op in scn["ops"]:
                    if op["t"] == t:
                        _one(env, op)
                        cs.point("between")
            return body

        callers.run([program(t) for t in range(scn["callers"])])
        ctx.schedule = callers.recorded
        if callers.recorded:
            ctx.probe("overlap")
            ctx.mark("interleaving", callers.recorded)


def _probe(ctx, c, n, scn):
    used = set()
    for o in c["ops"]:
        if "mp" in o:
            ctx.probe("mp")
            used |= set(range(n))
            continue
        q = o["q"]
        used |= set(q)
        if list(q) != sorted(q):
            ctx.probe("unordered")
            ctx.nontrivial = True
        if len(q) > 1 and max(q) - min(q) + 1 != len(q):
            ctx.probe("non-adjacent")
            ctx.nontrivial = True
        if len(q) == 3:
            ctx.probe("3-qubit")
        if len(q) >= 4:
            ctx.probe("4-qubit")
        if "custom" in str(o["gate"]):
            ctx.probe("custom")
        ctx.mark("gate-placement", [str(o["gate"])[:24], q, n])
        if objs.gate_symbols(o["gate"]):
            ctx.probe("symbolic")
    if len(used) < n:
        ctx.probe("idle")
    if not c["ops"]:
        ctx.probe("empty")
    if n >= 5:
        ctx.probe("wide")


def _close(a, b, tol=3e-10):
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.allclose(a, b, atol=tol, rtol=tol)


def _where(a, b):
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    i = np.unravel_index(np.nanargmax(np.abs(a - b)), a.shape)
    return f"entry {tuple(int(x) for x in i)} is {a[i]:.6g}, expected {b[i]:.6g}"


def _check_unitary(env, circ, ops, n, what):
    ctx = env["ctx"]
    out = ctx.call(circ.to_unitary)
    ctx.check(out.ok, "unitary-failed", lambda: f"{what}: to_unitary {out!r}")
    want = env["ref"].unitary(ops, n)
    with ctx.oracle(what + " unitary"):
        got = _numeric(out.value, env["scn"]["values"])
    ctx.check(_close(got, want), "unitary", lambda: f"{what}: {_where(got, want)}")


def _one(env, op):
    ctx, scn, ref = env["ctx"], env["scn"], env["ref"]
    ci = op["c"]
    c, circ, n = scn["circuits"][ci], env["circuits"][ci], env["widths"][ci]
    ops = ref.ops(c)
    kind = op["op"]
    ctx.log("op", kind, ci)
    ctx.time += 1
    has_mp = any(o[0] == "mp" for o in ops)
    if kind == "unitary":
        if not has_mp:
            _check_unitary(env, circ, ops, n, f"circuit {ci}")
        return
    if kind == "steps":
        op = dict(op, state=_state_kind(op["state"], c, n))
        vec, state = _gen_state(op["seed"], n, op["state"])
        symbolic = any(objs.gate_symbols(o["gate"]) for o in c["ops"] if "gate" in o)
        if symbolic and op["state"] == "list":
            state = vec.copy()
        if (symbolic or op["state"] == "matrix") and has_mp and symbolic:
            return  # phases on unevaluated amplitudes are only defined once everything is bound
        if op["state"] == "matrix":
            ctx.probe("symbolic-state")
        want = vec.astype(complex)
        for k, (o, r) in enumerate(zip(list(circ.operations), ops)):
            out = ctx.call(o.apply, state)
            ctx.check(out.ok, "apply-failed", lambda: f"circuit {ci}: operation {k} {o} on a {op['state']} state {out!r}")
            state = out.value
            want = objs.ref_state([r], n, want)
            with ctx.oracle("state"):
                got = _numeric(state, scn["values"])
                got = got.reshape(-1) if got.size == want.size else got
            ctx.check(_close(got, want), "apply", lambda: f"circuit {ci}: after operation {k} {o}: {_where(got, want)}")
        return
    if kind == "sim":
        _sim(env, op, c, circ, n, ops, ci)
        return
    # concatenation
    if kind == "concat":
        di = op["d"]
        d = scn["circuits"][di]
        width = max(n, env["widths"][di])
        if any("mp" in o for o in c["ops"] + d["ops"]) and n != env["widths"][di]:
            return
        out = ctx.call(lambda: circ + env["circuits"][di])
        all_ops = ops + ref.ops(d)
        what = f"circuit {ci} + circuit {di}"
        ctx.probe("concat")
    else:
        if has_mp:
            return
        g = op["gate"]
        width = max(n, max(g["q"]) + 1)
        out = ctx.call(lambda: circ + objs.build_op(g, env["defs"]))
        all_ops = ops + [ref.op(g)]
        what = f"circuit {ci} + operation on {g['q']}"
        ctx.probe("concat-op")
    ctx.check(out.ok, "concat-failed", lambda: f"{what} {out!r}")
    with ctx.oracle("concatenation"):
        got_w, got_n = int(out.value.n_qubits), len(list(out.value.operations))
    ctx.check(got_w == width, "width", lambda: f"{what} has {got_w} qubits, expected {width}")
    ctx.check(got_n == len(all_ops), "operations", lambda: f"{what} has {got_n} operations, expected {len(all_ops)}")
    if width <= 5 and not any(o[0] == "mp" for o in all_ops):
        _check_unitary(env, out.value, all_ops, width, what)
    elif not any("gate" in o and objs.gate_symbols(o["gate"]) for o in c["ops"]):
        _run(env, env["sims"][0], out.value, all_ops, width, None, what, {})


def _sim(env, op, c, circ, n, ops, ci):
    ctx, scn = env["ctx"], env["scn"]
    sim = env["sims"][op["s"]]
    symbolic = any("gate" in o and objs.gate_symbols(o["gate"]) for o in c["ops"])
    if symbolic and (scn["sims"][op["s"]]["kind"] != "sym" or any(o[0] == "mp" for o in ops)):
        # third-party engines and phases need numbers: bind first
        out = ctx.call(circ.bind, {sympy.Symbol(k): v for k, v in scn["values"].items()})
        ctx.check(out.ok, "bind-failed", lambda: f"circuit {ci}: bind {out!r}")
        circ = out.value
        symbolic = False
    if symbolic and op["init"] is not None:
        op = dict(op, init="array")
    op = dict(op, init=_state_kind(op["init"], c, n))
    if scn["sims"][op["s"]]["kind"] == "wf":
        total, _ = backends.segments(circ, sim.is_natively_supported)
        if total > 1:
            ctx.probe("split")
            ctx.nontrivial = True
            ctx.mark("split", [scn["sims"][op["s"]], total, len(ops)])
    init = None
    if op["init"]:
        init = _gen_state(op["seed"], n, op["init"])
        ctx.probe("initial-state")
    _run(env, sim, circ, ops, n, init, f"circuit {ci} on simulator {op['s']} ({scn['sims'][op['s']]})", op)


def _run(env, sim, circ, ops, n, init, what, op):
    ctx, service = env["ctx"], env["service"]
    want = objs.ref_state(ops, n, None if init is None else init[0])
    for attempt in range(1 + op.get("retry", 0)):
        service.arm(dict(op, fault=op.get("fault") if attempt == 0 else None, seed=op.get("seed", 0) + attempt))
        state = None if init is None else init[1]
        out = ctx.call(sim.get_wavefunction, circ) if state is None else ctx.call(sim.get_wavefunction, circ, state)
        ctx.log("get_wavefunction", out.kind)
        failed = any(not e["ok"] for e in service.log)
        if not out.ok:
            ctx.check(failed, "simulation-failed", lambda: f"{what} {out!r} although no backend call failed")
            if attempt < op.get("retry", 0):
                ctx.probe("retry")
                ctx.nontrivial = True
            continue
        ctx.check(not failed, "failure-swallowed", lambda: f"{what}: a backend failure was swallowed")
        with ctx.oracle("final state"):
            got = _numeric(out.value.amplitudes, env["scn"]["values"]).reshape(-1)
        ctx.check(_close(got, want), "final-state", lambda: f"{what}, attempt {attempt}: {_where(got, want)}")
        ctx.mark("state", [round(float(abs(x)), 4) for x in got[:8]])
        if not op.get("fault") and attempt == 0 and op.get("retry", 0) < 2:
            break


def simplify(scn):
    import copy

    for i, c in enumerate(scn["circuits"]):
        w = objs.circuit_width(c)
        for j in range(len(c["ops"])):
            d = copy.deepcopy(scn)
            d["circuits"][i]["ops"].pop(j)
            d["circuits"][i]["n"] = w
            yield d
    for i, op in enumerate(scn["ops"]):
        for k in ("fault", "init", "retry"):
            if op.get(k):
                c = copy.deepcopy(scn)
                c["ops"][i][k] = 0 if k == "retry" else None
                yield c
    if scn.get("plan"):
        c = copy.deepcopy(scn)
        c.pop("plan")
        c["callers"] = 1
        for o in c["ops"]:
            o["t"] = 0
        yield c

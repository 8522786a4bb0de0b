"""C04: every view of a simulated state agrees on which qubit is which.

A client observes the same programs through every view the library offers - state
vector, exact distribution, samples drawn few or many at a time, count strings,
empirical distributions, parities, expectation values from shots and exact ones -
while the simulator owns all entropy (ordinary and adversarial streams), makes the
native engine fail and be retried, and parks callers in the middle of a job while
another caller samples from the same simulator.  Each view is compared with one
independent reference state whose qubit numbering is the circuit's.
"""
import math
import warnings

import numpy as np
import sympy

from .. import backends, entropy, objs
from ..sched import Callers

RUNS = {"quick": 1500, "thorough": 40000}
RULE = (
    "one run = one seeded history of observations (amplitudes, exact distribution, samples, batches, empirical "
    "distribution, expectation values) of a pool of circuits on bundled and base-class simulators under scripted "
    "entropy, engine failures and overlapping callers; non-trivial = samples were drawn from a state that is not "
    "invariant under reversing the qubits"
)
REAL = ["wavefunction (sampling, probabilities)", "api.wavefunction_simulator", "runners.symbolic_simulator",
        "distributions", "measurements (counts, expectation values, parities)", "operators (sparse expectation)",
        "circuits", "numpy sampling code"]
STUB = ["entropy source (seeded or scripted bit generator)", "native wavefunction engine (independent dense simulator)"]
ASSUMPTIONS = [
    "register width at most 6, occasionally up to 11 with few gates",
    "with ordinary seeded entropy, sampled frequencies must lie within 7 sigma + 8 of the exact probabilities; with "
    "scripted entropy only membership in the support is judged, and an outcome whose exact probability is pure "
    "rounding noise (below 1e-12) is judged only for exactly representable (permutation) circuits",
]
PROBES = ["asymmetric", "few", "many", "boundary", "exact-circuit", "idle-qubits", "wide", "empty-register",
          "adversarial", "batch", "retry", "overlap", "bound", "general-pauli", "zero-term", "constant-term",
          "parities", "empirical", "mp", "recount", "reversed-view"]
LIST_FIELDS = ["ops", "plan.switches"]
EXACT = {"X", "CNOT", "SWAP", "Z", "S", "I", "CZ"}
SYMS = ["a", "b"]


def _gen_exact(rng, n):
    ops = []
    for _ in range(rng.randrange(1, 2 * n + 2)):
        g = rng.choice(["X", "X", "CNOT", "SWAP", "Z", "S", "I"])
        k = objs.ARITY[g][1]
        if k <= n:
            ops.append({"gate": {"g": g, "p": []}, "q": rng.sample(range(n), k)})
    return ops


def _gen_product(rng, n):
    """Distinct one-qubit rotations, then entanglers: every qubit has its own bias."""
    ops = []
    for q in range(n):
        if rng.random() < 0.8:
            ops.append({"gate": {"g": "RY", "p": [rng.uniform(0.2, 3.0)]}, "q": [q]})
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        if n > 1:
            g = rng.choice(["CNOT", "CZ", "SWAP", "ISWAP"])
            ops.append({"gate": {"g": g, "p": []}, "q": rng.sample(range(n), 2)})
    return ops


def _gen_op_terms(rng, n, alphabet):
    terms = []
    for _ in range(rng.choice([1, 1, 2, 3, 5]) if n < 7 else rng.choice([2, 5, 8, 12])):
        terms.append(objs.gen_term(rng, n, alphabet, complex_ok=False, p_const=0.15))
    if rng.random() < 0.1:
        terms.append({"ops": [], "c": rng.uniform(-2, 2)})
    if rng.random() < 0.1:
        terms[0]["c"] = 0.0
    if rng.random() < 0.12:
        scale = 10.0 ** rng.choice([-16, -12, -7, 5, 11])
        for t in terms if rng.random() < 0.6 else terms[-1:]:
            t["c"] = t["c"] * scale
    if rng.random() < 0.15:  # the same Pauli string twice
        terms.append(dict(terms[0], **({"c": rng.uniform(-1, 1)} if rng.random() < 0.7 else {})))
    return terms if len(terms) > 1 or rng.random() < 0.5 else terms[0]


def generate(rng, tier, index):
    circs, defs = [], []
    if rng.random() < 0.3:
        defs.append(objs.gen_custom_def(rng, "cust", ["u", "v"]))
    base = rng.choice([1, 2, 2, 3, 3, 4, 5])
    for _ in range(rng.choice([1, 2, 2, 3])):
        n = max(1, min(6, base + rng.choice([-1, 0, 0, 1])))
        style = rng.random()
        if style < 0.3:
            c = {"n": None, "ops": _gen_exact(rng, n), "exact": True}
        elif style < 0.65:
            c = {"n": None, "ops": _gen_product(rng, n)}
        elif style < 0.68:
            # nearly every shot is a different outcome
            n = rng.choice([7, 7, 8])
            c = {"n": n, "ops": [{"gate": {"g": "RY", "p": [rng.uniform(0.6, 2.5)]}, "q": [q]} for q in range(n)]}
            c["ops"] += [{"gate": {"g": rng.choice(["CNOT", "CZ", "SWAP"]), "p": []}, "q": rng.sample(range(n), 2)}
                         for _ in range(rng.choice([0, 1, 2]))]
        elif style < 0.71:
            n = rng.choice([8, 9, 10, 11])
            c = {"n": n, "ops": _gen_exact(rng, n)[:8], "exact": True}
            if rng.random() < 0.5:
                c = {"n": n, "ops": [{"gate": {"g": "RY", "p": [rng.uniform(0.5, 2.5)]}, "q": [q]}
                                     for q in rng.sample(range(n), 3)] + c["ops"][:3]}
        elif style < 0.74:
            c = {"n": 0, "ops": [], "exact": True}
        else:
            sym = rng.random() < 0.25 and n <= 3

            def param():
                if sym and rng.random() < 0.5:
                    return objs.gen_expr(rng, SYMS, 1, objs.REAL_FUNS)
                return objs.gen_float(rng)

            c = objs.gen_circuit(rng, n, rng.choice([1, 2, 4, 7]), [d for d in defs if objs.def_qubits(d) <= n], param,
                                 multiphase=rng.random() < 0.3 and not sym, depth=1, wrappers=("dagger", "ctrl"))
        if c["n"] is None and c["ops"] and rng.random() < 0.3 and not any("mp" in o for o in c["ops"]):
            c["n"] = min(7, objs.circuit_width(c) + rng.choice([1, 1, 2]))
        if c["n"] is None and not c["ops"]:
            c["n"] = n
        circs.append(c)
    if rng.random() < 0.2:
        circs.append(objs.nudge(rng, rng.choice(circs)))
    sims = []
    for _ in range(rng.choice([1, 1, 2])):
        sims.append({"kind": rng.choice(["sym", "sym", "wf"]), "native": backends.gen_native(rng),
                     "seed": rng.choice([None, None, None, rng.randrange(1 << 20)])})
    callers = rng.choice([1, 1, 2])
    p_fault = rng.choice([0.0, 0.0, 0.4])
    ops = []
    for _ in range(rng.choice([2, 4, 6, 8])):
        ci = rng.randrange(len(circs))
        w = objs.circuit_width(circs[ci])
        kind = rng.choice(["amps", "dist", "sample", "sample", "sample", "batch", "empirical", "exact", "exact",
                           "shots", "shots", "flip"])
        op = {"op": kind, "c": ci, "s": rng.randrange(len(sims)), "t": rng.randrange(callers),
              "seed": rng.randrange(1 << 30), "retry": rng.randrange(3)}
        if rng.random() < p_fault:
            op["fault"] = backends.gen_fault(rng, 1)
        big = 2**w
        op["n"] = rng.choice([1, 2, 3, max(1, big - 1), big, big + 1, 2 * big + 3, 400, 1500])
        if w <= 4 and rng.random() < 0.03:
            op["n"] = rng.choice([5000, 12000, 30000])
        if kind == "batch":
            op["cs"] = [rng.randrange(len(circs)) for _ in range(rng.choice([1, 2, 3]))]
            op["ns"] = [rng.choice([1, 3, 17, 70, 300]) for _ in op["cs"]] if rng.random() < 0.7 else rng.choice([1, 9, 70, 300])
        if kind in ("exact", "flip"):
            op["o"] = _gen_op_terms(rng, w, rng.choice(["Z", "XYZ", "XYZ"]))
        if kind == "shots":
            op["o"] = _gen_op_terms(rng, w, "Z")
        ops.append(op)
        if w > 8 and kind != "shots" and rng.random() < 0.6:
            ops.append({k: op[k] for k in ("c", "s", "t", "seed", "retry")}
                       | {"op": "shots", "n": rng.choice([3, 40, 400]), "o": _gen_op_terms(rng, w, "Z")})
    scn = {"defs": defs, "circuits": circs, "sims": sims, "ops": ops, "callers": callers,
           "values": {s: rng.uniform(-3, 3) for s in SYMS},
           "entropy": {"seed": rng.randrange(1 << 40), "mode": rng.choice([None, None] + entropy.MODES)}}
    if callers > 1:
        scn["plan"] = {"mode": "random", "seed": rng.randrange(1 << 30), "p": 0.0, "seam_p": rng.choice([0.3, 0.6, 0.9])}
    return scn


# ---------------------------------------------------------------- execution


def _op_desc(o):
    return {"terms": o} if isinstance(o, list) else o


def execute(scn, ctx):
    warnings.simplefilter("ignore")
    with entropy.controlled(scn["entropy"]):
        _execute(scn, ctx)


def _execute(scn, ctx):
    from orquestra.quantum.runners import SymbolicSimulator

    _, _, SimWf = backends.classes()
    callers = Callers(ctx, scn["plan"]) if scn.get("plan") else None
    service = backends.Service(ctx, callers)
    defs = {d["name"]: objs.build_def(d) for d in scn["defs"]}
    mode = scn["entropy"]["mode"]
    if mode:
        ctx.fault("entropy." + mode)
        ctx.probe("adversarial")
    items = []
    for c in scn["circuits"]:
        circ = objs.build_circuit(c, defs)
        w = objs.circuit_width(c)
        vals = {sympy.Symbol(k): v for k, v in scn["values"].items()}
        if any("gate" in o and objs.gate_symbols(o["gate"]) for o in c["ops"]):
            out = ctx.call(circ.bind, vals)
            ctx.check(out.ok, "bind-failed", lambda: f"bind {out!r}")
            circ = out.value
            ctx.probe("bound")
        refops = []
        for o in c["ops"]:
            if "mp" in o:
                refops.append(("mp", o["mp"]))
                ctx.probe("mp")
            else:
                m = objs.build_gate(o["gate"], defs).matrix
                if m.free_symbols:
                    m = m.subs(vals)
                refops.append(("g", np.array(m, dtype=complex), tuple(o["q"])))
        psi = objs.ref_state(refops, w)
        p = np.abs(psi) ** 2
        rev = p.reshape([2] * w).transpose(list(reversed(range(w)))).reshape(-1) if w else p
        items.append({"circ": circ, "w": w, "psi": psi, "p": p, "exact": bool(c.get("exact")),
                      "asym": float(np.abs(p - rev).max()) > 0.01})
        ctx.check(int(circ.n_qubits) == w, "width", lambda: f"circuit reports {circ.n_qubits} qubits, expected {w}")
        if c.get("exact"):
            ctx.probe("exact-circuit")
        if w >= 8:
            ctx.probe("wide")
        if w == 0:
            ctx.probe("empty-register")
        used = {q for o in c["ops"] for q in o.get("q", range(w))}
        if len(used) < w:
            ctx.probe("idle-qubits")
        if items[-1]["asym"]:
            ctx.probe("asymmetric")
    sims = []
    for s in scn["sims"]:
        sims.append(SymbolicSimulator(seed=s["seed"]) if s["kind"] == "sym" else SimWf(service, s["native"], s["seed"]))
    env = dict(ctx=ctx, scn=scn, items=items, sims=sims, service=service, mode=mode)
    if callers is None:
        for op in scn["ops"]:
            _one(env, op)
    else:
        def program(t):
            def body(cs):
                for op in scn["ops"]:
                    if op["t"] == t:
                        _one(env, op)
                        cs.point("between")
            return body

        callers.run([program(t) for t in range(scn["callers"])])
        ctx.schedule = callers.recorded
        if callers.recorded:
            ctx.probe("overlap")
            ctx.mark("interleaving", callers.recorded)


def _call(env, op, what, fn, *args):
    """Call through the job service; a failed job is retried by the client."""
    ctx, service = env["ctx"], env["service"]
    for attempt in range(2 + op.get("retry", 0)):
        service.arm(dict(op, fault=op.get("fault") if attempt == 0 else None))
        out = ctx.call(fn, *args)
        ctx.log(what, out.kind)
        failed = any(not e["ok"] for e in service.log)
        if out.ok:
            ctx.check(not failed, "failure-swallowed", lambda: f"{what}: a backend failure was swallowed")
            return out.value
        ctx.check(failed, "view-failed", lambda: f"{what} {out!r}")
        ctx.probe("retry")
    return None


def _close(a, b, scale=1.0, tol=1e-9):
    return abs(complex(a) - complex(b)) <= tol * scale


def _norm(terms):
    return sum(abs(complex(objs.coeff(t["c"]))) for t in terms)


def _check_shots(env, it, shots, n, what, exactly=False):
    """shots: list of tuples; n requested."""
    ctx, p, w = env["ctx"], it["p"], it["w"]
    with ctx.oracle(what):
        tuples = [tuple(int(b) for b in t) for t in shots]
        lens = {len(t) for t in shots}
        kinds = all(isinstance(t, tuple) for t in shots)
    ctx.check(kinds, "shape", lambda: f"{what}: samples are not tuples")
    ctx.check(len(tuples) >= n, "too-few", lambda: f"{what}: {len(tuples)} samples of {n}")
    ctx.check(lens == {w}, "sample-length", lambda: f"{what}: samples of length {sorted(lens)} for {w} qubits")
    counts = {}
    for t in tuples:
        counts[t] = counts.get(t, 0) + 1
    total = len(tuples)
    for t, k in counts.items():
        ctx.check(set(t) <= {0, 1}, "sample-values", lambda: f"{what}: sample {t}")
        i = int("".join(map(str, t)) or "0", 2)
        if it["exact"] or env["mode"] is None:
            ctx.check(p[i] > 1e-12, "impossible-outcome",
                      lambda: f"{what}: sampled {t}, whose exact probability is {p[i]:.3g}")
        else:
            # scripted entropy may select an outcome of rounding-noise size, never half of the shots
            ctx.check(p[i] > 1e-12 or k <= 0.6 * total + 8, "impossible-outcome",
                      lambda: f"{what}: sampled {t} {k} times, whose exact probability is {p[i]:.3g}")
    if env["mode"] is None:
        for i in range(2**w) if w <= 6 else ():
            k = counts.get(objs.bits(i, w), 0)
            sd = math.sqrt(total * p[i] * max(0.0, 1 - p[i]))
            ctx.check(abs(k - total * p[i]) <= 7 * sd + 8, "frequency",
                      lambda: f"{what}: outcome {objs.bits(i, w)} seen {k} of {total} times, exact probability {p[i]:.4f}")
        idx = np.arange(2**w)
        for q in range(w):
            pq = float(p[(idx >> (w - 1 - q)) & 1 == 1].sum())
            k = sum(t[q] * c for t, c in counts.items())
            sd = math.sqrt(total * pq * max(0.0, 1 - pq))
            ctx.check(abs(k - total * pq) <= 7 * sd + 8, "frequency",
                      lambda: f"{what}: qubit {q} measured 1 in {k} of {total} shots, exact probability {pq:.4f}")
    if it["asym"]:
        ctx.nontrivial = True
    big = 2**w
    ctx.probe("boundary" if n in (big - 1, big, big + 1) else "many" if n > big else "few")
    ctx.mark("sampled", [w, n > big, sorted(counts.items())[:6]])
    return counts, total


def _check_counts(env, it, meas, counts, what):
    ctx, w = env["ctx"], it["w"]
    out = ctx.call(meas.get_counts)
    ctx.check(out.ok, "counts-failed", lambda: f"{what}: get_counts {out!r}")
    with ctx.oracle(what):
        got = {str(k): int(v) for k, v in out.value.items()}
    want = {"".join(map(str, t)): k for t, k in counts.items()}
    ctx.check(got == want, "counts", lambda: f"{what}: count strings {got} do not match the tuples {want}")
    return out.value


def _check_empirical(env, it, dist, counts, total, what):
    ctx = env["ctx"]
    with ctx.oracle(what):
        got = {tuple(int(x) for x in k): float(v) for k, v in dist.distribution_dict.items()}
    ctx.check(all(len(k) == it["w"] for k in got), "sample-length", lambda: f"{what}: keys {list(got)[:3]}")
    for k in set(got) | set(counts):
        ctx.check(abs(got.get(k, 0.0) - counts.get(k, 0) / total) < 1e-9, "empirical",
                  lambda: f"{what}: outcome {k} has {got.get(k, 0.0)}, {counts.get(k, 0)} of {total} shots")


def _one(env, op):
    ctx, scn = env["ctx"], env["scn"]
    it, sim = env["items"][op["c"]], env["sims"][op["s"]]
    circ, w, psi, p = it["circ"], it["w"], it["psi"], it["p"]
    kind, n = op["op"], op["n"]
    ctx.time += 1
    what = f"{kind} of circuit {op['c']} ({w} qubits) on {scn['sims'][op['s']]['kind']} simulator"
    ctx.log("op", kind, op["c"])
    if kind == "amps":
        wf = _call(env, op, what, sim.get_wavefunction, circ)
        if wf is None:
            return
        with ctx.oracle(what):
            amps = np.array([complex(x) for x in np.asarray(wf.amplitudes, dtype=object).reshape(-1)])
            probs = np.asarray(wf.get_probabilities(), dtype=float).reshape(-1)
        ctx.check(amps.shape == psi.shape and np.allclose(amps, psi, rtol=1e-9, atol=3e-10), "amplitudes",
                  lambda: f"{what}: {amps[:8]} expected {psi[:8]}")
        ctx.check(np.allclose(probs, p, rtol=1e-9, atol=3e-10), "probabilities", lambda: f"{what}: {probs[:8]} expected {p[:8]}")
    elif kind == "dist":
        d = _call(env, op, what, sim.get_measurement_outcome_distribution, circ)
        if d is None:
            return
        with ctx.oracle(what):
            got = {tuple(int(x) for x in k): float(v) for k, v in d.distribution_dict.items()}
        ctx.check(all(len(k) == w for k in got), "sample-length", lambda: f"{what}: keys {list(got)[:4]}")
        for i in range(2**w):
            ctx.check(abs(got.get(objs.bits(i, w), 0.0) - p[i]) < 3e-10, "distribution",
                      lambda: f"{what}: outcome {objs.bits(i, w)} has probability {got.get(objs.bits(i, w), 0.0)}, expected {p[i]}")
        ctx.check(abs(sum(got.values()) - 1) < 1e-6, "distribution", lambda: f"{what}: total {sum(got.values())}")
    elif kind == "sample":
        m = _call(env, op, f"{what}, {n} samples", sim.run_and_measure, circ, n)
        if m is None:
            return
        what = f"{what}, {n} samples, entropy {env['mode'] or 'seeded'}"
        counts, total = _check_shots(env, it, m.bitstrings, n, what)
        strings = _check_counts(env, it, m, counts, what)
        out = ctx.call(m.get_distribution)
        ctx.check(out.ok, "distribution-failed", lambda: f"{what}: get_distribution {out!r}")
        _check_empirical(env, it, out.value, counts, total, what)
        # recorded as count strings and read back: the same shots
        from orquestra.quantum.measurements import Measurements

        out = ctx.call(Measurements.from_counts, strings)
        ctx.check(out.ok, "from-counts-failed", lambda: f"{what}: from_counts {out!r}")
        with ctx.oracle(what):
            again = sorted(tuple(int(b) for b in t) for t in out.value.bitstrings)
        ctx.check(again == sorted(t for t, k in counts.items() for _ in range(k)), "recount",
                  lambda: f"{what}: shots rebuilt from the count strings differ")
        ctx.probe("recount")
    elif kind == "batch":
        items = [env["items"][i] for i in op["cs"]]
        ns = op["ns"] if isinstance(op["ns"], list) else [op["ns"]] * len(items)
        ms = _call(env, op, f"batch {op['cs']}", sim.run_batch_and_measure, [i["circ"] for i in items], op["ns"])
        if ms is None:
            return
        with ctx.oracle("batch"):
            ms = list(ms)
        ctx.check(len(ms) == len(items), "batch-length", lambda: f"batch of {len(items)} gave {len(ms)} results")
        ctx.probe("batch")
        for k, (i, m, nn) in enumerate(zip(items, ms, ns)):
            what = f"batch {op['cs']} member {k}, {nn} samples, entropy {env['mode'] or 'seeded'}"
            counts, total = _check_shots(env, i, m.bitstrings, nn, what)
            _check_counts(env, i, m, counts, what)
    elif kind == "empirical":
        d = _call(env, op, f"{what}, {n} samples", sim.get_measurement_outcome_distribution, circ, n)
        if d is None:
            return
        with ctx.oracle(what):
            got = {tuple(int(x) for x in k): float(v) for k, v in d.distribution_dict.items()}
            shots = []
            for k, v in got.items():
                shots += [k] * int(round(v * n))
        ctx.check(abs(sum(got.values()) - 1) < 1e-6, "empirical", lambda: f"{what}: total {sum(got.values())}")
        _check_shots(env, it, shots, min(n, len(shots)), f"{what}, {n} samples, entropy {env['mode'] or 'seeded'}")
        ctx.probe("empirical")
    elif kind == "exact":
        desc = _op_desc(op["o"])
        operator = objs.build_operator(desc)
        got = _call(env, op, what, sim.get_exact_expectation_values, circ, operator)
        if got is None:
            return
        with ctx.oracle(what):
            got = complex(got)
        # the operator applied term by term to the reference state
        want = _quad(psi, desc, w)
        ctx.check(_close(got, want.real, _norm(objs.desc_terms(desc))), "exact-expectation",
                  lambda: f"{what}: <{operator}> = {got}, the state's quadratic form is {want.real:.9g}")
        terms = objs.desc_terms(desc)
        if any(o != "Z" for t in terms for _, o in t["ops"]):
            ctx.probe("general-pauli")
        else:
            d = _call(env, dict(op, fault=None), what, sim.get_measurement_outcome_distribution, circ)
            with ctx.oracle(what):
                avg = sum(float(v) * sum(objs.coeff(t["c"]) * objs.z_eigenvalue(t["ops"], [int(x) for x in k]) for t in terms)
                          for k, v in d.distribution_dict.items())
            ctx.check(_close(got, avg, _norm(terms)), "distribution-average",
                      lambda: f"{what}: <{operator}> = {got}, average of eigenvalues over the exact distribution {avg:.9g}")
        _probe_terms(ctx, terms)
    elif kind == "flip":
        # a state written in the opposite qubit convention, read with the operator reversed
        from orquestra.quantum.operators import get_expectation_value
        from orquestra.quantum.wavefunction import flip_wavefunction

        desc = _op_desc(op["o"])
        operator = objs.build_operator(desc)
        wf = _call(env, op, what, sim.get_wavefunction, circ)
        if wf is None:
            return
        out = ctx.call(lambda: get_expectation_value(operator, flip_wavefunction(wf), reverse_operator=True))
        ctx.check(out.ok, "view-failed", lambda: f"{what}: reversed expectation value {out!r}")
        want = _quad(psi, desc, w)
        with ctx.oracle(what):
            got = complex(out.value)
        # reversing builds a sum, and operator arithmetic drops coefficients below 1e-8
        ctx.check(_close(got, want, 100 + _norm(objs.desc_terms(desc))), "reversed-expectation",
                  lambda: f"{what}: <{operator}> on the flipped state with the operator reversed = {got}, expected {want:.9g}")
        ctx.probe("reversed-view")
    elif kind == "shots":
        from orquestra.quantum.measurements import get_expectation_values_from_parities, get_parities_from_measurements

        desc = _op_desc(op["o"])
        terms = objs.desc_terms(desc)
        operator = objs.build_operator(desc)
        m = _call(env, op, f"{what}, {n} samples", sim.run_and_measure, circ, n)
        if m is None:
            return
        what = f"{what}, {n} samples, entropy {env['mode'] or 'seeded'}"
        counts, total = _check_shots(env, it, m.bitstrings, n, what)
        out = ctx.call(m.get_expectation_values, operator)
        ctx.check(out.ok, "expectation-failed", lambda: f"{what}: get_expectation_values({operator}) {out!r}")
        with ctx.oracle(what):
            vals = [complex(v) for v in out.value.values]
        ctx.check(len(vals) == len(terms), "expectation-length", lambda: f"{what}: {len(vals)} values for {len(terms)} terms")
        par = None
        if total and w:
            pout = ctx.call(get_parities_from_measurements, m.bitstrings, operator)
            ctx.check(pout.ok, "parities-failed", lambda: f"{what}: parities {pout!r}")
            eout = ctx.call(get_expectation_values_from_parities, pout.value)
            ctx.check(eout.ok, "parities-failed", lambda: f"{what}: expectation values from parities {eout!r}")
            with ctx.oracle(what):
                par = [complex(v) for v in eout.value.values]
            ctx.probe("parities")
        for k, t in enumerate(terms):
            avg = sum(c * objs.z_eigenvalue(t["ops"], o) for o, c in counts.items()) / total
            want = objs.coeff(t["c"]) * avg
            ctx.check(_close(vals[k], want, _norm([t])), "sample-expectation",
                      lambda: f"{what}: term {t} estimated {vals[k]}, coefficient times sample average is {want:.9g}")
            if par is not None:
                ctx.check(_close(par[k], avg), "parity-expectation",
                          lambda: f"{what}: term {t} from parities {par[k]}, sample average is {avg:.9g}")
            if it["exact"]:
                i = int(np.argmax(p))
                want = objs.coeff(t["c"]) * objs.z_eigenvalue(t["ops"], objs.bits(i, w))
                ctx.check(_close(vals[k], want, _norm([t])), "basis-state-expectation",
                          lambda: f"{what}: term {t} estimated {vals[k]} on basis state {objs.bits(i, w)}, exact {want:.9g}")
        _probe_terms(ctx, terms)


def _quad(psi, desc, w):
    total = 0j
    for t in objs.desc_terms(desc):
        phi = psi
        for q, o in t["ops"]:
            phi = objs.apply_matrix(objs.PAULI[o], (q,), phi)
        total += objs.coeff(t["c"]) * np.vdot(psi, phi)
    return total


def _probe_terms(ctx, terms):
    for t in terms:
        if not t["ops"]:
            ctx.probe("constant-term")
        if objs.coeff(t["c"]) == 0:
            ctx.probe("zero-term")


def simplify(scn):
    import copy

    for i, c in enumerate(scn["circuits"]):
        w = objs.circuit_width(c)
        for j in range(len(c["ops"])):
            d = copy.deepcopy(scn)
            d["circuits"][i]["ops"].pop(j)
            d["circuits"][i]["n"] = w
            yield d
    for i, op in enumerate(scn["ops"]):
        for k in ("fault", "retry"):
            if op.get(k):
                c = copy.deepcopy(scn)
                c["ops"][i][k] = 0 if k == "retry" else None
                yield c
        if isinstance(op.get("o"), list) and len(op["o"]) > 1:
            for j in range(len(op["o"])):
                c = copy.deepcopy(scn)
                c["ops"][i]["o"].pop(j)
                yield c
        for small in (1, 2):
            if op["n"] > small:
                c = copy.deepcopy(scn)
                c["ops"][i]["n"] = small
                yield c
    if scn["entropy"]["mode"]:
        c = copy.deepcopy(scn)
        c["entropy"]["mode"] = None
        yield c
    if scn.get("plan"):
        c = copy.deepcopy(scn)
        c.pop("plan")
        c["callers"] = 1
        for o in c["ops"]:
            o["t"] = 0
        yield c

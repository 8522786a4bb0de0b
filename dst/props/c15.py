"""C15: estimation returns one correctly weighted result per task, in task order.

Clients submit mixed lists of estimation tasks (measurable, constant, zero-shot, in
any order) through runners whose backend is a simulated job service: it completes
batch members out of order, over-delivers, fails, loses answers, and overlaps the
jobs of several clients that share tasks and runners.  The service answers every
circuit with shots that are a function of the circuit alone, so the expected value
of each task is known whatever the schedule; a result at the wrong index, with the
wrong weight or mixed with another client's shots is visible.
"""
import copy
import math
import random
import warnings

import numpy as np
import sympy

from .. import backends, entropy, objs
from ..sched import Callers

RUNS = {"quick": 4000, "thorough": 100000}
RULE = (
    "one run = one seeded history of estimation, exact evaluation, splitting and binding calls on shared task lists, "
    "with out-of-order, failing and overlapping jobs; non-trivial = a list mixed at least two task kinds and at least "
    "two measured tasks, or a call was retried after a failure"
)
REAL = ["estimation", "api.estimation", "api.circuit_runner", "api.wavefunction_simulator", "measurements",
        "operators", "runners.symbolic_simulator", "circuits"]
STUB = ["job service behind _run_and_measure / _run_batch_and_measure (scripted shots per circuit)",
        "native wavefunction engine (independent dense simulator)", "entropy source (seeded or scripted)"]
ASSUMPTIONS = [
    "register width at most 4, task lists up to 12",
    "measured operators have real coefficients (estimation keeps the real part by design); constants may be complex",
    "frequencies of seeded sampling judged at 7 sigma; scripted entropy only where the state is a basis state",
]
PROBES = ["measured", "constant", "multi-constant", "empty-operator", "zero-shot", "mixed", "all-unmeasured", "empty-list",
          "retry", "overlap", "over-delivery", "exact", "bind", "partial-bind", "basis-state", "duplicate-task",
          "shared-list", "general-pauli", "split"]
LIST_FIELDS = ["ops", "plan.switches"]
SYMS = ["a", "b", "theta_1"]


def _gen_terms(rng, w, alphabet="Z"):
    terms = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        terms.append(objs.gen_term(rng, w, alphabet, complex_ok=False, p_const=0.12))
    if rng.random() < 0.12:
        terms.append(dict(terms[0], c=rng.uniform(-1, 1)))
    if rng.random() < 0.08:
        terms[0]["c"] = 0.0
    if rng.random() < 0.3:  # coefficients become complex as soon as terms were multiplied
        for t in terms:
            t["c"] = ["c", float(t["c"]), 0.0]
    if rng.random() < 0.2:  # energies in unusual units
        scale = 10.0 ** rng.choice([-17, -13, -9, -6, 5, 9, 14])
        for t in terms if rng.random() < 0.6 else [rng.choice(terms)]:
            t["c"] = ["c", t["c"][1] * scale, 0.0] if isinstance(t["c"], list) else t["c"] * scale
    if rng.random() < 0.4:
        return rng.choice(terms)
    return {"terms": terms}


def _twin(rng, c, tag):
    """A circuit that differs from c by less than what circuit equality notices."""
    c = copy.deepcopy(c)
    for o in c["ops"]:
        if o["gate"]["g"] in ("RX", "RY") and not isinstance(o["gate"]["p"][0], list) and rng.random() < 0.8:
            o["gate"]["p"][0] += rng.choice([-1, 1]) * rng.uniform(4e-9, 9e-9)
    c["ops"][-1]["gate"]["p"] = [tag]
    c["tag"] = tag
    return c


def _gen_constant(rng):
    r = rng.random()
    if r < 0.35:
        return {"ops": [], "c": objs.gen_coeff(rng)}
    if r < 0.5:
        return {"terms": []}
    out = [{"ops": [], "c": objs.gen_coeff(rng)} for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.3:  # the same constant again
        out.append(dict(out[0]))
    return {"terms": out}


def generate(rng, tier, index):
    w = rng.choice([1, 2, 3, 3, 4])
    wide = rng.random() < 0.01
    if wide:
        w = 11
    circs = []
    for k in range(rng.choice([1, 2, 3, 4])):
        style = rng.choice(["basis", "basis", "basis", "general", "symbolic"]) if not wide else "basis"
        ops = []
        n = rng.choice([w, w, w + 1]) if w < 4 else w
        if style == "basis":
            for q in range(n):
                if rng.random() < 0.5:
                    ops.append({"gate": {"g": "X", "p": []}, "q": [q]})
            for _ in range(rng.choice([0, 1, 2])):
                if n > 1:
                    ops.append({"gate": {"g": rng.choice(["CNOT", "SWAP"]), "p": []}, "q": rng.sample(range(n), 2)})
        elif style == "general":
            for q in range(n):
                ops.append({"gate": {"g": "RY", "p": [rng.uniform(0, 3)]}, "q": [q]})
            if n > 1:
                ops.append({"gate": {"g": rng.choice(["CNOT", "ISWAP", "CZ"]), "p": []}, "q": rng.sample(range(n), 2)})
        else:
            for q in range(n):
                ops.append({"gate": {"g": rng.choice(["RX", "RY"]), "p": [objs.gen_expr(rng, SYMS, 1, objs.REAL_FUNS)]}, "q": [q]})
        # the circuit's tag: a phase that changes no probability but makes it recognisable
        tag = round(0.01 * (k + 1) + 0.001, 6)
        ops.append({"gate": {"g": "PHASE", "p": [tag]}, "q": [rng.randrange(n)]})
        circs.append({"n": n, "ops": ops, "style": style, "tag": tag})
    base = None
    if rng.random() < 0.3:
        base = rng.choice(circs)
        circs.append(_twin(rng, base, base["tag"] + rng.choice([-1, 1]) * rng.uniform(4e-9, 9e-9)))
    tasks = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9, 12])):
        ci = rng.randrange(len(circs))
        kind = rng.choice(["measured", "measured", "constant", "zero"])
        t = {"c": ci, "kind": kind}
        if kind == "measured":
            t["o"], t["n"] = _gen_terms(rng, w), rng.choice([1, 2, 3, 10, 100, 777])
        elif kind == "constant":
            t["o"], t["n"] = _gen_constant(rng), rng.choice([0, 1, 50, None])
        else:
            t["o"], t["n"] = _gen_terms(rng, w, rng.choice(["Z", "XYZ"])), 0
            if not any(x["ops"] for x in objs.desc_terms(t["o"])):
                t["o"] = {"ops": [[0, "Z"]], "c": rng.uniform(-2, 2)}
        tasks.append(t)
    for i in range(1, len(tasks)):  # one operator, several circuits
        if rng.random() < 0.2:
            t, prev = tasks[i], tasks[i - 1]
            t.update({k: prev[k] for k in ("kind", "o", "n")}, share=prev.get("share", i - 1))
            if base is not None and rng.random() < 0.5:  # the two circuits that look equal
                prev["c"], t["c"] = rng.sample([circs.index(base), len(circs) - 1], 2)
    # an operator whose terms are all constant is a constant task whatever was drawn
    for t in tasks:
        if not any(x["ops"] for x in objs.desc_terms(t["o"])):
            t["kind"] = "constant"
    runners = []
    for _ in range(rng.choice([1, 2])):
        runners.append({"kind": rng.choice(["svc", "svc", "svcbatch", "svcbatch", "sym", "wf"]), "native": backends.gen_native(rng)})
    callers = rng.choice([1, 1, 2, 3])
    p_fault = rng.choice([0.0, 0.3, 0.6])
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        kind = rng.choice(["estimate", "estimate", "estimate", "exact", "split", "bind", "nonmeasured"])
        op = {"op": kind, "t": rng.randrange(callers), "r": rng.randrange(len(runners)), "seed": rng.randrange(1 << 30)}
        idx = list(range(len(tasks)))
        if rng.random() < 0.6:
            rng.shuffle(idx)
            idx = idx[:rng.randrange(len(idx) + 1)]
            if idx and rng.random() < 0.3:
                idx.append(rng.choice(idx))  # the same task object twice
        op["idx"] = idx
        op["extra"] = rng.choice([0, 0, 3])
        op["np"] = rng.random() < 0.2 and backends.gen_bits(rng)
        if rng.random() < p_fault:
            op["fault"] = backends.gen_fault(rng, rng.choice([0, 1, 4]))
        if kind == "bind":
            op["maps"] = [{s: rng.choice([rng.uniform(-3, 3), rng.randrange(-3, 4), math.pi]) for s in SYMS + ["unused"]
                           if rng.random() < 0.75} for _ in idx]
        ops.append(op)
    scn = {"circuits": circs, "tasks": tasks, "runners": runners, "ops": ops, "callers": callers,
           "values": {s: rng.uniform(-3, 3) for s in SYMS},
           "entropy": {"seed": rng.randrange(1 << 40), "mode": rng.choice([None, None, None] + entropy.MODES)}}
    if callers > 1:
        scn["plan"] = {"mode": "random", "seed": rng.randrange(1 << 30), "p": 0.0, "seam_p": rng.choice([0.3, 0.6, 0.9])}
    return scn


# ---------------------------------------------------------------- execution


def execute(scn, ctx):
    warnings.simplefilter("ignore")
    with entropy.controlled(scn["entropy"]):
        _execute(scn, ctx)


def _runner_classes(env):
    from orquestra.quantum.api.circuit_runner import BaseCircuitRunner
    from orquestra.quantum.measurements import Measurements

    service = env["service"]

    def shots(circuit, n):
        """The device's answer: a function of the circuit and the number of shots only."""
        ci = _which(env, circuit)
        item = env["items"][ci]
        n = int(n) + (service.local.extra if n % 2 else 0)
        if item["basis"] is not None:
            out = [item["basis"]] * n
        else:
            out = _scripted(ci, item["w"], n)
        return [backends.cast_bits(t, service.local.np_ints) for t in out]

    class Svc(BaseCircuitRunner):
        def _run_and_measure(self, circuit, n_samples):
            entry, _ = service.invoke("run", n=n_samples)
            return service.finish(entry, Measurements(shots(circuit, n_samples)))

    class SvcBatch(Svc):
        def _run_batch_and_measure(self, batch, samples_per_circuit):
            entry, rng = service.invoke("batch", ns=list(samples_per_circuit))
            order = list(range(len(batch)))
            rng.shuffle(order)
            results = [None] * len(batch)
            for i in order:
                results[i] = Measurements(shots(batch[i], samples_per_circuit[i]))
            service.ctx.log("completion-order", order)
            return service.finish(entry, results)

    return Svc, SvcBatch


def _scripted(ci, w, n):
    r = random.Random(f"shots/{ci}")
    base = [tuple(r.randrange(2) for _ in range(w)) for _ in range(7)]
    return [base[(i * i) % 7] if i % 3 else base[i % 7] for i in range(n)]


def _which(env, circuit):
    for op in circuit.operations:
        if op.gate.name == "PHASE":
            v = op.params[0]
            for i, c in enumerate(env["scn"]["circuits"]):
                if abs(float(v) - c["tag"]) < 1e-10:
                    return i
    env["ctx"].fail("unknown-circuit", "a circuit that no task contains was submitted")


def _execute(scn, ctx):
    from orquestra.quantum.api.estimation import EstimationTask
    from orquestra.quantum.runners import SymbolicSimulator

    _, _, SimWf = backends.classes()
    callers = Callers(ctx, scn["plan"]) if scn.get("plan") else None
    service = backends.Service(ctx, callers)
    vals = {sympy.Symbol(k): v for k, v in scn["values"].items()}
    env = dict(ctx=ctx, scn=scn, service=service, items=[], mode=scn["entropy"]["mode"])
    if env["mode"]:
        ctx.fault("entropy." + env["mode"])
    for c in scn["circuits"]:
        raw = objs.build_circuit(c)
        bound = raw.bind(vals) if c["style"] == "symbolic" else raw
        refops = []
        for o in c["ops"]:
            m = objs.build_gate(o["gate"], {}).matrix
            m = m.subs(vals) if m.free_symbols else m
            refops.append(("g", np.array(m, dtype=complex), tuple(o["q"])))
        psi = objs.ref_state(refops, c["n"])
        basis = objs.bits(int(np.argmax(np.abs(psi))), c["n"]) if c["style"] == "basis" else None
        env["items"].append({"raw": raw, "circ": bound, "w": c["n"], "psi": psi, "basis": basis})
    tasks, raws = [], []
    for t in scn["tasks"]:
        operator = tasks[t["share"]].operator if "share" in t else objs.build_operator(t["o"])
        it = env["items"][t["c"]]
        tasks.append(EstimationTask(operator, it["circ"], t["n"]))
        raws.append(EstimationTask(operator, it["raw"], t["n"]))
    env.update(tasks=tasks, raws=raws)
    Svc, SvcBatch = _runner_classes(env)
    env["runners"] = [
        SymbolicSimulator() if r["kind"] == "sym" else SimWf(service, r["native"]) if r["kind"] == "wf"
        else SvcBatch() if r["kind"] == "svcbatch" else Svc() for r in scn["runners"]]
    before = [_describe(t) for t in raws]
    if callers is None:
        for op in scn["ops"]:
            OPS[op["op"]](env, op)
    else:
        def program(t):
            def body(cs):
                for op in scn["ops"]:
                    if op["t"] == t:
                        OPS[op["op"]](env, op)
                        cs.point("between")
            return body

        callers.run([program(t) for t in range(scn["callers"])])
        ctx.schedule = callers.recorded
        if callers.recorded:
            ctx.probe("overlap")
            ctx.mark("interleaving", callers.recorded)
    ctx.check(before == [_describe(t) for t in raws], "task-changed", "an estimation task was modified by the calls")


def _describe(task):
    return (str(task.operator), str(task.circuit), task.number_of_shots)


def _close(a, b, tol=1e-9, scale=1.0):
    return abs(complex(a) - complex(b)) <= tol * scale


def _norm(terms):
    return sum(abs(complex(objs.coeff(t["c"]))) for t in terms)


def _constant(desc):
    return sum((complex(objs.coeff(t["c"])) for t in objs.desc_terms(desc)), 0j)


def _values(ctx, ev, what):
    with ctx.oracle(what):
        return [complex(v) for v in np.asarray(ev.values).reshape(-1)]


def _check_task(env, op, ti, ev, what):
    ctx, scn = env["ctx"], env["scn"]
    t = scn["tasks"][ti]
    it = env["items"][t["c"]]
    what = f"{what}: task {ti} ({t['kind']}, {env['tasks'][ti].operator}, {t['n']} shots)"
    vals = _values(ctx, ev, what)
    terms = objs.desc_terms(t["o"])
    if t["kind"] == "constant":
        ctx.check(_close(sum(vals, 0j), _constant(t["o"]), 1e-12, _norm(terms)), "constant",
                  lambda: f"{what} estimated {vals}, the constant is {_constant(t['o'])}")
        ctx.probe("empty-operator" if not terms else "multi-constant" if len(terms) > 1 else "constant")
        return
    if t["kind"] == "zero":
        ctx.check(all(v == 0 for v in vals), "zero-shot", lambda: f"{what} estimated {vals} without any shot")
        ctx.probe("zero-shot")
        return
    ctx.probe("measured")
    ctx.check(len(vals) == len(terms), "value-count", lambda: f"{what}: {len(vals)} values for {len(terms)} terms")
    kind = scn["runners"][op["r"]]["kind"]
    if it["basis"] is not None:
        ctx.probe("basis-state")
        for term, v in zip(terms, vals):
            want = objs.coeff(term["c"]) * objs.z_eigenvalue(term["ops"], it["basis"])
            ctx.check(_close(v, want, scale=_norm([term])), "basis-state-value",
                      lambda: f"{what}: term {term} estimated {v} on basis state {it['basis']}, exact {want}")
    elif kind.startswith("svc"):
        n = t["n"] + (op["extra"] if t["n"] % 2 else 0)
        if n != t["n"]:
            ctx.probe("over-delivery")
        shots = _scripted(t["c"], it["w"], n)
        for term, v in zip(terms, vals):
            want = objs.coeff(term["c"]) * sum(objs.z_eigenvalue(term["ops"], s) for s in shots) / n
            ctx.check(_close(v, want, scale=_norm([term])), "value", lambda: f"{what}: term {term} estimated {v}, its shots average to {want}")
    elif env["mode"] is None:
        p = np.abs(it["psi"]) ** 2
        for term, v in zip(terms, vals):
            mean = sum(p[i] * objs.z_eigenvalue(term["ops"], objs.bits(i, it["w"])) for i in range(len(p)))
            c = objs.coeff(term["c"])
            sd = math.sqrt(max(0.0, 1 - mean**2) / t["n"])
            ctx.check(abs(v - c * mean) <= abs(c) * (7 * sd + 10 / t["n"] + 1e-9), "value",
                      lambda: f"{what}: term {term} estimated {v}, exact mean {c * mean}")


def _estimate(env, op):
    from orquestra.quantum.estimation import estimate_expectation_values_by_averaging

    ctx, scn, service = env["ctx"], env["scn"], env["service"]
    tasks = [env["tasks"][i] for i in op["idx"]]
    runner = env["runners"][op["r"]]
    kinds = [scn["tasks"][i]["kind"] for i in op["idx"]]
    what = f"estimation of tasks {op['idx']} on {scn['runners'][op['r']]['kind']}"
    if len(set(kinds)) > 1 and kinds.count("measured") > 1:
        ctx.nontrivial = True
        ctx.probe("mixed")
    if not kinds:
        ctx.probe("empty-list")
    elif "measured" not in kinds:
        ctx.probe("all-unmeasured")
    if len(set(op["idx"])) < len(op["idx"]):
        ctx.probe("duplicate-task")
    for attempt in range(2):
        service.arm(dict(op, fault=op.get("fault") if attempt == 0 else None))
        ctx.time += 1
        out = ctx.call(estimate_expectation_values_by_averaging, runner, tasks)
        failed = any(not e["ok"] for e in service.log)
        ctx.log("estimate", op["idx"], out.kind)
        if not out.ok:
            ctx.check(failed, "estimation-failed", lambda: f"{what} {out!r}")
            ctx.probe("retry")
            ctx.nontrivial = True
            continue
        ctx.check(not failed, "failure-swallowed", lambda: f"{what}: a backend failure was swallowed")
        with ctx.oracle(what):
            res = list(out.value)
        ctx.check(len(res) == len(tasks), "result-count", lambda: f"{what}: {len(res)} results for {len(tasks)} tasks")
        for ti, ev in zip(op["idx"], res):
            _check_task(env, op, ti, ev, what)
        ctx.mark("estimate", [kinds, scn["runners"][op["r"]]["kind"]])
        break


def _exact(env, op):
    from orquestra.quantum.estimation import calculate_exact_expectation_values
    from orquestra.quantum.runners import SymbolicSimulator

    ctx, scn, service = env["ctx"], env["scn"], env["service"]
    runner = env["runners"][op["r"]]
    if not hasattr(runner, "get_exact_expectation_values"):
        runner = SymbolicSimulator()
    # exact evaluation needs numbers for symbols and admits any operator
    tasks = [env["tasks"][i] for i in op["idx"]]
    real = [i for i in op["idx"]]
    what = f"exact evaluation of tasks {op['idx']}"
    for attempt in range(2):
        service.arm(dict(op, fault=op.get("fault") if attempt == 0 else None))
        ctx.time += 1
        out = ctx.call(calculate_exact_expectation_values, runner, tasks)
        failed = any(not e["ok"] for e in service.log)
        ctx.log("exact", op["idx"], out.kind)
        if not out.ok:
            ctx.check(failed, "exact-failed", lambda: f"{what} {out!r}")
            ctx.probe("retry")
            continue
        ctx.check(not failed, "failure-swallowed", lambda: f"{what}: a backend failure was swallowed")
        with ctx.oracle(what):
            res = list(out.value)
        ctx.check(len(res) == len(tasks), "result-count", lambda: f"{what}: {len(res)} results for {len(tasks)} tasks")
        for ti, ev in zip(real, res):
            t = scn["tasks"][ti]
            it = env["items"][t["c"]]
            want = 0j
            for term in objs.desc_terms(t["o"]):
                phi = it["psi"]
                for q, o in term["ops"]:
                    phi = objs.apply_matrix(objs.PAULI[o], (q,), phi)
                want += complex(objs.coeff(term["c"])) * np.vdot(it["psi"], phi)
                if any(o != "Z" for _, o in term["ops"]):
                    ctx.probe("general-pauli")
            got = sum(_values(ctx, ev, what), 0j)
            ctx.check(_close(got.real, want.real, 1e-10, _norm(objs.desc_terms(t["o"]))), "exact-value",
                      lambda: f"{what}: task {ti} ({env['tasks'][ti].operator}) gave {got}, the quadratic form is {want:.9g}")
        ctx.probe("exact")
        break


def _split(env, op):
    from orquestra.quantum.estimation import split_estimation_tasks_to_measure

    ctx, scn = env["ctx"], env["scn"]
    tasks = [env["tasks"][i] for i in op["idx"]]
    what = f"splitting tasks {op['idx']}"
    out = ctx.call(split_estimation_tasks_to_measure, tasks)
    ctx.log("split", op["idx"], out.kind)
    ctx.check(out.ok, "split-failed", lambda: f"{what} {out!r}")
    with ctx.oracle(what):
        to, no, ito, ino = (list(x) for x in out.value)
    ctx.check(sorted(ito + ino) == list(range(len(tasks))), "split-indices", lambda: f"{what}: indices {ito} and {ino}")
    ctx.check(len(to) == len(ito) and len(no) == len(ino), "split-length", lambda: f"{what}: {len(to)}/{len(ito)}, {len(no)}/{len(ino)}")
    for part, idx, want in ((to, ito, True), (no, ino, False)):
        for task, i in zip(part, idx):
            ctx.check(_describe(task) == _describe(tasks[i]), "split-task", lambda: f"{what}: index {i} does not hold that task")
            measured = scn["tasks"][op["idx"][i]]["kind"] == "measured"
            ctx.check(measured == want, "split-kind", lambda: f"{what}: task {op['idx'][i]} put on the wrong side")
    ctx.probe("split")


def _nonmeasured(env, op):
    from orquestra.quantum.estimation import evaluate_non_measured_estimation_tasks

    ctx, scn = env["ctx"], env["scn"]
    idx = [i for i in op["idx"] if scn["tasks"][i]["kind"] != "measured"]
    out = ctx.call(evaluate_non_measured_estimation_tasks, [env["tasks"][i] for i in idx])
    what = f"evaluation of unmeasured tasks {idx}"
    ctx.log("nonmeasured", idx, out.kind)
    ctx.check(out.ok, "nonmeasured-failed", lambda: f"{what} {out!r}")
    with ctx.oracle(what):
        res = list(out.value)
    ctx.check(len(res) == len(idx), "result-count", lambda: f"{what}: {len(res)} results for {len(idx)} tasks")
    for ti, ev in zip(idx, res):
        _check_task(env, op, ti, ev, what)


def _bind(env, op):
    from orquestra.quantum.estimation import evaluate_estimation_circuits

    ctx, scn = env["ctx"], env["scn"]
    tasks = [env["raws"][i] for i in op["idx"]]
    maps = [{sympy.Symbol(k): v for k, v in m.items()} for m in op["maps"]]
    snapshot = [dict(m) for m in maps]
    what = f"binding tasks {op['idx']}"
    out = ctx.call(evaluate_estimation_circuits, tasks, maps)
    ctx.log("bind", op["idx"], out.kind)
    ctx.check(out.ok, "bind-failed", lambda: f"{what} {out!r}")
    with ctx.oracle(what):
        res = list(out.value)
    ctx.check(len(res) == len(tasks), "result-count", lambda: f"{what}: {len(res)} results for {len(tasks)} tasks")
    for k, (ti, new, old, m) in enumerate(zip(op["idx"], res, tasks, maps)):
        ctx.check(str(new.operator) == str(old.operator) and new.number_of_shots == old.number_of_shots, "bind-changed",
                  lambda: f"{what}: task {ti} became {_describe(new)}")
        c = scn["circuits"][scn["tasks"][ti]["c"]]
        with ctx.oracle(what):
            ops = list(new.circuit.operations)
            width = int(new.circuit.n_qubits)
        ctx.check(width == c["n"] and len(ops) == len(c["ops"]), "bind-changed", lambda: f"{what}: task {ti} circuit is {new.circuit}")
        rest = {s: 0.37 * (j + 1) for j, s in enumerate(SYMS)}
        for o, d in zip(ops, c["ops"]):
            with ctx.oracle(what):
                same = o.gate.name == d["gate"]["g"] and tuple(o.qubit_indices) == tuple(d["q"]) and len(o.params) == len(d["gate"]["p"])
            ctx.check(same, "bind-changed", lambda: f"{what}: task {ti} operation {o} instead of {d}")
            for got, tree in zip(o.params, d["gate"]["p"]):
                env_vals = {**rest, **{k_: v for k_, v in op["maps"][k].items() if k_ in SYMS}}
                want = objs.eval_expr(tree, env_vals)
                with ctx.oracle(what):
                    free = {str(s) for s in getattr(got, "free_symbols", ())}
                    val = complex(got.subs({sympy.Symbol(s): v for s, v in rest.items()})) if free else complex(got)
                ctx.check(not free & set(op["maps"][k]), "bind-unbound",
                          lambda: f"{what}: task {ti} still depends on {free & set(op['maps'][k])}")
                ctx.check(_close(val, want, 1e-10, max(1.0, abs(want))), "bind-value", lambda: f"{what}: task {ti} operation {o}: parameter {val}, expected {want}")
                if free:
                    ctx.probe("partial-bind")
    ctx.check(snapshot == maps, "bind-changed", lambda: f"{what}: a symbol map was modified")
    ctx.probe("bind")


OPS = {"estimate": _estimate, "exact": _exact, "split": _split, "bind": _bind, "nonmeasured": _nonmeasured}


def simplify(scn):
    for i, op in enumerate(scn["ops"]):
        for j in range(len(op["idx"])):
            c = copy.deepcopy(scn)
            c["ops"][i]["idx"].pop(j)
            if "maps" in op:
                c["ops"][i]["maps"].pop(j)
            yield c
        for k in ("fault", "extra", "np"):
            if op.get(k):
                c = copy.deepcopy(scn)
                c["ops"][i][k] = 0 if k != "fault" else None
                yield c
    for i, t in enumerate(scn["tasks"]):
        if "share" in t:
            c = copy.deepcopy(scn)
            c["tasks"][i].pop("share")
            yield c
        elif "terms" in t["o"] and len(t["o"]["terms"]) > 1 and not any(x.get("share") == i for x in scn["tasks"]):
            for j in range(len(t["o"]["terms"])):
                c = copy.deepcopy(scn)
                c["tasks"][i]["o"]["terms"].pop(j)
                if t["kind"] == "constant" or any(x["ops"] for x in c["tasks"][i]["o"]["terms"]):
                    yield c
        if t["n"] and t["n"] > 1:
            c = copy.deepcopy(scn)
            c["tasks"][i]["n"] = 1
            yield c
    if scn.get("plan"):
        c = copy.deepcopy(scn)
        c.pop("plan")
        c["callers"] = 1
        for o in c["ops"]:
            o["t"] = 0
        yield c

"""C14: runners validate requests, deliver enough shots and count their work.

Call histories on a pool of runners (one-job runner, batch-job runner, wavefunction
services with partial native sets, the bundled simulator, trackers over any of them
and over each other) against a simulated job service and a simulated disk.  Calls of
several callers may overlap: a caller is parked inside a backend invocation while
another call runs.
"""
import json
import math
import os
import threading
import warnings

import numpy as np

from .. import backends, disk as disk_mod, entropy, objs
from ..sched import Callers

RUNS = {"quick": 3600, "thorough": 60000}
RULE = (
    "one run = one seeded history of single / batch / distribution / wavefunction calls, valid and invalid, on a "
    "pool of runners over a simulated job service, with seeded backend and disk failures and seeded overlap of "
    "callers; non-trivial = at least one call was rejected or failed after another had succeeded on the same pool"
)
REAL = ["api.circuit_runner", "api.wavefunction_simulator", "runners.symbolic_simulator", "runners.trackers",
        "measurements", "distributions", "wavefunction sampling", "circuits", "numpy random", "CPython buffered I/O"]
STUB = ["quantum job service behind _run_and_measure/_run_batch_and_measure/_get_wavefunction_from_native_circuit",
        "raw file layer (simulated disk)", "entropy source"]
ASSUMPTIONS = [
    "calls overlap only while parked inside a backend invocation (cooperative callers); counters are not claimed "
    "to be safe under pre-emption between bytecodes",
    "a tracker's own counters may count either its submissions or the wrapped runner's work",
    "tracked circuits are gate circuits (MultiPhaseOperation has no serialised form)",
]
PROBES = ["rejected", "backend-failed", "disk-failed", "tracker-record", "overlap", "empty-circuit", "zero-width",
          "nested-tracker", "extra-shots", "batch-ok", "dist-ok", "exact-dist", "empty-batch", "idle-qubits", "mp",
          "fresh-circuit", "unbound-refused", "refused-job-uncounted"]
LIST_FIELDS = ["ops", "circuits_used", "plan.switches"]


# ---------------------------------------------------------------- generation


def _gen_circ(rng, tier):
    r = rng.random()
    if r < 0.08:
        return {"n": None, "ops": []}
    if r < 0.18:
        return {"n": rng.randrange(1, 5), "ops": []}
    n = rng.choice([1, 2, 2, 3, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5])
    if 0.18 <= r < 0.185:
        n = rng.choice([8, 10, 11])
    if r < 0.6:
        # prepares one basis state
        ops = []
        for q in range(n):
            if rng.random() < 0.5:
                ops.append({"gate": {"g": "X", "p": []}, "q": [q]})
        for _ in range(rng.randrange(3)):
            g = rng.choice(["CNOT", "SWAP", "Z", "S", "I", "X"])
            k = objs.ARITY[g][1]
            if k <= n:
                ops.append({"gate": {"g": g, "p": []}, "q": rng.sample(range(n), k)})
        return {"n": rng.choice([None, n, n + 1]), "ops": ops}
    return objs.gen_circuit(rng, n, rng.randrange(1, 6), multiphase=rng.random() < 0.35, depth=1,
                            wrappers=("dagger", "ctrl"))


def _gen_runner(rng, i, pool):
    kinds = ["base", "batch", "wf", "wf", "sym"]
    if pool:
        kinds += ["tracker"] * 4
    kind = rng.choice(kinds)
    d = {"kind": kind}
    if kind == "wf":
        d["native"] = backends.gen_native(rng)
        d["default"] = rng.random() < 0.2
    if kind in ("wf", "sym"):
        d["seed"] = rng.choice([None, rng.randrange(1000)])
    if kind == "tracker":
        d["inner"] = rng.randrange(len(pool))
        d["file"] = f"raw{i}.json"
        d["bits"] = rng.random() < 0.5
    return d


BAD_N = [0, -1, -7]


def generate(rng, tier, index):
    pool = []
    for i in range(rng.choice([1, 2, 3, 4])):
        pool.append(_gen_runner(rng, i, pool))
    if not any(p["kind"] == "tracker" for p in pool) and rng.random() < 0.4:
        pool.append({"kind": "tracker", "inner": rng.randrange(len(pool)), "file": "raw9.json", "bits": True})
    circs = [_gen_circ(rng, tier) for _ in range(rng.randrange(2, 6))]
    p_bad = rng.choice([0.0, 0.15, 0.4])
    p_fault = rng.choice([0.0, 0.0, 0.2, 0.5])
    p_disk = rng.choice([0.0, 0.0, 0.4])
    callers = rng.choice([1, 1, 1, 2, 3])
    ops = []
    for _ in range(rng.choice([3, 6, 10, 15])):
        r = rng.randrange(len(pool))
        sim = pool[r]["kind"] in ("wf", "sym")
        kind = rng.choice(["run", "run", "batch", "batch", "batch", "dist", "dist"] + (["wf", "exact"] if sim else []))
        n = rng.choice([1, 1, 2, 3, 5, 8, 17, 40, 100])
        if rng.random() < 0.03:
            n = rng.choice([257, 1000, 1025, 4097])
        op = {"op": kind, "r": r, "t": rng.randrange(callers), "seed": rng.randrange(1 << 30)}
        if kind == "batch":
            k = rng.choice([0, 1, 2, 3, 4, 6, rng.choice([6, 12, 20])])
            op["cs"] = [rng.randrange(len(circs)) for _ in range(k)]
            op["seq"] = rng.choice(["list", "tuple"])
            if rng.random() < 0.4:
                op["ns"] = n
                if rng.random() < p_bad:
                    op["ns"] = rng.choice(BAD_N)
            else:
                op["ns"] = [rng.choice([1, 2, 3, 7, 20]) for _ in range(k)]
                op["nseq"] = rng.choice(["list", "tuple"])
                if rng.random() < p_bad:
                    b = rng.choice(["bad", "bad", "long", "short", "empty"])
                    if b == "bad" and k:
                        op["ns"][rng.randrange(k)] = rng.choice(BAD_N)
                    elif b == "short" and k:
                        op["ns"].pop()
                    elif b == "empty":
                        op["ns"] = []
                    else:
                        op["ns"].append(3)
        else:
            op["c"] = rng.randrange(len(circs))
            if kind in ("run", "dist"):
                op["n"] = n if rng.random() >= p_bad else rng.choice(BAD_N)
            if kind == "dist" and rng.random() < 0.35:
                op["n"] = None
            if kind == "exact":
                w = objs.circuit_width(circs[op["c"]])
                if w == 0:
                    continue
                op["operator"] = objs.gen_sum(rng, w, rng.randrange(1, 4), complex_ok=False)
        if rng.random() < 0.3:
            op["extra"] = rng.choice([1, 3, 10])
        if rng.random() < 0.3:
            op["np"] = backends.gen_bits(rng)
        if rng.random() < 0.4:
            op["fresh"] = True
        if kind == "batch" and rng.random() < 0.2:
            op["share"] = True
            w = objs.circuit_width(circs[rng.randrange(len(circs))])
            peers = [i for i, c in enumerate(circs) if objs.circuit_width(c) == w]
            if len(peers) > 1 and rng.random() < 0.7:
                op["cs"] = [rng.choice(peers) for _ in op["cs"]]
                if isinstance(op["ns"], list) and op["ns"] and rng.random() < 0.5:
                    op["ns"] = [op["ns"][0]] * len(op["ns"])
        if kind in ("run", "dist") and op["n"] is not None and rng.random() < 0.06:
            op["free"] = True
        if rng.random() < p_fault:
            op["fault"] = backends.gen_fault(rng)
        if pool[r]["kind"] == "tracker" and rng.random() < p_disk:
            f = disk_mod.gen_write_fault(rng, 400)
            if f["kind"] != "crash":
                op["disk"] = f
        ops.append(op)
    if rng.random() < 0.012:
        # a wide register asked for more shots than any power-of-two block, fewer than or near its amplitudes
        n = rng.choice([9, 10, 10, 11])
        circs.append({"n": n, "ops": [{"gate": {"g": g, "p": []}, "q": [q]} for q in range(n)
                                      for g in [rng.choice(["X", "H", "H"])] if rng.random() < 0.8]})
        pool.append({"kind": "sym", "seed": rng.choice([None, rng.randrange(1000)])})
        ops.insert(rng.randrange(len(ops) + 1),
                   {"op": rng.choice(["run", "run", "dist"]), "r": len(pool) - 1, "c": len(circs) - 1,
                    "t": rng.randrange(callers), "seed": rng.randrange(1 << 30),
                    "n": rng.choice([150, 300, 600, 777, 1000, 1025, 1900, 3001])})
    scn = {"runners": pool, "circuits": circs, "ops": ops, "callers": callers,
           "entropy": {"seed": rng.randrange(1 << 30), "mode": rng.choice([None, None] + entropy.MODES)}}
    if callers > 1:
        scn["plan"] = {"mode": "random", "seed": rng.randrange(1 << 30), "p": 0.0,
                       "seam_p": rng.choice([0.3, 0.6, 0.9])}
    return scn


# ---------------------------------------------------------------- model


def _valid(op):
    """Is the request one the runner has to accept?"""
    if op["op"] == "run":
        return op["n"] > 0
    if op["op"] == "dist":
        return op["n"] is None or op["n"] > 0
    if op["op"] == "batch":
        if isinstance(op["ns"], int):
            return op["ns"] > 0
        return len(op["ns"]) == len(op["cs"]) and all(n > 0 for n in op["ns"])
    return True


def _chain(pool, r):
    """Runner indices from r down to the innermost."""
    out = [r]
    while pool[out[-1]]["kind"] == "tracker":
        out.append(pool[out[-1]]["inner"])
    return out


def execute(scn, ctx):
    warnings.simplefilter("ignore")
    import sympy

    from orquestra.quantum.circuits import to_dict
    from orquestra.quantum.measurements import Measurements
    from orquestra.quantum.runners import SymbolicSimulator
    from orquestra.quantum.runners.trackers import MeasurementTrackingBackend

    del sympy
    SimRunner, SimBatchRunner, SimWf = backends.classes()
    pool = scn["runners"]
    callers = Callers(ctx, scn["plan"]) if scn.get("plan") else None
    service = backends.Service(ctx, callers)
    disk = disk_mod.Disk(ctx)
    tl = threading.local()

    circuits, states, has_mp = [], [], []
    for c in scn["circuits"]:
        circuits.append(objs.build_circuit(c))
        w = objs.circuit_width(c)
        states.append(np.abs(objs.ref_state(objs.ref_ops(c), w)) ** 2)
        has_mp.append(any("mp" in o for o in c["ops"]))
    widths = [objs.circuit_width(c) for c in scn["circuits"]]
    jsons = []
    for c, mp in zip(circuits, has_mp):
        jsons.append(None if mp else json.loads(json.dumps(to_dict(c))))

    runners = []
    preds = []

    def spy(obj, i):
        """Record what the wrapped runner returns to whoever called it."""
        for name in ("run_and_measure", "run_batch_and_measure", "get_measurement_outcome_distribution"):
            real = getattr(obj, name)

            def wrapper(*a, _real=real, _name=name, **k):
                stack = tl.stack
                outer = len(stack) > 0 and stack[-1] == i
                stack.append(i)
                try:
                    result = _real(*a, **k)
                finally:
                    stack.pop()
                if not outer:
                    tl.returned.append((i, _name, result))
                return result

            setattr(obj, name, wrapper)
        return obj

    with disk.mounted(), entropy.controlled(scn["entropy"]):
        for i, d in enumerate(pool):
            if d["kind"] == "base":
                obj, pred = SimRunner(service), None
            elif d["kind"] == "batch":
                obj, pred = SimBatchRunner(service), None
            elif d["kind"] == "wf":
                obj = SimWf(service, d["native"], d["seed"], d["default"])
                pred = obj.pred if not d["default"] else (lambda op: hasattr(op, "gate"))
            elif d["kind"] == "sym":
                obj, pred = SymbolicSimulator(seed=d["seed"]), (lambda op: True)
            else:
                obj, pred = MeasurementTrackingBackend(runners[d["inner"]], disk.path(d["file"]), d["bits"]), None
            preds.append(pred)
            runners.append(spy(obj, i))
        known_records = {i: [] for i, d in enumerate(pool) if d["kind"] == "tracker"}
        env = dict(scn=scn, ctx=ctx, pool=pool, runners=runners, preds=preds, circuits=circuits, states=states,
                   widths=widths, jsons=jsons, has_mp=has_mp, service=service, disk=disk, tl=tl,
                   records=known_records, Measurements=Measurements, done=[0], callers=callers)
        totals = [[0, 0, 0, 0] for _ in pool]  # circuits lo, hi, jobs lo, hi
        env["totals"] = totals
        env["solo"] = callers is None
        if callers is None:
            tl.stack = []
            for op in scn["ops"]:
                _one(env, op)
                _counters_final(env, "after " + op["op"])
        else:
            def program(t):
                def body(cs):
                    tl.stack = []
                    for op in scn["ops"]:
                        if op["t"] == t:
                            _one(env, op)
                            cs.point("between")
                return body

            callers.run([program(t) for t in range(scn["callers"])])
            ctx.schedule = callers.recorded
            if callers.recorded:
                ctx.probe("overlap")
                ctx.mark("interleaving", callers.recorded)
            _counters_final(env, "once all callers finished")


def _counters(env):
    out = []
    for i, r in enumerate(env["runners"]):
        with env["ctx"].oracle("counters"):
            c, j = int(r.n_circuits_executed), int(r.n_jobs_executed)
        out.append((c, j))
    return out


def _counters_final(env, what):
    ctx = env["ctx"]
    for i, (c, j) in enumerate(_counters(env)):
        clo, chi, jlo, jhi = env["totals"][i]
        kind = env["pool"][i]["kind"]
        ctx.check(clo <= c <= chi, "circuit-counter",
                  lambda: f"{what}: runner {i} ({kind}) reports {c} executed circuits, "
                          f"expected {clo if clo == chi else (clo, chi)}")
        ctx.check(jlo <= j <= jhi, "job-counter",
                  lambda: f"{what}: runner {i} ({kind}) reports {j} executed jobs, "
                          f"expected {jlo if jlo == jhi else (jlo, jhi)}")
    if env["solo"]:
        # exact from here on: what was observed is the new base line
        for i, (c, j) in enumerate(_counters(env)):
            env["totals"][i] = [c, c, j, j]
    ctx.mark("counters", _counters(env))


def _add(env, i, clo, chi, jlo, jhi):
    t = env["totals"][i]
    t[0] += clo
    t[1] += chi
    t[2] += jlo
    t[3] += jhi


def _one(env, op):
    ctx, pool, service, tl = env["ctx"], env["pool"], env["service"], env["tl"]
    r = op["r"]
    chain = _chain(pool, r)
    inner = chain[-1]
    tracked = chain[:-1]
    idxs = op["cs"] if op["op"] == "batch" else [op["c"]]
    if tracked and any(env["has_mp"][i] for i in idxs):
        return
    if op.get("fresh"):
        # circuits that live for one call only, as those of an optimisation loop
        circs = [objs.build_circuit(env["scn"]["circuits"][i]) for i in idxs]
        ctx.probe("fresh-circuit")
    else:
        circs = [env["circuits"][i] for i in idxs]
    unbound = op.get("free") and pool[inner]["kind"] in ("wf", "sym")
    if unbound:
        circs = [_unbound(max(1, env["widths"][idxs[0]]))]
    runner = env["runners"][r]
    service.arm(op)
    tl.returned = []
    if tracked and op.get("disk"):
        if not env["solo"]:
            op = {k: v for k, v in op.items() if k != "disk"}
        else:
            env["disk"].arm(op["disk"])
    before = _counters(env)
    files = {i: _read(env, i) for i in tracked}
    kind = op["op"]
    if kind == "run":
        call, args = runner.run_and_measure, (circs[0], op["n"])
    elif kind == "batch":
        batch = circs if op["seq"] == "list" else tuple(circs)
        ns = op["ns"]
        if not isinstance(ns, int):
            ns = list(ns) if op.get("nseq") == "list" else tuple(ns)
        call, args = runner.run_batch_and_measure, (batch, ns)
    elif kind == "dist":
        call, args = runner.get_measurement_outcome_distribution, (circs[0], op["n"])
    elif kind == "wf":
        call, args = runner.get_wavefunction, (circs[0],)
    else:
        call, args = runner.get_exact_expectation_values, (circs[0], objs.build_operator(op["operator"]))
    out = ctx.call(call, *args)
    disk_failed = env["disk"].write_failed
    env["disk"].disarm()
    env["disk"].write_failed = False
    ctx.log("call", kind, r, out.kind)
    ctx.time += 1
    what = f"{kind} on runner {r} ({'>'.join(pool[i]['kind'] for i in chain)})"
    ikind = pool[inner]["kind"]
    sim = ikind in ("wf", "sym")
    log = list(service.log)

    # ---- requests that have to be rejected
    bad = not _valid(op)
    if kind == "dist" and op["n"] is None and not sim:
        bad = True
    if unbound and not bad:
        # simulators refuse to sample circuits with free symbols
        ctx.check(not out.ok, "unbound-sampled", lambda: f"{what} returned samples of a circuit with free symbols")
        ctx.check(not log, "executed-before-rejection", lambda: f"{what}: {len(log)} backend calls for a refused circuit")
        if env["solo"]:
            now = _counters(env)
            ctx.check(now == before, "rejected-call-counted",
                      lambda: f"{what} of a circuit with free symbols: counters went {before} -> {now}")
        for i in tracked:
            if env["solo"]:
                ctx.check(_read(env, i) == files[i], "rejected-call-recorded", lambda: f"{what}: the tracker wrote a record of a refused circuit")
        ctx.probe("unbound-refused")
        return
    if bad:
        ctx.check(not out.ok, "invalid-accepted", lambda: f"{what} accepted {_req(op)}")
        ctx.check(isinstance(out.exc, ValueError), "wrong-error", lambda: f"{what} {_req(op)} {out!r}, expected ValueError")
        ctx.check(not log, "executed-before-rejection", lambda: f"{what} {_req(op)}: {len(log)} backend calls before the ValueError")
        if env["solo"]:
            now = _counters(env)
            ctx.check(now == before, "rejected-call-counted", lambda: f"{what} {_req(op)}: counters went {before} -> {now}")
        for i in tracked:
            if env["solo"]:
                ctx.check(_read(env, i) == files[i], "rejected-call-recorded", lambda: f"{what} {_req(op)}: the tracker wrote a record")
        ctx.probe("rejected")
        if env["done"][0]:
            ctx.nontrivial = True
        return

    # ---- counters
    attempted = [e for e in log if e["kind"] in ("run", "native", "batch")]
    completed = [e for e in attempted if e["ok"]]
    lost = [e for e in attempted if not e["ok"] and "result" in e]
    if sim:
        segs = [backends.segments(c, env["preds"][inner]) for c in circs]
        full_c, full_j = sum(s[1] for s in segs), sum(s[0] for s in segs)
    elif kind == "batch":
        full_c, full_j = len(circs), (1 if ikind == "batch" else len(circs))
    else:
        full_c = full_j = 1
    if out.ok or (disk_failed and len(attempted) == len(completed)):
        _add(env, inner, full_c, full_c, full_j, full_j)
    elif ikind == "batch" and kind == "batch":
        # a batch the service refused was never run; one whose answer was lost was
        ran = 1 if lost else 0
        _add(env, inner, 0, ran * len(circs), 0, ran)
        if not ran:
            ctx.probe("refused-job-uncounted")
    elif sim:
        done_c = len(completed) if ikind == "wf" else 0
        if ikind == "wf":
            # parts of circuits that were reached when the engine failed
            full_c, full_j = min(full_c, len(attempted)), min(full_j, _reached(env, inner, circs, len(attempted)))
        _add(env, inner, min(done_c, full_c), full_c, min(done_c, full_j), full_j)
    else:
        # circuits the service refused were never run
        ran = len(completed) + len(lost)
        _add(env, inner, len(completed), ran, len(completed), ran)
        if ran < len(attempted):
            ctx.probe("refused-job-uncounted")
    for t in tracked:
        if out.ok:
            lo = min(len(circs), full_c)
            hi = max(len(circs), full_c)
            _add(env, t, lo, hi, min(1, full_j, len(circs)), max(1, full_j, len(circs)))
        else:
            if not completed and not lost and not disk_failed:
                # nothing was run at all, except for parts simulated before the failure
                _add(env, t, 0, full_c if sim else 0, 0, full_j if sim else 0)
            else:
                _add(env, t, 0, max(len(circs), full_c), 0, max(1, full_j, len(circs)))

    # ---- failures
    if not out.ok:
        faulted = any(not e["ok"] for e in log) or disk_failed
        ctx.check(faulted, "valid-rejected", lambda: f"{what} {_req(op)} {out!r} although nothing failed")
        ctx.probe("disk-failed" if disk_failed else "backend-failed")
        if env["done"][0]:
            ctx.nontrivial = True
        if disk_failed:
            _remember(env, tracked, tl.returned, circs, op)
        return
    ctx.check(all(e["ok"] for e in log), "failure-swallowed",
              lambda: f"{what} returned normally although a backend invocation failed")
    ctx.check(not disk_failed, "lost-record",
              lambda: f"{what} returned normally although writing the tracker's file failed")
    env["done"][0] += 1

    # ---- results
    if kind in ("run", "batch"):
        results = [out.value] if kind == "run" else out.value
        with ctx.oracle("batch result"):
            results = list(results)
        ctx.check(len(results) == len(circs), "result-count", lambda: f"{what}: {len(results)} results for {len(circs)} circuits")
        ns = [op["n"]] if kind == "run" else ([op["ns"]] * len(circs) if isinstance(op["ns"], int) else op["ns"])
        unused = [e for e in completed if e["kind"] == "run"]
        for pos, (res, ci, n) in enumerate(zip(results, idxs, ns)):
            ctx.check(isinstance(res, env["Measurements"]), "result-type", lambda: f"{what}: result {pos} is {type(res).__name__}")
            with ctx.oracle("measurements"):
                shots = [tuple(int(b) for b in s) for s in res.bitstrings]
            w = env["widths"][ci]
            ctx.check(len(shots) >= n, "too-few-shots", lambda: f"{what}: result {pos} has {len(shots)} shots, {n} requested")
            ctx.check(all(len(s) == w for s in shots), "bitstring-length",
                      lambda: f"{what}: result {pos} holds {shots[0]} for a register of {w} qubits")
            if len(shots) > n:
                ctx.probe("extra-shots")
            _probe_circuit(env, ci)
            if sim:
                p = env["states"][ci]
                for s in set(shots):
                    i = int("".join(map(str, s)), 2) if s else 0
                    ctx.check(_possible(env, ci, p[i]), "impossible-shot",
                              lambda: f"{what}: result {pos} contains {s}, which its circuit never produces (results out of order?)")
            elif ikind == "batch" and kind == "batch":
                want = completed[0]["result"]
                ctx.check(len(completed) == 1 and shots == _shots(want[pos]), "result-order",
                          lambda: f"{what}: result {pos} is not what the service returned for circuit {pos}")
            else:
                hit = next((e for e in unused if e["circuit"] == circs[pos] and e["n"] >= n and _shots(e["result"]) == shots), None)
                ctx.check(hit is not None, "result-order",
                          lambda: f"{what}: result {pos} is not what the service returned for circuit {pos}")
                unused.remove(hit)
        if kind == "batch":
            ctx.probe("batch-ok" if circs else "empty-batch")
    elif kind == "dist":
        _check_dist(env, what, op, out.value, idxs[0], sim, completed)
    elif kind == "wf":
        with ctx.oracle("wavefunction"):
            p = np.abs(np.asarray(out.value.amplitudes).astype(complex).reshape(-1)) ** 2
        ctx.check(p.shape == env["states"][idxs[0]].shape and np.allclose(p, env["states"][idxs[0]], atol=1e-7),
                  "wavefunction", lambda: f"{what}: probabilities {p}")

    # ---- the tracking wrapper
    if tracked:
        _check_trackers(env, what, op, out.value, circs, idxs, chain)


EXACT = {"X", "CNOT", "SWAP", "Z", "S", "I"}


def _possible(env, ci, p):
    """Scripted entropy can land on outcomes whose probability is rounding noise, so
    there only circuits computed without rounding are judged."""
    if p > 1e-12:
        return True
    if env["scn"]["entropy"]["mode"] is None:
        return False
    return not all("gate" in o and o["gate"].get("g") in EXACT for o in env["scn"]["circuits"][ci]["ops"])


def _req(op):
    return f"[{op['op']} n={op.get('ns', op.get('n'))!r}, {len(op.get('cs', [0]))} circuit(s)]"


def _shots(m):
    return [tuple(int(b) for b in s) for s in m.bitstrings]


def _probe_circuit(env, ci):
    d = env["scn"]["circuits"][ci]
    ctx = env["ctx"]
    if not d["ops"]:
        ctx.probe("zero-width" if env["widths"][ci] == 0 else "empty-circuit")
    elif d["n"]:
        ctx.probe("idle-qubits")
    if env["has_mp"][ci]:
        ctx.probe("mp")


def _counts(shots):
    out = {}
    for s in shots:
        k = "".join(map(str, s))
        out[k] = out.get(k, 0) + 1
    return out


def _check_dist(env, what, op, dist, ci, sim, completed):
    ctx = env["ctx"]
    w = env["widths"][ci]
    with ctx.oracle("distribution"):
        d = {tuple(int(x) for x in k): float(v) for k, v in dist.distribution_dict.items()}
    ctx.check(all(len(k) == w for k in d), "bitstring-length", lambda: f"{what}: outcomes {list(d)[:3]} on {w} qubits")
    ctx.check(abs(sum(d.values()) - 1) < 1e-6 and all(v >= 0 for v in d.values()), "distribution-weight",
              lambda: f"{what}: probabilities {d}")
    if not sim:
        shots = _shots(completed[-1]["result"])
        want = {tuple(int(x) for x in k): v / len(shots) for k, v in _counts(shots).items()}
        good = set(k for k in d if d[k] > 0) == set(want) and all(abs(d[k] - want[k]) < 1e-9 for k in want)
        ctx.check(good, "distribution", lambda: f"{what}: {d} is not the relative frequency {want}")
    else:
        p = env["states"][ci]
        for k, v in d.items():
            i = int("".join(map(str, k)), 2) if k else 0
            if op["n"] is None:
                ctx.check(abs(p[i] - v) < 1e-7, "distribution", lambda: f"{what}: outcome {k} has {v}, exact {p[i]}")
            else:
                ctx.check(v == 0 or _possible(env, ci, p[i]), "impossible-shot", lambda: f"{what}: outcome {k} never occurs")
        ctx.probe("exact-dist" if op["n"] is None else "dist-ok")


def _read(env, i):
    path = os.path.join(env["disk"].root, env["pool"][i]["file"])
    try:
        with open(os.open(path, os.O_RDONLY), "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def _expected_records(returned, circs, jsons_by_id, op):
    """Records for the Measurements / distributions a wrapped runner returned."""
    out = []
    flat = []
    for _, name, value in returned:
        if name == "run_and_measure":
            flat.append(value)
        elif name == "run_batch_and_measure":
            flat.extend(value)
        else:
            flat.append(value)
    for c, v in zip(circs, flat):
        if hasattr(v, "bitstrings"):
            shots = _shots(v)
            out.append({"circuit": jsons_by_id[id(c)], "counts": _counts(shots), "number_of_shots": len(shots),
                        "bitstrings": [list(s) for s in shots]})
        else:
            out.append({"circuit": jsons_by_id[id(c)], "distribution": repr(v), "number_of_shots": op.get("n")})
    return out


def _matches(rec, exp):
    if rec.get("circuit") != exp["circuit"]:
        return "circuit"
    for key in ("counts", "number_of_shots", "distribution"):
        if key in exp and rec.get(key) != exp[key]:
            return key
    if "bitstrings" in exp and "bitstrings" in rec and rec["bitstrings"] != exp["bitstrings"]:
        return "bitstrings"
    return None


def _ids(env, op, circs):
    idxs = op["cs"] if op["op"] == "batch" else [op["c"]]
    return {id(c): env["jsons"][i] for c, i in zip(circs, idxs)}


def _remember(env, tracked, returned, circs, op):
    ids = _ids(env, op, circs)
    for pos, t in enumerate(tracked):
        inner = env["pool"][t]["inner"]
        mine = [x for x in returned if x[0] == inner]
        env["records"][t].extend(_expected_records(mine, circs, ids, op))


def _check_trackers(env, what, op, value, circs, idxs, chain):
    ctx, tl = env["ctx"], env["tl"]
    ids = _ids(env, op, circs)
    if len(chain) > 2:
        ctx.probe("nested-tracker")
    for pos, t in enumerate(chain[:-1]):
        inner = chain[pos + 1]
        mine = [x for x in tl.returned if x[0] == inner]
        got = [x for x in tl.returned if x[0] == t]
        if pos == 0:
            got = [(t, {"run": "run_and_measure", "batch": "run_batch_and_measure"}.get(op["op"], "dist"), value)]
        # pass-through
        a = [_obs(v) for v in _flatten(got)]
        b = [_obs(v) for v in _flatten(mine)]
        ctx.check(a == b, "tracker-changed-result",
                  lambda: f"{what}: tracker returned {_short(a)}, the wrapped runner returned {_short(b)}")
        exp = _expected_records(mine, circs, ids, op)
        env["records"][t].extend(exp)
        if not exp:
            continue
        raw = _read(env, t)
        ctx.check(raw is not None, "no-record", lambda: f"{what}: the tracker's file does not exist")
        with ctx.oracle("the tracker's file"):
            recs = json.loads(raw)["raw-data"]
            n = len(recs)
        ctx.check(n >= len(exp), "no-record", lambda: f"{what}: {n} records in the file, expected {len(exp)} from this call")
        for e, rec in zip(exp, recs[n - len(exp):]):
            with ctx.oracle("a tracker record"):
                diff = _matches(rec, e)
                if diff is None and env["pool"][t]["bits"] and "bitstrings" in e and "bitstrings" not in rec:
                    diff = "bitstrings"
            ctx.check(diff is None, "record-mismatch",
                      lambda: f"{what}: recorded {diff} {_short(rec.get(diff))} does not match the result {_short(e.get(diff))}")
            ctx.probe("tracker-record")
        for rec in recs:
            with ctx.oracle("a tracker record"):
                known = any(_matches(rec, e) is None for e in env["records"][t])
            ctx.check(known, "invented-record", lambda: f"{what}: the file holds a record of no call: {_short(rec)}")


def _unbound(width):
    import sympy

    from orquestra.quantum.circuits import RX, Circuit

    return Circuit([RX(sympy.Symbol("theta"))(width - 1)], width)


def _reached(env, inner, circs, natives):
    """Number of parts started when the natives-th native part failed."""
    parts = 0
    for c in circs:
        prev = None
        for op in c.operations:
            p = bool(env["preds"][inner](op))
            if p != prev:
                parts += 1
                natives -= p
                if p and natives <= 0:
                    return parts
            prev = p
    return parts


def _flatten(entries):
    out = []
    for _, name, value in entries:
        if isinstance(value, (list, tuple)):
            out.extend(value)
        else:
            out.append(value)
    return out


def _obs(v):
    if hasattr(v, "bitstrings"):
        return ("m", [tuple(int(b) for b in s) for s in v.bitstrings])
    if hasattr(v, "distribution_dict"):
        return ("d", sorted((tuple(k), float(p)) for k, p in v.distribution_dict.items()))
    return ("?", repr(v))


def _short(x):
    s = str(x)
    return s if len(s) < 300 else s[:300] + "..."


def simplify(scn):
    import copy

    for i, op in enumerate(scn["ops"]):
        for k in ("fault", "disk", "share", "extra", "np", "nseq", "fresh", "free"):
            if op.get(k):
                c = copy.deepcopy(scn)
                del c["ops"][i][k]
                yield c
        if op["op"] == "batch" and len(op["cs"]) > 1:
            for j in range(len(op["cs"])):
                c = copy.deepcopy(scn)
                c["ops"][i]["cs"].pop(j)
                if isinstance(op["ns"], list) and len(op["ns"]) > j:
                    c["ops"][i]["ns"].pop(j)
                yield c
        if isinstance(op.get("n"), int) and op["n"] > 1:
            c = copy.deepcopy(scn)
            c["ops"][i]["n"] = 1
            yield c
    for i, circ in enumerate(scn["circuits"]):
        if len(circ["ops"]) > 1:
            for j in range(len(circ["ops"])):
                c = copy.deepcopy(scn)
                c["circuits"][i]["ops"].pop(j)
                if objs.circuit_width(c["circuits"][i]) == objs.circuit_width(circ):
                    yield c
    if scn.get("plan"):
        c = copy.deepcopy(scn)
        c.pop("plan")
        c["callers"] = 1
        yield c

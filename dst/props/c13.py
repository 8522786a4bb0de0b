"""C13: batching and recombining shots never loses or invents a shot.

Simulated clients allocate a shot budget, expand it to the device's maximum,
split the copies into batches, submit them through the real runner base classes to
a job service that completes out of order, fails, loses answers and over-delivers,
die and restart from a journal of acknowledged results, and recombine.  Every shot
carries a unique tag, so the combined results are compared with the acknowledged
shots one by one (exactly-once), and all arithmetic is recomputed exactly.
"""
import collections
import fractions
import itertools
import random
import warnings

import numpy as np

from .. import backends, entropy
from ..sched import Callers

RUNS = {"quick": 9000, "thorough": 200000}
RULE = (
    "one run = one seeded workload of shot pipelines (expand, split, submit, fail, crash, retry, combine), direct "
    "recombinations, budget allocations and distribution representations under scripted entropy; non-trivial = a "
    "request was split into several copies whose results were recombined, or a representation needed correcting"
)
REAL = ["circuits._itertools", "measurements.Measurements", "utils.scale_and_discretize",
        "utils.sample_from_probability_distribution", "api.circuit_runner", "distributions", "numpy sampling code"]
STUB = ["job service behind _run_and_measure (unique-tag shots, out-of-order completion, failures)",
        "entropy source (seeded or scripted bit generator)"]
ASSUMPTIONS = [
    "at most 40 copies per executed pipeline; pure expansions up to 3000 copies and sample counts up to 10**18",
    "finite weights above 1e-323, totals up to 10**30",
    "distributions with a finite positive total, up to 64 outcomes, up to 20000 shots",
]
PROBES = ["expanded", "exact-multiple", "max-one", "batched", "short-last-batch", "job-fault", "answer-lost", "crash",
          "recombined-twice", "duplicate-circuits", "overlap", "over-delivery", "repr-add", "repr-remove", "repr-exact",
          "scale", "scale-skewed", "scale-large-total", "huge", "unnormalized", "adversarial", "lazy-interleaved", "counts", "bitstrings"]
LIST_FIELDS = ["ops", "plan.switches"]


def _gen_counts(rng, k, m):
    out = []
    for _ in range(k):
        r = rng.random()
        if r < 0.3:
            out.append(m * rng.randrange(1, 4))
        elif r < 0.5:
            out.append(max(1, m * rng.randrange(1, 4) + rng.choice([-1, 1])))
        elif r < 0.7:
            out.append(rng.choice([1, 2, m]))
        else:
            out.append(rng.randrange(1, 5 * m + 2))
    return out


def _gen_weights(rng):
    k = rng.choice([1, 2, 3, 5, 9, 20, 60])
    r = rng.random()
    if r < 0.2:
        return [1.0] * k
    if r < 0.4:
        return [rng.randrange(1, 20) for _ in range(k)]
    if r < 0.7:
        return [rng.uniform(0.001, 5) for _ in range(k)]
    if r < 0.9:
        return [10 ** rng.uniform(-12, 8) for _ in range(k)]
    lo, hi = rng.choice([(-100, -90), (90, 98), (-323, -300), (306, 308), (-300, 300)])
    return [10 ** rng.uniform(lo, hi) for _ in range(k)]


def _gen_dist(rng):
    w = rng.choice([1, 1, 2, 3, 4])
    top = rng.choice([1, 1, 1, 2, 12])
    allk = 1
    keys = set()
    for _ in range(rng.choice([1, 2, 3, 4, 8, 16, 40])):
        keys.add(tuple(rng.randint(0, top) for _ in range(w)))
    keys = sorted(keys)
    rng.shuffle(keys)
    r = rng.random()
    if r < 0.25:
        ws = [1.0] * len(keys)
    elif r < 0.45:
        ws = [float(rng.randrange(0, 6)) for _ in keys]
    elif r < 0.6:
        ws = [rng.choice([0.0, 0.5, 0.5, 1.5, 1e-9]) for _ in keys]
    elif r < 0.8:
        ws = [10 ** rng.uniform(-8, 0) for _ in keys]
    else:
        ws = [rng.random() for _ in keys]
    if not sum(ws) > 0:
        ws[0] = 1.0
    del allk
    return {"keys": [list(k) for k in keys], "w": ws, "norm": rng.random() < 0.85,
            "str": top == 1 and rng.random() < 0.4}


def generate(rng, tier, index):
    callers = rng.choice([1, 1, 2, 3])
    p_fault = rng.choice([0.0, 0.2, 0.5])
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        kind = rng.choice(["pipeline", "pipeline", "pipeline", "combine", "combine", "split", "expand", "repr", "repr",
                           "repr", "scale", "scale"])
        op = {"op": kind, "t": rng.randrange(callers), "seed": rng.randrange(1 << 30)}
        if kind in ("pipeline", "split", "expand"):
            m = rng.choice([1, 2, 3, 5, 7, 10, 64])
            k = rng.choice([0, 1, 2, 3, 5, 8, rng.choice([8, 25, 70])]) if kind != "pipeline" else rng.choice([1, 2, 3, 4])
            op.update(m=m, b=rng.choice([1, 2, 3, 4, 7, 100]), ns=_gen_counts(rng, k, m), dup=rng.random() < 0.4,
                      seqtype=rng.choice(["list", "tuple", "np"]))
        if kind in ("expand", "pipeline") and rng.random() < 0.06:
            op["m"] = rng.choice([1, 1, 2, 3])
            op["ns"] = [n if rng.random() < 0.6 else rng.choice([127, 128, 255, 256, 257, 300, 700, 1500]) for n in op["ns"]]
        elif kind == "pipeline":
            if sum(-(-n // op["m"]) for n in op["ns"]) > 40:
                op["m"] = max(op["ns"])
        if kind == "pipeline":
            op["mode"] = rng.choice(["single", "batch", "batches", "batches"])
            op["form"] = rng.choice(["bitstrings", "counts"])
            op["tag"] = rng.random() < 0.7
            op["alloc"] = rng.random() < 0.3
            op["faults"] = {str(j): backends.gen_fault(rng, 0) for j in range(12) if rng.random() < p_fault}
            op["crash"] = sorted(rng.sample(range(1, 12), rng.choice([0, 0, 1, 2])))
            op["extra"] = rng.choice([0, 0, 0, 2])
            op["twice"] = rng.random() < 0.5
        if kind == "expand" and rng.random() < 0.5:
            m = rng.choice([10**17, 10**15 + 1, 2**53, 3 * 10**9, 999])
            op.update(m=m, ns=[m * rng.randrange(1, 30) + rng.choice([-1, 0, 1, 1]) for _ in range(rng.randrange(1, 4))])
            op["seqtype"] = "list"
        elif kind == "expand" and rng.random() < 0.5:
            # many copies of a circuit at moderate sizes, where the last one may hold anything
            m = rng.randrange(2, 70)
            op.update(m=m, ns=[rng.randrange(8 * m, 60 * m) if rng.random() < 0.7 else n for n in op["ns"][:8]])
        if kind == "combine":
            op["mult"] = [rng.choice([1, 1, 2, 3, 6]) for _ in range(rng.choice([0, 1, 2, 4, 7, rng.choice([7, 20, 40])]))]
            if op["mult"] and rng.random() < 0.05:
                op["mult"][rng.randrange(len(op["mult"]))] = rng.choice([127, 128, 256, 300, 1100])
            op["form"] = rng.choice(["strings", "tuples", "counts"])
            op["twice"] = rng.random() < 0.5
        if kind == "repr":
            op["d"] = _gen_dist(rng)
            op["n"] = rng.choice([1, 1, 2, 3, 5, 7, 10, 33, 100, 1001, rng.randrange(1, 20000)])
        if kind == "scale":
            op["w"] = _gen_weights(rng)
            op["total"] = rng.choice([1, 2, 3, 10, 97, 1000, 12345, 10**6, 10**9, 10**12, 10**16 + 1,
                                      2**63, rng.randrange(1, 10**rng.randrange(3, 31))])
            op["seqtype"] = rng.choice(["list", "list", "tuple", "np"])
        ops.append(op)
    scn = {"ops": ops, "callers": callers,
           "entropy": {"seed": rng.randrange(1 << 40), "mode": rng.choice([None, None] + entropy.MODES)}}
    if callers > 1:
        scn["plan"] = {"mode": "random", "seed": rng.randrange(1 << 30), "p": 0.0, "seam_p": rng.choice([0.3, 0.6, 0.9])}
    return scn


# ---------------------------------------------------------------- execution


class _ClientDied(BaseException):
    pass


def execute(scn, ctx):
    warnings.simplefilter("ignore")
    with entropy.controlled(scn["entropy"]):
        _execute(scn, ctx)


def _execute(scn, ctx):
    if scn["entropy"]["mode"]:
        ctx.probe("adversarial")
        ctx.fault("entropy." + scn["entropy"]["mode"])
    callers = Callers(ctx, scn["plan"]) if scn.get("plan") else None
    service = backends.Service(ctx, callers)
    env = dict(ctx=ctx, scn=scn, service=service, callers=callers, serial=itertools.count(1), runner=_runner(service))
    if callers is None:
        for op in scn["ops"]:
            OPS[op["op"]](env, op)
    else:
        def program(t):
            def body(cs):
                for op in scn["ops"]:
                    if op["t"] == t:
                        OPS[op["op"]](env, op)
                        cs.point("between")
            return body

        callers.run([program(t) for t in range(scn["callers"])])
        ctx.schedule = callers.recorded
        if callers.recorded:
            ctx.probe("overlap")
            ctx.mark("interleaving", callers.recorded)


def _runner(service):
    from orquestra.quantum.api.circuit_runner import BaseCircuitRunner
    from orquestra.quantum.measurements import Measurements

    class TagRunner(BaseCircuitRunner):
        """Device client: every job is one circuit; shots carry unique tags."""

        def _run_and_measure(self, circuit, n_samples):
            entry, rng = service.invoke("run", n=int(n_samples))
            shots = service.local.make(circuit, int(n_samples), rng)
            entry["shots"] = shots
            return service.finish(entry, Measurements(list(shots)))

    return TagRunner()


def _seq(op, xs):
    t = op.get("seqtype", "list")
    return tuple(xs) if t == "tuple" else np.array(xs) if t == "np" and xs else list(xs)


def _tokens(op, k):
    """Circuits may be any objects; equal ones may occur several times."""
    return [f"circuit{i % 2 if op.get('dup') else i}" for i in range(k)]


def _check_expand(env, circuits, ns, m, out, what):
    ctx = env["ctx"]
    ctx.check(out.ok, "expand-failed", lambda: f"{what}: {out!r}")
    with ctx.oracle(what):
        new_c, new_n, mult = out.value
        new_c, new_n, mult = list(new_c), [int(x) for x in new_n], [int(x) for x in mult]
    ctx.check(len(new_c) == len(new_n) == sum(mult) and len(mult) == len(circuits), "expand-shape",
              lambda: f"{what}: {len(new_c)} circuits, {len(new_n)} counts, multiplicities {mult[:10]} for {len(circuits)} circuits")
    pos = 0
    for i, c in enumerate(circuits):
        part = new_n[pos:pos + mult[i]]
        ctx.check(all(x is c or x == c for x in new_c[pos:pos + mult[i]]), "expand-order",
                  lambda: f"{what}: copies of circuit {i} are not that circuit")
        ctx.check(all(1 <= x <= m for x in part), "expand-bounds", lambda: f"{what}: circuit {i} split into {part[:10]}")
        ctx.check(sum(part) == ns[i], "expand-sum",
                  lambda: f"{what}: circuit {i} asked {ns[i]} samples, its copies sum to {sum(part)} ({part[:4]}...)")
        pos += mult[i]
        if mult[i] > 1:
            ctx.probe("expanded")
        if ns[i] % m == 0:
            ctx.probe("exact-multiple")
    if m == 1:
        ctx.probe("max-one")
    return new_c, new_n, mult


def _check_batches(env, circuits, ns, b, batches, what):
    ctx = env["ctx"]
    pos = 0
    for k, (chunk, n) in enumerate(batches):
        ctx.check(1 <= len(chunk) <= b, "batch-size", lambda: f"{what}: batch {k} has {len(chunk)} circuits, maximum {b}")
        want = circuits[pos:pos + len(chunk)]
        ctx.check(len(want) == len(chunk) and all(x is y or x == y for x, y in zip(chunk, want)), "batch-cover",
                  lambda: f"{what}: batch {k} does not hold circuits {pos}..{pos + len(chunk) - 1}")
        need = max(ns[pos:pos + len(chunk)])
        ctx.check(n >= need, "batch-samples", lambda: f"{what}: batch {k} requests {n} samples, a member asked for {need}")
        pos += len(chunk)
        if len(chunk) < b:
            ctx.probe("short-last-batch")
    ctx.check(pos == len(circuits), "batch-cover", lambda: f"{what}: {pos} of {len(circuits)} circuits covered")


def _expand(env, op):
    from orquestra.quantum.circuits import expand_sample_sizes

    ctx = env["ctx"]
    circuits = _tokens(op, len(op["ns"]))
    ctx.log("expand", op["m"], op["ns"])
    if op["m"] > 10**6:
        ctx.probe("huge")
    out = ctx.call(expand_sample_sizes, circuits, _seq(op, op["ns"]), op["m"])
    _, new_n, mult = _check_expand(env, circuits, op["ns"], op["m"], out, f"expand_sample_sizes({op['ns']}, max {op['m']})")
    ctx.mark("expand", [mult, new_n[:6]])


def _split(env, op):
    from orquestra.quantum.circuits import split_into_batches

    ctx = env["ctx"]
    circuits = _tokens(op, len(op["ns"]))
    ctx.log("split", op["b"], op["ns"])
    what = f"split_into_batches({op['ns']}, max {op['b']})"
    out = ctx.call(split_into_batches, circuits, _seq(op, op["ns"]), op["b"])
    ctx.check(out.ok, "split-failed", lambda: f"{what}: {out!r}")
    # a second client splits and consumes its own batches in between
    second = ctx.call(split_into_batches, tuple(circuits), tuple(op["ns"]), op["b"])
    ctx.check(second.ok, "split-failed", lambda: f"{what}: {second!r}")
    got, other = [], []
    with ctx.oracle(what):
        it1, it2 = iter(out.value), iter(second.value)
        for x, y in itertools.zip_longest(it1, it2):
            if x is not None:
                got.append((list(x[0]), int(x[1])))
            if y is not None:
                other.append((list(y[0]), int(y[1])))
    _check_batches(env, circuits, op["ns"], op["b"], got, what)
    _check_batches(env, circuits, op["ns"], op["b"], other, what + " (second client)")
    ctx.probe("lazy-interleaved")
    ctx.mark("split", [len(circuits), op["b"]])


def _shots_maker(env, op):
    serial = env["serial"]

    def make(circuit, n, rng):
        w = circuit.n_qubits
        n += rng.randrange(op["extra"] + 1) if op["extra"] else 0
        if op["tag"]:
            return [tuple((s >> i) & 1 for i in range(w)) for s in itertools.islice(serial, n)]
        return [tuple(rng.randrange(2) for _ in range(w)) for _ in range(n)]

    return make


def _pipeline(env, op):
    """One client: allocate, expand, split, submit with failures and crashes, combine."""
    from orquestra.quantum.circuits import Circuit, X
    from orquestra.quantum.circuits import combine_bitstrings, combine_measurement_counts, expand_sample_sizes, split_into_batches
    from orquestra.quantum.utils import scale_and_discretize

    ctx, service, runner = env["ctx"], env["service"], env["runner"]
    w = 22 if op["tag"] else 2
    ns = list(op["ns"])
    if op.get("alloc"):
        # the budget is shared out in proportion to the requests; members without shots are dropped
        total = sum(ns)
        out = ctx.call(scale_and_discretize, [n / 3 for n in ns], total)
        ctx.check(out.ok, "scale-failed", lambda: f"scale_and_discretize({ns}) {out!r}")
        _check_scaled(ctx, [n / 3 for n in ns], total, out.value, "budget")
        ns = [int(n) for n in out.value if n > 0]
    circuits = [Circuit([X(i % 2 if op["dup"] else i % w)], n_qubits=w) for i in range(len(ns))]
    if op["dup"] and len(ns) > 2:
        ctx.probe("duplicate-circuits")
    what = f"pipeline {ns} max {op['m']} batch {op['b']} mode {op['mode']}"
    ctx.log("pipeline", ns, op["m"], op["b"], op["mode"])
    make = _shots_maker(env, op)
    journal = {}  # durable: copy index -> acknowledged shots
    state = {"jobs": 0}
    crashes = list(op["crash"])

    def submit(fn, *args):
        """Submit until acknowledged; faults are bounded, so this terminates."""
        for _ in range(30):
            j = state["jobs"]
            state["jobs"] += 1
            fault = op["faults"].get(str(j))
            if crashes and crashes[0] <= j:
                crashes.pop(0)
                ctx.fault("client.crash")
                ctx.log("client-crash", j)
                raise _ClientDied()
            service.arm({"fault": fault, "seed": op["seed"] + j})
            service.local.make = make
            out = ctx.call(fn, *args)
            ctx.log("submit", j, out.kind)
            failed = [e for e in service.log if not e["ok"]]
            if out.ok:
                ctx.check(not failed, "failure-swallowed", lambda: f"{what}: a failed job was reported as successful")
                return out.value
            ctx.check(bool(failed), "submit-failed", lambda: f"{what}: {out!r} although no job failed")
            ctx.probe("answer-lost" if fault["when"] == "after" else "job-fault")
        ctx.fail("no-progress", f"{what}: job never succeeded")

    for _life in range(4):
        try:
            out = ctx.call(expand_sample_sizes, circuits, _seq(op, ns), op["m"])
            new_c, new_n, mult = _check_expand(env, circuits, ns, op["m"], out, what)
            if op["mode"] == "single":
                order = [i for i in range(len(new_c)) if i not in journal]
                random.Random(op["seed"]).shuffle(order)
                for i in order:
                    journal[i] = list(submit(runner.run_and_measure, new_c[i], new_n[i]).bitstrings)
            elif op["mode"] == "batch":
                if len(journal) < len(new_c):
                    ms = list(submit(runner.run_batch_and_measure, new_c, new_n))
                    ctx.check(len(ms) == len(new_c), "batch-results", lambda: f"{what}: {len(ms)} results for {len(new_c)} circuits")
                    for i, m in enumerate(ms):
                        journal[i] = list(m.bitstrings)
            else:
                out = ctx.call(split_into_batches, new_c, new_n, op["b"])
                ctx.check(out.ok, "split-failed", lambda: f"{what}: {out!r}")
                pos, seen = 0, []
                for chunk, n in out.value:
                    seen.append((list(chunk), int(n)))
                    idx = list(range(pos, pos + len(chunk)))
                    pos += len(chunk)
                    if all(i in journal for i in idx):
                        continue
                    ms = list(submit(runner.run_batch_and_measure, chunk, n))
                    for i, m in zip(idx, ms):
                        journal[i] = list(m.bitstrings)
                _check_batches(env, new_c, new_n, op["b"], seen, what)
                ctx.probe("batched")
            break
        except _ClientDied:
            ctx.probe("crash")
            continue
    ctx.check(len(journal) == len(new_c), "lost-copy", lambda: f"{what}: {len(journal)} of {len(new_c)} copies have results")
    acks = [journal[i] for i in range(len(new_c))]
    for i, shots in enumerate(acks):
        ctx.check(len(shots) >= new_n[i], "too-few", lambda: f"{what}: copy {i} asked {new_n[i]} got {len(shots)}")
    for _ in range(2 if op["twice"] else 1):
        if op["form"] == "bitstrings":
            given = [["".join(map(str, t)) for t in shots] for shots in acks] if op["tag"] else acks
            out = ctx.call(combine_bitstrings, given, mult)
        else:
            given = [dict(collections.Counter("".join(map(str, t)) for t in shots)) for shots in acks]
            out = ctx.call(combine_measurement_counts, given, mult)
        if op["twice"]:
            ctx.probe("recombined-twice")
        _check_combined(env, given, mult, out, what, op["form"])
        if op["form"] == "bitstrings" and op["twice"]:
            # a client that recombines the very same acknowledged results
            out = ctx.call(combine_bitstrings, given, mult)
            _check_combined(env, [list(s) for s in ([["".join(map(str, t)) for t in x] for x in acks] if op["tag"] else acks)],
                            mult, out, what + " (again)", op["form"])
        with ctx.oracle(what):
            totals = [len(x) if op["form"] == "bitstrings" else sum(x.values()) for x in out.value]
        if op["extra"] or op["mode"] == "batches":
            ok = all(a >= b for a, b in zip(totals, ns))
            ctx.probe("over-delivery")
        else:
            ok = totals == ns
        ctx.check(ok and len(totals) == len(ns), "totals", lambda: f"{what}: totals {totals}, requested {ns}")
    if any(m > 1 for m in mult):
        ctx.nontrivial = True
    ctx.mark("pipeline", [mult, op["mode"], sorted(op["faults"])])


def _check_combined(env, given, mult, out, what, form):
    """given: the per-copy results in order, as acknowledged."""
    ctx = env["ctx"]
    ctx.check(out.ok, "combine-failed", lambda: f"{what}: combine {out!r}")
    with ctx.oracle(what):
        got = [collections.Counter(x) for x in out.value]
    ctx.check(len(got) == len(mult), "combine-shape", lambda: f"{what}: {len(got)} groups for multiplicities {mult}")
    pos = 0
    for i, m in enumerate(mult):
        want = collections.Counter()
        for x in given[pos:pos + m]:
            want.update(x if isinstance(x, dict) else collections.Counter(x))
        pos += m
        lost, extra = want - got[i], got[i] - want
        ctx.check(not lost and not extra, "shots",
                  lambda: f"{what}: circuit {i} lost shots {dict(list(lost.items())[:3])}, gained {dict(list(extra.items())[:3])}")
    ctx.probe("counts" if form == "counts" else "bitstrings")


def _combine(env, op):
    from orquestra.quantum.circuits import combine_bitstrings, combine_measurement_counts

    ctx = env["ctx"]
    r = random.Random(op["seed"])
    total = sum(op["mult"])
    ctx.log("combine", op["mult"], op["form"])
    w = r.choice([1, 2, 3])
    raw = [["".join(r.choice("01") for _ in range(w)) for _ in range(r.choice([0, 1, 2, 5, 9]))] for _ in range(total)]

    def fresh():
        if op["form"] == "strings":
            return [list(x) for x in raw]
        if op["form"] == "tuples":
            return [[tuple(int(c) for c in s) for s in x] for x in raw]
        return [dict(collections.Counter(x)) for x in raw]

    given = fresh()
    fn = combine_measurement_counts if op["form"] == "counts" else combine_bitstrings
    for k in range(2 if op["twice"] else 1):
        out = ctx.call(fn, given, op["mult"])
        _check_combined(env, fresh(), op["mult"], out, f"{fn.__name__} with multiplicities {op['mult']}, call {k}", op["form"])
    if any(m > 1 for m in op["mult"]):
        ctx.nontrivial = True
    ctx.mark("combine", [op["mult"], op["form"]])


def _repr(env, op):
    from orquestra.quantum.distributions import MeasurementOutcomeDistribution
    from orquestra.quantum.measurements import Measurements

    ctx = env["ctx"]
    d, n = op["d"], op["n"]
    keys = [tuple(k) for k in d["keys"]]
    src = {("".join(map(str, k)) if d["str"] else k): w for k, w in zip(keys, d["w"])}
    dist = MeasurementOutcomeDistribution(src, normalize=d["norm"])
    if not d["norm"]:
        ctx.probe("unnormalized")
    mode = env["scn"]["entropy"]["mode"] or "seeded"
    what = f"measurements representing {dist.distribution_dict} with {n} shots, entropy {mode}"
    what = what if len(what) < 400 else what[:300] + "..." + what[-60:]
    total = sum(d["w"])
    rounded = sum(int(round(w / total * n)) for w in d["w"])
    ctx.probe("repr-exact" if rounded == n else "repr-add" if rounded < n else "repr-remove")
    ctx.log("repr", n, len(keys), rounded - n)
    for k in range(2):
        out = ctx.call(Measurements.get_measurements_representing_distribution, dist, n)
        ctx.check(out.ok, "representation-failed", lambda: f"{what}: {out!r}")
        with ctx.oracle(what):
            shots = [tuple(int(b) for b in t) for t in out.value.bitstrings]
        ctx.check(len(shots) == n, "representation-count", lambda: f"{what}: {len(shots)} shots")
        support = {key for key, w in zip(keys, d["w"]) if w > 0}
        bad = [t for t in shots if t not in support]
        ctx.check(not bad, "representation-support", lambda: f"{what}: shot {bad[0]} is outside the support")
    if rounded != n:
        ctx.nontrivial = True
    ctx.mark("repr", [len(keys), n, rounded - n])


def _check_scaled(ctx, weights, total, got, what):
    with ctx.oracle(what):
        got = list(got)
        kinds = all(isinstance(x, (int, np.integer)) and not isinstance(x, bool) for x in got)
    ctx.check(kinds, "scale-type", lambda: f"{what}: {got[:10]} are not all integers")
    ctx.check(len(got) == len(weights), "scale-length", lambda: f"{what}: {len(got)} values for {len(weights)} weights")
    ctx.check(sum(int(x) for x in got) == total, "scale-sum", lambda: f"{what}: {got[:10]} sum to {sum(got)}, not {total}")
    fr = [fractions.Fraction(w) for w in weights]
    s = sum(fr)
    slack = fractions.Fraction(1, 10**6)
    for i, (x, f) in enumerate(zip(got, fr)):
        share = f * total / s
        ctx.check(abs(int(x) - share) <= 1 + slack, "scale-share",
                  lambda: f"{what}: weight {i} ({weights[i]}) got {x}, its proportional share is {float(share):.6f}")


def _scale(env, op):
    from orquestra.quantum.utils import scale_and_discretize

    ctx = env["ctx"]
    ctx.log("scale", len(op["w"]), op["total"])
    ctx.probe("scale")
    if op["total"] > 10**15:
        ctx.probe("scale-large-total")
    if max(op["w"]) / 1e6 > min(op["w"]):
        ctx.probe("scale-skewed")
    out = ctx.call(scale_and_discretize, _seq(op, op["w"]), op["total"])
    what = f"scale_and_discretize({op['w'][:8]}{'...' if len(op['w']) > 8 else ''}, {op['total']})"
    ctx.check(out.ok, "scale-failed", lambda: f"{what}: {out!r}")
    _check_scaled(ctx, op["w"], op["total"], out.value, what)
    ctx.mark("scale", [len(op["w"]), op["total"]])


OPS = {"pipeline": _pipeline, "combine": _combine, "split": _split, "expand": _expand, "repr": _repr, "scale": _scale}


def simplify(scn):
    import copy

    for i, op in enumerate(scn["ops"]):
        for k in ("ns", "mult", "w", "crash"):
            if isinstance(op.get(k), list) and len(op[k]) > (0 if k == "crash" else 1):
                for j in range(len(op[k])):
                    c = copy.deepcopy(scn)
                    c["ops"][i][k].pop(j)
                    yield c
        if op.get("faults"):
            c = copy.deepcopy(scn)
            c["ops"][i]["faults"] = {}
            yield c
        for k in ("dup", "alloc", "extra", "twice"):
            if op.get(k):
                c = copy.deepcopy(scn)
                c["ops"][i][k] = 0
                yield c
        if "d" in op and len(op["d"]["keys"]) > 1:
            for j in range(len(op["d"]["keys"])):
                c = copy.deepcopy(scn)
                c["ops"][i]["d"]["keys"].pop(j)
                c["ops"][i]["d"]["w"].pop(j)
                if sum(c["ops"][i]["d"]["w"]) > 0:
                    yield c
        if op.get("n", 1) > 1:
            for v in (1, op["n"] // 2, op["n"] - 1):
                c = copy.deepcopy(scn)
                c["ops"][i]["n"] = v
                yield c
    if scn["entropy"]["mode"]:
        c = copy.deepcopy(scn)
        c["entropy"]["mode"] = None
        yield c
    if scn.get("plan"):
        c = copy.deepcopy(scn)
        c.pop("plan")
        c["callers"] = 1
        for o in c["ops"]:
            o["t"] = 0
        yield c

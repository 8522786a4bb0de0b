"""C17: outcome distributions stay normalised; marginals and distances obey their laws.

One execution is a history over a pool of distribution objects shared by one to
three callers: construction (accepted and refused), marginals (of marginals ...),
distances, saving and loading singly and as lists.  The simulator decides which
caller runs before every source line of the code under test, interrupts calls or
fails allocations in the middle, and owns the disk.  The reference is exact
rational arithmetic over the descriptors.
"""
import copy
import json
import math
import warnings
from fractions import Fraction
from itertools import product

import numpy as np

from .. import disk as disk_mod
from .. import store
from ..core import SimInterrupt
from ..sched import Callers

RUNS = {"quick": 8000, "thorough": 200000}
RULE = ("a run is non-trivial if it checked a marginal, a distance law or a reload of a distribution with at least two outcomes")
REAL = ["orquestra.quantum.distributions (construction, normalisation, marginals, MMD, clipped NLL, symmetrised divergence, save/load)",
        "Measurements.get_distribution", "Python's buffering and text decoding", "json"]
STUB = ["disk (simulated raw layer on a scratch directory)", "scheduler of caller threads (baton, line granularity)",
        "asynchronous interrupts and allocation failures"]
ASSUMPTIONS = [
    "weights are 0 or between 1e-100 and 1e100 and their sum is finite; probabilities are compared to a relative 3e-9 "
    "(the library's own notion of a normalised sum) and reloaded probabilities to a relative 1e-12",
    "dictionaries do not name one outcome twice in different notations",
    "at most 40 outcomes, 70 subsystems, outcomes up to 120; marginals are over non-empty lists",
]
PROBES = ["constructed", "not-normalised-input", "zero-weight", "numpy-weights", "string-keys", "csv-keys", "mixed-keys",
          "probability-array", "measured", "kept-unnormalised", "refused-empty", "refused-negative", "refused-lengths",
          "refused-all-zero", "marginal", "marginal-of-marginal", "marginal-permutes", "marginal-merges", "outcome-above-nine",
          "many-subsystems", "mmd", "mmd-self", "multi-kernel", "cnll", "clipped", "divergence", "wrapper", "roundtrip-equal",
          "list-of-distributions", "second-generation", "source-intact", "overlap", "interrupted", "crash-during-save",
          "torn-file-refused"]
LIST_FIELDS = ["ops", "plan.interrupts", "plan.switches"]

REL = 3e-9
TINY = 1e-290

# ---------------------------------------------------------------- generation


def _gen_weight(rng, style):
    if style == "count":
        return rng.choice([0, 1, 1, 2, 3, 10, 97, 1000, 10**6])
    if style == "unit":
        return rng.random()
    if style == "wide":
        return 0.0 if rng.random() < 0.15 else rng.uniform(0.1, 1) * 10.0 ** rng.randint(-100, 99)
    if style == "equal":
        return 1.0
    return rng.choice([0.0, 0.25, 0.5, 1.0, 2.0, 1e-12, rng.random()])


def _gen_keys(rng):
    r = rng.random()
    if r < 0.06:  # wide registers
        n, alphabet, most = rng.choice([31, 32, 33, 53, 63, 64, 65, 70]), [0, 1], 6
    elif r < 0.085:
        n, alphabet, most = rng.choice([7, 8, 10]), [0, 1], rng.choice([60, 130, 260])
    elif r < 0.65:
        n, alphabet, most = rng.randrange(1, 7), [0, 1], 40
    elif r < 0.85:
        n, alphabet, most = rng.randrange(1, 5), list(range(rng.choice([3, 4, 10]))), 24
    else:
        n, alphabet, most = rng.randrange(1, 4), [0, 1, 2, 9, 10, 11, 12, 101, 110, 120], 16
    m = min(len(alphabet) ** min(n, 7), rng.choice([1, 2, 2, 3, 4, 8, most]) if most < 60 else most)
    keys = set()
    for _ in range(4 * m if m < 60 else 3 * m):
        if len(keys) < m:
            k = [rng.choice(alphabet) for _ in range(n)]
            if keys and rng.random() < 0.5:  # neighbours: projections merge
                k = list(rng.choice(sorted(keys)))
                k[rng.randrange(n)] = rng.choice(alphabet)
            keys.add(tuple(k))
    keys = sorted(keys)
    rng.shuffle(keys)
    return [list(k) for k in keys]


def _gen_dist(rng):
    r = rng.random()
    style = rng.choice(["count", "unit", "wide", "equal", "mixed"])
    if r < 0.08:
        n = rng.randrange(1, 5)
        return {"via": "probs", "w": [abs(float(_gen_weight(rng, rng.choice(["unit", "mixed", "equal"])))) for _ in range(2**n)],
                "n": n}
    if r < 0.14:
        n = rng.randrange(1, 6)
        return {"via": "shots", "shots": [[rng.randrange(2) for _ in range(n)] for _ in range(rng.randrange(1, 30))]}
    keys = _gen_keys(rng)
    w = [_gen_weight(rng, style) for _ in keys]
    r = rng.random()
    if r < 0.3 and sum(w) > 0:  # already (nearly) normalised
        t = math.fsum(w)
        w = [float(x) / t * rng.choice([1, 1, 1 + 1e-10, 1 + 1e-7, 1 - 1e-5]) for x in w]
    forms = ["tuple", "tuple"]
    if all(d < 10 for k in keys for d in k):
        forms += ["str", "str", "mixed"]
    if len(keys[0]) > 1:
        forms += ["csv", "npint"]
    return {"via": "dict", "keys": keys, "w": w, "form": rng.choice(forms), "wtype": rng.choice(["py", "py", "py", "np64", "np32", "npint"]),
            "norm": rng.random() < 0.9, "order": rng.randrange(1 << 20)}


def _gen_reject(rng):
    keys = _gen_keys(rng)
    w = [float(_gen_weight(rng, "unit")) + 0.01 for _ in keys]
    kind = rng.choice(["empty", "negative", "negative", "lengths", "lengths"])
    if kind == "negative":
        i = rng.randrange(len(w))
        w[i] = rng.choice([-1.0, -1e-12, -1e-300, -0.5, -7, -1e100])
        if rng.random() < 0.3 and len(w) > 1:  # the total is exactly 1 nevertheless
            w[i] = -0.5
            w = [x if x == -0.5 else 0.0 for x in w]
            w[(i + 1) % len(w)] = 1.5
    if kind == "lengths":
        i = rng.randrange(len(keys))
        if len(keys) == 1:
            keys.append(keys[0][:])
            w.append(0.5)
        keys[i] = keys[i] + [0] * rng.choice([1, 1, 2]) if rng.random() < 0.5 or len(keys[i]) < 2 else keys[i][:-1]
    form = "str" if rng.random() < 0.4 and all(d < 10 for k in keys for d in k) else "tuple"
    return {"kind": kind, "keys": keys, "w": w, "form": form, "norm": rng.random() < 0.7}


def _blur(d, rng):
    """Each outcome's weight moved half up, half down: sums and means agree, only spreads differ."""
    n = len(d["keys"][0])
    w = {}
    for k, x in zip(d["keys"], d["w"]):
        i = int("".join(map(str, k)), 2)
        for j in (i - 1, i + 1):
            w[j % 2**n] = w.get(j % 2**n, 0) + (float(x) if rng.random() < 0.8 else rng.random())
    keys = [[int(b) for b in format(j, f"0{n}b")] for j in w]
    return {"keys": keys, "w": list(w.values())}


def generate(rng, tier, index):
    callers = rng.choice([1, 1, 1, 2, 2, 3])
    dists = [_gen_dist(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    for d in list(dists):  # a partner over the same subsystems, for distances
        if d["via"] == "dict" and rng.random() < 0.5:
            e = copy.deepcopy(d)
            alphabet = sorted({x for k in d["keys"] for x in k} | {0, 1})
            ks = {tuple(k) if rng.random() < 0.6 else tuple(rng.choice(alphabet) for _ in k) for k in d["keys"]}
            e["keys"] = [list(k) for k in sorted(ks)]
            rng.shuffle(e["keys"])
            e["w"] = [_gen_weight(rng, rng.choice(["unit", "mixed", "count"])) for _ in e["keys"]]
            e["wtype"] = "py"
            if rng.random() < 0.4 and all(x < 2 for k in d["keys"] for x in k) and len(d["keys"][0]) < 10:
                e.update(_blur(d, rng))
            dists.append(e)
    p_fault = rng.choice([0.0, 0.0, 0.3])
    ops = []
    for _ in range(rng.choice([3, 6, 10, 16])):
        kind = rng.choice(["sub"] * 5 + ["mmd", "mmd", "cnll", "cnll", "js", "save", "save", "load", "load", "savelist", "loadlist",
                                          "make", "reject", "reload"])
        op = {"op": kind, "t": rng.randrange(callers), "i": rng.randrange(1 << 16), "j": rng.randrange(1 << 16)}
        if kind == "sub":
            op["qs"] = rng.randrange(1 << 30)
            op["frac"] = rng.choice([0.0, 0.3, 0.6, 1.0])
            op["as"] = rng.choice(["list", "list", "list", "npint"])
            op["keep"] = rng.random() < 0.6
        if kind in ("mmd", "cnll", "js"):
            op["wrapper"] = rng.random() < 0.3
        if kind == "mmd":
            op["sigma"] = rng.choice([None, None, 1.0, 0.5, 10.0, 1e-6, 1e6, 1, [0.25, 10.0, 1000.0], [1.0], [8.0, 64.0], [10.0], [100.0, 1e4],
                                     [rng.uniform(0.05, 40) for _ in range(rng.choice([1, 2, 4]))], rng.uniform(0.01, 50)])
        if kind in ("cnll", "js"):
            op["eps"] = rng.choice([None, None, 1e-9, 1e-12, 1e-6, 1e-3, 0.1])
        if kind in ("save", "savelist", "load", "loadlist"):
            op["file"] = rng.choice(["a", "b", "c d.json"]) + (".list" if "list" in kind else "")
        if kind in ("save", "savelist"):
            op["how"] = store.gen_how_save(rng, False)
            op["many"] = [rng.randrange(1 << 16) for _ in range(rng.choice([0, 1, 2, 4]))]
            if rng.random() < p_fault:
                op["fault"] = disk_mod.gen_write_fault(rng, 300)
                if callers > 1 and op["fault"]["kind"] == "crash":
                    op["fault"]["kind"] = "enospc"
        if kind in ("load", "loadlist"):
            op["how"] = store.gen_how_load(rng)
            if rng.random() < p_fault:
                op["fault"] = disk_mod.gen_read_fault(rng, 300)
        if kind == "reject":
            op["bad"] = _gen_reject(rng)
        ops.append(op)
    if rng.random() < 0.2:
        t, which = rng.randrange(callers), [rng.randrange(1 << 16) for _ in "01"]
        many = [[rng.randrange(1 << 16) for _ in range(rng.choice([0, 1, 2, 4]))] for _ in "01"]
        l = "list" if rng.random() < 0.4 else ""
        f = rng.choice(["a", "b", "c d.json"]) + (".list" if l else "")

        def save(w, how):
            return {"op": "save" + l, "t": t, "i": which[w], "j": 0, "file": f, "how": how, "many": many[w]}

        def load(how):
            return {"op": "load" + l, "t": t, "i": 0, "j": 0, "file": f, "how": how}

        def fault():
            d = disk_mod.gen_write_fault(rng, 300)
            if callers > 1 and d["kind"] == "crash":
                d["kind"] = "enospc"
            return d

        at = rng.randrange(len(ops) + 1)
        ops[at:at] = store.history(rng, save, load, fault)
    scn = {"dists": dists, "ops": ops, "callers": callers}
    r = rng.random()
    if callers > 1 or r < 0.35:
        plan = {"mode": "random", "seed": rng.randrange(1 << 30), "line": True, "p": rng.choice([0.02, 0.1, 0.4]) if callers > 1 else 0.0,
                "seam_p": 0.5}
        if rng.random() < 0.5:
            plan["interrupts"] = [[rng.randrange(callers), rng.randrange(12), int(10 ** rng.uniform(0, 2.2)),
                                   rng.choice(["interrupt", "memory"])] for _ in range(rng.choice([1, 2, 4]))]
        scn["plan"] = plan
        for op in ops:
            if op.get("fault", {}).get("kind") == "crash":
                op["fault"]["kind"] = "eio_write"
                op["fault"].setdefault("at", 0)
    return scn


# ---------------------------------------------------------------- building


def _key(k, form, i):
    if form == "mixed":
        form = "str" if i % 2 else "tuple"
    if form == "str":
        return "".join(map(str, k))
    if form == "csv":
        return ",".join(map(str, k))
    if form == "npint":
        return tuple(np.int64(d) for d in k)
    return tuple(k)


def _weight(w, wtype):
    if wtype == "np64":
        return np.float64(w)
    if wtype == "np32" and (w == 0 or 1e-30 < w < 1e30):
        return np.float32(w)
    if wtype == "npint" and float(w).is_integer() and w < 10**9:
        return np.int64(w)
    return w


def _total_ok(ws):
    return all(x == 0 or 1e-101 < x < 1e101 for x in ws)


def _build(d):
    """(callable building the object, {outcome: exact weight}, normalise?)"""
    from orquestra.quantum.distributions import (MeasurementOutcomeDistribution,
                                                 create_bitstring_distribution_from_probability_distribution)
    from orquestra.quantum.measurements import Measurements

    if d["via"] == "probs":
        ref = {k: Fraction(w) for k, w in zip(product([0, 1], repeat=d["n"]), d["w"])}
        return lambda: create_bitstring_distribution_from_probability_distribution(np.array(d["w"])), ref, True
    if d["via"] == "shots":
        ref = {}
        for s in d["shots"]:
            ref[tuple(s)] = ref.get(tuple(s), Fraction(0)) + 1
        return lambda: Measurements([tuple(s) for s in d["shots"]]).get_distribution(), ref, True
    inp = {_key(k, d["form"], i): _weight(w, d["wtype"]) for i, (k, w) in enumerate(zip(d["keys"], d["w"]))}
    ref = {tuple(k): Fraction(float(x)) for k, x in zip(d["keys"], inp.values())}
    if d["norm"]:
        return lambda: MeasurementOutcomeDistribution(inp), ref, True
    return lambda: MeasurementOutcomeDistribution(inp, normalize=False), ref, False


def _contents(obj):
    """The distribution an object shows: {outcome tuple: probability as Python number}."""
    out = {}
    for k, v in dict(obj.distribution_dict).items():
        out[tuple(int(x) for x in k)] = v.item() if hasattr(v, "item") else v
    return out


def _differs(expected, shown, rel):
    """expected: {outcome: Fraction}; shown: {outcome: number}.  Absent means probability 0."""
    for k in sorted(set(expected) | set(shown)):
        want, got = expected.get(k, Fraction(0)), shown.get(k, 0)
        if not (math.isfinite(got) and abs(Fraction(got) - want) <= Fraction(rel) * want + Fraction(TINY)):
            return f"outcome {k} has {got!r} instead of {float(want)!r}"
    return None


class Entry:
    """One object of the pool with what it showed when it was made."""

    def __init__(self, obj, shown, normalised, depth=0, desc=None):
        self.obj = obj
        self.shown = shown
        self.normalised = normalised
        self.depth = depth
        self.desc = desc
        self.n = len(next(iter(shown)))
        self.exact = {k: Fraction(v) for k, v in shown.items()}


class World:
    def __init__(self, scn, ctx, st, callers):
        self.scn, self.ctx, self.st, self.callers = scn, ctx, st, callers
        self.pool = []
        self.saved = []  # what files hold, by number: list of contents

    # -- objects
    def make(self, d):
        ctx = self.ctx
        build, ref, normalise = _build(d)
        total = sum(ref.values())
        out = ctx.call(build)
        ctx.log("make", d["via"], out.kind)
        if total == 0:
            ctx.probe("refused-all-zero")
            if not out.ok or not normalise:
                return None
        ctx.check(out.ok, "construction-failed", lambda: f"{d} {out!r}")
        with ctx.oracle("reading a distribution"):
            shown = _contents(out.value)
            ctx.check(shown and all(v >= 0 for v in shown.values()), "negative-or-empty", lambda: f"{d} holds {shown}")
        if not normalise:
            ctx.probe("kept-unnormalised")
            self.pool.append(Entry(out.value, shown, abs(sum(Fraction(v) for v in shown.values()) - 1) < 1e-10, desc=d))
            return self.pool[-1]
        with ctx.oracle("summing probabilities"):
            s = sum(Fraction(v) for v in shown.values())
            ctx.check(abs(s - 1) <= REL, "not-normalised", lambda: f"{d}: probabilities sum to {float(s)!r}")
            diff = _differs({k: w / total for k, w in ref.items()}, shown, REL)
        ctx.check(diff is None, "proportions-changed", lambda: f"{d}: {diff}")
        ctx.probe("constructed")
        if abs(total - 1) > 1e-6:
            ctx.probe("not-normalised-input")
        if any(w == 0 for w in ref.values()):
            ctx.probe("zero-weight")
        if d["via"] == "probs":
            ctx.probe("probability-array")
        elif d["via"] == "shots":
            ctx.probe("measured")
        else:
            for form, name in (("str", "string-keys"), ("csv", "csv-keys"), ("mixed", "mixed-keys")):
                if d["form"] == form:
                    ctx.probe(name)
            if d["wtype"] != "py":
                ctx.probe("numpy-weights")
        if any(x > 9 for k in shown for x in k):
            ctx.probe("outcome-above-nine")
        if len(next(iter(shown))) > 30:
            ctx.probe("many-subsystems")
        self.pool.append(Entry(out.value, shown, True, desc=d))
        return self.pool[-1]

    def pick(self, i):
        return self.pool[i % len(self.pool)] if self.pool else None

    def pair(self, op):
        a = self.pick(op["i"])
        if a is None:
            return None, None
        mates = [e for e in self.pool if e.n == a.n and e.normalised == a.normalised]
        return a, mates[op["j"] % len(mates)]

    def intact(self, what, entries=None):
        ctx = self.ctx
        for e in self.pool if entries is None else entries:
            with ctx.oracle("reading a distribution again"):
                now = _contents(e.obj)
            ctx.check(now == e.shown, "source-changed", lambda: f"after {what}: a distribution that held {e.shown} holds {now}")
        ctx.probe("source-intact")


def execute(scn, ctx):
    warnings.simplefilter("ignore")
    callers = Callers(ctx, scn["plan"]) if scn.get("plan") else None
    disk = disk_mod.Disk(ctx, callers)
    ctx.mark("distributions", scn["dists"])
    with disk.mounted():
        st = store.Store(ctx, disk)
        world = World(scn, ctx, st, callers)

        def boot():
            world.pool = []
            for d in scn["dists"]:
                world.make(d)

        boot()

        def run(op, t):
            try:
                OPS[op["op"]](world, op, t)
            except (SimInterrupt, MemoryError):
                if callers is None or not callers.local.fired:
                    raise
                ctx.probe("interrupted")
                world.intact(f"an interrupted {op['op']}")
                return
            world.intact(op["op"])

        if callers is None:
            for op in scn["ops"]:
                run(op, 0)
        else:
            def program(t):
                def body(cs):
                    for op in scn["ops"]:
                        if op["t"] == t:
                            run(op, t)
                            cs.point("between")
                return body

            callers.run([program(t) for t in range(scn["callers"])])
            ctx.schedule = callers.recorded
            if callers.recorded:
                ctx.probe("overlap")
                ctx.mark("interleaving", callers.recorded)


# ---------------------------------------------------------------- operations


def _make(world, op, t):
    world.make(world.scn["dists"][op["i"] % len(world.scn["dists"])])


def _reject(world, op, t):
    from orquestra.quantum.distributions import MeasurementOutcomeDistribution

    ctx, bad = world.ctx, op["bad"]
    inp = {} if bad["kind"] == "empty" else {_key(k, bad["form"], i): w for i, (k, w) in enumerate(zip(bad["keys"], bad["w"]))}
    if bad["kind"] == "lengths" and len({len(k) for k in inp}) < 2:
        return
    out = ctx.call(MeasurementOutcomeDistribution, inp, bad["norm"])
    ctx.log("reject", bad["kind"], out.kind)
    ctx.check(not out.ok, "bad-input-accepted", lambda: f"{bad['kind']} input {inp} was accepted and holds {out.value.distribution_dict}")
    ctx.probe("refused-" + bad["kind"])


def _sub(world, op, t):
    import random

    ctx = world.ctx
    e = world.pick(op["i"])
    if e is None:
        return
    rng = random.Random(op["qs"])
    qs = rng.sample(range(e.n), max(1, min(e.n, round(op["frac"] * e.n))))
    arg = [np.int64(q) for q in qs] if op["as"] == "npint" else list(qs)
    out = ctx.call(e.obj.subdistribution, arg)
    ctx.log("sub", qs, out.kind)
    ctx.check(out.ok, "marginal-failed", lambda: f"subdistribution({qs}) of {e.shown} {out!r}")
    want = {}
    for k, v in e.exact.items():
        p = tuple(k[q] for q in qs)
        want[p] = want.get(p, Fraction(0)) + v
    with ctx.oracle("reading a marginal"):
        shown = _contents(out.value)
        diff = _differs(want, shown, REL)
        bad = [k for k in shown if len(k) != len(qs)]
    ctx.check(diff is None and not bad, "marginal-differs", lambda: f"subdistribution({qs}) of {e.shown}: {diff or bad}")
    if e.normalised:
        with ctx.oracle("summing a marginal"):
            s = sum(Fraction(v) for v in shown.values())
        ctx.check(abs(s - 1) <= REL, "marginal-not-normalised", lambda: f"subdistribution({qs}) of {e.shown} sums to {float(s)!r}")
    ctx.probe("marginal")
    if len(e.shown) > 1:
        ctx.nontrivial = True
    if e.depth:
        ctx.probe("marginal-of-marginal")
    if qs != sorted(qs):
        ctx.probe("marginal-permutes")
    if len(want) < len(e.shown):
        ctx.probe("marginal-merges")
    if op["keep"] and len(world.pool) < 24:
        world.pool.append(Entry(out.value, shown, e.normalised, e.depth + 1))


def _distance(world, op, fn, a, b, params):
    from orquestra.quantum.distributions import evaluate_distribution_distance

    ctx = world.ctx
    if op["wrapper"]:
        ctx.probe("wrapper")
        out = ctx.call(evaluate_distribution_distance, a.obj, b.obj, fn, distance_measure_parameters=dict(params))
    else:
        out = ctx.call(fn, a.obj, b.obj, dict(params))
    ctx.check(out.ok, "distance-failed", lambda: f"{fn.__name__} of {a.shown} and {b.shown} with {params} {out!r}")
    with ctx.oracle("reading a distance"):
        value = float(out.value)
    ctx.log(op["op"], round(value, 9) if math.isfinite(value) else str(value))
    ctx.check(math.isfinite(value), "distance-not-finite", lambda: f"{fn.__name__} of {a.shown} and {b.shown} with {params} is {value}")
    if len(a.shown) > 1:
        ctx.nontrivial = True
    return value


def _mmd(world, op, t):
    from orquestra.quantum.distributions import compute_mmd

    ctx = world.ctx
    a, b = world.pair(op)
    if a is None:
        return
    if not a.normalised:
        return
    s = op["sigma"]
    params = {} if s is None else {"sigma": np.array(s) if isinstance(s, list) and op["wrapper"] else s}
    ab = _distance(world, op, compute_mmd, a, b, params)
    ba = _distance(world, op, compute_mmd, b, a, params)
    aa = _distance(world, op, compute_mmd, a, a, params)
    what = f"{a.shown} and {b.shown} with {params}"
    ctx.check(abs(ab - ba) <= 1e-12 + 1e-9 * abs(ab), "mmd-asymmetric", lambda: f"MMD of {what}: {ab} but {ba} when swapped")
    ctx.check(ab >= -1e-12, "mmd-negative", lambda: f"MMD of {what} is {ab}")
    ctx.check(abs(aa) <= 1e-12, "mmd-self", lambda: f"MMD of {a.shown} with itself ({params}) is {aa}")
    if a.desc is not None:  # an equal distribution in another object
        twin = _build(a.desc)[0]()
        v = ctx.call(compute_mmd, a.obj, twin, dict(params))
        ctx.check(v.ok and abs(float(v.value)) <= 1e-12, "mmd-self", lambda: f"MMD of {a.shown} with an equal distribution: {v!r} {v.value}")
    ctx.probe("mmd")
    ctx.probe("mmd-self")
    if isinstance(s, list):
        ctx.probe("multi-kernel")


def _entropy(e):
    return -math.fsum(float(p) * math.log(p) for p in e.shown.values() if p > 0)


def _cnll(world, op, t):
    from orquestra.quantum.distributions import compute_clipped_negative_log_likelihood as nll

    ctx = world.ctx
    a, b = world.pair(op)
    if a is None or not a.normalised:
        return
    params = {} if op["eps"] is None else {"epsilon": op["eps"]}
    eps = op["eps"] or 1e-9
    v = _distance(world, op, nll, a, b, params)
    mass = math.fsum(max(eps, float(b.shown.get(k, 0))) for k, p in a.shown.items() if p > 0)
    bound = _entropy(a) - max(0.0, math.log(mass)) if mass > 0 else _entropy(a)
    ctx.check(v >= bound - 1e-8 * (1 + abs(bound)), "likelihood-below-entropy",
              lambda: f"clipped NLL of {a.shown} under {b.shown} ({params}) is {v}, below the entropy bound {bound}")
    ctx.probe("cnll")
    if any(p > 0 and b.shown.get(k, 0) < eps for k, p in a.shown.items()):
        ctx.probe("clipped")


def _js(world, op, t):
    from orquestra.quantum.distributions import compute_jensen_shannon_divergence as js

    ctx = world.ctx
    a, b = world.pair(op)
    if a is None or not a.normalised:
        return
    params = {} if op["eps"] is None else {"epsilon": op["eps"]}
    ab = _distance(world, op, js, a, b, params)
    ba = _distance(world, op, js, b, a, params)
    ctx.check(abs(ab - ba) <= 1e-12 + 1e-9 * abs(ab), "divergence-asymmetric",
              lambda: f"symmetrised divergence of {a.shown} and {b.shown} ({params}): {ab} but {ba} when swapped")
    ctx.probe("divergence")


# -- persistence: expectations are numbers of entries in world.saved


def _same(want, obj):
    shown = _contents(obj)
    if set(shown) != set(want):
        return f"keys {sorted(want)} came back as {sorted(shown)}"
    for k, p in want.items():
        if not abs(Fraction(shown[k]) - Fraction(p)) <= Fraction(1, 10**12) * Fraction(p):
            return f"probability {p!r} of {k} came back as {shown[k]!r}"
    return None


def _equal(world):
    def eq(i, got):
        want = world.saved[i]
        if isinstance(want, dict):
            if len(want) > 1:
                world.ctx.nontrivial = True
            return _same(want, got)
        got = list(got)
        if len(got) != len(want):
            return f"{len(want)} distributions came back as {len(got)}"
        for i, (w, g) in enumerate(zip(want, got)):
            d = _same(w, g)
            if d:
                return f"distribution {i}: {d}"
        return None

    return eq


def _fname(t, op):
    return f"{t}.{op['file']}"


def _store(world, op, t, fn, contents):
    world.saved.append(contents)
    how = world.st.save(_fname(t, op), op["how"], fn, len(world.saved) - 1, op.get("fault"))
    if how == "crash":  # the process died: only files survive
        world.pool = []
        for d in world.scn["dists"]:
            world.make(d)


def _save(world, op, t):
    from orquestra.quantum.distributions import save_measurement_outcome_distribution as save

    e = world.pick(op["i"])
    if e is None or not e.normalised:
        return
    _store(world, op, t, lambda target: save(e.obj, target), dict(e.shown))


def _savelist(world, op, t):
    from orquestra.quantum.distributions import save_measurement_outcome_distributions as save

    es = [world.pick(i) for i in op["many"]]
    es = [e for e in es if e is not None and e.normalised]
    _store(world, op, t, lambda target: save([e.obj for e in es], target), [dict(e.shown) for e in es])


def _load(world, op, t):
    from orquestra.quantum.distributions import load_measurement_outcome_distribution as load

    if _fname(t, op) not in world.st.files:
        return
    out = world.st.load(_fname(t, op), op["how"], load, _equal(world), op.get("fault"))
    if out is not None and len(world.pool) < 24:
        world.pool.append(Entry(out.value, _contents(out.value), True, 0))


def _loadlist(world, op, t):
    from orquestra.quantum.distributions import load_measurement_outcome_distributions as load

    if _fname(t, op) not in world.st.files:
        return
    out = world.st.load(_fname(t, op), op["how"], load, _equal(world), op.get("fault"))
    if out is not None:
        world.ctx.probe("list-of-distributions")
        for obj in out.value:
            if len(world.pool) < 24:
                world.pool.append(Entry(obj, _contents(obj), True, 0))


def _reload(world, op, t):
    """Save and load straight away, without disk faults."""
    op = dict(op, file="r" + ("l" if op["j"] % 3 == 0 else ""), how=["str", "path", "rel", "bytes"][op["j"] % 4], fault=None,
              many=[op["i"], op["j"]])
    if op["file"] == "rl":
        _savelist(world, op, t)
        _loadlist(world, op, t)
    else:
        _save(world, op, t)
        if (e := world.pick(op["i"])) is not None and e.normalised:
            world.ctx.probe("second-generation") if e.desc is None else None
        _load(world, op, t)


OPS = {"make": _make, "reject": _reject, "sub": _sub, "mmd": _mmd, "cnll": _cnll, "js": _js, "save": _save, "savelist": _savelist,
       "load": _load, "loadlist": _loadlist, "reload": _reload}


# ---------------------------------------------------------------- minimisation


def simplify(scn):
    for i in range(len(scn["dists"])):
        if len(scn["dists"]) > 1:
            c = copy.deepcopy(scn)
            c["dists"].pop(i)
            yield c
    for i, d in enumerate(scn["dists"]):
        if d["via"] != "dict":
            continue
        for j in range(len(d["keys"])):
            if len(d["keys"]) > 1:
                c = copy.deepcopy(scn)
                c["dists"][i]["keys"].pop(j)
                c["dists"][i]["w"].pop(j)
                yield c
        if len(d["keys"][0]) > 1:
            for j in range(len(d["keys"][0])):
                c = copy.deepcopy(scn)
                ks = [k[:j] + k[j + 1:] for k in c["dists"][i]["keys"]]
                if len({tuple(k) for k in ks}) == len(ks) and (len(ks[0]) > 1 or d["form"] not in ("csv", "npint")):
                    c["dists"][i]["keys"] = ks
                    yield c
        if d["wtype"] != "py" or d["form"] != "tuple":
            c = copy.deepcopy(scn)
            c["dists"][i].update(wtype="py", form="tuple")
            yield c
        if any(w not in (0, 1, 2) for w in d["w"]):
            c = copy.deepcopy(scn)
            c["dists"][i]["w"] = [1 if w else 0 for w in d["w"]]
            yield c
    for i, op in enumerate(scn["ops"]):
        if op.get("fault"):
            c = copy.deepcopy(scn)
            c["ops"][i].pop("fault")
            yield c
    if scn.get("plan") and not scn["plan"].get("interrupts") and not scn["plan"].get("switches") and scn["callers"] == 1:
        c = copy.deepcopy(scn)
        c.pop("plan")
        yield c

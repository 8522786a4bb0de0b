"""C11: operators and result artefacts survive dict, file and text round trips.

Simulated clients keep operators, operator lists and every other artefact the
library persists in files on a simulated disk: save, load (path or open file),
save again what was loaded, convert through JSON text, print and parse.  They
overlap at every disk request, meet short and failing I/O, full disks and process
death inside a save.  Everything that comes back is compared with the value the
scenario itself describes.
"""
import copy
import json
import math
import warnings

import numpy as np

from .. import disk as disk_mod
from .. import backends, objs, store
from ..sched import Callers

RUNS = {"quick": 9000, "thorough": 200000}
RULE = (
    "one run = one seeded history of save, load, re-save, JSON-text and print-parse operations on 1..4 artefacts by 1..3 "
    "clients on a simulated disk; non-trivial = an artefact with content came back and was compared"
)
REAL = ["operators._io", "operators._pauli_operators printing and parsing", "measurements.Measurements/ExpectationValues/"
        "Parities persistence", "utils load/save functions", "circuits.layouts", "json", "rapidjson"]
STUB = ["raw disk under Python's own buffering and text layers"]
ASSUMPTIONS = [
    "coefficients of magnitude below 1e300 (Python integers: 64 bits); up to 12 terms; qubit indices up to 10**6",
    "finite array elements; lists hold JSON values",
]
PROBES = ["operator", "constant", "empty-sum", "unsimplified", "tiny", "complex", "imaginary", "negative-zero", "operator-set",
          "arithmetic", "parsed", "measurements", "expectation-values", "parities", "value-estimate", "list", "layers",
          "connectivity", "ordering", "nmeas", "no-frames", "empty-frames", "many-frames", "complex-frames", "empty-array",
          "precision-none", "second-generation", "overlap", "crash-during-save", "torn-file-refused", "stringio", "text",
          "roundtrip-equal", "simplified-exact"]
LIST_FIELDS = ["ops", "plan.switches"]

# ---------------------------------------------------------------- operators


def _gen_real(rng):
    r = rng.random()
    if r < 0.25:
        return rng.choice([1, -1, 2, 3, -7, 0, 123456789012345, 10**14, -(10**14), 10**16, -(10**18)])
    if r < 0.5:
        return rng.uniform(-3, 3)
    if r < 0.6:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1 / 3, 0.1 + 0.2, 1e-7, -1e-7, 2e-8, 123456.789, 9.99e14, 1e16, -1e16, 1e22, 3e200,
                           math.nextafter(1, 2)])
    if r < 0.85:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-7, rng.choice([14, 14, 40]))
    return rng.choice([1e-9, -1e-9, 5e-9, 1e-10, 1e-12, -3e-20, 1e-300, 5e-324, 9.9e-9, 1.1e-8])


def _gen_coeff(rng):
    r = rng.random()
    if r < 0.5:
        return _gen_real(rng)
    re, im = float(_gen_real(rng)), float(_gen_real(rng))
    r = rng.random()
    if r < 0.25:
        re = rng.choice([0.0, 0.0, -0.0])
    elif r < 0.5:
        im = rng.choice([0.0, 0.0, -0.0])
    return ["c", re, im]


def _gen_term(rng, n):
    if rng.random() < 0.15:
        ops = []
    else:
        qs = {rng.randrange(n) if rng.random() < 0.8 else rng.choice([10, 11, 99, 100, 12345, 10**6]) for _ in
              range(rng.randrange(1, 6))}
        ops = [[q, rng.choice("XYZXYZXYZI")] for q in qs]
        rng.shuffle(ops)
    return {"ops": ops, "c": _gen_coeff(rng)}


def _gen_op(rng):
    n = rng.choice([1, 2, 3, 5, 14])
    r = rng.random()
    if r < 0.2:
        return _gen_term(rng, n)
    d = {"terms": [_gen_term(rng, n) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8, 12, rng.choice([12, 40])]))]}
    if rng.random() < 0.3 and d["terms"]:  # repeated terms
        t = copy.deepcopy(rng.choice(d["terms"]))
        if rng.random() < 0.6:
            t["c"] = _gen_coeff(rng)
        for _ in range(rng.choice([1, 1, 2, 3])):
            d["terms"].insert(rng.randrange(len(d["terms"]) + 1), copy.deepcopy(t))
    if rng.random() < 0.2:
        d["arith"] = rng.choice(["square", "plus", "minus", "scale", "simplify"])
        for t in d["terms"]:  # products of big Python ints leave numpy's integers: not the subject here
            if isinstance(t["c"], int) and abs(t["c"]) > 10**6:
                t["c"] = float(t["c"])
    return d


def _near_op(rng, d):
    """A copy the library's == cannot tell from d: coefficients moved below its tolerance."""

    def move(c):
        if isinstance(c, list):
            return c[:1] + [x + rng.choice([-1, 1]) * rng.uniform(1e-9, 5e-9) if abs(x) < 10 else x for x in c[1:]]
        if isinstance(c, float) and abs(c) < 10:
            return c + rng.choice([-1, 1]) * rng.uniform(1e-9, 9e-9)
        return c

    d = copy.deepcopy(d)
    for t in objs.desc_terms(d):
        t["c"] = move(t["c"])
    if "terms" in d and rng.random() < 0.5:
        rng.shuffle(d["terms"])
    return d


def _build_op(d):
    op = objs.build_operator(d)
    how = d.get("arith")
    if how == "square":
        return op * op
    if how == "plus":
        return op + 1.5
    if how == "minus":
        return 2 - op
    if how == "scale":
        return op * (0.5 - 2j)
    if how == "simplify":
        return op.simplify()
    return op


def _key(t):
    return tuple(sorted((int(q), o) for q, o in t["ops"] if o != "I"))


def _ref_terms(d, op):
    """[(key, coefficient)] of the stored operator, in order."""
    if d.get("arith"):
        return [(tuple(sorted((int(q), str(o)) for q, o in t.operations)), t.coefficient) for t in op.terms]
    return [(_key(t), objs.coeff(t["c"])) for t in objs.desc_terms(d)]


def _too_big(d, op):
    return any(not abs(complex(c)) < 1e300 for _, c in _ref_terms(d, op))


def _simplified(terms):
    keys = [k for k, _ in terms]
    return len(set(keys)) == len(keys) and all(abs(complex(c)) > 1.000001e-8 for _, c in terms)


def _equal_op(d, op, got, exact=True):
    from orquestra.quantum.operators import PauliSum, PauliTerm

    if not isinstance(got, (PauliSum, PauliTerm)):
        return f"a {type(got).__name__} came back"
    want, live = {}, {}
    terms = _ref_terms(d, op)
    size = 0.0
    for k, c in terms:
        want[k] = want.get(k, 0) + complex(c)
        size = max(size, abs(complex(c)))
    parts = [(tuple(sorted((int(q), str(o)) for q, o in t.operations)), t.coefficient) for t in got.terms]
    for k, c in parts:
        live[k] = live.get(k, 0) + complex(c)
        size = max(size, abs(complex(c)))
    n = {}
    for k, _ in terms:
        n[k] = n.get(k, 0) + 1
    for k in set(want) | set(live):
        a, b = want.get(k, 0), live.get(k, 0)
        if not abs(a - b) <= 1.01e-8 * n.get(k, 1) + 1e-14 * size * (n.get(k, 1) - 1):
            return f"coefficient of {k or 'the identity'} was {a!r} and came back as {b!r}"
    if exact and _simplified(terms):
        if len(parts) != len(terms):
            return f"{len(terms)} terms came back as {len(parts)}"
        for k, c in terms:
            b = live[k]
            if not (b.real == complex(c).real and b.imag == complex(c).imag):
                return f"coefficient of {k or 'the identity'} was {c!r} and came back as {b!r}"
    return None


# ---------------------------------------------------------------- arrays


def _gen_array(rng, shape, cplx, integer=False):
    """{"shape", "re": flat list, "im": flat list or None}"""
    n = int(np.prod(shape)) if shape else 1

    def num():
        if integer:
            return rng.choice([0, 1, 5, 100, 2**40, 2**53 + 1, 2**60 + 1])
        r = rng.random()
        return rng.choice([0.0, 1.0, -1.0, -0.0]) if r < 0.3 else rng.uniform(-1, 1) * 10.0 ** rng.choice([0, 0, 0, -9, 12, -300])

    return {"shape": list(shape), "re": [num() for _ in range(n)],
            "im": [num() if rng.random() < 0.7 else 0.0 for _ in range(n)] if cplx else None, "int": integer}


def _build_array(d):
    a = np.array(d["re"], dtype=int if d["int"] else float)
    if d["im"] is not None:
        a = a.astype(complex)
        a.imag = d["im"]
    return a.reshape(d["shape"])


def _equal_array(d, got, what):
    want = _build_array(d)
    try:
        got = np.asarray(got)
    except Exception:  # noqa: BLE001
        return f"{what}: not an array"
    if want.shape != got.shape:
        return f"{what}: shape {want.shape} came back as {got.shape}"
    if got.dtype == object or want.tolist() != got.tolist():  # exact, also for big integers
        return f"{what}: {want.tolist()} came back as {got.tolist()}"
    return None


def _gen_frames(rng, tail, cplx, integer=False):
    r = rng.random()
    if r < 0.3:
        return None
    sizes = [rng.choice([1, 1, 2, 3, 0]) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
    return [_gen_array(rng, [k, k] + tail, cplx and rng.random() < 0.8, integer) for k in sizes]


def _build_frames(fs):
    return None if fs is None else [_build_array(f) for f in fs]


def _equal_frames(fs, got, what):
    if fs is None:
        return None if got is None else f"{what}: absent frames came back as {got!r}"
    if got is None or len(got) != len(fs):
        return f"{what}: {len(fs)} frames came back as {got!r}"
    for i, (f, g) in enumerate(zip(fs, got)):
        d = _equal_array(f, g, f"{what} frame {i}")
        if d:
            return d
    return None


def _frame_probes(ctx, fs):
    if fs is None:
        ctx.probe("no-frames")
    elif not fs:
        ctx.probe("empty-frames")
    else:
        if len(fs) > 1:
            ctx.probe("many-frames")
        if any(f["im"] is not None for f in fs):
            ctx.probe("complex-frames")
        if any(not f["re"] for f in fs):
            ctx.probe("empty-array")


# ---------------------------------------------------------------- plain values


def _gen_json(rng, depth):
    r = rng.random()
    if depth and r < 0.3:
        return [_gen_json(rng, depth - 1) for _ in range(rng.randrange(4))]
    if depth and r < 0.4:
        return {k: _gen_json(rng, depth - 1) for k in rng.sample(["a", "b", "list", "é", ""], rng.randrange(3))}
    return rng.choice([0, 1, -1, 2**70, 0.1, -0.0, 1e-300, 1.5e300, None, True, False, "", "text", "naïve ☃", "1", "line\nbreak",
                       rng.uniform(-5, 5), rng.randrange(1000)])


def _same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(_same(a[k], b[k]) for k in a)
    return a == b


# ---------------------------------------------------------------- the kinds of artefact


class Kind:
    """gen(rng) -> descriptor; build; save; load; diff(desc, obj, got); text(obj) or None; probe(ctx, desc)."""

    text = None

    def probe(self, ctx, d):
        pass


class OperatorKind(Kind):
    def gen(self, rng):
        return _gen_op(rng)

    def build(self, d):
        return _build_op(d)

    def save(self, obj, target):
        from orquestra.quantum.operators import save_operator

        save_operator(obj, target)

    def load(self, src):
        from orquestra.quantum.operators import load_operator

        return load_operator(src)

    def diff(self, d, obj, got):
        return _equal_op(d, obj, got)

    def text(self, obj, through):
        from orquestra.quantum.operators import convert_dict_to_op, convert_op_to_dict

        return convert_dict_to_op(through(convert_op_to_dict(obj)))

    def probe(self, ctx, d):
        ctx.probe("operator")
        ts = objs.desc_terms(d)
        if d.get("arith"):
            ctx.probe("arithmetic")
        if not ts:
            ctx.probe("empty-sum")
        if not _simplified([(_key(t), objs.coeff(t["c"])) for t in ts]):
            ctx.probe("unsimplified")
        else:
            ctx.probe("simplified-exact")
        for t in ts:
            c = complex(objs.coeff(t["c"]))
            if not _key(t):
                ctx.probe("constant")
            if 0 < abs(c) < 1e-6:
                ctx.probe("tiny")
            if c.imag:
                ctx.probe("complex")
                if not c.real:
                    ctx.probe("imaginary")
            if any(str(x) == "-0.0" for x in (t["c"] if isinstance(t["c"], list) else [t["c"]])):
                ctx.probe("negative-zero")


class OperatorSetKind(Kind):
    def gen(self, rng):
        out = [_gen_op(rng) for _ in range(rng.choice([0, 1, 2, 4]))]
        if out and rng.random() < 0.3:
            out.append(_near_op(rng, rng.choice(out)))
        return out

    def build(self, d):
        return [_build_op(x) for x in d]

    def save(self, obj, target):
        from orquestra.quantum.operators import save_operator_set

        save_operator_set(obj, target)

    def load(self, src):
        from orquestra.quantum.operators import load_operator_set

        return load_operator_set(src)

    def diff(self, d, obj, got):
        if not isinstance(got, list) or len(got) != len(d):
            return f"{len(d)} operators came back as {got!r:.200}"
        for i, x in enumerate(d):
            r = _equal_op(x, obj[i], got[i])
            if r:
                return f"operator {i}: {r}"
        return None

    def probe(self, ctx, d):
        ctx.probe("operator-set")


class MeasurementsKind(Kind):
    def gen(self, rng):
        w = rng.choice([1, 2, 3, 8, 0])
        return {"shots": [[rng.randrange(2) for _ in range(w)] for _ in range(rng.choice([0, 1, 2, 7, 60, rng.choice([60, 700])]))],
                "np": rng.random() < 0.3 and backends.gen_bits(rng)}

    def build(self, d):
        from orquestra.quantum.measurements import Measurements

        return Measurements([backends.cast_bits(s, d["np"]) for s in d["shots"]])

    def save(self, obj, target):
        obj.save(target)

    def load(self, src):
        from orquestra.quantum.measurements import Measurements

        return Measurements.load_from_file(src)

    def diff(self, d, obj, got):
        want = [tuple(s) for s in d["shots"]]
        bits = got.bitstrings
        if len(bits) != len(want):
            return f"{len(want)} shots came back as {len(bits)}"
        for i, (a, b) in enumerate(zip(want, bits)):
            if not isinstance(b, tuple) or a != b:
                return f"shot {i}: {a} came back as {b!r}"
        return None

    def probe(self, ctx, d):
        ctx.probe("measurements")


class ExpectationValuesKind(Kind):
    def gen(self, rng):
        cplx = rng.random() < 0.4
        shape = rng.choice([[0], [1], [2], [5], [5], [1], [2], [12], [40], [], [2, 3], [1, 1], [0, 2], [2, 2, 1]])
        return {"v": _gen_array(rng, shape, cplx), "corr": _gen_frames(rng, [], rng.random() < 0.5),
                "cov": _gen_frames(rng, [], rng.random() < 0.5)}

    def build(self, d):
        from orquestra.quantum.measurements import ExpectationValues

        return ExpectationValues(_build_array(d["v"]), _build_frames(d["corr"]), _build_frames(d["cov"]))

    def save(self, obj, target):
        from orquestra.quantum.measurements import save_expectation_values

        save_expectation_values(obj, target)

    def load(self, src):
        from orquestra.quantum.measurements import load_expectation_values

        return load_expectation_values(src)

    def text(self, obj, through):
        from orquestra.quantum.measurements import ExpectationValues

        return ExpectationValues.from_dict(through(obj.to_dict()))

    def diff(self, d, obj, got):
        return (_equal_array(d["v"], got.values, "values") or _equal_frames(d["corr"], got.correlations, "correlations")
                or _equal_frames(d["cov"], got.estimator_covariances, "covariances"))

    def probe(self, ctx, d):
        ctx.probe("expectation-values")
        _frame_probes(ctx, d["corr"])
        _frame_probes(ctx, d["cov"])


class ParitiesKind(Kind):
    def gen(self, rng):
        return {"v": _gen_array(rng, [rng.choice([0, 1, 2, 5]), 2], False, rng.random() < 0.8),
                "corr": _gen_frames(rng, [2], False, rng.random() < 0.8)}

    def build(self, d):
        from orquestra.quantum.measurements import Parities

        return Parities(_build_array(d["v"]), _build_frames(d["corr"]))

    def save(self, obj, target):
        from orquestra.quantum.measurements import save_parities

        save_parities(obj, target)

    def load(self, src):
        from orquestra.quantum.measurements import load_parities

        return load_parities(src)

    def text(self, obj, through):
        from orquestra.quantum.measurements import Parities

        return Parities.from_dict(through(obj.to_dict()))

    def diff(self, d, obj, got):
        return _equal_array(d["v"], got.values, "values") or _equal_frames(d["corr"], got.correlations, "correlations")

    def probe(self, ctx, d):
        ctx.probe("parities")
        _frame_probes(ctx, d["corr"])


class ValueEstimateKind(Kind):
    def gen(self, rng):
        def num():
            return rng.choice([0.0, -0.0, 1, -3, 0.1 + 0.2, 1e-300, 1e300, rng.uniform(-9, 9), rng.uniform(-9, 9)])

        return {"v": num(), "p": None if rng.random() < 0.35 else num(), "np": rng.random() < 0.3}

    def build(self, d):
        from orquestra.quantum.utils import ValueEstimate

        if d["np"]:
            return ValueEstimate(np.float64(d["v"]), None if d["p"] is None else np.float64(d["p"]))
        return ValueEstimate(d["v"], d["p"])

    def save(self, obj, target):
        from orquestra.quantum.utils import save_value_estimate

        save_value_estimate(obj, target)

    def load(self, src):
        from orquestra.quantum.utils import load_value_estimate

        return load_value_estimate(src)

    def text(self, obj, through):
        from orquestra.quantum.utils import ValueEstimate

        return ValueEstimate.from_dict(through(obj.to_dict()))

    def diff(self, d, obj, got):
        if type(got) is not type(obj):
            return f"a {type(got).__name__} came back"
        if not float(got) == float(d["v"]):
            return f"value {d['v']!r} came back as {float(got)!r}"
        if (got.precision is None) != (d["p"] is None) or d["p"] is not None and not got.precision == d["p"]:
            return f"precision {d['p']!r} came back as {got.precision!r}"
        if not (obj == got and got == obj):
            return "it compares unequal to the stored one"
        return None

    def probe(self, ctx, d):
        ctx.probe("value-estimate")
        if d["p"] is None:
            ctx.probe("precision-none")


class ListKind(Kind):
    def gen(self, rng):
        return [_gen_json(rng, 2) for _ in range(rng.choice([0, 1, 3, 6]))]

    def build(self, d):
        return copy.deepcopy(d)

    def save(self, obj, target):
        from orquestra.quantum.utils import save_list

        save_list(obj, target)

    def load(self, src):
        from orquestra.quantum.utils import load_list

        return load_list(src)

    def diff(self, d, obj, got):
        return None if _same(d, got) else f"{d!r} came back as {got!r}"

    def probe(self, ctx, d):
        ctx.probe("list")


def _gen_group(rng):
    return [rng.randrange(30) for _ in range(rng.choice([2, 2, 2, 3, 1]))]


def _tuples(x):
    return [tuple(g) for g in x]


class LayersKind(Kind):
    def gen(self, rng):
        if rng.random() < 0.3:
            return {"built": rng.choice([["nearest-neighbor", rng.randrange(1, 9), None],
                                         ["sycamore", rng.randrange(1, 5), rng.randrange(2, 6)]])}
        return {"layers": [[_gen_group(rng) for _ in range(rng.randrange(4))] for _ in range(rng.choice([0, 1, 2, 4]))]}

    def build(self, d):
        from orquestra.quantum.circuits.layouts import CircuitLayers, build_circuit_layers_and_connectivity

        if "built" in d:
            kind, x, y = d["built"]
            return build_circuit_layers_and_connectivity(x, y, kind)[1]
        return CircuitLayers([_tuples(layer) for layer in d["layers"]])

    def save(self, obj, target):
        from orquestra.quantum.circuits.layouts import save_circuit_layers

        save_circuit_layers(obj, target)

    def load(self, src):
        from orquestra.quantum.circuits.layouts import load_circuit_layers

        return load_circuit_layers(src)

    def text(self, obj, through):
        return type(obj).from_dict(through(obj.to_dict()))

    def diff(self, d, obj, got):
        want = [_tuples(x) for x in d["layers"]] if "layers" in d else obj.layers
        return None if _same(want, got.layers) and type(got) is type(obj) else f"{want!r} came back as {got.layers!r}"

    def probe(self, ctx, d):
        ctx.probe("layers")


class ConnectivityKind(Kind):
    def gen(self, rng):
        return {"c": [_gen_group(rng) for _ in range(rng.choice([0, 1, 2, 6]))]}

    def build(self, d):
        from orquestra.quantum.circuits.layouts import CircuitConnectivity

        return CircuitConnectivity(_tuples(d["c"]))

    def save(self, obj, target):
        from orquestra.quantum.circuits.layouts import save_circuit_connectivity

        save_circuit_connectivity(obj, target)

    def load(self, src):
        from orquestra.quantum.circuits.layouts import load_circuit_connectivity

        return load_circuit_connectivity(src)

    def text(self, obj, through):
        return type(obj).from_dict(through(obj.to_dict()))

    def diff(self, d, obj, got):
        want = _tuples(d["c"])
        return None if _same(want, got.connectivity) else f"{want!r} came back as {got.connectivity!r}"

    def probe(self, ctx, d):
        ctx.probe("connectivity")


class OrderingKind(Kind):
    def gen(self, rng):
        n = rng.choice([0, 1, 2, 8])
        return rng.sample(range(n), n)

    def build(self, d):
        return list(d)

    def save(self, obj, target):
        from orquestra.quantum.circuits.layouts import save_circuit_ordering

        save_circuit_ordering(obj, target)

    def load(self, src):
        from orquestra.quantum.circuits.layouts import load_circuit_ordering

        return load_circuit_ordering(src)

    def diff(self, d, obj, got):
        return None if _same(d, got) else f"{d!r} came back as {got!r}"

    def probe(self, ctx, d):
        ctx.probe("ordering")


class NmeasKind(Kind):
    def gen(self, rng):
        r = rng.random()
        fm = None if r < 0.35 else _gen_array(rng, [rng.choice([0, 1, 2, 5])], rng.random() < 0.15, rng.random() < 0.2)
        return {"k": rng.choice([0.0, 1.5, 12, rng.uniform(0, 1e9)]), "n": rng.randrange(0, 50), "fm": fm,
                "kw": rng.random() < 0.5}

    def build(self, d):
        return (d["k"], d["n"], None if d["fm"] is None else _build_array(d["fm"]))

    def save(self, obj, target):
        from orquestra.quantum.utils import save_nmeas_estimate

        if obj[2] is None:
            save_nmeas_estimate(obj[0], obj[1], target)
        else:
            save_nmeas_estimate(nmeas=obj[0], nterms=obj[1], filename=target, frame_meas=obj[2])

    def load(self, src):
        from orquestra.quantum.utils import load_nmeas_estimate

        return load_nmeas_estimate(src)

    def diff(self, d, obj, got):
        k, n, fm = got
        if not (k == d["k"] and n == d["n"]):
            return f"{d['k']}, {d['n']} came back as {k}, {n}"
        if d["fm"] is None:
            return None if fm is None else f"absent frames came back as {fm!r}"
        return _equal_array(d["fm"], fm, "frame measurements")

    def probe(self, ctx, d):
        ctx.probe("nmeas")
        if d["fm"] is None:
            ctx.probe("no-frames")


KINDS = {"op": OperatorKind(), "opset": OperatorSetKind(), "meas": MeasurementsKind(), "ev": ExpectationValuesKind(),
         "par": ParitiesKind(), "ve": ValueEstimateKind(), "list": ListKind(), "layers": LayersKind(),
         "conn": ConnectivityKind(), "order": OrderingKind(), "nmeas": NmeasKind()}
WEIGHTED = ["op"] * 6 + ["opset"] * 2 + ["ev"] * 3 + ["par"] * 2 + ["meas"] * 2 + ["ve"] * 2 + ["list", "layers", "conn", "order",
                                                                                              "nmeas", "nmeas"]


# ---------------------------------------------------------------- generation


def generate(rng, tier, index):
    callers = rng.choice([1, 1, 1, 2, 3])
    arts = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.choice(WEIGHTED)
        arts.append({"kind": k, "d": KINDS[k].gen(rng)})
    twins = [a for a in arts if a["kind"] in ("op", "opset")]
    if twins and rng.random() < 0.15:
        a = rng.choice(twins)
        d = _near_op(rng, a["d"]) if a["kind"] == "op" else [_near_op(rng, x) for x in a["d"]]
        arts.append({"kind": a["kind"], "d": d})
    p_fault = rng.choice([0.0, 0.0, 0.25, 0.5])
    ops = []
    for _ in range(rng.choice([2, 4, 6, 9])):
        op = {"op": rng.choice(["save", "save", "load", "load", "resave", "text", "parse"]), "t": rng.randrange(callers),
              "file": rng.choice(["a", "b", "c d.json"]), "i": rng.randrange(len(arts))}
        if op["op"] in ("save", "resave"):
            op["how"] = store.gen_how_save(rng, False)
            if rng.random() < p_fault:
                op["fault"] = disk_mod.gen_write_fault(rng, 400)
                if callers > 1 and op["fault"]["kind"] == "crash":
                    op["fault"]["kind"] = "enospc"
        if op["op"] == "load":
            op["how"] = store.gen_how_load(rng)
            if rng.random() < p_fault:
                op["fault"] = disk_mod.gen_read_fault(rng, 400)
        if op["op"] == "text":
            op["lib"] = rng.choice(["json", "json", "rapidjson"])
            op["opts"] = rng.choice([{}, {"indent": 2}, {"sort_keys": True}])
        if op["op"] == "parse":
            op["how"] = rng.choice(["str", "repr", "terms"])
        ops.append(op)
    if rng.random() < 0.25:
        t, f, which = rng.randrange(callers), rng.choice(["a", "b", "c d.json"]), [rng.randrange(len(arts)) for _ in "01"]

        def save(w, how):
            return {"op": "save", "t": t, "file": f, "i": which[w], "how": how}

        def load(how):
            return {"op": "load", "t": t, "file": f, "i": 0, "how": how}

        def fault():
            d = disk_mod.gen_write_fault(rng, 400)
            if callers > 1 and d["kind"] == "crash":
                d["kind"] = "enospc"
            return d

        at = rng.randrange(len(ops) + 1)
        ops[at:at] = store.history(rng, save, load, fault)
    scn = {"arts": arts, "ops": ops, "callers": callers, "readback": rng.random() < 0.8}
    if callers > 1:
        scn["plan"] = {"mode": "random", "seed": rng.randrange(1 << 30), "p": 0.0, "seam_p": rng.choice([0.2, 0.5, 0.9])}
    return scn


# ---------------------------------------------------------------- execution


class World:
    def __init__(self, scn, ctx):
        self.scn = scn
        self.ctx = ctx
        self.boot()

    def boot(self):
        self.objs = [KINDS[a["kind"]].build(a["d"]) for a in self.scn["arts"]]
        self.loaded = {}

    def usable(self, i):
        """Coefficients in the domain (arithmetic may leave it)."""
        a = self.scn["arts"][i]
        if a["kind"] == "op":
            return not _too_big(a["d"], self.objs[i])
        if a["kind"] == "opset":
            return not any(_too_big(d, o) for d, o in zip(a["d"], self.objs[i]))
        return True


def execute(scn, ctx):
    warnings.simplefilter("ignore")
    callers = Callers(ctx, scn["plan"]) if scn.get("plan") else None
    disk = disk_mod.Disk(ctx, callers)
    world = World(scn, ctx)
    for a in scn["arts"]:
        KINDS[a["kind"]].probe(ctx, a["d"])
        ctx.mark("artefact", a)
    with disk.mounted():
        st = store.Store(ctx, disk)
        saved = {}

        def run(op, t):
            if not world.usable(op["i"]):
                return
            OPS[op["op"]](world, st, op, t)
            if op["op"] in ("save", "resave"):
                saved[(t, op["file"])] = True

        def readback(t):
            if scn["readback"]:
                for owner, f in sorted(saved):
                    if owner == t:
                        _load(world, st, {"file": f, "how": "path"}, t)

        if callers is None:
            for op in scn["ops"]:
                run(op, 0)
            readback(0)
        else:
            def program(t):
                def body(cs):
                    for op in scn["ops"]:
                        if op["t"] == t:
                            run(op, t)
                            cs.point("between")
                    readback(t)
                return body

            callers.run([program(t) for t in range(scn["callers"])])
            ctx.schedule = callers.recorded
            if callers.recorded:
                ctx.probe("overlap")
                ctx.mark("interleaving", callers.recorded)


def _fname(t, op):
    return f"{t}.{op['file']}"


def _equal(world):
    def eq(i, got):
        a = world.scn["arts"][i]
        d = KINDS[a["kind"]].diff(a["d"], world.objs[i], got)
        if d is None:
            if a["d"]:
                world.ctx.nontrivial = True
            return None
        return f"{a['kind']}: {d}"

    return eq


def _do_save(world, st, op, t, i, obj):
    kind = KINDS[world.scn["arts"][i]["kind"]]
    if st.save(_fname(t, op), op["how"], lambda target: kind.save(obj, target), i, op.get("fault")) == "crash":
        world.boot()


def _save(world, st, op, t):
    _do_save(world, st, op, t, op["i"], world.objs[op["i"]])


def _resave(world, st, op, t):
    if t in world.loaded:
        i, obj = world.loaded[t]
        world.ctx.probe("second-generation")
        _do_save(world, st, op, t, i, obj)


def _load(world, st, op, t):
    accept = st.files.get(_fname(t, op), [store.ABSENT])
    kinds = {world.scn["arts"][i]["kind"] for i in accept if i is not store.ABSENT}
    if len(kinds) > 1:
        return  # after a failed save the file may hold either kind of artefact
    if not kinds:
        return
    if op["how"] == "stringio":
        world.ctx.probe("stringio")
    out = st.load(_fname(t, op), op["how"], KINDS[kinds.pop()].load, _equal(world), op.get("fault"))
    if out is not None and len(accept) == 1:
        world.loaded[t] = (accept[0], out.value)


def _text(world, st, op, t):
    import rapidjson

    ctx, i = world.ctx, op["i"]
    kind = KINDS[world.scn["arts"][i]["kind"]]
    if kind.text is None:
        return
    lib = rapidjson if op["lib"] == "rapidjson" else json
    ctx.probe("text")
    out = ctx.call(kind.text, world.objs[i], lambda d: lib.loads(lib.dumps(d, **op["opts"])))
    ctx.log("text", i, out.kind)
    if op["lib"] == "rapidjson" and not out.ok and isinstance(out.exc, (OverflowError, ValueError)):
        return  # numbers this JSON library does not write
    ctx.check(out.ok, "text-failed", lambda: f"{world.scn['arts'][i]} through JSON text {out!r}")
    with ctx.oracle("comparing a converted artefact"):
        d = _equal(world)(i, out.value)
    ctx.check(d is None, "text-differs", lambda: f"JSON text round trip of {world.scn['arts'][i]}: {d}")


def _parse(world, st, op, t):
    from orquestra.quantum.operators import PauliSum, PauliTerm

    ctx, i = world.ctx, op["i"]
    a = world.scn["arts"][i]
    if a["kind"] == "opset":
        pairs = list(zip(a["d"], world.objs[i]))
    elif a["kind"] == "op":
        pairs = [(a["d"], world.objs[i])]
    else:
        return
    for d, op_obj in pairs:
        todo = [(op_obj, d, isinstance(op_obj, PauliTerm))]
        if op["how"] == "terms" and "terms" in d and not d.get("arith"):
            todo = [(term, td, True) for term, td in zip(op_obj.terms, d["terms"])]
        for obj, desc, is_term in todo:
            printed = ctx.call(repr if op["how"] == "repr" else str, obj)
            ctx.check(printed.ok, "print-failed", lambda: f"printing {desc}: {printed!r}")
            classes = [PauliTerm, PauliSum] if is_term else [PauliSum]
            for cls in classes:
                out = ctx.call(cls, printed.value)
                ctx.log("parse", i, out.kind)
                ctx.probe("parsed")
                ctx.check(out.ok, "parse-failed", lambda: f"{cls.__name__}({printed.value!r}) {out!r}")
                with ctx.oracle("comparing a parsed operator"):
                    diff = _equal_op(desc, obj, out.value, exact=False)
                ctx.check(diff is None, "parse-differs", lambda: f"{cls.__name__}({printed.value!r}): {diff}")
                ctx.nontrivial = True


OPS = {"save": _save, "load": _load, "resave": _resave, "text": _text, "parse": _parse}


# ---------------------------------------------------------------- minimisation


def simplify(scn):
    for i, a in enumerate(scn["arts"]):
        d = a["d"]
        lists = []
        if a["kind"] == "op" and "terms" in d:
            lists.append(["terms"])
        if a["kind"] in ("opset", "list"):
            lists.append([])
        if a["kind"] == "meas":
            lists.append(["shots"])
        if a["kind"] == "ev":
            lists += [[k] for k in ("corr", "cov") if d[k]]
        if a["kind"] == "par" and d["corr"]:
            lists.append(["corr"])
        if a["kind"] == "layers" and "layers" in d:
            lists.append(["layers"])
        if a["kind"] == "conn":
            lists.append(["c"])
        for path in lists:
            target = d
            for p in path:
                target = target[p]
            for j in range(len(target)):
                c = copy.deepcopy(scn)
                x = c["arts"][i]["d"]
                for p in path:
                    x = x[p]
                x.pop(j)
                yield c
        if a["kind"] == "op" and d.get("arith"):
            c = copy.deepcopy(scn)
            c["arts"][i]["d"].pop("arith")
            yield c
    for i, op in enumerate(scn["ops"]):
        if op.get("fault"):
            c = copy.deepcopy(scn)
            c["ops"][i].pop("fault")
            yield c

"""C12: a wavefunction object is normalised after every operation on it.

Sequential mutation histories (assignments, bindings, flips, saves, restarts)
against a list-of-amplitudes reference model, with disk faults and crashes in the
persistence steps.
"""
import math
import warnings

import numpy as np
import sympy

from .. import disk as disk_mod
from .. import objs
from ..store import Store, gen_how_load, gen_how_save, history

RUNS = {"quick": 5000, "thorough": 80000}
RULE = (
    "one run = one seeded history of constructor / assignment / bind / flip / save / load / restart steps on a "
    "pool of wavefunctions with seeded disk faults; non-trivial = at least one assignment or binding was rejected "
    "after a wavefunction existed, or an artefact was reloaded, or a fault fired"
)
REAL = ["orquestra.quantum.wavefunction", "orquestra.quantum.utils", "numpy", "sympy", "json", "CPython buffered/text I/O"]
STUB = ["raw file layer (simulated disk)"]
ASSUMPTIONS = [
    "single caller per wavefunction object (no concurrent mutation)",
    "a single step with a norm deviation between 1e-9 and 1e-4 may be accepted or refused (library tolerance np.isclose); what was accepted never totals more than 1e-4 off",
    "process crash loses Python-level buffers only; bytes accepted by the raw layer survive",
]
PROBES = ["rejected-scalar", "rejected-slice", "rejected-on-bound", "accepted", "became-numeric", "bind-rejected",
          "bind-ok", "torn-file-refused", "crash-during-save", "partial-bind", "rejected-type", "flip", "dicke",
          "wide-accepted", "wide-rejected", "wide-flip", "wide-loaded", "drift-stopped"]
SYMS = ["a", "b", "c"]


# ---------------------------------------------------------------- generation


def _norm_vec(rng, n, kind=None):
    kind = kind or rng.choice(["complex", "real", "basis", "uniform", "sparse", "near-real", "uneven"])
    N = 2**n
    if kind == "basis":
        v = [0.0] * N
        v[rng.randrange(N)] = rng.choice([1.0, -1.0, 1j])
    elif kind == "uniform":
        v = [1 / math.sqrt(N)] * N
    else:
        v = [complex(rng.gauss(0, 1), rng.gauss(0, 1) if kind != "real" else 0) for _ in range(N)]
        if kind == "near-real":  # what cancellations leave behind
            size = 10.0 ** rng.choice([-6, -9, -12, -16, -17, -40])
            v = [complex(z.real, z.imag * size * rng.choice([0, 1, 1])) for z in v]
        elif kind == "uneven":  # amplitudes of very different sizes
            v = [z * 10.0 ** rng.choice([0, 0, -3, -7, -9, -13, -17, -100, -310]) for z in v]
            if max(map(abs, v)) < 0.1:
                v[rng.randrange(N)] = 1.0 + 0j
        if kind == "sparse":
            for i in range(N):
                if rng.random() < 0.5:
                    v[i] = 0
            if not any(v):
                v[0] = 1
        s = math.sqrt(sum(abs(z) ** 2 for z in v))
        v = [z / s for z in v]
    return [[float(complex(z).real), float(complex(z).imag)] for z in v]


def _sym_vec(rng, n):
    """Symbolic amplitudes; numeric entries total at most 0.9."""
    N = 2**n
    out = []
    budget = 0.9
    for _ in range(N):
        r = rng.random()
        if r < 0.45:
            out.append(["sym", rng.choice(SYMS)])
        elif r < 0.6:
            out.append(["mul", ["sym", rng.choice(SYMS)], rng.choice([["rat", 1, 2], ["float", 0.6], ["int", 2]])])
        elif r < 0.8:
            out.append([0.0, 0.0])
        else:
            p = rng.uniform(0, budget * 0.6)
            budget -= p
            ph = rng.uniform(0, 6.28)
            out.append([math.sqrt(p) * math.cos(ph), math.sqrt(p) * math.sin(ph)])
    if not any(_is_sym(x) for x in out):
        out[rng.randrange(N)] = ["sym", rng.choice(SYMS)]
    return out


def _is_sym(x):
    return isinstance(x, list) and x and isinstance(x[0], str)


def _val(rng):
    r = rng.random()
    if r < 0.35:
        return {"v": "scale", "f": rng.choice([[-1, 0], [0, 1], [0, -1], [0.6, 0.8], [1, 0]])}
    if r < 0.45:
        # whatever completes the norm to 1, or misses it by a little
        dev = rng.choice([1, -1]) * 10 ** rng.uniform(-3.7, -1.5) if rng.random() < 0.4 else 0.0
        return {"v": "complete", "ph": rng.uniform(0, 6.28), "dev": dev}
    if r < 0.6:
        return {"v": "num", "z": rng.choice([[2, 0], [0, 1.5], [-3, 0], [1e6, 0], [0.5, 0.5], [1.2, -1]])}
    if r < 0.7:
        return {"v": "num", "z": [rng.uniform(-2, 2), rng.uniform(-2, 2)]}
    if r < 0.75:
        return {"v": "num", "z": [0.0, 0.0]}
    if r < 0.83:
        return {"v": "sym", "s": rng.choice(SYMS)}
    if r < 0.9:
        return {"v": "bad", "k": rng.choice(["str", "none", "nan", "inf", "list"])}
    return {"v": "num", "z": [rng.uniform(0, 0.4), 0.0], "py": "float"}


def generate(rng, tier, index):
    n_ops = rng.choice([3, 5, 8, 12, 20])
    fault_rate = rng.choice([0.0, 0.0, 0.3, 0.7])
    p_sym = rng.choice([0.0, 0.3, 0.7])
    ids = []
    ops = []
    files = ["w0.json", "w1.json"]
    for _ in range(n_ops):
        r = rng.random()
        if not ids or r < 0.15:
            k = len(ids)
            n = rng.choice([1, 1, 2, 2, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5])
            kind = rng.random()
            if kind < p_sym:
                ops.append({"op": "new", "id": k, "amps": _sym_vec(rng, min(n, 3)),
                            "as": rng.choice(["list", "matrix", "rowless"])})
            elif kind < 0.75:
                ops.append({"op": "new", "id": k, "amps": _norm_vec(rng, n),
                            "as": rng.choice(["list", "array", "array", "real"])})
            elif kind < 0.85:
                ops.append({"op": "dicke", "id": k, "n": n, "w": rng.randrange(0, n + 1)})
            elif kind < 0.9:
                ops.append({"op": "zero", "id": k, "n": n})
            else:
                bad = _norm_vec(rng, n)
                how = rng.choice(["scale", "len", "zero", "sym-exceeds", "dicke-hi", "dicke-neg", "near", "near", "sym-near"])
                ops.append({"op": "badnew", "how": how, "amps": bad, "n": n, "dev": rng.choice([1, -1]) * 10 ** rng.uniform(-3.7, -1.5)})
                continue
            ids.append(k)
            continue
        i = rng.choice(ids)
        if r < 0.6:
            ops.append({"op": "set", "id": i, "idx": _idx(rng), "val": _val(rng), "seed": rng.randrange(1 << 30)})
        elif r < 0.62:  # many assignments, each within the library's tolerance
            ops.append({"op": "drift", "id": i, "times": rng.choice([40, 150, 300]), "d": rng.uniform(1e-6, 8e-6) * rng.choice([1, -1]),
                        "where": rng.choice(["one", "any", "slice"]), "seed": rng.randrange(1 << 30)})
        elif r < 0.75:
            k = len(ids)
            ops.append({"op": "bind", "id": i, "to": k, "how": rng.choice(["complete", "partial", "exceed", "extra", "random", "none", "near"]),
                        "seed": rng.randrange(1 << 30)})
            ids.append(k)
        elif r < 0.82:
            k = len(ids)
            ops.append({"op": "flip", "id": i, "to": k})
            ids.append(k)
        elif r < 0.92:
            op = {"op": "save", "id": i, "file": rng.choice(files), "how": gen_how_save(rng, False)}
            if rng.random() < fault_rate:
                op["fault"] = disk_mod.gen_write_fault(rng)
            ops.append(op)
        else:
            k = len(ids)
            op = {"op": "load", "to": k, "file": rng.choice(files), "how": gen_how_load(rng)}
            if rng.random() < fault_rate:
                op["fault"] = disk_mod.gen_read_fault(rng)
            ids.append(k)
            ops.append(op)
    if len(ids) > 1 and rng.random() < 0.25:
        f, which = rng.choice(files), [rng.choice(ids), rng.choice(ids)]
        at = rng.randrange(len(ops) // 2, len(ops) + 1)

        def save(w, how):
            return {"op": "save", "id": which[w], "file": f, "how": how}

        def load(how):
            ids.append(len(ids))
            return {"op": "load", "to": ids[-1], "file": f, "how": how}

        ops[at:at] = history(rng, save, load, lambda: disk_mod.gen_write_fault(rng))
    if index % 6 == 0:
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.insert(rng.randrange(len(ops) + 1), _gen_wide(rng, tier))
    if any(o["op"] == "save" for o in ops):
        for f in files:
            ops.append({"op": "load", "to": len(ids), "file": f, "how": gen_how_load(rng)})
            ids.append(len(ids))
    return {"ops": ops}


def _gen_wide(rng, tier):
    """A state on many qubits, described by a seed instead of its amplitudes."""
    n = rng.choice([5, 6, 7, 8, 8, 9, 9] if tier == "quick" else [6, 8, 9, 10, 11, 12, 13, 14])
    kind = rng.choice(["random", "real", "basis", "sparse", "uniform", "dicke", "zero"])
    op = {"op": "wide", "n": n, "kind": kind, "seed": rng.randrange(1 << 30), "w": rng.randrange(0, n + 1),
          "sets": [rng.choice(["swap", "phase", "bad", "slice-swap", "slice-bad", "drift"]) for _ in range(rng.choice([0, 1, 3, 6]))],
          "flip": rng.random() < 0.8}
    if n <= 10 and rng.random() < 0.3:
        op["file"] = rng.choice(["x0.json", "x1.json"])
        op["how"] = gen_how_save(rng, False)
        op["back"] = gen_how_load(rng)
        if rng.random() < 0.3:
            op["fault"] = disk_mod.gen_write_fault(rng)
    return op


def _idx(rng):
    r = rng.random()
    if r < 0.55:
        return {"i": "at", "u": rng.random()}
    if r < 0.65:
        return {"i": "neg", "u": rng.random()}
    if r < 0.72:
        return {"i": "oob"}
    if r < 0.8:
        return {"i": "all", "perm": rng.choice(["shuffle", "scale", "bad", "short", "badsym"])}
    if r < 0.95:
        return {"i": "slice", "u": rng.random(), "w": rng.random(), "step": rng.choice([1, 1, 2]),
                "perm": rng.choice(["shuffle", "scale", "bad", "short", "badsym", "fill"])}
    return {"i": "fancy", "u": rng.random(), "w": rng.random(), "perm": rng.choice(["shuffle", "bad"])}


# ---------------------------------------------------------------- model


class Model(list):
    """Expected amplitudes; plain: the object was built from plain numbers."""

    plain = False


def _amp(x):
    if _is_sym(x):
        return objs.build_expr(x)
    return complex(x[0], x[1])


def _is_num(x):
    return not isinstance(x, sympy.Basic) or not x.free_symbols


def _num(x):
    return complex(x)


def _total(model):
    return sum(abs(_num(x)) ** 2 for x in model if _is_num(x))


def _verdict(model):
    """True valid, False invalid, None too close to call."""
    t = _total(model)
    if t != t:
        return False
    if all(_is_num(x) for x in model):
        d = abs(t - 1)
        return True if d < 1e-9 else (False if d > 1e-4 else None)
    return True if t <= 1 - 1e-9 else (False if t > 1 + 1e-6 else None)


def _snapshot(wf):
    """Exact observable state: every element, its exact value."""
    out = []
    for x in list(wf):
        a = np.asarray(x, dtype=object).reshape(-1)
        for y in a:
            if isinstance(y, sympy.Basic):
                out.append(("s", sympy.srepr(y)) if y.free_symbols else ("n", complex(y)))
            else:
                out.append(("n", complex(y)))
    return len(wf), out


def _flat(wf):
    out = []
    for x in list(wf):
        out.extend(np.asarray(x, dtype=object).reshape(-1).tolist())
    return out


def _verify(ctx, wf, model, what):
    with ctx.oracle("reading a wavefunction after " + what):
        n = len(wf)
        els = _flat(wf)
    ctx.check(n == len(model) and len(els) == len(model), "length", lambda: f"{what}: length {n} != {len(model)}")
    syms = set()
    for k, (a, b) in enumerate(zip(els, model)):
        with ctx.oracle("amplitude"):
            if _is_num(b):
                num = not isinstance(a, sympy.Basic) or not a.free_symbols
                same = num and (abs(complex(a) - complex(b)) <= 1e-9 * (1 + abs(complex(b))))
            else:
                syms |= b.free_symbols
                same = a == b or sympy.simplify(a - b) == 0
        ctx.check(same, "amplitude-differs", lambda: f"{what}: amplitude {k} is {a}, expected {b}")
    with ctx.oracle("norm"):
        tot = sum(abs(complex(a)) ** 2 for a in els if not isinstance(a, sympy.Basic) or not a.free_symbols)
    if syms:
        ctx.check(tot <= 1 + 1e-6, "not-normalised", lambda: f"{what}: numeric entries total {tot}")
    else:
        ctx.check(abs(tot - 1) <= 1e-4, "not-normalised", lambda: f"{what}: squared magnitudes total {tot}")
    with ctx.oracle("free symbols"):
        fs = set(wf.free_symbols)
        nq = wf.n_qubits
    ctx.check(fs == syms, "free-symbols", lambda: f"{what}: free symbols {fs} expected {syms}")
    ctx.check(2**nq == len(model), "length", lambda: f"{what}: n_qubits {nq}")
    if not syms:
        out = ctx.call(wf.get_probabilities)
        ctx.check(out.ok, "probabilities", lambda: f"{what}: get_probabilities {out!r}")
        with ctx.oracle("probabilities"):
            p = np.asarray(out.value).astype(complex).reshape(-1)
            want = np.array([abs(complex(x)) ** 2 for x in model])
            good = p.shape == want.shape and np.allclose(p, want, atol=1e-9) and abs(p.sum() - 1) < 1e-4
        ctx.check(good, "probabilities", lambda: f"{what}: probabilities {p} expected {want}")
        out = ctx.call(lambda: wf.amplitudes)
        ctx.check(out.ok, "amplitude-differs", lambda: f"{what}: amplitudes {out!r}")
        with ctx.oracle("amplitudes"):
            amps = np.asarray(out.value).astype(complex).reshape(-1)
            good = np.allclose(amps, [complex(x) for x in model], atol=1e-9)
        ctx.check(good, "amplitude-differs", lambda: f"{what}: amplitudes property {amps}")


def _wide_vector(op):
    import random

    r = random.Random(op["seed"])
    N = 2 ** op["n"]
    kind = op["kind"]
    v = np.zeros(N, dtype=complex)
    if kind == "dicke":
        idx = [i for i in range(N) if bin(i).count("1") == op["w"]]
        v[idx] = 1 / math.sqrt(len(idx))
    elif kind == "zero":
        v[0] = 1
    elif kind == "basis":
        v[r.randrange(N)] = r.choice([1, -1, 1j, -1j])
    elif kind == "uniform":
        v[:] = 1 / math.sqrt(N)
    else:
        for i in (r.sample(range(N), r.choice([2, 3, 7])) if kind == "sparse" else range(N)):
            v[i] = complex(r.gauss(0, 1), 0 if kind == "real" else r.gauss(0, 1))
        v /= math.sqrt(float(np.sum(np.abs(v) ** 2)))
    return v


def _wide_verify(ctx, wf, want, what, exact=True):
    with ctx.oracle("reading a wide wavefunction after " + what):
        got = np.asarray(wf.amplitudes).astype(complex).reshape(-1)
        p = np.asarray(wf.get_probabilities()).astype(float).reshape(-1)
        n, nq, fs = len(wf), wf.n_qubits, set(wf.free_symbols)
    ctx.check(n == len(want) and 2**nq == n and not fs and got.shape == want.shape and p.shape == want.shape,
              "length", lambda: f"{what}: length {n}, {nq} qubits, free symbols {fs}")
    same = np.array_equal(got, want) if exact else np.allclose(got, want, rtol=1e-9, atol=1e-12)
    ctx.check(same, "amplitude-differs",
              lambda: f"{what}: amplitudes differ at {np.flatnonzero(got != want)[:5].tolist()} of {n}")
    ctx.check(np.allclose(p, np.abs(want) ** 2, atol=1e-12) and abs(p.sum() - 1) < 1e-4, "probabilities",
              lambda: f"{what}: probabilities are not the squared magnitudes or total {p.sum()}")


def _wide_drift(ctx, wf, want, d):
    want = want.copy()
    k = int(np.argmax(np.abs(want)))
    stopped = 0
    for _ in range(80):
        new = complex(want[k]) * (1 + d / (2 * abs(want[k]) ** 2))

        def assign():
            wf[k] = new

        if ctx.call(assign).ok:
            want[k] = new
            t = float(np.sum(np.abs(want) ** 2))
            ctx.check(abs(t - 1) <= 1e-4, "not-normalised", lambda: f"small assignments let squared magnitudes total {t}")
        else:
            stopped += 1
            if stopped == 2:
                break
    _wide_verify(ctx, wf, want, "a series of small assignments")
    return want


def _do_wide(ctx, W, store, op):
    """The same contract on a register too wide for the symbolic model."""
    import random

    n, kind = op["n"], op["kind"]
    N = 2**n
    want = _wide_vector(op)
    if kind == "dicke":
        out = ctx.call(W.Wavefunction.dicke_state, n, op["w"])
    elif kind == "zero":
        out = ctx.call(W.Wavefunction.zero_state, n)
    else:
        out = ctx.call(W.Wavefunction, want.copy() if op["seed"] % 2 else want.tolist())
    ctx.log("wide", kind, n, out.kind)
    ctx.check(out.ok, "valid-rejected", lambda: f"{kind} state on {n} qubits {out!r}")
    wf = out.value
    _wide_verify(ctx, wf, want, f"construction of a {kind} state on {n} qubits", exact=False)
    want = np.array(wf.amplitudes)
    r = random.Random(op["seed"] + 1)
    for how in op["sets"]:
        a, b = r.randrange(N), r.randrange(N)
        if how == "drift":
            want = _wide_drift(ctx, wf, want, r.uniform(2e-6, 8e-6) * r.choice([1, -1]))
            continue
        cand = want.copy()
        if how == "phase":
            idx = a
            cand[a] = value = complex(want[a]) * r.choice([-1, 1j, -1j])
            ok = True
        elif how == "bad":
            idx = a
            cand[a] = value = complex(want[a]) + r.choice([1.5, -2.0, 2j])
            ok = None  # decided by the total below
        elif how == "swap":
            idx = [a, b] if a != b else [a]
            value = [want[b], want[a]] if a != b else [want[a]]
            cand[idx] = value
            ok = True
        else:
            lo, hi = sorted((a, b + 1)) if a != b + 1 else (a, a + 1)
            idx = slice(lo, hi)
            value = want[lo:hi][::-1].copy() if how == "slice-swap" else want[lo:hi] + 0.7
            cand[lo:hi] = value
            ok = how == "slice-swap" or None
        if ok is None:
            tot = float(np.sum(np.abs(cand) ** 2))
            ok = False if abs(tot - 1) > 1e-4 else (True if abs(tot - 1) < 1e-9 else None)

        def assign():
            wf[idx] = value

        out = ctx.call(assign)
        ctx.log("wide-set", how, out.kind)
        if out.ok:
            ctx.check(ok is not False, "invalid-accepted", lambda: f"wide wf[{idx}] ({how}) accepted")
            want = cand
            ctx.probe("wide-accepted")
        else:
            ctx.check(ok is not True or how == "swap", "valid-rejected", lambda: f"wide wf[{idx}] ({how}) {out!r}")
            ctx.probe("wide-rejected")
            ctx.nontrivial = True
        _wide_verify(ctx, wf, want, f"assignment ({how}, {out.kind}) on {n} qubits")
    if op["flip"]:
        out = ctx.call(W.flip_wavefunction, wf)
        ctx.check(out.ok, "flip", lambda: f"flip_wavefunction on {n} qubits {out!r}")
        order = np.array([_bitrev(i, n) for i in range(N)])
        _wide_verify(ctx, out.value, want[order], f"flip on {n} qubits")
        twice = ctx.call(W.flip_wavefunction, out.value)
        ctx.check(twice.ok, "flip", lambda: f"second flip {twice!r}")
        _wide_verify(ctx, twice.value, want, f"double flip on {n} qubits")
        _wide_verify(ctx, wf, want, f"having been flipped, {n} qubits")
        ctx.probe("wide-flip")
    if "file" in op:
        status = store.save(op["file"], op["how"], lambda t: W.save_wavefunction(wf, t), want.tolist(), op.get("fault"))
        if op.get("fault"):
            ctx.nontrivial = True
        out = store.load(op["file"], op["back"], W.load_wavefunction, _equal)
        if out is not None:
            ctx.probe("wide-loaded")
            _wide_verify(ctx, out.value, np.array([complex(x) for x in _flat(out.value)]), "loading a wide state")
        return status
    return "ok"


def _bitrev(i, n):
    return int(format(i, f"0{n}b")[::-1], 2) if n else 0


# ---------------------------------------------------------------- execution


def execute(scn, ctx):
    warnings.simplefilter("ignore")
    from orquestra.quantum import wavefunction as W

    disk = disk_mod.Disk(ctx)
    with disk.mounted():
        store = Store(ctx, disk)
        pool, models = {}, {}

        def put(i, wf, model, what):
            _verify(ctx, wf, model, what)
            pool[i] = wf
            # one model per distinct object: aliases share it
            for j, other in pool.items():
                if other is wf and j != i:
                    models[i] = models[j]
                    return
            models[i] = Model(model)
            models[i].plain = what == "construction" and all(type(x) is complex for x in model)

        for op in scn["ops"]:
            ctx.time += 1
            kind = op["op"]
            if kind in ("set", "drift", "bind", "flip", "save") and op["id"] not in pool:
                continue
            if kind == "new":
                vals = [_amp(x) for x in op["amps"]]
                arg = _container(op["as"], vals)
                if arg is None:
                    continue
                out = ctx.call(W.Wavefunction, arg)
                ctx.log("new", op["id"], out.kind)
                ctx.check(out.ok, "valid-rejected", lambda: f"constructor refused a normalised vector: {out!r}")
                put(op["id"], out.value, list(vals), "construction")
            elif kind == "zero":
                out = ctx.call(W.Wavefunction.zero_state, op["n"])
                ctx.check(out.ok, "valid-rejected", lambda: f"zero_state({op['n']}) {out!r}")
                put(op["id"], out.value, [1 + 0j] + [0j] * (2 ** op["n"] - 1), "zero_state")
            elif kind == "dicke":
                n, w = op["n"], op["w"]
                out = ctx.call(W.Wavefunction.dicke_state, n, w)
                ctx.check(out.ok, "valid-rejected", lambda: f"dicke_state({n},{w}) {out!r}")
                with ctx.oracle("dicke"):
                    p = np.asarray(out.value.get_probabilities()).astype(complex).reshape(-1)
                want = np.array([1.0 if bin(i).count("1") == w else 0.0 for i in range(2**n)])
                want /= want.sum()
                ctx.check(len(p) == len(want) and np.allclose(p, want), "dicke", lambda: f"dicke_state({n},{w}) probabilities {p}")
                ctx.probe("dicke")
                amps = [complex(x) for x in _flat(out.value)]
                put(op["id"], out.value, amps, "dicke_state")
            elif kind == "badnew":
                _bad_new(ctx, W, op)
            elif kind == "wide":
                if _do_wide(ctx, W, store, op) == "crash":
                    pool.clear()
                    models.clear()
            elif kind == "set":
                _do_set(ctx, op, pool[op["id"]], models[op["id"]])
            elif kind == "drift":
                _do_drift(ctx, op, pool[op["id"]], models[op["id"]])
            elif kind == "bind":
                _do_bind(ctx, op, pool, models, put)
            elif kind == "flip":
                m = models[op["id"]]
                if not all(_is_num(x) for x in m):
                    continue
                before = _snapshot(pool[op["id"]])
                out = ctx.call(W.flip_wavefunction, pool[op["id"]])
                ctx.log("flip", out.kind)
                ctx.check(out.ok, "flip", lambda: f"flip_wavefunction {out!r}")
                n = int(math.log2(len(m)))
                want = [m[_bitrev(i, n)] for i in range(len(m))]
                _verify(ctx, out.value, want, "flip")
                twice = ctx.call(W.flip_wavefunction, out.value)
                ctx.check(twice.ok, "flip", lambda: f"second flip {twice!r}")
                _verify(ctx, twice.value, m, "double flip")
                ctx.check(_snapshot(pool[op["id"]]) == before, "flip", "flip changed its argument")
                arr = ctx.call(W.flip_amplitudes, [complex(x) for x in m])
                with ctx.oracle("flip_amplitudes"):
                    good = arr.ok and np.allclose(np.asarray(arr.value).astype(complex).reshape(-1), [complex(x) for x in want])
                ctx.check(good, "flip", lambda: f"flip_amplitudes {arr!r} is not the bit reversal")
                ctx.probe("flip")
                put(op["to"], out.value, want, "flip")
            elif kind == "save":
                m = models[op["id"]]
                numeric = all(_is_num(x) for x in m)
                status = store.save(op["file"], op["how"], lambda t: W.save_wavefunction(pool[op["id"]], t),
                                    list(m), op.get("fault"), may_raise=not numeric)
                if op.get("fault"):
                    ctx.nontrivial = True
                if status == "crash":
                    pool.clear()
                    models.clear()
                elif op["id"] in pool:
                    _verify(ctx, pool[op["id"]], m, "saving")
            elif kind == "load":
                out = store.load(op["file"], op["how"], W.load_wavefunction, _equal, op.get("fault"))
                if out is not None:
                    ctx.nontrivial = True
                    put(op["to"], out.value, [complex(x) for x in _flat(out.value)], "loading")
            # the invariant holds on every object after every step
            for i in list(pool):
                _verify(ctx, pool[i], models[i], f"step {kind} (object {i})")
            ctx.mark("state", [[str(x) for x in _snapshot(pool[i])[1]] for i in pool])


def _equal(expected, got):
    els = _flat(got)
    if len(els) != len(expected):
        return f"length {len(els)}"
    for k, (a, b) in enumerate(zip(els, expected)):
        if not _is_num(b):
            return f"amplitude {k} was symbolic"
        if complex(a) != complex(b):
            return f"amplitude {k}: {a} instead of {b}"
    return None


def _container(kind, vals):
    if kind == "list":
        return list(vals)
    if kind == "matrix":
        return sympy.Matrix(vals)
    if kind == "array":
        return np.array(vals) if all(not isinstance(v, sympy.Basic) for v in vals) else None
    if kind == "real":
        if all(isinstance(v, complex) and v.imag == 0 for v in vals):
            return np.array([v.real for v in vals])
        return list(vals)
    return tuple(vals)


def _bad_new(ctx, W, op):
    v = [_amp(x) for x in op["amps"]]
    how = op["how"]
    if how == "scale":
        args = (W.Wavefunction, [1.5 * x for x in v])
    elif how == "len":
        args = (W.Wavefunction, v + [0.0]) if len(v) > 1 else (W.Wavefunction, v + [0.0, 0.0])
    elif how == "zero":
        args = (W.Wavefunction, [0.0] * len(v))
    elif how == "sym-exceeds":
        args = (W.Wavefunction, [1.1] + [sympy.Symbol("a")] + [0.0] * (2 ** op["n"] - 2) if op["n"] >= 1 else [1.1])
    elif how == "near":
        args = (W.Wavefunction, [x * math.sqrt(1 + op["dev"]) for x in v])
    elif how == "sym-near":
        f = math.sqrt(1 + abs(op["dev"]))
        args = (W.Wavefunction, [x * f for x in v] + [sympy.Symbol("a")] + [0.0] * (len(v) - 1))
    elif how == "dicke-hi":
        args = (W.Wavefunction.dicke_state, op["n"], op["n"] + 1)
    else:
        args = (W.Wavefunction.dicke_state, op["n"], -1)
    out = ctx.call(*args)
    ctx.log("badnew", how, out.kind)
    ctx.check(not out.ok, "invalid-accepted", lambda: f"construction ({how}) accepted an invalid state {args[1:]}")


def _do_drift(ctx, op, wf, model):
    """A long history of assignments that each change the total by less than the
    library's tolerance: the total itself stays within it."""
    import random

    if not all(_is_num(x) for x in model):
        return
    r = random.Random(op["seed"])
    N = len(model)
    if op["where"] == "any":
        big = [k for k in range(N) if abs(_num(model[k])) ** 2 >= 0.05]
    else:
        big = [max(range(N), key=lambda k: abs(_num(model[k])))]
    accepted = rejected = 0
    for _ in range(op["times"]):
        k = r.choice(big)
        z = _num(model[k])
        new = z * (1 + op["d"] / (2 * abs(z) ** 2))

        def assign():
            if op["where"] == "slice":
                wf[k : k + 1] = np.array([new])
            else:
                wf[k] = new

        out = ctx.call(assign)
        if out.ok:
            model[k] = new
            accepted += 1
            t = _total(model)
            ctx.check(abs(t - 1) <= 1e-4, "not-normalised",
                      lambda: f"after {accepted} small assignments squared magnitudes total {t}")
        else:
            rejected += 1
            if rejected == 3:
                break
    ctx.log("drift", op["id"], accepted, rejected)
    if rejected:
        ctx.probe("drift-stopped")


def _do_set(ctx, op, wf, model):
    import random

    r = random.Random(op["seed"])
    N = len(model)
    ix = op["idx"]
    kind = ix["i"]
    if kind in ("at", "neg", "oob"):
        pos = int(ix.get("u", 0) * N) % N
        idx = {"at": pos, "neg": pos - N, "oob": N + 3}[kind]
        targets = [pos] if kind != "oob" else None
        value, new = _value(op["val"], model, pos)
        new_vals = None if new is None else [new]
    else:
        if kind == "all":
            a, b, step = 0, N, 1
        else:
            a = int(ix["u"] * N)
            b = a + 1 + int(ix["w"] * (N - a))
            b, step = min(b, N), ix.get("step", 1)
        targets = list(range(a, b, step))
        idx = slice(None) if kind == "all" else (slice(a, b, step) if kind == "slice" else list(targets))
        cur = [model[t] for t in targets]
        how = ix["perm"]
        if how == "shuffle":
            new_vals = list(cur)
            r.shuffle(new_vals)
        elif how == "scale":
            new_vals = [(-1) * x for x in cur]
        elif how == "bad":
            new_vals = [x + 1.5 for x in cur] if r.random() < 0.5 else [complex(r.uniform(1, 2), r.uniform(-1, 1)) for _ in cur]
        elif how == "short":
            new_vals = None
        elif how == "badsym":
            new_vals = None
        else:
            new_vals = [0.9 + 0j for _ in cur]
        if how == "short":
            value = [0.1] * (len(cur) + 1)
        elif how == "badsym":
            value = [0.25] * (len(cur) - 1) + [sympy.Symbol("a")] if len(cur) > 1 else ["x"]
        elif how == "fill":
            value = 0.9
        else:
            value = list(new_vals)
    shape2 = np.ndim(getattr(wf, "amplitudes", model)) == 2
    before = _snapshot(wf)
    symbolic_obj = not all(_is_num(x) for x in model)

    def assign():
        wf[idx] = value

    out = ctx.call(assign)
    ctx.log("set", str(idx), out.kind)
    after = None
    if not out.ok:
        with ctx.oracle("state after a rejected assignment"):
            after = _snapshot(wf)
        ctx.nontrivial = True
        ctx.probe("rejected-slice" if isinstance(idx, slice) else "rejected-scalar")
        if shape2:
            ctx.probe("rejected-on-bound")
        if new_vals is None:
            ctx.probe("rejected-type")
        ctx.check(
            after == before, "rejected-assignment-changed-state",
            lambda: f"wf[{idx}] = {value} raised {type(out.exc).__name__} but changed the object: "
                    f"{before[1]} -> {after[1]}",
        )
    # what the model says
    if targets is None or new_vals is None:
        if out.ok and targets is None:
            ctx.fail("invalid-accepted", f"assignment at out-of-range index {idx} was accepted")
        if out.ok:
            # an unusual value was accepted: only the invariant itself can be judged
            _resync(ctx, wf, model, f"wf[{idx}] = {value!r}")
        return
    cand = list(model)
    for t, v in zip(targets, new_vals):
        cand[t] = v
    verdict = _verdict(cand)
    scalar_num = kind in ("at", "neg") and op["val"]["v"] in ("scale", "complete", "num")
    symbolic_val = any(not _is_num(v) for v in new_vals)
    if out.ok:
        ctx.check(verdict is not False, "invalid-accepted",
                  lambda: f"wf[{idx}] = {value} accepted although squared magnitudes total {_total(cand)}")
        model[:] = cand
        ctx.probe("accepted")
        if symbolic_obj and all(_is_num(x) for x in cand):
            ctx.probe("became-numeric")
    elif verdict is True and not symbolic_val and (scalar_num or (model.plain and kind != "fancy")):
        ctx.fail("valid-rejected", f"wf[{idx}] = {value} {out!r} although the result is normalised ({_total(cand)})")
    elif verdict is True and symbolic_val and symbolic_obj and kind in ("at", "neg"):
        ctx.fail("valid-rejected", f"wf[{idx}] = {value} {out!r} although numeric entries total {_total(cand)}")


def _resync(ctx, wf, model, what):
    with ctx.oracle("reading after " + what):
        els = _flat(wf)
    ctx.check(len(els) == len(model), "length", lambda: f"{what}: length changed")
    model[:] = [x if isinstance(x, sympy.Basic) and x.free_symbols else complex(x) for x in els]
    ctx.check(_verdict(model) is not False, "not-normalised", lambda: f"{what}: total {_total(model)}")


def _value(v, model, pos):
    """(value passed, value in the model or None when its meaning is not modelled)."""
    k = v["v"]
    cur = model[pos]
    if k == "scale":
        if not _is_num(cur):
            return -cur, -cur
        z = complex(*v["f"]) * complex(cur)
        return z, z
    if k == "complete":
        rest = sum(abs(complex(x)) ** 2 for i, x in enumerate(model) if i != pos and _is_num(x))
        mag = math.sqrt(max(0.0, 1 - rest + v.get("dev", 0.0)))
        if any(not _is_num(x) for i, x in enumerate(model) if i != pos):
            mag *= 0.5
        z = complex(mag * math.cos(v["ph"]), mag * math.sin(v["ph"]))
        return z, z
    if k == "num":
        z = complex(*v["z"])
        return (z.real if v.get("py") == "float" else z), z
    if k == "sym":
        s = sympy.Symbol(v["s"])
        return s, s if any(not _is_num(x) for x in model) else None
    if v["k"] == "nan" and any(not _is_num(x) for x in model):
        return "x", None  # NaN among symbolic entries: the statement does not say
    bad = {"str": "x", "none": None, "nan": float("nan"), "inf": float("inf"), "list": [0.5, 0.5]}[v["k"]]
    return bad, None


def _do_bind(ctx, op, pool, models, put):
    import random

    r = random.Random(op["seed"])
    wf, m = pool[op["id"]], models[op["id"]]
    syms = sorted({s for x in m if not _is_num(x) for s in x.free_symbols}, key=str)
    before = _snapshot(wf)
    how = op["how"]
    smap = {}
    if how == "none" or not syms:
        smap = {} if how == "none" else {sympy.Symbol("zz"): 0.3}
    elif how == "exceed":
        smap = {s: r.choice([3.0, 1.5, 2 + 1j]) for s in syms}
    elif how == "partial":
        s = r.choice(syms)
        smap = {s: r.choice([0.0, 0.1, 0.25j, sympy.Symbol("d"), 2 * sympy.Symbol("d")])}
    elif how == "random":
        smap = {s: complex(r.uniform(-1, 1), r.uniform(-1, 1)) for s in syms if r.random() < 0.8}
    else:
        # values that make the state exactly normalised: all symbols get the same magnitude
        numeric = _total(m)
        weight = 0.0
        for x in m:
            if not _is_num(x):
                weight += abs(complex(x.subs({s: 1 for s in x.free_symbols}))) ** 2
        if weight <= 0 or numeric > 1:
            return
        mag = math.sqrt((1 - numeric) / weight)
        if how == "near":
            mag = math.sqrt(max(0.0, 1 - numeric + r.choice([1, -1]) * 10 ** r.uniform(-3.7, -1.5)) / weight)
        smap = {s: complex(mag * math.cos(t), mag * math.sin(t)) if r.random() < 0.5 else mag
                for s, t in ((s, r.uniform(0, 6.28)) for s in syms)}
        if how == "extra":
            smap[sympy.Symbol("unused")] = 7.0
    want = [x if _is_num(x) else x.subs(smap) for x in m]
    want = [complex(x) if _is_num(x) else x for x in want]
    saved_map = dict(smap)
    verdict = _verdict(want)
    out = ctx.call(wf.bind, smap)
    ctx.log("bind", how, out.kind)
    ctx.check(smap == saved_map, "bind-changed-map", "bind changed the symbol map")
    with ctx.oracle("source of bind"):
        same = _snapshot(wf) == before
    ctx.check(same, "rejected-bind-changed-state" if not out.ok else "bind-changed-source",
              lambda: f"bind({smap}) {out!r} changed the object it was called on")
    if out.ok:
        ctx.check(verdict is not False, "invalid-accepted",
                  lambda: f"bind({smap}) accepted although squared magnitudes total {_total(want)}")
        ctx.probe("bind-ok")
        if any(not _is_num(x) for x in want):
            ctx.probe("partial-bind")
        put(op["to"], out.value, want, f"bind({smap})")
    else:
        ctx.nontrivial = True
        ctx.probe("bind-rejected")
        ctx.check(verdict is not True, "valid-rejected",
                  lambda: f"bind({smap}) {out!r} although the result is valid (total {_total(want)})")


def simplify(scn):
    import copy

    for i, op in enumerate(scn["ops"]):
        if op["op"] == "wide":
            for change in ({"n": op["n"] - 1, "w": max(0, op["w"] - 1)}, {"sets": []}, {"sets": op["sets"][:-1]}, {"flip": False}):
                c = copy.deepcopy(scn)
                c["ops"][i].update(change)
                if c["ops"][i]["n"] >= 2 and c != scn:
                    yield c
        for k in ("fault",):
            if op.get(k):
                c = copy.deepcopy(scn)
                del c["ops"][i][k]
                yield c
        if op["op"] == "new" and len(op["amps"]) > 2 and not any(_is_sym(x) for x in op["amps"]):
            c = copy.deepcopy(scn)
            c["ops"][i]["amps"] = [[1, 0], [0, 0]]
            yield c
        if op["op"] == "set" and op["val"].get("v") != "num":
            c = copy.deepcopy(scn)
            c["ops"][i]["val"] = {"v": "num", "z": [2, 0]}
            yield c

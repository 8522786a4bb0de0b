"""Worker side: run scenarios, each in a forked child of a warm process."""
import faulthandler
import gc
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

from .core import Ctx, HarnessError, SimCrash, SimInterrupt, Violation, derive, rng_for

PROPS = ["C01", "C04", "C05", "C11", "C12", "C13", "C14", "C15", "C17", "C20"]
HASH_CLASSES = 8
SCENARIO_TIMEOUT = 75.0
STEPPED_TIMEOUT = 240.0
STEP_BUDGET = 30_000_000


def load(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def hash_seed(seed, cls):
    return derive("hashseed", seed, cls) % 4294967295


def scenario_for(mod, prop, seed, tier, index):
    rng = rng_for("scenario", prop, seed, index)
    scn = mod.generate(rng, tier, index)
    scn["_index"] = index
    scn["_seed"] = seed
    return scn


def _repo_caches():
    out = []
    for name, module in sorted(sys.modules.items()):
        if name.startswith("orquestra") and module is not None:
            for attr in sorted(vars(module)):
                v = vars(module)[attr]
                if hasattr(v, "cache_clear"):
                    out.append(v)
    return out


def execute(mod, prop, scn, keep_log=False):
    """One simulated execution, in this process.  Returns a result dict."""
    ctx = Ctx(prop, keep_log)
    for c in _repo_caches():
        c.cache_clear()
    res = {"index": scn.get("_index")}
    try:
        mod.execute(scn, ctx)
        res["status"] = "ok"
    except Violation as v:
        ctx.log("violation", v.cls)
        res.update(status="violation", cls=v.cls, msg=v.msg, details=v.details)
    except (HarnessError, SimCrash, SimInterrupt, MemoryError, RecursionError) as e:
        res.update(status="error", msg=f"{type(e).__name__}: {e}",
                   tb=traceback.format_exc(limit=12))
    except Exception as e:  # noqa: BLE001
        res.update(status="error", msg=f"{type(e).__name__}: {e}",
                   tb=traceback.format_exc(limit=12))
    finally:
        for fn in reversed(ctx.cleanups):
            try:
                fn()
            except Exception:  # noqa: BLE001
                pass
    res.update(
        digest=ctx.digest(), n_events=ctx.n_events, ops=ctx.ops, time=ctx.time,
        faults=dict(ctx.faults), probes=dict(ctx.probes), nontrivial=ctx.nontrivial,
        marks=ctx.marks,
    )
    if getattr(ctx, "schedule", None) is not None:
        res["schedule"] = ctx.schedule
    if keep_log:
        res["log"] = ctx.events
    return res


def _step_limited(mod, prop, scn, budget):
    """Re-run with a counter of executed lines: decides livelock by steps, not time."""
    from .sched import SRC

    left = [budget]

    def local(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            sys.settrace(None)
            raise Violation("no-progress", f"no result within {budget} steps")
        return local

    def glob(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            sys.settrace(None)
            raise Violation("no-progress", f"no result within {budget} steps")
        return local if frame.f_code.co_filename.startswith(SRC) else None

    sys.settrace(glob)
    try:
        return execute(mod, prop, scn)
    finally:
        sys.settrace(None)


def forked(fn, timeout):
    """Run fn() in a forked child; returns its JSON result or None on timeout."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            data = json.dumps(fn(), default=str).encode()
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        except BaseException:  # noqa: BLE001
            try:
                data = json.dumps({"status": "error", "msg": "child: " + traceback.format_exc()[-1500:]})
                os.write(w, data.encode())
            except BaseException:  # noqa: BLE001
                pass
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return None
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"status": "error", "msg": f"child died (wait status {status})"}


def run_isolated(mod, prop, scn, keep_log=False):
    res = forked(lambda: execute(mod, prop, scn, keep_log), SCENARIO_TIMEOUT)
    if res is None:
        # Wall time never decides: repeat under a step budget.
        res = forked(lambda: _step_limited(mod, prop, scn, STEP_BUDGET), STEPPED_TIMEOUT)
        if res is None:
            res = {"status": "stalled", "msg": "neither finished nor used up its step budget"}
        elif res["status"] == "ok":
            res["slow"] = True
    res["index"] = scn.get("_index")
    return res


def _warm_sympy():
    """Fill sympy's own caches and lazy imports once, without touching the code under test."""
    import numpy as np
    import sympy
    from sympy.parsing.sympy_parser import parse_expr

    a, b = sympy.symbols("a b")
    half = sympy.Float(0.37)
    exprs = [sympy.cos(a / 2), sympy.sin(b), sympy.exp(sympy.I * a), sympy.sqrt(2), a**2 + b, a * b / 3 - 1,
             sympy.pi * a, sympy.exp(-sympy.I * half / 2), sympy.cos(half)]
    m = sympy.Matrix([[e * f for e in exprs[:2]] for f in exprs[2:4]])
    for e in exprs:
        str(e), sympy.srepr(e), sympy.sympify(str(e)), e.free_symbols, hash(e)
        v = e.subs({a: 0.3, b: 1.2})
        complex(v), sympy.N(v), sympy.simplify(e), e.conjugate(), abs(e), sympy.expand(e), sympy.re(v), e == exprs[0]
    sympy.Symbol("x[3]"), parse_expr("sin(q)+2*w")
    m.subs({a: 1}), m.adjoint(), m * m, m.T, m.free_symbols, m.is_symbolic(), sympy.eye(4), m.conjugate()
    u = sympy.Matrix([[0.6, -0.8j], [0.8, 0.6j]])
    u.exp(), u**2, u.inv(), u**-1, u.adjoint(), sympy.diag(sympy.eye(2), u)
    sympy.kronecker_product(u, m)
    np.array(u, dtype=complex)
    np.linalg.qr(np.eye(3)), np.linalg.eigh(np.eye(2))


def prepare(mod):
    from . import sched

    sched.install_lock_seam()
    for name in ("circuits", "circuits.layouts", "operators", "measurements", "distributions", "wavefunction", "utils",
                 "estimation", "runners", "runners.trackers", "api.estimation", "api.wavefunction_simulator"):
        importlib.import_module("orquestra.quantum." + name)
    try:
        _warm_sympy()
    except Exception:  # noqa: BLE001
        pass
    if hasattr(mod, "prepare"):
        mod.prepare()
    gc.collect()
    gc.freeze()


def worker_main(argv):
    """dst.engine PROP TIER SEED CLASS N DEADLINE_S: one JSON line per scenario."""
    faulthandler.enable()
    prop, tier, seed, cls, n, wall, known = argv
    seed, cls, n, wall = int(seed), int(cls), int(n), float(wall)
    known = set(json.loads(known))
    t0 = time.monotonic()
    mod = load(prop)
    prepare(mod)
    out = sys.stdout
    for index in range(cls, n, HASH_CLASSES):
        if time.monotonic() - t0 > wall:
            out.write(json.dumps({"status": "budget", "index": index}) + "\n")
            break
        scn = scenario_for(mod, prop, seed, tier, index)
        res = run_isolated(mod, prop, scn, keep_log=index < 2)
        if index < 2:
            res["scenario"] = scn
        out.write(json.dumps(res) + "\n")
        out.flush()
        if res["status"] == "violation" and res["cls"] not in known:
            break
    out.flush()


def server_main(argv):
    """Execute scenarios given on stdin, one JSON value per line (used to minimise and replay)."""
    prop = argv[0]
    mod = load(prop)
    prepare(mod)
    for line in sys.stdin:
        req = json.loads(line)
        res = run_isolated(mod, prop, req["scenario"], req.get("keep_log", False))
        sys.stdout.write(json.dumps(res) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    if sys.argv[1] == "work":
        worker_main(sys.argv[2:])
    else:
        server_main(sys.argv[2:])

"""Command line: check one property, replay a failure, prove determinism."""
import collections
import json
import os
import subprocess
import sys
import tempfile
import time

from . import shrink
from .engine import HASH_CLASSES, PROPS, hash_seed, load, scenario_for

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.json")
WALL = {"quick": 540.0, "thorough": 6 * 3600.0}


def env_for(hashseed):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str(hashseed)
    return e


class Server:
    """A fresh interpreter executing scenarios under a given hash seed."""

    def __init__(self, prop, hashseed):
        self.p = subprocess.Popen(
            [sys.executable, "-X", "faulthandler", "-m", "dst.engine", "serve", prop],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env_for(hashseed), cwd=HERE,
        )

    def run(self, scn, keep_log=False):
        self.p.stdin.write(json.dumps({"scenario": scn, "keep_log": keep_log}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("replay server died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=20)
        except Exception:  # noqa: BLE001
            self.p.kill()


def known_for(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == prop and k["status"] == "known"]


def run_workers(prop, tier, seed, n, jobs, known_classes, wall):
    pending = list(range(HASH_CLASSES))
    live = {}
    results = []
    errors = []
    import selectors

    sel = selectors.DefaultSelector()

    def start():
        c = pending.pop(0)
        p = subprocess.Popen(
            [sys.executable, "-X", "faulthandler", "-m", "dst.engine", "work", prop, tier,
             str(seed), str(c), str(n), str(wall), json.dumps(sorted(known_classes))],
            stdout=subprocess.PIPE, env=env_for(hash_seed(seed, c)), cwd=HERE,
        )
        live[p.stdout] = (c, p, [])
        sel.register(p.stdout, selectors.EVENT_READ)

    while pending and len(live) < jobs:
        start()
    while live:
        for key, _ in sel.select():
            f = key.fileobj
            b = os.read(f.fileno(), 1 << 20)
            c, p, buf = live[f]
            if b:
                buf.append(b)
                continue
            sel.unregister(f)
            rc = p.wait()
            del live[f]
            for line in b"".join(buf).splitlines():
                try:
                    r = json.loads(line)
                except ValueError:
                    errors.append(f"worker {c}: unreadable output {line[:200]!r}")
                    continue
                r["hash_class"] = c
                results.append(r)
            if rc != 0:
                errors.append(f"worker {c} exited with {rc}")
            if pending:
                start()
    results.sort(key=lambda r: r.get("index", 0))
    return results, errors


def check(prop, tier, seed, n=None, jobs=None):
    t0 = time.monotonic()
    print(f"seed={seed} property={prop} tier={tier}", flush=True)
    mod = load(prop)
    n = n or mod.RUNS[tier]
    jobs = jobs or min(8, os.cpu_count() or 1)
    known = known_for(prop)
    results, errors = run_workers(prop, tier, seed, n, jobs, {k["class"] for k in known}, WALL[tier])
    rc = 0
    violations = [r for r in results if r["status"] == "violation"]
    known_hit = []
    fresh = []
    for v in violations:
        k = next((k for k in known if k["class"] == v["cls"]), None)
        (known_hit if k else fresh).append((v, k))
    for k in known:
        if any(kk is k for _, kk in known_hit):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    harness = [r for r in results if r["status"] == "error"]
    replay_path = None
    if fresh:
        replay_path = report(prop, mod, seed, tier, fresh[0][0])
        if replay_path is None:
            errors.append("violation did not reproduce from its scenario")
            rc = 2
        else:
            rc = 1
    for r in harness[:3]:
        print(f"HARNESS-ERROR index={r.get('index')} {r.get('msg')}\n{r.get('tb', '')}", file=sys.stderr)
    for e in errors:
        print(f"HARNESS-ERROR {e}", file=sys.stderr)
    if rc == 0 and (harness or errors):
        rc = 2
    stalled = [r for r in results if r["status"] == "stalled"]
    for r in stalled[:3]:
        print(f"note: execution {r.get('index')} was cut off without a verdict ({r.get('msg')})")
    done = [r for r in results if r["status"] in ("ok", "violation", "error")]
    if rc == 0 and len(stalled) > max(3, len(done) // 50):
        print("HARNESS-ERROR too many executions were cut off", file=sys.stderr)
        rc = 2
    if rc == 0 and len(done) < 10:
        print("HARNESS-ERROR too few executions completed", file=sys.stderr)
        rc = 2
    write_evidence(prop, mod, tier, seed, n, done, fresh, known_hit, time.monotonic() - t0, jobs)
    wall = time.monotonic() - t0
    print(f"{prop}: {len(done)} executions, {len(fresh)} violations, {len(harness)} harness errors, {wall:.1f}s")
    return rc


def report(prop, mod, seed, tier, res):
    index, cls = res["index"], res["cls"]
    hs = hash_seed(seed, res["hash_class"])
    scn = scenario_for(mod, prop, seed, tier, index)
    srv = Server(prop, hs)
    try:
        ok = False
        for _ in range(3):
            r = srv.run(scn)
            if r.get("status") == "violation":
                ok = True
                cls = r["cls"]
                break
        if not ok:
            return None
        small, tries = shrink.minimise(srv.run, mod, scn, cls)
    finally:
        srv.close()
    # the minimised file must fail the same way in a fresh process
    srv = Server(prop, hs)
    try:
        final = srv.run(small, keep_log=True)
        if final.get("status") != "violation":
            small = scn
            final = srv.run(small, keep_log=True)
    finally:
        srv.close()
    if final.get("status") != "violation":
        return None
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{seed}-{index}.json")
    with open(path, "w") as f:
        json.dump({
            "property": prop, "seed": seed, "tier": tier, "index": index, "hashseed": hs,
            "class": final["cls"], "message": final["msg"], "details": final.get("details"),
            "digest": final["digest"], "minimise_tries": tries,
            "scenario": small, "events": final.get("log"),
        }, f, indent=1, default=str)
    print(f"VIOLATION property={prop} replay={path}")
    print(f"  {final['cls']}: {final['msg']}")
    return path


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    srv = Server(rec["property"], rec["hashseed"])
    try:
        r = srv.run(rec["scenario"], keep_log=True)
    finally:
        srv.close()
    for line in r.get("log", []):
        print(line)
    if r["status"] == "violation":
        same = r["digest"] == rec["digest"]
        print(f"{r['cls']}: {r['msg']}")
        print(f"VIOLATION property={rec['property']} replay={path}")
        print("event log identical to the recorded one" if same else "event log differs from the recorded one")
        return 1
    print(f"status={r['status']} {r.get('msg', '')}")
    return 0 if r["status"] == "ok" else 2


def write_evidence(prop, mod, tier, seed, planned, done, fresh, known_hit, wall, jobs):
    faults = collections.Counter()
    probes = collections.Counter()
    marks = collections.defaultdict(set)
    digests = set()
    for r in done:
        faults.update(r.get("faults", {}))
        probes.update(r.get("probes", {}))
        for m, v in r.get("marks", []):
            marks[m].add(v)
        if r.get("nontrivial"):
            digests.add(r["digest"])
    samples = []
    for r in done:
        if r.get("scenario") is not None:
            samples.append({"index": r["index"], "scenario": r["scenario"],
                            "digest": r["digest"], "events": (r.get("log") or [])[:60]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(done),
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE,
            "samples": samples[:2],
            "planned_runs": planned,
            "runs_per_hour": round(len(done) / wall * 3600) if wall else 0,
            "seeds_per_hour": round(len(done) / wall * 3600) if wall else 0,
            "worker_processes": jobs,
            "hash_seeds": [hash_seed(seed, c) for c in range(HASH_CLASSES)],
            "calls_into_code_under_test": sum(r.get("ops", 0) for r in done),
            "logical_time_units": sum(r.get("time", 0) for r in done),
            "events": sum(r.get("n_events", 0) for r in done),
            "faults_fired": dict(sorted(faults.items())),
            "probes_hit": dict(sorted(probes.items())),
            "probes_never_hit": sorted(set(getattr(mod, "PROBES", [])) - set(probes)),
            "distinct": {m: len(v) for m, v in sorted(marks.items())},
            "real_components": mod.REAL,
            "stub_components": mod.STUB,
            "known_findings_seen": len(known_hit),
        },
        "assumptions": mod.ASSUMPTIONS,
        "violations": len(fresh),
        "wall_s": round(wall, 2),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))


def selftest(props, n, seed):
    """Determinism: same seed, other worker counts, fresh processes; then other hash seeds."""
    bad = 0
    for prop in props:
        mod = load(prop)
        k = n or max(16, mod.RUNS["quick"] // 4)
        runs = []
        for jobs in (8, 3, 1):
            results, errors = run_workers(prop, "quick", seed, k, jobs, set(), 3600)
            runs.append({r["index"]: (r["status"], r.get("digest")) for r in results})
            if errors:
                print(prop, errors)
                bad += 1
        diff = [i for i in runs[0] if any(runs[0][i] != r.get(i) for r in runs[1:])]
        # the same scenarios under different hash seeds
        srvs = [Server(prop, h) for h in (1, 4242)]
        hdiff = 0
        sample = sorted(runs[0])[: min(40, k)]
        for i in sample:
            scn = scenario_for(mod, prop, seed, "quick", i)
            d = {s.run(scn)["digest"] for s in srvs} | {runs[0][i][1]}
            hdiff += len(d) != 1
        for s in srvs:
            s.close()
        print(f"{prop}: {len(runs[0])} scenarios x3 worker counts, {len(diff)} differ; "
              f"{len(sample)} under 3 hash seeds, {hdiff} differ", flush=True)
        bad += bool(diff)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "selftest":
        props = [x for x in a[1:] if x in PROPS] or PROPS
        nums = [int(x) for x in a[1:] if x.isdigit()]
        return selftest(props, nums[0] if nums else None, seed)
    if a[0] == "setup":
        import orquestra.quantum  # noqa: F401

        for p in PROPS:
            load(p)
        print("ready")
        return 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    n = int(os.environ["DST_RUNS"]) if "DST_RUNS" in os.environ else None
    return check(prop, tier, seed, n)


if __name__ == "__main__":
    # simulated disks live below one directory, removed even when a worker was killed
    with tempfile.TemporaryDirectory(prefix="dst.", ignore_cleanup_errors=True) as scratch:
        os.environ["TMPDIR"] = tempfile.tempdir = scratch
        code = main()
    sys.exit(code)

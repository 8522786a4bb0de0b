"""Minimise a failing scenario while the same violation class persists."""
import copy
import json
import time


def _lists(scn, fields):
    for f in fields:
        node = scn
        path = f.split(".")
        for p in path[:-1]:
            node = node.get(p, {}) if isinstance(node, dict) else {}
        if isinstance(node, dict) and isinstance(node.get(path[-1]), list):
            yield f, path


def _get(scn, path):
    for p in path:
        scn = scn[p]
    return scn


def _set(scn, path, value):
    for p in path[:-1]:
        scn = scn[p]
    scn[path[-1]] = value


def candidates(mod, scn):
    fields = getattr(mod, "LIST_FIELDS", ["ops", "faults", "plan.switches", "plan.interrupts"])
    for _, path in _lists(scn, fields):
        items = _get(scn, path)
        n = len(items)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                if size == n and n == 0:
                    break
                c = copy.deepcopy(scn)
                _set(c, path, items[:start] + items[start + size:])
                yield c
            size //= 2
    if hasattr(mod, "simplify"):
        yield from mod.simplify(scn)


def cost(scn):
    return len(json.dumps(scn, sort_keys=True))


def minimise(run, mod, scn, cls, max_tries=600, wall=90.0):
    """run(scenario) -> result.  Returns (scenario, tries)."""
    t0 = time.monotonic()
    tries = 0
    if isinstance(scn.get("plan"), dict) and scn["plan"].get("mode") == "random":
        res = run(scn)
        if res.get("schedule") is not None:
            c = copy.deepcopy(scn)
            c["plan"] = {k: v for k, v in c["plan"].items() if k not in ("seed", "p", "seam_p")}
            c["plan"].update(mode="list", switches=res["schedule"])
            r = run(c)
            if r["status"] == "violation" and r["cls"] == cls:
                scn = c
    improved = True
    while improved:
        improved = False
        for c in candidates(mod, scn):
            if tries >= max_tries or time.monotonic() - t0 > wall:
                return scn, tries
            if cost(c) >= cost(scn):
                continue
            tries += 1
            try:
                r = run(c)
            except Exception:  # noqa: BLE001
                continue
            if r.get("status") == "violation" and r.get("cls") == cls:
                scn = c
                improved = True
                break
    return scn, tries

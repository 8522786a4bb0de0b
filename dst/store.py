"""Save/load workload against the simulated disk, with the durability oracle.

Acknowledged (returned) save => every later load returns an equal artefact.
Un-acknowledged save (raised, or the process died inside it) => a later load
raises or returns the previous or the attempted artefact, never anything else.
"""
import io
import os
import pathlib

from .core import SimCrash

ABSENT = "<absent>"


class Store:
    def __init__(self, ctx, disk):
        self.ctx = ctx
        self.disk = disk
        self.files = {}  # name -> list of acceptable contents; [x] = settled

    def target(self, name, how):
        p = self.disk.path(name)
        if how == "str":
            return p
        if how == "path":
            return pathlib.Path(p)
        if how == "bytes":
            return os.fsencode(p)
        if how == "rel":
            return name
        raise ValueError(how)

    # -- writing
    def save(self, name, how, fn, expected, fault=None, may_raise=False):
        """fn(target) performs the save.  Returns 'ok', 'failed' or 'crash'."""
        ctx, disk = self.ctx, self.disk
        before = self.files.get(name, [ABSENT])
        self.files[name] = before + [expected]
        disk.arm(fault)
        handle = None
        try:
            if how == "file":
                try:
                    handle = open(disk.path(name), "w", encoding="utf-8")
                except OSError:
                    ctx.log("save", name, how, "open-failed")
                    return "failed"
                out = ctx.call(fn, handle)
                try:
                    handle.close()
                except OSError as e:
                    if out.ok:
                        out.ok, out.exc = False, e
            else:
                out = ctx.call(fn, self.target(name, how))
        except SimCrash:
            ctx.log("save", name, how, "crash")
            ctx.probe("crash-during-save")
            return "crash"
        finally:
            fired = disk.write_failed
            disk.disarm()
        ctx.log("save", name, how, out.kind)
        if out.ok:
            self.files[name] = [expected]
            if fired:
                ctx.probe("save-acknowledged-despite-fault")
            return "ok"
        if not fired and not may_raise:
            ctx.fail("save-failed", f"saving to {how} target {name!r} {out!r} although the disk reported no error")
        if not fired:
            # a refused artefact: the file may hold the old content or nothing readable
            self.files[name] = before + [ABSENT]
        return "failed"

    # -- reading
    def load(self, name, how, fn, equal, fault=None):
        """fn(source) loads; equal(expected, got) returns None or a description."""
        ctx, disk = self.ctx, self.disk
        accept = self.files.get(name, [ABSENT])
        disk.arm(fault)
        try:
            if how == "file":
                try:
                    f = open(disk.path(name), "r", encoding="utf-8")
                except OSError:
                    ctx.log("load", name, how, "open-failed")
                    return None
                with f:
                    out = ctx.call(fn, f)
            elif how == "stringio":
                try:
                    with io.FileIO(disk.path(name)) as raw:
                        text = raw.readall().decode("utf-8", "replace")
                except OSError:
                    text = ""
                out = ctx.call(fn, io.StringIO(text))
            else:
                out = ctx.call(fn, self.target(name, how))
        finally:
            fired = disk.read_failed
            disk.disarm()
        ctx.log("load", name, how, out.kind)
        if not out.ok:
            if fired or len(accept) > 1 or accept == [ABSENT]:
                if len(accept) > 1:
                    ctx.probe("torn-file-refused")
                return None
            ctx.fail("load-failed", f"loading an acknowledged artefact from {how} source {name!r} {out!r}")
        problems = []
        for exp in accept:
            if exp is ABSENT:
                problems.append("nothing was ever stored")
                continue
            with ctx.oracle("comparing a loaded artefact"):
                diff = equal(exp, out.value)
            if diff is None:
                ctx.probe("roundtrip-equal")
                if len(accept) > 1:
                    ctx.probe("torn-file-readable")
                return out
            problems.append(diff)
        settled = len(accept) == 1
        ctx.fail(
            "roundtrip-differs" if settled else "garbage-after-failed-save",
            f"artefact loaded from {how} source {name!r} is not the one saved: {problems[-1]}",
        )


def gen_how_save(rng, file_ok):
    return rng.choice(["str", "path", "rel", "bytes"] + (["file", "file"] if file_ok else []))


def gen_how_load(rng, file_ok=True):
    return rng.choice(["str", "path", "rel", "bytes"] + (["file", "stringio"] if file_ok else []))


def history(rng, save, load, fault):
    """Operations on one file whose outcome depends on what was there before.

    save(which, how) and load(how) build one operation; `which` is 0 or 1 (two
    artefacts); fault() builds a write fault.
    """
    how = rng.choice(["str", "str", "path", "rel"])

    def sv(which, faulty=False, h=None):
        op = save(which, h or how)
        if faulty:
            op["fault"] = fault()
        return op

    def ld(p):
        return [load(how if rng.random() < 0.6 else gen_how_load(rng))] if rng.random() < p else []

    kind = rng.choice(["return", "return", "retry", "twice"])
    if kind == "return":  # A, then something else (perhaps torn, perhaps another route), then A again
        out = [sv(0)] + ld(0.5) + [sv(1, rng.random() < 0.5, rng.choice([None, None, "path", "rel", "bytes"]))]
        return out + ld(0.5) + [sv(0)] + ld(1.0)
    if kind == "retry":  # the first attempt fails, the identical second one must count
        return ([sv(1)] if rng.random() < 0.5 else []) + [sv(0, True)] + ld(0.5) + [sv(0)] + ld(1.0)
    return [sv(0)] + ld(0.7) + [sv(0)] + ld(1.0) + [sv(1)] + ld(1.0)

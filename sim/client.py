"""Executing one operation, and its reference execution in a pristine process."""
import contextlib
import io
import json
import sys

from . import core
from .world import Malformed

BENIGN = (Exception, KeyboardInterrupt)


class Null(io.StringIO):
    def write(self, s):
        return len(s)


def silence():
    """Library progress printing goes nowhere, for the whole run."""
    sys.stdout = Null()


class Outcome:
    __slots__ = ("ok", "value", "exc", "raw", "lines", "kernels", "fired", "malformed", "io_events", "io_kinds", "io_fired", "gave_up", "sites", "frame")

    def __init__(self):
        self.ok, self.value, self.exc, self.raw = False, None, None, None
        self.lines = self.kernels = 0
        self.fired = None
        self.malformed = None
        self.io_events, self.io_kinds, self.io_fired = 0, [], []
        self.gave_up = False
        self.frame = None
        self.sites = []  # [first, last] line count of every source line reached

    def brief(self):
        from .world import brief

        if self.malformed:
            return f"malformed result ({self.malformed})"
        return brief(self.value) if self.ok else f"raised {type(self.exc).__name__}: {self.exc}"[:300]


def execute(fn, norm, crash_at=None, exc=None, kfault=None, label="", budget=3_000_000, iofault=None, sites=False):
    """Runs fn() as one operation under its own frame; normal form of its result."""
    out = Outcome()
    frame = core.OpFrame(crash_at=crash_at, exc=exc, kfault=kfault, label=label, budget=budget, iofault=iofault)
    if sites:
        frame.sites = {}
    try:
        with core.op_frame(frame):
            raw = fn()
        out.raw = raw
        out.ok = True
    except BENIGN as e:
        out.exc = e
    out.lines, out.kernels, out.fired = frame.lines, frame.kernels, frame.fired
    out.io_events, out.io_kinds, out.io_fired = frame.io_events, frame.io_kinds, frame.io_fired
    out.gave_up, out.frame = frame.gave_up, frame
    out.sites = list((frame.sites or {}).values())
    if out.ok and norm is not None:
        try:
            out.value = norm(raw)
        except Malformed as e:
            out.malformed = str(e)
    return out


def reference(ctx, fn, norm):
    """The same operation alone in a pristine copy of the process: its normal
    form or exception type, and how many lines and kernel calls it takes."""

    def go():
        silence()
        with core.Solo(core.Ctx({})):
            o = execute(fn, norm, sites=True)
        return (o.ok, o.value, type(o.exc).__name__ if o.exc is not None else None, str(o.exc)[:300], o.lines, o.kernels, o.malformed, o.io_events, o.io_kinds, o.sites)

    ok, value, en, emsg, lines, kernels, mal, nev, kinds, sites = core.pristine(go)
    out = Outcome()
    out.ok, out.value, out.lines, out.kernels, out.malformed = ok, value, lines, kernels, mal
    out.io_events, out.io_kinds, out.sites = nev, kinds, sites
    out.exc = None if ok else (en, emsg)
    ctx.count("reference_executions")
    return out


class References:
    """Reference executions, one per distinct operation of a run."""

    def __init__(self, ctx):
        self.ctx, self.memo = ctx, {}

    def get(self, key, fn, norm):
        key = json.dumps(key, sort_keys=True)
        if key not in self.memo:
            self.memo[key] = reference(self.ctx, fn, norm)
        return self.memo[key]


def crash_point(fault, ref):
    """Turns a planned fault into parameters of execute(), given how long the
    operation takes when nothing happens to it."""
    if not fault:
        return {}
    if fault["where"] == "kernel":
        if not ref.kernels:
            return {}
        return {"kfault": {"n": 1 + int(fault["x"] * ref.kernels) % ref.kernels, "err": fault["exc"]}}
    if fault["where"] == "tail":
        n = max(1, ref.lines - int(fault["x"]))
    elif fault["where"] == "site" and ref.sites:
        # a source line, whether it runs once or a thousand times
        n = ref.sites[int(fault["x"] * len(ref.sites)) % len(ref.sites)][int(fault["last"])]
    else:
        n = 1 + int(fault["x"] * ref.lines)
    return {"crash_at": min(max(1, n), max(1, ref.lines)), "exc": fault["exc"]}


def gen_fault(rng, kernels=True):
    w = rng.random()
    if kernels and w < 0.35:
        return {"where": "kernel", "x": round(rng.random(), 4), "exc": rng.choice(["LinAlgError", "MemoryError", "RuntimeError"])}
    exc = rng.choice(["MemoryError", "MemoryError", "KeyboardInterrupt", "RuntimeError"])
    if w < 0.5:
        return {"where": "site", "x": round(rng.random(), 4), "last": rng.random() < 0.5, "exc": exc}
    if w < 0.65:
        return {"where": "tail", "x": rng.randint(0, 12), "exc": exc}
    return {"where": "frac", "x": round(rng.random(), 4), "exc": exc}


def count_fired(ctx, out):
    if out.fired and not str(out.fired).startswith(("kernel:", "solver:")):
        ctx.count(f"fault:interrupt_{out.fired}")


@contextlib.contextmanager
def solo(ctx):
    with core.Solo(ctx) as s:
        yield s

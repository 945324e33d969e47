"""Core of the simulator: one run = one plan = one exactly repeatable execution.

Everything a run does is decided by its plan (a JSON document generated from
one integer).  Caller threads are real threads, but parked: exactly one holds
the token, and the plan says at which library line the token moves on.
"""
import array
import ast
import contextlib
import hashlib
import io
import os
import pickle
import random
import sys
import threading
import time
import traceback
import types

TOOL = 3  # sys.monitoring tool id
LINE = sys.monitoring.events.LINE
INSTR = sys.monitoring.events.INSTRUCTION
REPO = os.environ.get("SIM_REPO", "/repo")  # only ever set while testing the machinery on scratch copies
PKG = REPO + "/pytspl/"


def rng_for(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


class HarnessError(Exception):
    """The harness itself is wrong: neither a pass nor a violation."""


class StepBudget(BaseException):
    """A client used up its step budget (no progress)."""


class Stop(Exception):
    """Ends a run after a violation was recorded."""


class Ctx:
    """Everything one run records."""

    def __init__(self, plan):
        self.plan = plan
        self.violations = []
        self.counts = {}
        self.cover = set()
        self.log = hashlib.blake2b(digest_size=16)
        self.steps = 0
        self.nontrivial = False
        self.sample = None

    def violate(self, kind, msg):
        self.violations.append({"kind": kind, "msg": str(msg)[:2000]})
        self.event("violation", kind)

    def require(self, cond, kind, msg=""):
        if not cond:
            self.violate(kind, msg() if callable(msg) else msg)
        return bool(cond)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def event(self, *parts):
        self.log.update(("|".join(map(str, parts)) + "\n").encode())

    def cov(self, *parts):
        self.cover.add(hashlib.blake2b("|".join(map(str, parts)).encode(), digest_size=8).hexdigest())


# ---------------------------------------------------------------- code objects
def _codes_of(obj, seen, out):
    if isinstance(obj, types.CodeType):
        if ("code", id(obj)) in seen or not obj.co_filename.startswith(PKG):
            return
        seen.add(("code", id(obj)))
        out.append(obj)
        for c in obj.co_consts:
            if isinstance(c, types.CodeType):
                _codes_of(c, seen, out)
        return
    if id(obj) in seen:
        return
    if isinstance(obj, (staticmethod, classmethod)):
        _codes_of(obj.__func__, seen, out)
    elif isinstance(obj, property):
        for f in (obj.fget, obj.fset, obj.fdel):
            if f is not None:
                _codes_of(f, seen, out)
    elif isinstance(obj, types.FunctionType):
        seen.add(id(obj))
        _codes_of(obj.__code__, seen, out)
        w = getattr(obj, "__wrapped__", None)
        if w is not None:
            _codes_of(w, seen, out)
        for cell in obj.__closure__ or ():
            try:
                _codes_of(cell.cell_contents, seen, out)
            except ValueError:
                pass
    elif isinstance(obj, type):
        if not str(getattr(obj, "__module__", "")).startswith("pytspl"):
            return
        seen.add(id(obj))
        for v in list(vars(obj).values()):
            _codes_of(v, seen, out)
    else:
        for name in ("__wrapped__", "func"):
            w = getattr(obj, name, None)
            if isinstance(w, types.FunctionType):
                _codes_of(w, seen, out)


def library_codes():
    seen, out = set(), []
    for name, mod in sorted(sys.modules.items()):
        if name == "pytspl" or name.startswith("pytspl."):
            for v in list(vars(mod).values()):
                _codes_of(v, seen, out)
    return out


_HOOK = None
_CODES = []


def _on_line(code, line):
    h = _HOOK
    if h is not None:
        h(code, line)


_POS = {}


def _on_instr(code, offset):
    h = _HOOK
    if h is not None:
        lines = _POS.get(code)
        if lines is None:
            # instructions without a line are cleanup code: counted, no interruption there (line 0)
            lines = _POS[code] = [p[0] or 0 for p in code.co_positions()]
        h(code, lines[offset // 2])


def install():
    """Make every source line of the library a yield and crash point."""
    global _CODES
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "sim")
    mon.register_callback(TOOL, LINE, _on_line)
    mon.register_callback(TOOL, INSTR, _on_instr)
    _CODES = library_codes()
    if not _CODES:
        raise HarnessError("no library code found to instrument")
    set_grain(False)


def set_grain(fine):
    for c in _CODES:
        sys.monitoring.set_local_events(TOOL, c, INSTR if fine else LINE)


def set_hook(fn):
    global _HOOK
    _HOOK = fn


# ------------------------------------------------------------------- op frames
class OpFrame:
    """State of the operation a client is executing: fault counters."""

    __slots__ = ("lines", "crash_at", "exc", "fired", "kernels", "kfault", "budget", "label", "iofault", "io_events", "io_kinds", "io_fired", "vanished", "gave_up", "sites")

    def __init__(self, crash_at=None, exc=None, kfault=None, budget=3_000_000, label="", iofault=None):
        self.lines = 0
        self.crash_at = crash_at
        self.exc = exc
        self.fired = None
        self.kernels = 0
        self.kfault = kfault
        self.budget = budget
        self.label = label
        self.iofault = dict(iofault) if iofault else None
        self.io_events = 0
        self.io_kinds = []
        self.io_fired = []
        self.vanished = set()
        self.gave_up = False
        self.sites = None  # (file, line) -> [first, last] count, when recorded


EXC = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError, "OSError": OSError}
_tls_frames = {}  # thread id -> OpFrame


def current_frame():
    return _tls_frames.get(threading.get_ident())


@contextlib.contextmanager
def op_frame(frame):
    tid = threading.get_ident()
    old = _tls_frames.get(tid)
    _tls_frames[tid] = frame
    try:
        yield frame
    finally:
        if old is None:
            _tls_frames.pop(tid, None)
        else:
            _tls_frames[tid] = old


_CLEANUP = {}


def _cleanup_lines(filename):
    """Lines at which no interruption is placed: `with` headers (their second
    line event lies between the body and __exit__, where the interpreter never
    delivers one), `try:` lines, handlers and finally blocks."""
    got = _CLEANUP.get(filename)
    if got is None:
        got = {0}
        try:
            with devices_open(filename) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module(body=[], type_ignores=[])
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                got.update(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, ast.Try):
                got.add(n.lineno)
                for part in n.finalbody + [b for h in n.handlers for b in [h]]:
                    got.update(range(part.lineno, (part.end_lineno or part.lineno) + 1))
        _CLEANUP[filename] = got
    return got


devices_open = io.open  # the real one, bound before any seam is installed


def _tick(frame, code, line):
    frame.lines += 1
    if frame.sites is not None:
        frame.sites.setdefault((code.co_filename, line), [frame.lines, 0])[1] = frame.lines
    if frame.lines > frame.budget:
        frame.fired = "budget"
        raise StepBudget(frame.label)
    if frame.crash_at is not None and frame.lines >= frame.crash_at and line not in _cleanup_lines(code.co_filename):
        frame.crash_at = None
        frame.fired = frame.exc
        raise EXC[frame.exc](f"injected at {os.path.basename(code.co_filename)}:{line}")


class Solo:
    """Runs operations on the main thread with line counting and crashes."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.lines = 0

    def _hook(self, code, line):
        f = _tls_frames.get(threading.get_ident())
        if f is not None:
            self.lines += 1
            _tick(f, code, line)

    def __enter__(self):
        set_hook(self._hook)
        return self

    def __exit__(self, *a):
        set_hook(None)
        self.ctx.steps += self.lines
        return False


class Scheduler:
    """Runs clients (callables taking their index) under a given schedule.

    preempt: sorted list of [step, pick]; at global step `step` the token moves
    to the runnable client number pick (mod number of others).
    """

    def __init__(self, ctx, clients, preempt, first=0, max_steps=6_000_000):
        self.ctx = ctx
        self.n = len(clients)
        self.clients = clients
        self.preempt = sorted([list(p) for p in preempt])
        self.pi = 0
        self.next_at = self.preempt[0][0] if self.preempt else None
        self.cur = first % self.n if self.n else 0
        self.locks = [threading.Semaphore(0) for _ in range(self.n)]
        self.alive = [True] * self.n
        self.idents = {}
        self.step = 0
        self.max_steps = max_steps
        self.done = threading.Semaphore(0)
        self.switches = 0
        self.sig = hashlib.blake2b(digest_size=8)
        self.trace = hashlib.blake2b(digest_size=16)
        self._buf = array.array("l")
        self._names = {}
        self.crashed = []
        self.aborted = False
        self.blocked = {}
        self.deadlock = False

    # -- yield points
    def _hook(self, code, line):
        me = self.idents.get(threading.get_ident())
        if me is None:
            return
        self.point(me, code, line)

    def point(self, me, code, line):
        self.step += 1
        key = (code, line)
        lid = self._names.get(key)
        if lid is None:
            lid = len(self._names)
            self._names[key] = lid
        self._buf.append(me * 100003 + lid)
        if len(self._buf) > 65536:
            self._flush()
        if self.step > self.max_steps:
            self.aborted = True
            raise StepBudget("global")
        if self.next_at is not None and self.step >= self.next_at:
            pick = self.preempt[self.pi][1]
            self.pi += 1
            self.next_at = self.preempt[self.pi][0] if self.pi < len(self.preempt) else None
            others = self.runnable(me)
            if others:
                self._handover(me, others[pick % len(others)], f"{os.path.basename(code.co_filename)}:{line}")
        f = _tls_frames.get(threading.get_ident())
        if f is not None:
            _tick(f, code, line)

    def external_point(self, name):
        """A yield point in a simulated device or numerical kernel."""
        me = self.idents.get(threading.get_ident())
        if me is None:
            return
        self.step += 1
        if self.next_at is not None and self.step >= self.next_at:
            pick = self.preempt[self.pi][1]
            self.pi += 1
            self.next_at = self.preempt[self.pi][0] if self.pi < len(self.preempt) else None
            others = self.runnable(me)
            if others:
                self._handover(me, others[pick % len(others)], f"{name}")

    def runnable(self, exclude=None):
        return [i for i in range(self.n) if self.alive[i] and i not in self.blocked and i != exclude]

    def _handover(self, me, to, where):
        self.switches += 1
        self.sig.update(f"{me}@{where}>{to};".encode())
        self.cur = to
        self.locks[to].release()
        self.locks[me].acquire()

    def block(self, me, lock):
        """Client me waits for a lock held by somebody else."""
        self.blocked[me] = lock
        self.ctx.count("lock_waits")
        others = self.runnable(me)
        if not others:
            self.blocked.pop(me, None)
            self.deadlock = True
            raise StepBudget("deadlock")
        self._handover(me, others[0], "lock")
        self.blocked.pop(me, None)

    def unblock(self, lock):
        for i in [i for i, l in self.blocked.items() if l is lock]:
            self.blocked.pop(i)

    def _flush(self):
        self.trace.update(self._buf.tobytes())
        del self._buf[:]

    def _main(self, i):
        self.idents[threading.get_ident()] = i
        self.locks[i].acquire()
        try:
            self.clients[i](i)
        except BaseException as e:  # a client body must handle its own errors
            self.crashed.append((i, e))
        finally:
            self.idents.pop(threading.get_ident(), None)
            self.alive[i] = False
            rest = self.runnable()
            if rest:
                self.cur = rest[0]
                self.locks[rest[0]].release()
            else:
                if any(self.alive):
                    self.deadlock = True
                self.done.release()

    def run(self):
        global SCHED
        if not self.n:
            return
        threads = [threading.Thread(target=self._main, args=(i,), name=f"client{i}", daemon=True) for i in range(self.n)]
        # idents must be registered before anything runs: each thread parks first
        set_hook(self._hook)
        SCHED = self
        try:
            for t in threads:
                t.start()
            self.locks[self.cur].release()
            self.done.acquire()
            if not self.deadlock:
                for t in threads:
                    t.join()
        finally:
            SCHED = None
            set_hook(None)
        self._flush()
        self.ctx.steps += self.step
        self.ctx.count("context_switches", self.switches)
        if self.switches:
            self.ctx.cov("sched", self.sig.hexdigest())
        self.ctx.event("sched", self.step, self.switches, self.sig.hexdigest(), self.trace.hexdigest())
        if self.crashed:
            i, e = self.crashed[0]
            raise HarnessError(f"client {i} body raised {type(e).__name__}: {e}") from e


SCHED = None


def settle():
    """Waits for threads that have ended for Python, but whose C++ destructors
    may still run: a copy made meanwhile could inherit a lock they hold."""
    end = time.monotonic() + 5
    while len(os.listdir("/proc/self/task")) > threading.active_count() and time.monotonic() < end:
        time.sleep(0.0005)


def pristine(fn, wall=120):
    """fn() in a forked copy of this process: what a call does where nothing of
    this run has happened.  Returns the pickled result; raises HarnessError if
    the copy dies."""
    settle()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(fn())
        except BaseException as e:  # noqa: BLE001
            data = pickle.dumps(("__died__", "".join(traceback.format_exception(e))[-2000:]))
        off = 0
        try:
            while off < len(data):
                off += os.write(w, data[off:])
        finally:
            os._exit(0)
    os.close(w)
    parts = []
    while True:
        p = os.read(r, 1 << 16)
        if not p:
            break
        parts.append(p)
    os.close(r)
    os.waitpid(pid, 0)
    out = pickle.loads(b"".join(parts))
    if isinstance(out, tuple) and len(out) == 2 and isinstance(out[0], str) and out[0] == "__died__":
        raise RuntimeError("reference execution failed: " + out[1])
    return out


def gen_preempt(rng, est_steps, density=None):
    """A schedule: absolute steps at which the token moves."""
    style = density or rng.choice(["fine", "medium", "coarse", "mixed", "burst", "stall"])
    out, t = [], 0
    limit = max(50, int(est_steps))
    if style == "stall":  # one caller stops somewhere while the others run on
        return [[t, rng.randint(0, 5)] for t in sorted(rng.sample(range(1, limit), rng.randint(1, 3)))]
    while t < limit and len(out) < 600:
        if style == "fine":
            g = rng.randint(1, 6)
        elif style == "medium":
            g = rng.randint(5, 60)
        elif style == "coarse":
            g = rng.randint(50, max(60, limit // 4))
        elif style == "burst":
            g = rng.choice([1, 1, 2, 3, rng.randint(40, 200)])
        else:
            g = rng.choice([1, 2, 5, 15, 50, 150])
        t += g
        out.append([t, rng.randint(0, 5)])
    return out


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old

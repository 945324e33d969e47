"""Simulated devices: disk, numerical kernels, convex solver, locks, chebfun.

All pass through untouched unless the operation frame of the calling client
carries a fault.  Fault kinds that fired are counted on the context.
"""
import builtins
import errno
import io
import os
import stat as statmod
import sys
import threading

import numpy as np

from . import core

CTX = None  # the context of the current run (one per process)
_counts = lambda name: CTX is not None and CTX.count(name)

REAL_OPEN = io.open
REAL_STAT = os.stat
REAL_LISTDIR = os.listdir
REAL_SCANDIR = os.scandir


def _yield(name):
    s = core.SCHED
    if s is not None:
        s.external_point(name)


# ------------------------------------------------------------------------ disk
class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, data):
        self.disk, self.path, self.data, self.pos = disk, path, data, 0
        self.name = path
        self.mode = "rb"
        self.frame = core.current_frame()

    def fileno(self):
        """A real descriptor with the same content, for code that wants one."""
        if getattr(self, "_fd", None) is None:
            self._fd = os.memfd_create("sim")
            os.write(self._fd, bytes(self.data))
            os.lseek(self._fd, self.pos, 0)
        return self._fd

    def isatty(self):
        return False

    def close(self):
        fd, self._fd = getattr(self, "_fd", None), None
        if fd is not None:
            os.close(fd)
        super().close()

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off + (0 if whence == 0 else self.pos if whence == 1 else len(self.data))
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        self.disk.io_event("read", self.path)
        n = len(b)
        if self.disk.chunk:
            piece = max(self.disk.chunk, len(self.data) // 300)
            if n > piece:
                n = piece
                _counts("fault:short_read")
        part = self.data[self.pos:self.pos + n]
        b[: len(part)] = part
        self.pos += len(part)
        return len(part)


class FakeEntry:
    def __init__(self, base, name, is_dir):
        self.name, self.path, self._d = name, os.path.join(base, name), is_dir

    def is_dir(self, *, follow_symlinks=True):
        return self._d

    def is_file(self, *, follow_symlinks=True):
        return not self._d

    def is_symlink(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return os.stat(self.path)

    def __fspath__(self):
        return self.path


class SimDisk:
    """Files under the simulated roots; everything else is the real disk, read-only
    for the library in practice."""

    ERRNO = {"EIO": errno.EIO, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE, "ENOMEM": errno.ENOMEM, "ESTALE": errno.ESTALE, "ENOENT": errno.ENOENT}

    def __init__(self, roots=("/simdisk", core.PKG + "data")):
        self.roots = tuple(r.rstrip("/") for r in roots)
        self.files = {}     # virtual files: path -> bytes
        self.removed = set()  # paths hidden from the library
        self.listing = None   # function(list) -> list, order in which names come back
        self.chunk = 0
        self.handles = []
        self.opens = 0

    def owns(self, path):
        try:
            path = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(path, bytes):
            return None
        for r in self.roots:
            if path == r or path.startswith(r + "/"):
                return path
        return None

    def io_event(self, kind, path):
        """One I/O event of the calling client; its operation frame may carry a
        fault {"event": n, "err": ..., "sticky": bool}."""
        _yield(f"disk.{kind}")
        st = core.current_frame()
        if st is None:
            return
        st.io_events += 1
        st.io_kinds.append(kind)
        f = st.iofault
        if not f:
            return
        if st.io_events == f["event"] or (f.get("sticky") and st.io_events > f["event"]):
            if f["err"] == "vanish":
                if not st.io_fired:
                    st.vanished.add(path)
                    st.io_fired.append(("vanish", kind, path))
                    _counts("fault:disk_vanish")
                return
            st.io_fired.append((f["err"], kind, path))
            _counts(f"fault:disk_{kind}_{f['err']}")
            if f["err"] == "MemoryError":
                raise MemoryError("injected")
            e = self.ERRNO[f["err"]]
            raise OSError(e, os.strerror(e), path)

    def gone(self, path):
        st = core.current_frame()
        return path in self.removed or (st is not None and path in st.vanished)

    def content(self, path):
        if self.gone(path):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if path in self.files:
            return self.files[path]
        if self.is_virtual_dir(path):
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        if path.startswith("/simdisk"):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        with REAL_OPEN(path, "rb") as f:
            return f.read()

    def is_virtual_dir(self, path):
        return any(f.startswith(path + "/") for f in self.files)

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        self.io_event("open", path)
        if any(c in mode for c in "wax+"):
            _counts("disk_write_open")
            if path.startswith("/simdisk") or path in self.files:
                raise OSError(errno.EROFS, "Read-only file system", path)
            return REAL_OPEN(path, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = SimRaw(self, path, self.content(path))
        self.opens += 1
        self.handles.append(raw)
        if "b" in mode:
            return raw if buffering == 0 else io.BufferedReader(raw)
        return io.TextIOWrapper(io.BufferedReader(raw, 8192), encoding=encoding, errors=errors, newline=newline)

    def stat(self, path, **kw):
        self.io_event("stat", path)
        if self.gone(path):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if path in self.files:
            return os.stat_result((statmod.S_IFREG | 0o644, 1, 1, 1, 0, 0, len(self.files[path]), 0, 0, 0))
        if self.is_virtual_dir(path):
            return os.stat_result((statmod.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
        return REAL_STAT(path, **kw)

    def _names(self, path):
        names = []
        if not path.startswith("/simdisk"):
            names = [n for n in REAL_LISTDIR(path) if os.path.join(path, n) not in self.removed]
        for f in self.files:
            if f.startswith(path + "/"):
                n = f[len(path) + 1:].split("/")[0]
                if n not in names:
                    names.append(n)
        names.sort()
        if self.listing is not None:
            names = self.listing(names)
        return names

    def listdir(self, path):
        self.io_event("list", path)
        return self._names(path)

    def scandir(self, path):
        self.io_event("list", path)
        real = {e.name: e for e in REAL_SCANDIR(path)} if not path.startswith("/simdisk") else {}
        out = [real.get(n) or FakeEntry(path, n, self.is_virtual_dir(os.path.join(path, n))) for n in self._names(path)]

        class It:
            def __init__(s):
                s.it = iter(out)

            def __iter__(s):
                return s

            def __next__(s):
                return next(s.it)

            def __enter__(s):
                return s

            def __exit__(s, *a):
                return False

            def close(s):
                pass

        return It()

    def leaked(self, frame=None):
        """Files still open: all of them, or those one operation opened."""
        return [h.path for h in self.handles if not h.closed and (frame is None or h.frame is frame)]


DISK = None


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if DISK is not None and not isinstance(file, int):
        p = DISK.owns(file)
        if p is not None:
            return DISK.open(p, mode, buffering, encoding, errors, newline, closefd, opener)
    return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)


def _stat(path, *a, **kw):
    if DISK is not None and not isinstance(path, int):
        p = DISK.owns(path)
        if p is not None and not a:
            return DISK.stat(p, **kw)
    return REAL_STAT(path, *a, **kw)


def _listdir(path="."):
    if DISK is not None and not isinstance(path, int):
        p = DISK.owns(path)
        if p is not None:
            return DISK.listdir(p)
    return REAL_LISTDIR(path)


def _scandir(path="."):
    if DISK is not None and not isinstance(path, int):
        p = DISK.owns(path)
        if p is not None:
            return DISK.scandir(p)
    return REAL_SCANDIR(path)


def install_disk(disk):
    """Put the simulated disk under the library (this process only)."""
    global DISK
    DISK = disk
    builtins.open = _open
    io.open = _open
    os.stat = _stat
    os.listdir = _listdir
    os.scandir = _scandir
    return disk


# --------------------------------------------------------------------- kernels
def _kernel(name, orig):
    def call(*a, **kw):
        f = core.current_frame()
        if f is None:
            return orig(*a, **kw)
        _yield(name)
        f.kernels += 1
        k = f.kfault
        if k and k["n"] == f.kernels:
            f.fired = f"kernel:{k['err']}"
            _counts(f"fault:kernel_{k['err']}")
            if k["err"] == "MemoryError":
                raise MemoryError(f"injected in {name}")
            if k["err"] == "LinAlgError":
                raise np.linalg.LinAlgError(f"injected in {name}")
            raise core.EXC[k["err"]](f"injected in {name}")
        return orig(*a, **kw)

    call.__name__ = getattr(orig, "__name__", name)
    call.__wrapped_kernel__ = orig
    return call


def _solver(orig):
    def solve(self, *a, **kw):
        f = core.current_frame()
        if f is None:
            return orig(self, *a, **kw)
        _yield("cvxpy.solve")
        f.kernels += 1
        k = f.kfault
        if k and k["n"] == f.kernels:
            import cvxpy as cp

            f.fired = f"solver:{k['err']}"
            _counts(f"fault:solver_{k['err']}")
            if k["err"] in ("infeasible", "unbounded", "solver_inaccurate_none"):
                # the solver terminates without a solution: status set, no values
                orig(self, *a, **kw)
                for v in self.variables():
                    v.save_value(None)
                self._status = "infeasible" if k["err"] != "unbounded" else "unbounded"
                self._value = float("inf")
                return self._value
            if k["err"] == "MemoryError":
                raise MemoryError("injected in the solver")
            raise cp.error.SolverError("injected: solver failed")
        try:
            return orig(self, *a, **kw)
        except Exception:
            # the real solver gave up on a (degenerate) problem
            f.gave_up = True
            _counts("fault:real_solver_gave_up")
            raise

    solve.__wrapped_kernel__ = orig
    return solve


def install_kernels():
    """Numerical kernels as fallible devices: replaces the public entry points
    and every name in the library bound to them."""
    import scipy.linalg
    import scipy.sparse.linalg
    import cvxpy

    wrapped = {}
    for mod, names in (
        (np.linalg, ["lstsq", "inv", "pinv", "solve", "eigh", "eig", "svd", "qr"]),
        (scipy.linalg, ["eigh", "lstsq", "inv", "pinv", "solve", "svd", "eig"]),
        (scipy.sparse.linalg, ["eigsh", "lsqr", "lsmr", "spsolve", "inv", "splu"]),
    ):
        for n in names:
            orig = getattr(mod, n)
            w = _kernel(f"{mod.__name__}.{n}", orig)
            wrapped[id(orig)] = w
            setattr(mod, n, w)
    cvxpy.Problem.solve = _solver(cvxpy.Problem.solve)
    for name, mod in list(sys.modules.items()):
        if name == "pytspl" or name.startswith("pytspl."):
            for k, v in list(vars(mod).items()):
                w = wrapped.get(id(v))
                if w is not None:
                    setattr(mod, k, w)


# ----------------------------------------------------------------------- locks
_REAL_LOCK, _REAL_RLOCK = threading.Lock, threading.RLock


class SimLock:
    """A lock created by the library: blocking is decided by the scheduler."""

    def __init__(self, reentrant=False):
        self.reentrant, self.owner, self.depth = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = core.SCHED
        me = threading.get_ident()
        while self.owner is not None:
            if self.reentrant and self.owner == me:
                break
            if not blocking:
                return False
            i = s.idents.get(me) if s is not None else None
            if i is None:
                raise core.HarnessError("deadlock outside the scheduler")
            s.block(i, self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            s = core.SCHED
            if s is not None:
                s.unblock(self)

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimSemaphore:
    """A semaphore created by the library (same rules as for locks)."""

    def __init__(self, value=1, bounded=False):
        if value < 0:
            raise ValueError("semaphore initial value must be >= 0")
        self.value, self.limit = value, value if bounded else None

    def acquire(self, blocking=True, timeout=None):
        while self.value == 0:
            if not blocking:
                return False
            s = core.SCHED
            i = s.idents.get(threading.get_ident()) if s is not None else None
            if i is None:
                raise core.HarnessError("deadlock outside the scheduler")
            s.block(i, self)
        self.value -= 1
        return True

    def release(self, n=1):
        if self.limit is not None and self.value + n > self.limit:
            raise ValueError("Semaphore released too many times")
        self.value += n
        s = core.SCHED
        if s is not None:
            s.unblock(self)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _factory(real, make_sim):
    def make(*a, **kw):
        if sys._getframe(1).f_code.co_filename.startswith(core.PKG):
            return make_sim(*a, **kw)
        return real(*a, **kw)

    return make


def install_locks():
    """Locks the library creates, while it is imported or later on, are simulated ones."""
    threading.Lock = _factory(_REAL_LOCK, lambda: SimLock(False))
    threading.RLock = _factory(_REAL_RLOCK, lambda: SimLock(True))
    threading.Semaphore = _factory(threading.Semaphore, SimSemaphore)
    threading.BoundedSemaphore = _factory(threading.BoundedSemaphore, lambda value=1: SimSemaphore(value, True))


# -------------------------------------------------------------------- chebfun
class ChebStub:
    """Stand-in for the absent chebpy package: Chebyshev interpolation of f."""

    def __init__(self, f, domain, n):
        a, b = float(domain[0]), float(domain[1])
        n = int(n)
        k = np.arange(n)
        x = np.cos(np.pi * (k + 0.5) / n)
        y = np.asarray(f((x + 1) * (b - a) / 2 + a), dtype=float)
        c = np.array([2.0 / n * np.sum(y * np.cos(j * np.pi * (k + 0.5) / n)) for j in range(n)])
        c[0] /= 2
        self.coeffs = c
        self._ab = (a, b)
        self.funs = [self]

    def __call__(self, x):
        a, b = self._ab
        return np.polynomial.chebyshev.chebval((2 * np.asarray(x) - a - b) / (b - a), self.coeffs)


def install_chebpy():
    try:
        import chebpy  # noqa: F401
        return "real"
    except ImportError:
        import types

        m = types.ModuleType("chebpy")
        m.chebfun = lambda f=None, domain=None, n=None: ChebStub(f, domain, n)
        sys.modules["chebpy"] = m
        return "stub"

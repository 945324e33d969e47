"""Process-wide and per-thread state that library calls must leave alone."""
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import time
import warnings

import numpy as np


def _flags():
    """Effective values of gpytorch's and linear_operator's settings."""
    import gpytorch.settings as GS
    import linear_operator.settings as LS

    out = {}
    for mod in (GS, LS):
        for n, c in sorted(vars(mod).items()):
            if not isinstance(c, type):
                continue
            for get in ("on", "value"):
                f = getattr(c, get, None)
                if callable(f):
                    try:
                        out[f"{mod.__name__}.{n}"] = repr(f())
                    except TypeError:
                        pass
                    except Exception as e:  # noqa: BLE001
                        out[f"{mod.__name__}.{n}"] = type(e).__name__
            for k, v in vars(c).items():
                if k.startswith("_global"):
                    out[f"{mod.__name__}.{n}.{k}"] = repr(v)
    return out


def _loggers():
    out = {"disable": logging.root.manager.disable, "root": (logging.root.level, [id(h) for h in logging.root.handlers])}
    for n, l in list(logging.root.manager.loggerDict.items()):
        if isinstance(l, logging.Logger) and (l.level or l.handlers or l.disabled):
            out[n] = (l.level, len(l.handlers), l.disabled)
    return out


def _fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            link = os.readlink(f"/proc/self/fd/{n}")
            if not link.endswith((".ttf", ".afm")):  # matplotlib's font cache
                out[n] = link
        except OSError:
            pass
    # the descriptor of this very listing is gone by now
    return out


def global_state():
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    import pandas._config.config as pc
    import torch

    s = {
        "warning filters": [repr(f) for f in warnings.filters],
        "warning hooks": (id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn), warnings.defaultaction),
        "numpy print options": repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        "torch default type": str(torch.get_default_dtype()),
        "torch default device": str(torch.tensor(0).device),
        "torch modes": (torch.is_anomaly_enabled(), torch.are_deterministic_algorithms_enabled(), torch.get_num_threads(), torch.get_float32_matmul_precision(), str(torch._tensor_str.PRINT_OPTS)),
        "plotting configuration": repr(sorted((k, repr(dict.__getitem__(mpl.rcParams, k))) for k in mpl.rcParams)),
        "plotting backend": (str(mpl.get_backend()).lower(), plt.isinteractive(), tuple(sorted(mpl.colormaps))),
        "pandas options": repr(pc._global_config),
        "working directory": os.getcwd(),
        "environment": tuple(sorted(os.environ.items())),
        "open files": _fds(),
        "logging": _loggers(),
        "gpytorch settings": _flags(),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "module path": tuple(sys.path),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), len(sys.meta_path)),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "signal handlers": tuple(repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGHUP)),
        "alarm": signal.getitimer(signal.ITIMER_REAL)[0],
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "locale": locale.setlocale(locale.LC_ALL),
        "time zone": time.tzname,
        "socket timeout": socket.getdefaulttimeout(),
        "umask": _umask(),
    }
    return s


def _umask():
    old = os.umask(0o27)
    os.umask(old)
    return old


def thread_state():
    import decimal

    import scipy.special
    import sklearn
    import torch

    return {
        "numpy error handling": (tuple(sorted(np.geterr().items())), repr(np.geterrcall()), np.getbufsize()),
        "torch gradient mode": (torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.is_autocast_enabled()),
        "decimal context": repr(decimal.getcontext()),
        "scipy error handling": tuple(sorted(scipy.special.geterr().items())),
        "scikit-learn configuration": repr(sorted(sklearn.get_config().items())),
        "trace function": (repr(sys.gettrace()), repr(sys.getprofile())),
    }


def _h(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
    return h.hexdigest()


def streams():
    import torch

    n = np.random.get_state()
    return {"random": _h(random.getstate()), "NumPy's random": _h(n[1].tobytes(), n[2:]), "torch's random": _h(torch.get_rng_state().numpy().tobytes())}


def diff(a, b):
    """The names of what differs, with the values."""
    out = []
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                ks = [q for q in sorted(set(x) | set(y), key=str) if x.get(q) != y.get(q)]
                x, y = {q: x.get(q) for q in ks}, {q: y.get(q) for q in ks}
            out.append(f"{k}: was {str(x)[:300]}, is {str(y)[:300]}")
    return out

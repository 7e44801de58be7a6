"""Recording and fault injecting stand-ins of the linear solvers of scipy.

Installed before the package is imported, so that it reaches them however it
imports them. Without a planned fault they only record and pass through.
"""

import threading

import numpy as np

ITER = ["bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr"]
DIRECT = [("scipy.sparse.linalg", "spsolve"), ("scipy.linalg", "solve"),
          ("numpy.linalg", "solve"), ("scipy.linalg", "lu_solve"),
          ("scipy.linalg", "solve_banded"), ("scipy.linalg", "cho_solve")]

CALLS = []  # [name, info or None, finite, injected, thread]
FAULTS = {}  # number of the call -> kind
STATE = dict(n=0)
LOCK = threading.Lock()


def finite(x):
    """scipy's cgs returns a function instead of an array when it breaks down."""
    return isinstance(x, np.ndarray) and bool(np.isfinite(x).all())


class Injected(RuntimeError):
    pass


def reset(faults=None):
    with LOCK:
        CALLS.clear()
        FAULTS.clear()
        FAULTS.update(faults or {})
        STATE["n"] = 0


def next_fault():
    with LOCK:
        STATE["n"] += 1
        return FAULTS.get(STATE["n"])


def bad(x, fault):
    x = np.array(x, dtype=float)
    if fault.startswith("nan"):
        if fault == "nan1":
            x.reshape(-1)[len(x.reshape(-1)) // 2] = np.nan
        else:
            x[...] = np.nan
    elif fault == "inf":
        x.reshape(-1)[0] = np.inf
    elif fault.startswith("off:"):
        x = x * (1 + float(fault[4:]))
    else:
        x = x * 0.9 + 1.0
    return x


def wrap(name, f, iterative):
    def stand_in(*args, **kwargs):
        fault = next_fault()
        if fault == "raise":
            CALLS.append([name, None, False, fault, threading.get_ident()])
            raise Injected("injected failure of " + name)
        if fault == "interrupt":
            CALLS.append([name, None, False, fault, threading.get_ident()])
            raise KeyboardInterrupt("injected interrupt of " + name)
        out = f(*args, **kwargs)
        if iterative:
            x, info = out
            if fault is not None and isinstance(x, np.ndarray):
                if fault in ("info", "info_far", "illegal"):
                    info = {"info": 7, "info_far": 10 * len(x), "illegal": -1}[fault]
                x = bad(x, fault)
            CALLS.append([name, int(info), finite(x), fault, threading.get_ident()])
            return x, info
        if fault is not None:
            out = bad(out, "nan" if "info" in fault or fault == "illegal" else fault)
        CALLS.append([name, None, finite(out), fault, threading.get_ident()])
        return out

    stand_in.__name__ = name
    stand_in.__wrapped__ = f
    return stand_in


def install():
    import importlib

    ssl = importlib.import_module("scipy.sparse.linalg")
    for n in ITER:
        setattr(ssl, n, wrap(n, getattr(ssl, n), True))
    for m, n in DIRECT:
        m = importlib.import_module(m)
        # scipy itself may call numpy's: only direct calls of the package count.
        if m.__name__ == "numpy.linalg":
            continue
        setattr(m, n, wrap(n, getattr(m, n), False))

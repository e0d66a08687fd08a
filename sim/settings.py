"""Process-wide state: a configuration of the user's, and a fingerprint of all of it."""
import hashlib
import os
import sys

from . import canon


def install(c):
    """Puts a seeded, non-default configuration of the user's in place."""
    import decimal
    import gc
    import locale
    import logging
    import random
    import signal
    import warnings

    import matplotlib as mpl
    import mpmath
    import numpy as np
    import plotly.io as pio
    random.seed(c["seed"])
    np.random.seed(c["seed"])
    np.random.normal()      # leaves the generator between two numbers of a pair
    np.seterr(**c["err"])
    np.set_printoptions(precision=c["prec"], suppress=bool(c["prec"] % 2))
    warnings.resetwarnings()
    for a, cat, msg in c["filters"]:
        warnings.filterwarnings(a, message=msg, category=getattr(__import__("builtins"), cat))
    mpl.rcParams["lines.linewidth"] = 1.5 + c["prec"] / 8
    mpl.rcParams["font.size"] = 9 + c["prec"]
    mpl.rcParams["axes.grid"] = bool(c["prec"] % 2)
    mpl.rcParams["figure.figsize"] = [5.0, 3.0 + c["prec"] / 10]
    pio.templates.default = c["template"]
    os.umask(c["umask"])
    os.environ["USER_SETTING"] = str(c["seed"])
    os.environ.pop("MPLBACKEND", None) if c["seed"] % 2 else None
    sys.setrecursionlimit(2000 + c["prec"])
    sys.setswitchinterval(0.004 + c["prec"] / 1000)
    decimal.getcontext().prec = 20 + c["prec"]
    if c["dps"]:
        mpmath.mp.dps = c["dps"]
    logging.getLogger().setLevel(30 + c["prec"])
    signal.signal(signal.SIGUSR1, _handler)
    gc.set_threshold(600 + c["prec"], 11, 9)
    try:
        locale.setlocale(locale.LC_ALL, "C.UTF-8" if c["seed"] % 2 else "C")
    except locale.Error:
        pass
    sys.path.append("/nonexistent-user-path")


def _handler(*a):
    pass


def gen(rng):
    return {"seed": rng.randrange(10 ** 6),
            "err": {k: rng.choice(["ignore", "warn", "warn", "raise"] if rng.random() < 0.4 else ["ignore", "warn"])
                    for k in ("divide", "over", "under", "invalid")},
            "prec": rng.randrange(3, 12), "umask": rng.choice([0o022, 0o077, 0o027]), "dps": rng.choice([0, 0, 19]),
            "template": rng.choice(["plotly", "plotly_white", "none"]),
            "filters": [[rng.choice(["ignore", "always", "once", "error", "ignore"]),
                         rng.choice(["RuntimeWarning", "UserWarning", "Warning", "DeprecationWarning"]),
                         rng.choice(["", "", "divide"])] for _ in range(rng.randrange(3))]}


def _sha(b):
    return hashlib.sha1(b).hexdigest()[:16]


def _rc():
    import matplotlib as mpl
    return tuple(sorted((k, repr(v)) for k, v in dict.items(mpl.rcParams) if k != "backend"))


_plain = (int, float, complex, str, bytes, bool, type(None))
_watch = None


def _constant(v):
    import sympy
    from astropy import units as u
    if isinstance(v, (u.Quantity, sympy.Basic)) or type(v).__name__ == "Body" or isinstance(v, _plain):
        return True
    return isinstance(v, (tuple, list)) and bool(v) and all(_constant(x) for x in v)


def watch():
    """The package's public constants, and mutable defaults of its public functions (found once)."""
    global _watch
    import inspect

    import numpy as np
    _watch = []
    seen = set()
    for name in sorted(m for m in sys.modules if m.split(".")[0] == "einsteinpy"):
        mod = sys.modules[name]
        for n in sorted(vars(mod)):
            v = vars(mod)[n]
            if n.startswith("_"):
                continue
            if _constant(v):
                _watch.append(("%s.%s" % (name, n), mod, n))
            elif inspect.isclass(v) and (v.__module__ or "").startswith("einsteinpy") and id(v) not in seen:
                seen.add(id(v))
                for k in sorted(vars(v)):
                    x = vars(v)[k]
                    if not k.startswith("_") and _constant(x):
                        _watch.append(("%s.%s" % (v.__qualname__, k), v, k))
                    f = getattr(x, "__func__", x)
                    _defaults("%s.%s" % (v.__qualname__, k), f, np)
            elif inspect.isfunction(v) and (v.__module__ or "").startswith("einsteinpy") and id(v) not in seen:
                seen.add(id(v))
                _defaults("%s.%s" % (name, n), v, np)


def _defaults(name, f, np):
    import inspect
    while hasattr(f, "__wrapped__"):
        f = f.__wrapped__
    if not inspect.isfunction(f):
        return
    try:
        ps = inspect.signature(f).parameters.values()
    except (TypeError, ValueError):
        return
    for p in ps:
        d = p.default
        if d is not inspect.Parameter.empty and not p.name.startswith("_") and isinstance(d, (list, dict, np.ndarray)):
            _watch.append(("default %s of %s" % (p.name, name), None, d))


def package():
    out = {}
    for label, owner, n in _watch:
        v = n if owner is None else getattr(owner, n, "gone")
        out[label] = canon.canon(v)
    return out


def warm():
    """Loads what reading the settings loads lazily."""
    import plotly.io as pio
    for t in ("plotly", "plotly_white", "none"):
        pio.templates[t]
    fingerprint()


def thread_part():
    """What belongs to the calling thread."""
    import decimal

    import numpy as np
    return {"numpy error handling": np.geterr(), "numpy error callback": id(np.geterrcall()),
            "decimal context": str(decimal.getcontext()), "trace": (id(sys.gettrace()), id(sys.getprofile())),
            "numpy print options": repr(np.get_printoptions())}


def glance():
    """A quick look at what code may change for a while and put back."""
    import locale
    import random
    import signal
    import warnings

    import decimal
    import matplotlib as mpl
    import mpmath
    import numpy as np
    from sympy.core.parameters import global_parameters
    rc = dict.items(mpl.rcParams)
    st = np.random.get_state(legacy=False)
    return (np.geterr(), np.geterrcall(), tuple(np.get_printoptions().items()), list(warnings.filters), warnings.showwarning,
            os.getcwd(), dict(os.environ), mpmath.mp.prec, global_parameters.evaluate, sys.getrecursionlimit(),
            decimal.getcontext().prec, signal.getsignal(signal.SIGINT), locale.setlocale(locale.LC_ALL), random.getstate(),
            st["state"]["pos"], st["state"]["key"].tobytes(), st["has_gauss"], sys.stdout, sys.stderr,
            [(k, repr(v)) for k, v in rc if k != "backend"], np.getbufsize())


def fingerprint():
    import builtins
    import decimal
    import gc
    import locale
    import logging
    import random
    import signal
    import socket
    import tempfile
    import threading
    import warnings

    import astropy.units as u
    import matplotlib as mpl
    import mpmath
    import numpy as np
    import plotly.io as pio
    import sympy
    from matplotlib import pyplot as plt
    from sympy.core.parameters import global_parameters
    um = os.umask(0)
    os.umask(um)
    st = np.random.get_state(legacy=False)
    out = {
        "random": _sha(repr(random.getstate()).encode()),
        "numpy.random": _sha(repr((st["bit_generator"], st["has_gauss"], st["gauss"], st["state"]["pos"])).encode() +
                             st["state"]["key"].tobytes()),
        "warning filters": tuple((f[0], getattr(f[1], "pattern", f[1]), f[2].__name__, getattr(f[3], "pattern", f[3]), f[4])
                                 for f in warnings.filters),
        "warnings.showwarning": (id(warnings.showwarning), id(warnings._showwarnmsg_impl), id(warnings.warn),
                                 id(warnings.formatwarning)),
        "numpy buffer size": np.getbufsize(),
        "matplotlib settings": _rc(),
        "matplotlib back end": (mpl.get_backend(), mpl.is_interactive()),
        "plotly settings": (pio.templates.default, pio.renderers.default),
        "working directory": os.getcwd(),
        "environment": tuple(sorted(os.environ.items())),
        "umask": um,
        "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": tuple(id(signal.getsignal(s)) for s in range(1, 32)),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "stack size": threading.stack_size(),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook)),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "module search path": tuple(sys.path),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "mpmath precision": (mpmath.mp.prec, mpmath.mp.pretty, mpmath.iv.prec),
        "sympy settings": (global_parameters.evaluate, global_parameters.distribute, global_parameters.exp_is_pow,
                           id(sympy.Basic.__str__), id(sympy.Basic.__repr__)),
        "astropy units": tuple(len(x) for x in (u.get_current_unit_registry().all_units,
                                                u.get_current_unit_registry().equivalencies,
                                                u.get_current_unit_registry().aliases)),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable,
                    tuple((n, logging.getLogger(n).level, len(logging.getLogger(n).handlers), logging.getLogger(n).disabled)
                          for n in ("matplotlib", "astropy", "numba", "einsteinpy"))),
        "temporary directory": tempfile.tempdir,
        "socket timeout": socket.getdefaulttimeout(),
        "decimal traps": str(decimal.DefaultContext),
        "builtins": len(vars(builtins)),
    }
    del plt
    out.update(thread_part())
    out.update(package())
    return out


def changed(a, b):
    return [(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]

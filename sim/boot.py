"""Brings a simulator process into a known state.

Everything the runs depend on is pinned here: hash seed, BLAS threads,
plotting back end, bytecode caches (einsteinpy is always compiled from the
current /repo tree), and the order of imports.  All runs are executed in forks
of a process prepared by ``prepare()``.
"""
import os
import sys

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PIN = {
    "PYTHONHASHSEED": "0",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "LANG": "C.UTF-8",
    "LC_ALL": "C.UTF-8",
    "TZ": "UTC",
    "SOURCE_DATE_EPOCH": "0",
    "PYTHONNOUSERSITE": "1",
    "NUMBA_DISABLE_JIT": "0",
}


def pinned_env(hashseed="0", extra=None):
    env = {k: v for k, v in os.environ.items()
           if k in ("HOME", "PATH", "TMPDIR", "USER", "VERIF_SEED", "VERIF_TIER",
                    "VERIF_REPO_SRC", "VERIF_WORKERS", "VERIF_SCALE", "MPLCONFIGDIR")}
    env.update(PIN)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["VERIF_BOOTED"] = "1"
    env.update(extra or {})
    return env


def reexec():
    """Re-executes the current script in the pinned environment, once."""
    if os.environ.get("VERIF_BOOTED") == "1" and os.path.realpath(sys.executable) == os.path.realpath(PY):
        return
    env = pinned_env()
    if "MPLCONFIGDIR" not in env:
        # matplotlib's font cache: keep it inside /verif, outside git
        d = os.path.join(VERIF, ".cache", "mpl")
        os.makedirs(d, exist_ok=True)
        env["MPLCONFIGDIR"] = d
    try:  # the same addresses, and so the same object ids, in every process
        import ctypes
        ctypes.CDLL(None, use_errno=True).personality(0x0040000)
    except Exception:
        pass
    os.execve(PY, [PY, "-s"] + sys.argv, env)


_prepared = False
saved = []


def saved_plot(figure_or_data, **kw):
    """Stands for plotly.offline.plot, which writes a page and opens a browser (and which, in the installed
    version, no longer takes the argument show_link that einsteinpy passes)."""
    saved.append((figure_or_data, kw))
    return "temp-plot.html"



def prepare(plotting=True, numba=True, package=True):
    """Imports third-party packages, then einsteinpy from the current tree."""
    global _prepared
    if _prepared:
        return
    _prepared = True
    import gc
    import random
    import warnings

    random.seed(12345)
    if numba is False:
        sys.modules["numba"] = None  # the import fails, as if not installed
    import numpy  # noqa
    import scipy.integrate  # noqa
    import scipy.interpolate  # noqa
    import scipy.optimize  # noqa
    import sympy  # noqa
    import sympy.printing.numpy  # noqa
    import astropy.constants  # noqa
    import astropy.units  # noqa

    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.animation  # noqa
    import matplotlib.pyplot  # noqa
    import mpl_toolkits.mplot3d  # noqa
    import PIL.PngImagePlugin  # noqa
    if plotting:
        import plotly.graph_objects  # noqa
        import plotly.offline  # noqa
        plotly.offline.plot = saved_plot
    if numba:
        import numba  # noqa

    # never read stale bytecode of the code under test
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)

    warm_third_party()  # first, so that sympy's caches still hold what importing einsteinpy puts there

    from . import locks
    locks.install()

    random.seed(12345)
    if not package:
        gc.collect()
        gc.freeze()
        return
    import importlib
    import pathlib

    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        import einsteinpy
        root = pathlib.Path(REPO_SRC)
        if not os.path.realpath(einsteinpy.__file__).startswith(os.path.realpath(REPO_SRC) + "/"):
            raise RuntimeError("einsteinpy imported from " + einsteinpy.__file__)
        for f in sorted((root / "einsteinpy").rglob("*.py")):
            parts = f.relative_to(root).with_suffix("").parts
            if parts[-1] == "__init__":
                parts = parts[:-1]
            if not plotting and "plotting" in parts:
                continue
            importlib.import_module(".".join(parts))
    prepare.import_warnings = [(w.category.__name__, str(w.message), w.filename) for w in caught]
    gc.collect()
    gc.freeze()


def warm_third_party():
    """Makes sympy, numpy, astropy and matplotlib load what they load lazily."""
    import io
    import pickle

    import numpy as np
    import sympy as sp
    from astropy import units as u

    a, b, c = sp.symbols("wa wb wc")
    f = sp.Function("wf")
    e = sp.sin(a) ** 2 + sp.cos(a) ** 2 + (b ** 2 - c ** 2) / (b - c) + sp.sqrt(a ** 2 + 1) / a
    sp.simplify(e)
    sp.simplify(sp.Matrix([[1 + a, b], [b, sp.exp(a) * f(b)]]).inv())
    sp.simplify(sp.Array([[sp.sinh(a) * sp.cosh(a), b ** 2], [a / b, sp.diff(f(a), a)]]))
    t = sp.tensorcontraction(sp.tensorproduct(sp.Array([[a, 1], [b, c]]), sp.Array([a, b])), (1, 2))
    sp.permutedims(sp.tensorproduct(t, t), (1, 0))
    sp.lambdify((a, b), sp.Array([[a, b], [sp.sin(a), 1]]), modules="numpy")(1.0, 2.0)
    sp.srepr(e), str(e), sp.derive_by_array([a * b], [a, b])
    pickle.loads(pickle.dumps([e, 3 * u.kg]))
    (3.0 * u.km).to(u.m), (1 * u.deg).si, str(3 * u.m / u.s)
    np.linalg.inv(np.eye(4))
    import scipy.integrate
    scipy.integrate.fixed_quad(np.sin, 0, 1)
    from matplotlib import pyplot as plt
    fig, ax = plt.subplots()
    ax.plot([1, 2], [2, 1], label="x$^2$")
    ax.legend()
    ax = fig.add_subplot(projection="3d")
    ax.plot([1, 2], [2, 1], [0, 1])
    fig.savefig(io.BytesIO())
    fig.savefig(io.BytesIO(), format="svg")
    plt.close(fig)


def warm_numba():
    """Compiles the jitted leaf functions on floats, so no run pays for it.

    They are called directly, without going through any Python wrapper."""
    import numpy as np
    import einsteinpy.coordinates.utils as cu

    args = [0.0, 1.5, 0.7, 0.4, 0.3, 0.1, 0.2]
    fns = [("cartesian_to_spherical", args), ("cartesian_to_spherical_novel", args[:4]),
           ("cartesian_to_bl", args[:4] + [0.1] + args[4:]), ("cartesian_to_bl_novel", args[:4] + [0.1]),
           ("spherical_to_cartesian", args), ("spherical_to_cartesian_novel", args[:4]),
           ("bl_to_cartesian", args[:4] + [0.1] + args[4:]), ("bl_to_cartesian_novel", args[:4] + [0.1]),
           ("v0", [np.diag([1.0, -1.0, -1.0, -1.0]), 0.1, 0.1, 0.1])]
    for name, a in fns:
        f = getattr(cu, name, None)
        if f is not None and hasattr(f, "py_func"):
            try:
                f(*a)
            except Exception:  # a broken function shows in the checks, not here
                pass
    try:
        from einsteinpy.plotting import fractal as fr
        if hasattr(fr._julia, "py_func"):
            fr._julia(np.zeros((2, 2)), 0.1 + 0.1j, 20, 0, 0, (2, 2), (-1.6, 1.6), (-1.6, 1.6), 3)
    except Exception:
        pass

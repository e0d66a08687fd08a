"""Fault injection at calls made by the code under test and in the user's functions.

A fault is raised just before the n-th call made from einsteinpy code, which is
where a real interrupt, failed allocation or failed numeric call surfaces.
Calls in clean-up blocks and container updates are never made to fail."""
import contextlib

from . import monitor, user

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "FloatingPointError": FloatingPointError,
       "UserError": user.UserError, "SystemExit": SystemExit, "RuntimeError": RuntimeError, "ValueError": ValueError,
       "LinAlgError": None, "OverflowError": OverflowError, "RecursionError": RecursionError,
       "ZeroDivisionError": ZeroDivisionError, "ArithmeticError": ArithmeticError, "TypeError": TypeError, "KeyError": KeyError,
       "IndexError": IndexError, "AttributeError": AttributeError, "AssertionError": AssertionError, "OSError": OSError,
       "NotImplementedError": NotImplementedError, "RuntimeWarning": RuntimeWarning, "ImportError": ImportError,
       "Exception": Exception}
# what a user's function may raise
USER = sorted(set(EXC) - {"UserError", "SystemExit"})


def user_exc(rng):
    return "UserError" if rng.random() < 0.4 else rng.choice(USER)


def exc_class(name):
    if name == "LinAlgError":
        import numpy as np
        return np.linalg.LinAlgError
    return EXC[name]


class Injected:
    """Marks exceptions raised by the simulator."""


def make(name):
    e = exc_class(name)("injected by the simulator")
    e.__verif__ = True
    return e


def is_injected(e):
    return getattr(e, "__verif__", False)


_site = {}


def eligible(code, offset, callee):
    name = getattr(callee, "__name__", "")
    if name in monitor._MUTATORS and getattr(callee, "__self__", None) is not None:
        return False
    if name in ("__exit__", "__enter__", "release", "acquire"):
        return False
    k = (code, offset)
    ok = _site.get(k)
    if ok is None:
        line = monitor.line_of(code, offset)
        ok = _site[k] = line is None or line not in monitor.cleanup_lines(code.co_filename)
    return ok


class Injector:
    """Counts eligible calls; raises once at call number n (None: only counts).

    only(callee): restricts the calls counted (e.g. numpy's)."""

    def __init__(self, n=None, exc="KeyboardInterrupt", only=None, selected=None, probe=None):
        self.n, self.exc, self.only = n, exc, only
        self.count = 0
        self.fired = None
        self.selected = selected
        self.raised = None
        self.probe, self.windows = probe, []    # calls made while probe() differs from what it was at first
        self.probed = probe and probe()

    def _cb(self, code, offset, callee, arg0):
        if self.only is not None and not self.only(callee):
            return
        if not eligible(code, offset, callee):
            return
        if self.probe is not None and self.count < 4000 and len(self.windows) < 400 and self.probe() != self.probed:
            self.windows.append(self.count)
        self.count += 1
        if self.n is not None and self.fired is None and self.count > self.n:
            self.fired = (code.co_qualname, monitor.line_of(code, offset), getattr(callee, "__name__", "?"))
            self.raised = make(self.exc)
            raise self.raised

    def __enter__(self):
        monitor.start_calls(self._cb, self.selected)
        return self

    def __exit__(self, *a):
        monitor.stop()


@contextlib.contextmanager
def user_fault(k, exc="UserError", names=None, box=None, probe=None):
    """The k-th evaluation (from 0) of a user's function raises."""
    st = {"n": 0, "fired": None, "raised": None} if box is None else box
    st.update({"n": 0, "fired": None, "raised": None, "windows": []})
    probed = probe and probe()

    def hook(name):
        if names is not None and name not in names:
            return
        if probe is not None and len(st["windows"]) < 400 and probe() != probed:
            st["windows"].append(st["n"])
        st["n"] += 1
        if k is not None and st["n"] > k and st["fired"] is None:
            st["fired"] = (name, st["n"])
            st["raised"] = make(exc)
            raise st["raised"]

    old = user.hook
    user.hook = hook
    try:
        yield st
    finally:
        user.hook = old


_np_type = {}


def numpy_callee(callee):
    t = type(callee)
    if t.__name__ in ("function", "type", "method", "builtin_function_or_method"):
        return _numpy_callee(callee)
    r = _np_type.get(t)
    if r is None:
        r = _np_type[t] = _numpy_callee(callee)
    return r


def _numpy_callee(callee):
    mod = getattr(callee, "__module__", None) or ""
    t = type(callee)
    if mod.split(".")[0] == "numpy" or t.__module__.split(".")[0] == "numpy":
        return True
    s = getattr(callee, "__self__", None)
    return s is not None and type(s).__module__.split(".")[0] == "numpy"

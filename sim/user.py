"""The simulated user's own functions: metrics, perturbations, right-hand sides.

``hook`` is called at the start of every evaluation; a simulation sets it to
count evaluations and to make chosen ones fail or return wrong numbers.
``filt`` may replace the returned value."""
import numpy as np

hook = None
filt = None


class UserError(Exception):
    """Raised by a user's function when the simulator says so."""


def _in(name):
    if hook is not None:
        hook(name)


def _out(name, v):
    return v if filt is None else filt(name, v)


def um_flat(x, *prm):
    """Flat space in spherical coordinates (contravariant)."""
    _in("um_flat")
    r, th = x[1], x[2]
    s = np.sin(th)
    g = np.zeros(shape=(4, 4), dtype=object)
    g[0, 0] = -1.0
    g[1, 1] = 1.0
    g[2, 2] = 1 / (r * r)
    g[3, 3] = 1 / (r * r * s * s)
    return _out("um_flat", g if isinstance(g[2, 2], _dual()) or isinstance(g[3, 3], _dual()) else g.astype(float))


def um_sch(x, *prm):
    """Schwarzschild with an extra parameter (contravariant)."""
    _in("um_sch")
    a = prm[0]
    r, th = x[1], x[2]
    f = 1 - (2 / r) + (a / (r * r))
    s = np.sin(th)
    g = np.zeros(shape=(4, 4), dtype=object)
    g[0, 0] = -1 / f
    g[1, 1] = f
    g[2, 2] = 1 / (r * r)
    g[3, 3] = 1 / (r * r * s * s)
    return _out("um_sch", g if any(isinstance(v, _dual()) for v in g.ravel()) else g.astype(float))


def um_off(x, *prm):
    """A non-diagonal metric (contravariant)."""
    _in("um_off")
    a = prm[0]
    r, th = x[1], x[2]
    g = np.zeros(shape=(4, 4), dtype=object)
    g[0, 0] = -1 - 2 / r
    g[1, 1] = 1 - 2 / r
    g[0, 1] = g[1, 0] = a * 0.1 / r
    g[2, 2] = 1 / (r * r)
    g[3, 3] = 1 / (r * r)
    return _out("um_off", g if any(isinstance(v, _dual()) for v in g.ravel()) else g.astype(float))


def um_const(x, *prm):
    """Minkowski in Cartesian-like coordinates: no derivative anywhere."""
    _in("um_const")
    return _out("um_const", np.diag([-1.0, 1.0, 1.0, 1.0]))


def _dual():
    from einsteinpy.utils.dual import DualNumber
    return DualNumber


METRICS = {"um_flat": um_flat, "um_sch": um_sch, "um_off": um_off, "um_const": um_const}


def pert_small(x_vec):
    _in("pert_small")
    r, th = x_vec[1], x_vec[2]
    p = np.zeros((4, 4))
    p[0, 0] = 1e-6 * np.cos(th)
    p[1, 1] = -2e-6 / (1 + abs(r))
    p[0, 3] = p[3, 0] = 1e-7
    return _out("pert_small", p)


def cov_user(x_vec):
    _in("cov_user")
    r, th = x_vec[1], x_vec[2]
    return _out("cov_user", np.diag([1.0 - 1e3 / (abs(r) + 2e3), -1.0, -(r ** 2), -((r * np.sin(th)) ** 2)]))


PERT = {"pert_small": pert_small}


# right-hand sides for the ODE steppers
def rhs_decay(t, y):
    _in("rhs_decay")
    return _out("rhs_decay", -0.7 * y)


def rhs_osc(t, y):
    _in("rhs_osc")
    y = np.asarray(y)
    return _out("rhs_osc", np.array([y[1], -y[0] + 0.1 * np.sin(t)]))


def rhs_poly(t, y):
    _in("rhs_poly")
    return _out("rhs_poly", 1.0 + t - 0.2 * y)


def rhs_logistic(t, y):
    _in("rhs_logistic")
    return _out("rhs_logistic", y * (1.0 - y / 3.0))


def rhs_stiffish(t, y):
    _in("rhs_stiffish")
    y = np.asarray(y)
    return _out("rhs_stiffish", np.array([-6.0 * y[0] + y[1], np.cos(t) - y[1], 0.1 * y[0] * y[2]]))


def rhs_inplace(t, y):
    """Returns a buffer of its own that it reuses, as some user code does."""
    _in("rhs_inplace")
    return _out("rhs_inplace", np.array(-0.3 * np.asarray(y) + t))


RHS = {"rhs_decay": rhs_decay, "rhs_osc": rhs_osc, "rhs_poly": rhs_poly, "rhs_logistic": rhs_logistic,
       "rhs_stiffish": rhs_stiffish, "rhs_inplace": rhs_inplace}
ALL = list(METRICS.values()) + list(PERT.values()) + [cov_user] + list(RHS.values())

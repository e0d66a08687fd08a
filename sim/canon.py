"""Canonical, picklable, comparable form of anything the public API returns.

Only public behaviour is looked at: public attributes, return values and
exception types.  ``same`` decides equality; symbolic expressions that differ in
form are compared mathematically.
"""
import math

PUBLIC = {  # public attributes of repository classes (data, not caches)
    "Tensor": ("name", "config", "order"),
    "_coord": ("t", "x", "y", "z", "r", "theta", "phi", "v_x", "v_y", "v_z", "v_r", "v_th", "v_p", "system"),
    "BaseMetric": ("name", "M", "a", "Q", "q", "sch_rad"),
    "Body": ("name", "mass", "q", "R", "coords", "pos_vec", "vel_vec"),
    "Geodesic": ("metric_name", "metric_params", "position", "momentum", "time_like", "kind", "coords", "trajectory"),
    "GeodesicIntegrator": ("metric_params", "q0", "p0", "time_like", "steps", "delta", "omega", "order", "rtol",
                           "atol", "suppress_warnings", "step_num", "res_list", "results"),
    "Shadow": ("mass", "limit", "n_rays", "fov", "horizon", "b_crit", "b", "z", "bfin", "k0", "k1", "intensity", "fb1",
               "fb2"),
    "SchwarzschildEmbedding": ("input_units", "units_list", "M", "r_init"),
    "DualNumber": ("val", "deriv"),
    "RK4naive": ("t", "y", "t_bound", "step_size", "direction"),
    "RK45": ("t", "y", "t_bound", "status", "direction", "h_abs", "step_size"),
}


def fl(x):
    x = float(x)
    if math.isnan(x):
        return "nan"
    return x.hex()


def expr(e):
    import sympy
    return sympy.srepr(e)


def canon(o, depth=0):
    import numpy as np
    import sympy
    from astropy import units as u
    if o is None or isinstance(o, (bool, str, bytes)):
        return o
    if isinstance(o, np.generic) and not isinstance(o, (np.void,)):
        if isinstance(o, np.complexfloating):
            return ("np", o.dtype.str, fl(o.real), fl(o.imag))
        if isinstance(o, np.floating):
            return ("np", o.dtype.str, fl(o))
        return ("np", o.dtype.str, repr(o.item()))
    if isinstance(o, int):
        return ("i", int(o))
    if isinstance(o, float):
        return ("f", fl(o))
    if isinstance(o, complex):
        return ("c", fl(o.real), fl(o.imag))
    if isinstance(o, u.Quantity):
        return ("Q", canon(np.asarray(o.value), depth + 1), str(o.unit))
    if isinstance(o, u.UnitBase):
        return ("U", str(o))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("ndo", o.shape, tuple(canon(x, depth + 1) for x in o.ravel()))
        a = np.ascontiguousarray(o)
        if a.dtype.kind == "f":
            a = np.where(np.isnan(a), np.array(np.nan, a.dtype), a)
        return ("nd", o.dtype.str, o.shape, a.tobytes().hex())
    name = type(o).__name__
    if isinstance(o, sympy.NDimArray):
        t = ("arr", name, tuple(o.shape), tuple(("sy", expr(x)) for x in _flat(o)))
        if name == "TransformationMatrix":
            t += tuple(canon(getattr(o, k), depth + 1) for k in ("old_coords", "new_coords", "old2new", "new2old"))
        return t
    if isinstance(o, sympy.MatrixBase):
        return ("mat", name, o.shape, tuple(("sy", expr(x)) for x in o))
    if isinstance(o, sympy.Basic):
        d = getattr(o, "descriptive_name", None)
        return ("sy", expr(o)) if d is None else ("const", expr(o), d)
    if isinstance(o, type) and issubclass(o, sympy.Function):
        return ("fn", str(o))
    if isinstance(o, (list, tuple)):
        return (name if name in ("list", "tuple") else "tuple", tuple(canon(x, depth + 1) for x in o))
    if isinstance(o, dict):
        return ("dict", tuple((str(k), canon(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (set, frozenset)):
        return ("set", tuple(sorted(repr(canon(x, depth + 1)) for x in o)))
    if isinstance(o, BaseException):
        return ("exc", name)
    mod = (type(o).__module__ or "").split(".")[0]
    if mod == "einsteinpy":
        return canon_obj(o, depth)
    if callable(o):
        return ("callable", getattr(o, "__name__", name))
    return ("obj", name)


def _flat(arr):
    if arr.rank() == 0:
        return [arr[()]]
    out = []

    def walk(x):
        for y in x:
            if isinstance(y, list):
                walk(y)
            else:
                out.append(y)
    walk(arr.tolist())
    return out


def canon_obj(o, depth=0):
    name = type(o).__name__
    from einsteinpy.symbolic.tensor import BaseRelativityTensor, Tensor
    if isinstance(o, Tensor):
        t = [("class", name)]
        t += [(k, canon(getattr(o, k))) for k in PUBLIC["Tensor"]]
        t.append(("arr", canon(o.tensor())))
        if isinstance(o, BaseRelativityTensor):
            t.append(("syms", canon(o.symbols())))
            t.append(("dims", o.dims))
            t.append(("variables", canon(list(o.variables))))
            t.append(("functions", canon(list(o.functions))))
            pm = o.parent_metric
            if pm is o:
                t.append(("parent", "self"))
            elif pm is None:
                t.append(("parent", None))
            else:
                t.append(("parent", (type(pm).__name__, pm.config, pm.name, canon(pm.tensor()))))
        return ("T", tuple(t))
    for cls in type(o).__mro__:
        names = PUBLIC.get(cls.__name__)
        if names:
            break
    else:
        names = PUBLIC["_coord"] if hasattr(o, "system") else ()
    out = []
    for k in names:
        try:
            v = getattr(o, k)
        except AttributeError:
            continue
        if k == "coords" and name == "Geodesic":
            out.append((k, v))
        else:
            out.append((k, canon(v, depth + 1)))
    if name == "Body":
        p = o.parent
        out.append(("parent", None if p is None else p.name))
    if hasattr(o, "metric_covariant"):
        out.append(("system", getattr(o.coords, "system", None)))
    return ("O", name, tuple(out))


# ---- equality --------------------------------------------------------------------

def same(a, b):
    """True if two canonical forms are equal, symbolically where they differ in form."""
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == 2 and len(b) == 2 and a[0] == "sy" and b[0] == "sy":
            return math_equal(a[1], b[1])
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def close(a, b, rtol=1e-9, atol=0.0):
    """Equality of numbers to rounding; everything else exactly."""
    if a == b:
        return True
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return False
    if a and b and a[0] == b[0] == "nd" and a[1] == b[1] and a[2] == b[2]:
        import numpy as np
        x = np.frombuffer(bytes.fromhex(a[3]), dtype=a[1])
        y = np.frombuffer(bytes.fromhex(b[3]), dtype=b[1])
        return bool(np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True))
    if len(a) == 2 and len(b) == 2 and a[0] == b[0] == "f" or len(a) == 3 and a[0] == b[0] == "np" and a[1] == b[1]:
        x, y = (float.fromhex(v) if v not in ("nan",) and v.lstrip("-").startswith(("0x", "inf")) else float(v)
                for v in (a[-1], b[-1]))
        return x == y or (x != x and y != y) or abs(x - y) <= atol + rtol * max(abs(x), abs(y))
    return len(a) == len(b) and all(close(x, y, rtol, atol) for x, y in zip(a, b))


_eq_cache = {}


def math_equal(sa, sb):
    k = (sa, sb)
    if k not in _eq_cache:
        _eq_cache[k] = _math_equal(sa, sb)
    return _eq_cache[k]


def _parse(s):
    import sympy
    ns = dict(vars(sympy))
    from einsteinpy.symbolic.constants import SymbolicConstant
    ns["SymbolicConstant"] = SymbolicConstant
    return eval(s, ns)


def _math_equal(sa, sb):
    import random

    import sympy
    from sympy.core.function import AppliedUndef
    try:
        a, b = _parse(sa), _parse(sb)
    except Exception:
        return False
    both = sorted(a.free_symbols | b.free_symbols, key=lambda s: (s.name, sympy.srepr(s)))
    if a.free_symbols != b.free_symbols and len({s.name for s in both}) < len(both):
        return False    # one name must not stand for two different symbols
    fa, fb = ({(f.func.__name__, f.args) for f in e.atoms(AppliedUndef)} for e in (a, b))
    rng = random.Random(7)
    d = a - b
    if d == 0:
        return True
    hits = 0
    for _ in range(12):
        vals = {s: sympy.Rational(rng.randrange(11, 60), 37) for s in both}
        e = d
        for f in fa | fb:
            fc = sympy.Function(f[0])
            h = sum(map(ord, f[0]))
            e = e.replace(fc, lambda *x, h=h: sympy.sin(sum((i + 1) * v for i, v in enumerate(x)) + sympy.Rational(h, 50)) + 2)
        try:
            v = complex(sympy.N(e.doit().subs(vals), 30))
            m = abs(complex(sympy.N(a.subs(vals), 15))) if not (fa | fb) else 1.0
        except Exception:
            continue
        if v != v:
            continue
        if abs(v) > 1e-12 * max(1.0, m):
            return False
        hits += 1
    return hits >= 3


def diff(a, b, path=""):
    """Short description of the first difference."""
    if type(a) is not type(b) or not isinstance(a, tuple) or len(a) != len(b):
        return "%s: %s != %s" % (path or "value", short(a), short(b))
    if len(a) == 2 and a[0] == "sy":
        return "%s: %s != %s" % (path, short(a), short(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if not same(x, y):
            key = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) and len(x) == 2 else i
            return diff(x, y, "%s/%s" % (path, key))
    return "equal"


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."

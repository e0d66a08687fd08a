"""Objects a simulated user owns, and every public operation on them.

An object is described by a small JSON spec, so that a scenario can be replayed
and an operation can be repeated on fresh objects in a pristine process.
``{"ref": i}`` in a spec or in an operation's arguments names another object.
"""
import json

from . import user
from .canon import canon

BUILD = {}   # kind -> function(env, spec) -> object
OPS = {}     # (kind, op) -> Op


class Op:
    def __init__(self, kind, name, fn, gen, mut, tags):
        self.kind, self.name, self.fn, self.gen, self.mut, self.tags = kind, name, fn, gen, mut, tags


def build(kind):
    def deco(f):
        BUILD[kind] = f
        return f
    return deco


def op(kinds, gen=None, mut=False, tags=(), name=None):
    def deco(f):
        for k in kinds.split():
            n = name or f.__name__.rstrip("_")
            n = n[3:] if n.startswith("op_") else n
            OPS[(k, n)] = Op(k, n, f, gen or (lambda rng, w, i: {}), mut, frozenset(tags))
        return f
    return deco


class Env:
    """The objects of one run, and the arguments handed to the library."""

    def __init__(self, specs):
        self.specs = specs
        self.objs = []
        self.kept = []      # (value, canonical form when handed over)
        self.track = False
        self.shared = {}
        for s in specs:
            self.objs.append(BUILD[s["k"]](self, s))

    def ref(self, r):
        return None if r is None else self.objs[r["ref"]]

    def keep(self, v):
        if self.track:
            self.kept.append((v, canon(v)))
        return v


def call(env, o):
    """Runs operation o = {"o": index, "op": name, "a": {...}}."""
    k = env.specs[o["o"]]["k"]
    return OPS[(k, o["op"])].fn(env, env.objs[o["o"]], o.get("a", {}))


def refs_of(x):
    if isinstance(x, dict):
        if set(x) == {"ref"}:
            return [x["ref"]]
        return [r for v in x.values() for r in refs_of(v)]
    if isinstance(x, list):
        return [r for v in x for r in refs_of(v)]
    return []


def _renumber(x, m):
    if isinstance(x, dict):
        if set(x) == {"ref"}:
            return {"ref": m[x["ref"]]}
        return {k: _renumber(v, m) for k, v in x.items()}
    if isinstance(x, list):
        return [_renumber(v, m) for v in x]
    return x


def _ids_of(specs, o):
    need, todo = set(), [o["o"]] + refs_of(o.get("a", {}))
    while todo:
        i = todo.pop()
        if i not in need:
            need.add(i)
            todo += refs_of(specs[i])
    return sorted(need)


def closure(specs, o):
    """The sub-world an operation needs, renumbered, so equal questions have equal keys."""
    idx = _ids_of(specs, o)
    m = {i: j for j, i in enumerate(idx)}
    return [_renumber(specs[i], m) for i in idx], {"o": m[o["o"]], "op": o["op"], "a": _renumber(o.get("a", {}), m)}


def key(specs, o):
    s, q = closure(specs, o)
    return json.dumps([s, q], sort_keys=True)


def gen_op(rng, specs, i, want=None, assign=False):
    """A random operation on object i, or None; assignments to its attributes only where asked for."""
    k = specs[i]["k"]
    cands = sorted(n for (kk, n), q in OPS.items() if kk == k and (want is None or want(q))
                   and (assign or "assign" not in q.tags))
    if not cands:
        return None
    for _ in range(8):
        n = rng.choice(cands)
        a = OPS[(k, n)].gen(rng, specs, i)
        if a is not None:
            return {"o": i, "op": n, "a": a}
    return None


def others(specs, *kinds):
    return [j for j, s in enumerate(specs) if s["k"] in kinds]


# =========================================================== symbolic objects

def _custom_metrics():
    import sympy
    from sympy import Function, cos, sin, symbols
    r, th, ph, x, y, z, t, a, b = symbols("r theta phi x y z t a b")
    f, h, s = Function("f"), Function("h"), Function("s")
    rp = symbols("r", positive=True)
    return {
        "polar2": (lambda: ([[1, 0], [0, r ** 2]], (r, th), "ll", "Polar")),
        "pos2": (lambda: ([[1, 0], [0, rp ** 2]], (rp, th), "ll", "PolarPositive")),
        "sphere2": (lambda: ([[a ** 2, 0], [0, a ** 2 * sin(th) ** 2]], (th, ph), "ll", "Sphere")),
        "hyper2": (lambda: ([[1 / y ** 2, 0], [0, 1 / y ** 2]], [x, y], "ll", "HalfPlane")),
        "conf2": (lambda: ([[f(x), 0], [0, f(x) * h(x)]], (x, y), "ll", "Conformal")),
        "ndiag2": (lambda: ([[1, x], [x, 1 + x ** 2 + b * y ** 2]], [x, y], "ll", "NonDiagonal")),
        "uu2": (lambda: ([[1, 0], [0, 1 / (a * r ** 2)]], (r, th), "uu", "Upper")),
        "ndiag2b": (lambda: ([[x ** 2 + 1, x * y], [x * y, y ** 2 + a]], (x, y), "ll", None)),
        "lin2": (lambda: ([[x, 0], [0, b * y]], (x, y), "ll", "Linear")),
        "off2": (lambda: ([[1, a], [a, y]], [x, y], "ll", "Shifted")),
        "cyl3": (lambda: ([[1, 0, 0], [0, r ** 2, 0], [0, 0, b]], (r, th, z), "ll", "Cylinder")),
        "flrw3": (lambda: ([[-1, 0, 0], [0, s(t) ** 2, 0], [0, 0, s(t) ** 2 * x ** 2]], (t, x, y), "ll", "Expanding")),
        "btz3": (lambda: ([[-(r ** 2) + a, 0, 0], [0, 1 / (r ** 2 - a), 0], [0, 0, r ** 2]], (t, r, ph), "ll", "BTZ")),
        "uu3": (lambda: ([[1, 0, 0], [0, 1 / r ** 2, 0], [0, 0, 1 / a]], [r, th, z], "uu", "Upper3")),
        "mink4": (lambda: ([[-1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]], (t, x, y, z), "ll", "Flat")),
        "lin4": (lambda: ([[-x, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, a]], (t, x, y, z), "ll", "Linear4")),
        "uu4": (lambda: ([[-1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1 / x, 0], [0, 0, 0, 1]], [t, x, y, z], "uu", "Upper4")),
    }


CHEAP = ["polar2", "pos2", "uu2", "hyper2", "sphere2", "lin2", "off2", "cyl3", "uu3"]     # quick to compute with
CHEAP4 = ["lin4", "uu4", "mink4", "MinkowskiPolar", "Minkowski"]
HEAVY = ["conf2", "ndiag2", "ndiag2b", "btz3", "flrw3"]
SMALL = ["polar2", "pos2", "sphere2", "hyper2", "conf2", "ndiag2", "uu2", "ndiag2b", "cyl3", "flrw3", "btz3", "uu3",
         "lin2", "off2", "lin4", "uu4"]
PRE_CHEAP = ["Minkowski", "MinkowskiPolar", "DeSitter", "AntiDeSitterStatic", "Schwarzschild", "BarriolaVilekin"]
PRE = PRE_CHEAP + ["AntiDeSitter", "BertottiKasner", "CMetric", "Davidson", "Ernst", "Godel", "JanisNewmanWinicour",
                   "BesselGravitationalWave", "Kerr", "KerrNewman", "ReissnerNordstorm", "AlcubierreWarp",
                   "MinkowskiCartesian"]


def predefined(name, args=None):
    import einsteinpy.symbolic.predefined as p
    f = getattr(p, name)
    return f(*args) if args else f()


@build("met")
def _b_met(env, s):
    from einsteinpy.symbolic import MetricTensor
    n = s["n"]
    if n in PRE:
        return predefined(n)
    arr, syms, cfg, name = _custom_metrics()[n]()
    arr = env.keep(arr)
    syms = env.keep(syms)
    if name is None:
        return MetricTensor(arr, syms, config=cfg)
    return MetricTensor(arr, syms, config=cfg, name=name)


def dims_of(s):
    n = s["n"]
    return 2 if n.rstrip("b").endswith("2") else 3 if n.endswith("3") else 4


TEN = {"chris": "ChristoffelSymbols", "riem": "RiemannCurvatureTensor", "ricci": "RicciTensor", "scalar": "RicciScalar",
       "ein": "EinsteinTensor", "stress": "StressEnergyMomentumTensor", "weyl": "WeylTensor",
       "schou": "SchoutenTensor"}
RANK = {"chris": 3, "riem": 4, "ricci": 2, "scalar": 0, "ein": 2, "stress": 2, "weyl": 4, "schou": 2}


def derive(kind, metric):
    import einsteinpy.symbolic as S
    return getattr(S, TEN[kind]).from_metric(metric)


@build("ten")
def _b_ten(env, s):
    return derive(s["t"], env.ref(s["m"]))


@build("vec")
def _b_vec(env, s):
    from einsteinpy.symbolic import GenericVector
    m = env.ref(s["m"])
    syms = m.symbols()
    q = syms[0]
    arr = [q, syms[-1] * q, 1, q ** 2][: len(syms)] if s.get("v", 0) == 0 else [1, q, syms[-1], 3][: len(syms)]
    return GenericVector(env.keep(arr), syms, config=s["c"], parent_metric=m if s.get("p", True) else None,
                         name=s.get("name", "V"))


@build("bt")
def _b_bt(env, s):
    """A general rank-2 tensor over the coordinates of a metric."""
    from sympy import symbols
    from einsteinpy.symbolic import BaseRelativityTensor
    m = env.ref(s["m"])
    syms = m.symbols()
    n = len(syms)
    arr = [[(syms[i] + j) * (1 + syms[j]) if (i + j) % 2 else syms[i] - 2 * j for j in range(n)] for i in range(n)]
    if not s.get("e"):
        return BaseRelativityTensor(env.keep(arr), syms, config=s["c"], parent_metric=m, name="B")
    # with variables of its own, which the user may list in any order
    vs = symbols("u beta w2", positive=True if s["e"] == 2 else None)
    if s["e"] == 3:         # one of them twice, with and without an assumption
        vs = (vs[0], vs[1], symbols("beta", positive=True))
    arr[0][0] += vs[0] ** 2 * vs[1] - vs[2]
    arr[-1][0] *= vs[1]
    given = {}
    if s.get("vo") is not None:
        given["variables"] = ([vs[k] for k in [(0, 1, 2), (2, 1, 0), (1, 2, 0), (1, 0, 2)][s["vo"]]])
        if s["e"] == 4:     # and one that does not occur
            given["variables"].insert(s["vo"] % 3, symbols("gamma2"))
        if s["vo"] == 3:
            given["variables"] = tuple(given["variables"])
        env.keep(given["variables"])
    return BaseRelativityTensor(env.keep(arr), env.keep(list(syms)), config=s["c"], parent_metric=m, name="B", **given)


@build("t0")
def _b_t0(env, s):
    from sympy import cos, sin, symbols
    from einsteinpy.symbolic import Tensor
    x, y = symbols("x y")
    arr = [[sin(x) ** 2 + cos(x) ** 2, x * y], [x * (y + 1) - x * y, y]] if s["v"] == 0 else \
        [[[x, 0], [1, y]], [[y, x], [x + y, (x ** 2 - y ** 2) / (x - y)]]]
    return Tensor(env.keep(arr), config="ul" if s["v"] == 0 else "ull", name=None if s["v"] else "T0")


@build("tm")
def _b_tm(env, s):
    from sympy import cos, sin, symbols
    from einsteinpy.symbolic import TransformationMatrix
    x, y, r, th, u, v = symbols("x y r theta u v")
    if s["v"] == 0:
        return TransformationMatrix.from_new2old(env.keep([x, y]), env.keep([r, th]),
                                                 env.keep([r * cos(th), r * sin(th)]))
    if s["v"] == 1:
        return TransformationMatrix.from_new2old([x, y], [u, v], env.keep([u + v ** 2, u * v + 1 + v]))
    return TransformationMatrix(env.keep([[2 * x, 3], [y, x + 1]]), [x, y], [u, v])


# ---- metric operations
CFG2 = ["ll", "uu", "ul", "lu"]


@op("met")
def op_inv(env, m, p):
    return m.inv()


@op("met")
def op_inv_inv(env, m, p):
    return m.inv().inv()


@op("met")
def op_lower_config(env, m, p):
    return m.lower_config()


@op("met", gen=lambda rng, w, i: {"c": rng.choice(["ll", "uu", "uu", "ul"])}, name="change_config")
def op_met_cc(env, m, p):
    return m.change_config(p["c"])


@op("met ten vec bt t0")
def op_tensor(env, m, p):
    return m.tensor()


@op("met ten vec bt")
def op_whole(env, m, p):
    """Every public attribute of the object itself."""
    return m


@op("met ten vec bt")
def op_symbols(env, m, p):
    return m.symbols()


@op("met ten vec bt t0")
def op_text(env, m, p):
    return [str(m), repr(m)]


@op("met ten vec bt t0")
def op_attrs(env, m, p):
    return [m.order, m.config, m.name, getattr(m, "variables", None), getattr(m, "functions", None),
            getattr(m, "dims", None)]


@op("met bt t0 vec", gen=lambda rng, w, i: {"i": [rng.randrange(2), rng.randrange(2)]})
def op_getitem(env, m, p):
    return m[p["i"][0]] if m.order == 1 else m[tuple(p["i"])] if m.order == 2 else m[p["i"][0], p["i"][1], 0]


@op("met ten vec bt t0", gen=lambda rng, w, i: {"v": rng.randrange(3)})
def op_subs(env, m, p):
    import sympy
    # not the free symbols: simplifying may make one vanish
    fs = sorted(m.symbols(), key=lambda s: s.name) if hasattr(m, "symbols") else [sympy.Symbol(n) for n in "xy"]
    if p["v"] == 0:
        return m.tensor().subs(fs[0], 2)
    if p["v"] == 1:
        return [m.subs(env.keep([(s, sympy.Rational(i + 2, 3)) for i, s in enumerate(fs)]))] if m.order == 2 \
            else m.tensor().subs(fs[-1], fs[0] + 1)
    return m.subs(fs[0], 3) if m.order == 2 else None


@op("met ten vec bt t0")
def op_simplified(env, m, p):
    return m.simplify(set_self=False)


@op("met ten vec bt t0", mut=True)
def op_simplify(env, m, p):
    return m.simplify()


def _lamb_gen(rng, w, i):
    # with undefined functions, whether a curvature can be printed depends on the form it has
    if w[i]["k"] == "ten" and w[w[i]["m"]["ref"]]["n"] in ("conf2", "flrw3"):
        return None
    return {"v": rng.randrange(3)}


@op("met ten vec bt", gen=_lamb_gen, name="lambdify")
def op_lamb(env, m, p):
    import numpy as np
    import sympy
    if p["v"] == 2:
        args = tuple(sorted(set(m.symbols()) | set(m.variables), key=lambda s: (s.name, sympy.srepr(s))))
        names, f = m.tensor_lambdify(*args)
    else:
        names, f = m.tensor_lambdify()
    vals = [0.3 + 0.37 * k + 0.01 * p["v"] for k in range(len(names))]
    out = f(*vals)
    return [names, np.array(out, dtype=float)]


def _lt(env, m, v):
    import sympy
    n = m.dims
    b = symbols_beta()
    if v == 0:
        t = sympy.eye(n).tolist()
        t[0][-1] = b
        return env.keep(t)
    g = 1 / sympy.sqrt(1 - b ** 2)
    t = sympy.eye(n).tolist()
    t[0][0] = t[1][1] = g
    t[0][1] = t[1][0] = -b * g
    return env.keep(t)


def symbols_beta():
    from sympy import Symbol
    return Symbol("beta")


def _lt_gen(rng, w, i):
    s = w[i]
    n = dims_of(w[s["m"]["ref"]]) if "m" in s else dims_of(s)
    if s["k"] == "ten":
        name, k = w[s["m"]["ref"]]["n"], RANK[s["t"]]
        if k > 2 and (name in HEAVY and n + k > 5 or n > 3 and (name not in CHEAP4 or k > 3)) or n > 3 and name not in CHEAP4:
            return None
    return {"v": rng.randrange(2) if n == 2 else 0}


@op("met ten vec bt", gen=_lt_gen)
def op_lorentz(env, m, p):
    return m.lorentz_transform(_lt(env, m, p["v"]))


def _derive_gen(rng, w, i):
    n = dims_of(w[i])
    if n == 2:
        t = rng.choice(["chris", "chris", "riem", "ricci", "scalar", "ein", "stress", "weyl", "schou"])
    elif n == 3:
        t = rng.choice(["chris", "chris", "ricci", "scalar", "weyl", "schou", "riem", "ein"])
    else:
        t = "chris" if w[i]["n"] in PRE_CHEAP + CHEAP4 else None
        if w[i]["n"] in CHEAP4:
            t = rng.choice(["chris", "riem", "ricci", "ein", "stress", "weyl", "schou", "scalar"])
    return None if t is None else {"t": t}


@op("met", gen=_derive_gen)
def op_derive(env, m, p):
    return derive(p["t"], m)


def _chain_gen(rng, w, i):
    return {"v": rng.randrange(5)} if dims_of(w[i]) == 2 else None


@op("met", gen=_chain_gen)
def op_chain(env, m, p):
    """Curvature by the other constructors."""
    import einsteinpy.symbolic as S
    ch = S.ChristoffelSymbols.from_metric(m)
    if p["v"] == 0:
        return S.RiemannCurvatureTensor.from_christoffels(ch)
    if p["v"] == 1:
        return S.RicciTensor.from_christoffels(ch)
    if p["v"] == 2:
        return S.RicciScalar.from_christoffels(ch)
    if p["v"] == 3:
        return S.RicciScalar.from_riemann(S.RiemannCurvatureTensor.from_christoffels(ch, parent_metric=m)).expr
    return S.RicciScalar.from_riccitensor(S.RicciTensor.from_riemann(S.RiemannCurvatureTensor.from_metric(m), m), m)


def _cc_gen(rng, w, i):
    s = w[i]
    if s["k"] == "ten":
        r = RANK[s["t"]]
        if r == 0:
            return None
        n = dims_of(w[s["m"]["ref"]])
        if r == 4 and n > 2 or r == 3 and n > 3:
            return None
    else:
        r = 1 if s["k"] == "vec" else 2
    a = {"c": "".join(rng.choice("ul") for _ in range(r))}
    if rng.random() < 0.25:
        n = dims_of(w[s["m"]["ref"]])
        c = [j for j, q in enumerate(w) if q["k"] == "met" and dims_of(q) == n]
        a["m"] = {"ref": rng.choice(c)}
    elif rng.random() < 0.08:
        a["c"] = rng.choice(["ux", a["c"] + "u"])
    return a


@op("ten vec", gen=_cc_gen, name="change_config")
def op_ten_cc(env, t, p):
    m = env.ref(p.get("m"))
    return t.change_config(p["c"], metric=m) if m is not None else t.change_config(p["c"])


@op("ten")
def op_expr(env, t, p):
    return t.expr if hasattr(t, "expr") else t.parent_metric.name


def _prod_gen(rng, w, i):
    n = dims_of(w[w[i]["m"]["ref"]]) if "m" in w[i] else dims_of(w[i])
    c = [j for j in others(w, "vec", "bt", "met") if (dims_of(w[w[j]["m"]["ref"]]) if "m" in w[j] else dims_of(w[j])) == n]
    if not c:
        return None
    return {"b": {"ref": rng.choice(c)}, "ij": rng.choice([None, [0, 0], [1, 0]]) if w[i]["k"] != "vec" else None}


@op("met bt vec", gen=_prod_gen)
def op_product(env, t, p):
    from einsteinpy.symbolic.tensor import tensor_product
    b = env.ref(p["b"])
    return tensor_product(t, b) if p["ij"] is None else tensor_product(t, b, *p["ij"])


def _newvec_gen(rng, w, i):
    return {"c": rng.choice("ul"), "to": rng.choice("ul")}


@op("met", gen=_newvec_gen)
def op_new_vector(env, m, p):
    from einsteinpy.symbolic import GenericVector
    s = m.symbols()
    v = GenericVector(env.keep([s[0] * k + 1 for k in range(len(s))]), s, config=p["c"], parent_metric=m)
    return v.change_config(p["to"])


@op("tm")
def op_tm_inv(env, t, p):
    return t.inv()


@op("tm")
def op_tm_whole(env, t, p):
    return t


@op("tm", gen=lambda rng, w, i: {"i": [rng.randrange(2), rng.randrange(2)]})
def op_tm_get(env, t, p):
    return t[p["i"][0], p["i"][1]]


@op("tm")
def op_tm_np(env, t, p):
    from einsteinpy.symbolic.helpers import sympy_to_np_array
    return sympy_to_np_array(t)


# ============================================================== numeric objects
COORD_V = [
    (0.0, 1.2e4, 1.1, 0.6, 300.0, 2e-3, 4e-3),
    (2.0, 9.0e6, 0.7, 2.4, -1500.0, 1e-5, 3e-5),
    (1.5, 4.0e8, 1.9, -1.2, 21.0, -2e-7, 5e-7),
]
CAR_V = [
    (0.0, 9.0e3, -7.0e3, 4.0e3, 110.0, -30.0, 12.0),
    (2.0, -5.0e6, 6.0e6, 3.0e6, -400.0, 10.0, 2200.0),
    (1.5, 2.0e8, 1.0e8, -3.0e8, 5.0, 6.0, -7.0),
]


@build("coord")
def _b_coord(env, s):
    from astropy import units as u
    import einsteinpy.coordinates as C
    v = (CAR_V if s["s"] == "car" else COORD_V)[s["v"]]
    if s["s"] == "car":
        pos = [v[0] * u.s, v[1] * u.m, v[2] * u.m, v[3] * u.m]
        vel = [q * u.m / u.s for q in v[4:]]
        if s["v"] == 1:
            pos[1] = (v[1] / 1e3) * u.km
        cls = C.CartesianDifferential if s["d"] else C.Cartesian
    else:
        pos = [v[0] * u.s, v[1] * u.m, v[2] * u.rad, v[3] * u.rad]
        if s["v"] == 1:
            pos[2] = (v[2] * 180 / 3.141592653589793) * u.deg
        vel = [v[4] * u.m / u.s, v[5] * u.rad / u.s, v[6] * u.rad / u.s]
        cls = getattr(C, ("Spherical" if s["s"] == "sph" else "BoyerLindquist") + ("Differential" if s["d"] else ""))
    args = pos + (vel if s["d"] else [])
    for q in args:
        env.keep(q)
    return cls(*args)


NUM_V = [(4e24, 0.4, 1.0), (4e30, 0.91, 2e20), (6e27, 0.0, 0.0)]


@build("num")
def _b_num(env, s):
    from astropy import units as u
    from einsteinpy.metric import BaseMetric, Kerr, KerrNewman, Schwarzschild
    c = env.ref(s["c"])
    M, a, Q = NUM_V[s["v"]]
    M, a, Q = env.keep(M * u.kg), env.keep(a * u.one), env.keep(Q * u.C)
    if s["m"] == "sch":
        m = Schwarzschild(coords=c, M=M)
    elif s["m"] == "kerr":
        m = Kerr(coords=c, M=M, a=a)
    elif s["m"] == "kn":
        m = KerrNewman(coords=c, M=M, a=a, Q=Q, q=env.keep(0.5 * u.C / u.kg)) if s.get("q") else \
            KerrNewman(coords=c, M=M, a=a, Q=Q)
    else:
        m = BaseMetric(coords=c, M=M, name="User Metric", metric_cov=user.cov_user,
                       perturbation=user.pert_small if s.get("p") else None)
    if s.get("p") and s["m"] != "base":
        m.perturbation = user.pert_small
    return m


XV = [[0.0, 1.3e4, 1.2, 0.3], [3e8, 8.0e6, 0.9, 1.8], [1e9, 5.0e7, 2.2, -0.7], [0.0, 2.1e4, 1.5707963, 3.0]]


def _x(env, p):
    import numpy as np
    v = XV[p["x"]]
    return env.keep({"l": list(v), "t": tuple(v), "a": np.array(v)}[p.get("as", "a")])


def _xgen(rng, w, i):
    return {"x": rng.randrange(len(XV)), "as": rng.choice("aalt")}


@op("num", gen=_xgen)
def op_gcov(env, m, p):
    return m.metric_covariant(_x(env, p))


@op("num", gen=_xgen)
def op_gcontra(env, m, p):
    return m.metric_contravariant(_x(env, p))


def _kn(gen):
    return lambda rng, w, i: gen(rng, w, i) if w[i]["m"] == "kn" else None


@op("num", gen=_kn(_xgen))
def op_A_cov(env, m, p):
    return m.em_potential_covariant(_x(env, p))


@op("num", gen=_kn(_xgen))
def op_A_contra(env, m, p):
    return m.em_potential_contravariant(_x(env, p))


@op("num", gen=_kn(_xgen))
def op_F_cov(env, m, p):
    return m.em_tensor_covariant(_x(env, p))


@op("num", gen=_kn(_xgen))
def op_F_contra(env, m, p):
    return m.em_tensor_contravariant(_x(env, p))


@op("num", gen=lambda rng, w, i: _xgen(rng, w, i) if w[i]["m"] != "base" else None)
def op_christoffels(env, m, p):
    return m.christoffels(_x(env, p))


@op("num", gen=lambda rng, w, i: _xgen(rng, w, i) if w[i]["m"] != "base" else None)
def op_f_vec(env, m, p):
    import numpy as np
    return m.f_vec(0.0, env.keep(np.array(XV[p["x"]] + [1.1, 0.02 * p["x"], 1e-5, 2e-5])))


@op("num", gen=lambda rng, w, i: {"th": rng.choice([0.3, 1.2])})
def op_singularities(env, m, p):
    d = m.singularities()
    return {k: (v(p["th"]) if callable(v) else v) for k, v in d.items()}


@op("num")
def op_nonzero(env, m, p):
    return m.nonzero_christoffels() if hasattr(m, "nonzero_christoffels") else None


@op("num", gen=lambda rng, w, i: {"x": rng.randrange(len(XV)), "a": rng.choice([0.2, 0.9])})
def op_statics(env, m, p):
    x = XV[p["x"]]
    return [m.sigma(x[1], x[2], 4e24, p["a"]), m.delta(x[1], 4e24, p["a"]), m.delta(x[1], 4e24, p["a"], 1e3),
            m.rho(x[1], x[2], 4e24, p["a"]), m.alpha(4e24, p["a"]), m.schwarzschild_radius(4e24)]


@op("num", gen=lambda rng, w, i: {"a": rng.choice([-0.1, 1.5])})
def op_alpha_bad(env, m, p):
    return m.alpha(4e24, p["a"])


@op("num")
def op_num_whole(env, m, p):
    return m


@op("coord")
def op_position(env, c, p):
    return c.position()


@op("coord")
def op_values(env, c, p):
    return c.values()


@op("coord")
def op_c_whole(env, c, p):
    return c


MA = [(4e24, 0.4), (4e30, 0.91), (6e27, 0.0)]


@op("coord", gen=lambda rng, w, i: {"to": rng.choice(["car", "sph", "bl"]), "ma": rng.randrange(3)})
def op_convert(env, c, p):
    from astropy import units as u
    kw = {}
    M, a = MA[p["ma"]]
    d = hasattr(c, "v_t")
    src = c.system
    names = {"car": ("to_cartesian", "cartesian_differential"), "sph": ("to_spherical", "spherical_differential"),
             "bl": ("to_bl", "bl_differential")}[p["to"]]
    f = getattr(c, names[d], None)
    if f is None:
        return "none"
    if p["to"] == "bl" or src == "BoyerLindquist":
        kw = dict(M=env.keep(M * u.kg), a=env.keep(a * u.one))
    return f(**kw)


@op("coord", gen=lambda rng, w, i: {"k": rng.choice(["t", "x", "r", "theta", "system", "e", "phi"])})
def op_item(env, c, p):
    if not hasattr(type(c), "__getitem__"):
        return "none"
    return c[p["k"]]


def _vel_gen(rng, w, i):
    if not w[i]["d"]:
        return None
    c = others(w, "num")
    good = [j for j in c if w[w[j]["c"]["ref"]]["s"] == w[i]["s"]]
    c = good if good and rng.random() < 0.9 else c
    return {"m": {"ref": rng.choice(c)}} if c else None


@op("coord", gen=_vel_gen)
def op_velocity(env, c, p):
    return c.velocity(metric=env.ref(p["m"]))


@op("coord", gen=_vel_gen, tags=("own_state",))
def op_set_vt(env, c, p):
    c.v_t = (env.ref(p["m"]),)
    return c.v_t


@op("coord", gen=lambda rng, w, i: None if w[i]["d"] else {}, tags=("text",))
def op_c_text(env, c, p):
    return [str(c), repr(c)]


@build("emb")
def _b_emb(env, s):
    from astropy import units as u
    from einsteinpy.hypersurface import SchwarzschildEmbedding
    return SchwarzschildEmbedding(env.keep([5.927e23 * u.kg, 3.1e24 * u.kg, 9e26 * u.g][s["v"]]))


@op("emb", gen=lambda rng, w, i: {"al": rng.choice([7, 12, 31])})
def op_get_values(env, e, p):
    return e.get_values(p["al"])


@op("emb", gen=lambda rng, w, i: {"al": rng.choice([3, 5, 9])})
def op_surface(env, e, p):
    return e.get_values_surface(p["al"])


@op("emb", gen=lambda rng, w, i: {"r": rng.choice([2.9, 3.7, 5.1])})
def op_emb_fn(env, e, p):
    r = p["r"] * float(e.M.value)
    return [e.gradient(r), e.radial_coord(r)]


@op("emb")
def op_emb_whole(env, e, p):
    return e


@build("shadow")
def _b_shadow(env, s):
    from astropy import units as u
    from einsteinpy.rays import Shadow
    m, n, f = [(1, 12, 25), (1, 20, 30), (2, 9, 40)][s["v"]]
    return Shadow(mass=env.keep(m * u.kg), n_rays=n, fov=env.keep(f * u.km))


@op("shadow")
def op_sh_whole(env, s, p):
    return s


@op("shadow", mut=True, gen=lambda rng, w, i: {"n": rng.choice([17, 40])})
def op_smoothen(env, s, p):
    s.smoothen(points=p["n"])
    return s


@build("body")
def _b_body(env, s):
    from astropy import units as u
    from einsteinpy.bodies import Body
    kw = {}
    if s.get("c"):
        kw["coords"] = env.ref(s["c"])
    if s.get("full"):
        kw.update(mass=env.keep(3e24 * u.kg), R=env.keep(6000 * u.km), q=env.keep(2.0 * u.C))
    if s.get("parent"):
        kw["parent"] = env.ref(s["parent"])
    return Body(name="b%d" % s.get("v", 0), **kw)


@op("body")
def op_body(env, b, p):
    return [b, str(b) if b.coords is None or not hasattr(b.coords, "v_t") else None, repr(b.mass)]


# ---- module-level functions, stateless objects built on the spot
@build("mod")
def _b_mod(env, s):
    return None


@op("mod", gen=lambda rng, w, i: {"q": rng.choice(["kerr", "Sit", "mink", "", "zzz", "er"])})
def op_find(env, o, p):
    from einsteinpy.symbolic.predefined import find
    return find(p["q"])


@op("mod", gen=lambda rng, w, i: {"q": rng.choice(["c", "c", "c", "G", "G", "Cosmo_Const", "eps_0", "nope"])})
def op_get_constant(env, o, p):
    from einsteinpy.symbolic import get_constant
    return get_constant(p["q"])


@op("mod", gen=lambda rng, w, i: {"n": rng.choice(["c", "c", "q0", "G"]), "d": rng.choice([None, "My constant", "Another"])})
def op_new_constant(env, o, p):
    from einsteinpy.symbolic import SymbolicConstant
    s = SymbolicConstant(p["n"], p["d"]) if p["d"] else SymbolicConstant(p["n"])
    return [s, s.descriptive_name]


@op("mod", gen=lambda rng, w, i: {"n": rng.choice(PRE), "c": rng.choice([0, 0, 1])})
def op_predefined(env, o, p):
    if p["c"] and p["n"] in ("Schwarzschild", "Kerr", "Minkowski", "MinkowskiPolar", "BarriolaVilekin"):
        return predefined(p["n"], (1,))
    return predefined(p["n"])


@op("mod", gen=lambda rng, w, i: {"t": rng.choice([0.5, 1e17, 3.0]), "e": rng.choice(["md", "rd", "ded", "xx"]),
                                 "k": rng.choice([1.0, 2.5]), "d": rng.randrange(2)})
def op_scale(env, o, p):
    from astropy import units as u
    from einsteinpy.utils import scalar_factor, scalar_factor_derivative
    f = scalar_factor_derivative if p["d"] else scalar_factor
    return f(env.keep(p["t"] * u.s), era=p["e"], tuning_param=p["k"])


@op("mod", gen=lambda rng, w, i: {"v": rng.randrange(3)})
def op_simplify_arr(env, o, p):
    import sympy
    from einsteinpy.symbolic import simplify_sympy_array
    x, y = sympy.symbols("x y")
    if p["v"] == 0:
        return simplify_sympy_array(sympy.sin(x) ** 2 + sympy.cos(x) ** 2 + y)
    if p["v"] == 1:
        return simplify_sympy_array(sympy.Array([[x * y / x, (x + y) ** 2 - x ** 2 - y ** 2 - 2 * x * y], [1, x]]))
    return simplify_sympy_array(sympy.Array([[[x + x, y - y], [x, x * x / x]], [[0, 0], [1, y]]]))


@op("mod", gen=lambda rng, w, i: {"x": rng.randrange(len(XV)), "f": rng.randrange(8)})
def op_convert_fn(env, o, p):
    """Conversion functions on raw numbers."""
    import einsteinpy.coordinates.utils as cu
    t, r, th, ph = XV[p["x"]]
    v = (0.3, 0.01, 0.02)
    f = p["f"]
    if f == 0:
        return cu.cartesian_to_spherical(t, r, th * r, ph * r, *v)
    if f == 1:
        return cu.cartesian_to_spherical_novel(t, r, th * r, ph * r)
    if f == 2:
        return cu.cartesian_to_bl(t, r, th * r, ph * r, 150.0, *v)
    if f == 3:
        return cu.spherical_to_cartesian(t, r, th, ph, *v)
    if f == 4:
        return cu.bl_to_cartesian(t, r, th, ph, 150.0, *v)
    if f == 5:
        return cu.bl_to_cartesian_fast(t, r, th, ph, 150.0, None, None, None, False)
    if f == 6:
        return cu.cartesian_to_bl_fast(t, r, th * r, ph * r, 150.0, *v)
    return cu.lorentz_factor(10.0, 1e5, 2e6 + p["x"])


@op("mod", gen=lambda rng, w, i: {"f": rng.randrange(6), "x": rng.choice([0.4, 1.7])})
def op_dual(env, o, p):
    import numpy as np
    from einsteinpy.utils.dual import DualNumber, _deriv, _jacobian_g
    from einsteinpy.geodesic.utils import _kerr, _kerrnewman
    x = DualNumber(p["x"], 1.0)
    if p["f"] == 0:
        y = (x * x + 3 / x - 2) ** 2 / np.sin(x)
        return [y, str(x), x == DualNumber(p["x"], 1.0), np.exp(x) - np.log(x) * np.tan(x) + np.cos(-x)]
    if p["f"] == 4:
        y = DualNumber(0.7, 0.5)
        return [2 - x, 3 / x, x / y, y / x, x - y, y ** 2, x != y, repr(y), x ** 0.5, +x if hasattr(x, "__pos__") else 0]
    if p["f"] == 5:
        return [f(env.keep(np.array([0.0, 9.0 + p["x"], 1.1, 0.3])), *a) for f, a in ((_kerr, (0.7,)), (_kerrnewman, (0.7, 0.2)))]
    if p["f"] == 1:
        return _deriv(lambda q: q ** 3 - 1 / q, p["x"])
    if p["f"] == 2:
        return _jacobian_g(_kerr, env.keep((0.7,)), env.keep(np.array([0.0, 9.0 + p["x"], 1.1, 0.3])), 1)
    return _jacobian_g(_kerrnewman, env.keep((0.7, 0.2)), env.keep(np.array([0.0, 9.0 + p["x"], 1.1, 0.3])), 2)


@op("mod", gen=lambda rng, w, i: {"n": rng.choice(["Sun", "Earth", "Moon", "Pluto", "Jupiter"])})
def op_predefined_body(env, o, p):
    import einsteinpy.bodies as b
    q = getattr(b, p["n"])
    return [q, str(q)]


@op("mod", gen=lambda rng, w, i: {"v": rng.randrange(2)})
def op_fractal(env, o, p):
    from einsteinpy.plotting.fractal import _fractal_img
    return _fractal_img(dims=(6, 5), angle=2.75 - p["v"], iter_max=9)


@op("mod", gen=lambda rng, w, i: {"a": rng.randrange(3)})
def op_primitive(env, o, p):
    from astropy import units as u
    from einsteinpy.units import primitive
    return primitive(3.0 * u.kg, 4, env.keep([1.5, 2] * u.m))


# =================================================== geodesics and integrators
POS = [[10.0, 1.5707963267948966, 0.0], [6.5, 1.1, 0.4], [40.0, 1.5707963267948966, 0.0], [15.0, 0.9, -1.0]]
MOM = [[0.0, 0.0, 4.0], [0.1, 0.5, 3.1], [0.0, 0.0, 3.83405], [-0.2, 0.3, 2.0]]
GMET = {"Schwarzschild": (0.0,), "Kerr": (0.6,), "KerrNewman": (0.5, 0.2), "um_flat": (0.0,), "um_sch": (0.3,),
        "um_off": (0.4,), "um_const": (0.0,)}


def gmetric(n):
    return user.METRICS.get(n, n)


def ic(env, s):
    """Initial data as a list, tuple or array of the user's."""
    import numpy as np
    if s.get("sh"):   # the same lists or arrays as every other object that says so
        k = ("ic", s.get("ic", 0), s.get("as"))
        if k not in env.shared:
            env.shared[k] = ic(env, {k: v for k, v in s.items() if k != "sh"})
        return env.shared[k]
    pos, mom = list(POS[s.get("ic", 0)]), list(MOM[s.get("ic", 0)])
    if s.get("as") == "a":
        pos, mom = np.array(pos), np.array(mom)
    elif s.get("as") == "t":
        pos, mom = tuple(pos), tuple(mom)
    return env.keep(pos), env.keep(mom)


def shared(env, s, k, make):
    if not s.get("sh"):
        return make()
    if k not in env.shared:
        env.shared[k] = make()
    return env.shared[k]


def gkw(s):
    return {k: s[k] for k in ("steps", "delta", "rtol", "atol", "order", "omega", "suppress_warnings") if k in s}


@build("geo")
def _b_geo(env, s):
    from einsteinpy.geodesic import Geodesic, Nulllike, Timelike
    pos, mom = ic(env, s)
    prm = shared(env, s, ("prm", s["g"]), lambda: env.keep(list(s.get("prm") or GMET[s["g"]])))
    prm = tuple(prm) if s.get("as") == "t" else prm
    cls = Timelike if s.get("tl", True) else Nulllike
    return cls(metric=gmetric(s["g"]), metric_params=prm, position=pos, momentum=mom,
               return_cartesian=s.get("cart", True), **gkw(s))


@op("geo")
def op_trajectory(env, g, p):
    return g.trajectory


@op("geo")
def op_geo_whole(env, g, p):
    return g


@op("geo", tags=("text",))
def op_geo_text(env, g, p):
    return str(g) if not callable(g.metric_name) else None


def _recalc_gen(rng, w, i):
    a = {"steps": rng.choice([1, 2]), "delta": rng.choice([0.5, 0.25]), "order": rng.choice([2, 2, 4]),
         "suppress_warnings": True}
    if rng.random() < 0.3:
        a["omega"] = 0.1
    return a


@op("geo", gen=_recalc_gen)
def op_recalc(env, g, p):
    return g.calculate_trajectory(**p)


@build("gint")
def _b_gint(env, s):
    import numpy as np
    from einsteinpy.geodesic.utils import _kerr, _kerrnewman, _sch
    from einsteinpy.geodesic.utils import _P
    from einsteinpy.integrators import GeodesicIntegrator
    g = user.METRICS.get(s["g"]) or {"Schwarzschild": _sch, "Kerr": _kerr, "KerrNewman": _kerrnewman}[s["g"]]
    prm = tuple(s.get("prm") or GMET[s["g"]])
    pos, mom = ic(env, s)
    key = (s.get("ic", 0), s["g"], prm, s.get("tl", True))
    q0 = shared(env, s, ("q0",) + key[:1], lambda: env.keep(np.array([0.0, *pos])))
    p0 = shared(env, s, ("p0",) + key, lambda: env.keep(
        np.array(P0[s.get("ic", 0)]) if s["g"] in ("um_off", "um_const") else
        np.array(_P(g, prm, q0, mom, s.get("tl", True)))))
    kw = gkw(s)
    return GeodesicIntegrator(metric=g, metric_params=prm, q0=q0, p0=p0,
                              time_like=s.get("tl", True), **kw)


P0 = [[-1.1, 0.1, 0.2, 2.0], [-1.05, 0.0, 0.3, 1.0], [-1.2, 0.2, 0.0, 3.0], [-1.0, -0.1, 0.1, 0.5]]


@op("gint", mut=True)
def op_step(env, g, p):
    g.step()
    return [g.step_num, g.results[-1], g.res_list]


@op("gint")
def op_gint_whole(env, g, p):
    return g


RKS = {"rhs_decay": 2.0, "rhs_osc": [1.0, 0.5], "rhs_poly": 0.25, "rhs_logistic": 0.4, "rhs_stiffish": [1.0, 0.2, 3.0],
       "rhs_inplace": [0.5, 1.5]}


@build("rk")
def _b_rk(env, s):
    import numpy as np
    from einsteinpy.integrators import RK45, RK4naive
    y0 = RKS[s["f"]]
    y0 = shared(env, s, ("y0", s["f"], s["m"]), lambda: env.keep(
        np.array(y0) if isinstance(y0, list) else np.array([y0]) if s["m"] == "45" else y0))
    cls = RK45 if s["m"] == "45" else RK4naive
    kw = {k: s[k] for k in ("rtol", "atol") if k in s}
    return cls(user.RHS[s.get("rhs", s["f"])], s.get("t0", 0.0), y0, s.get("tb", 1.0), s.get("h", 0.1), **kw)


@op("rk", mut=True)
def op_rk_step(env, g, p):
    g.step()
    return [g.t, g.y]


@op("rk")
def op_rk_whole(env, g, p):
    return [g.t, g.y]


# -------------------------------------------- the owner changes an object as he goes on
ASSIGN = {
    "gint": [("delta", [0.3, 0.1]), ("omega", [0.05, 2.0]), ("rtol", [0.5, 1e-9]), ("atol", [0.3, 1e-12]),
             ("suppress_warnings", [True, False])],
    "rk": [("step_size", [0.05, 0.17])],
    "num": [("perturbation", ["pert_small", None])],
    "coord": [("t", [3.5, 0.25])],
    "body": [("name", ["mine"]), ("mass", [3e24])],
    "geo": [("momentum", [0, 2])],
    "met": [("name", ["mine", None])],
}
ASSIGN["ten"] = ASSIGN["vec"] = ASSIGN["bt"] = ASSIGN["met"]


def _assign_gen(rng, w, i):
    if w[i]["k"] == "rk" and w[i]["m"] == "45":
        return None
    k, vs = rng.choice(ASSIGN[w[i]["k"]])
    return {"k": k, "v": rng.choice(vs)}


@op(" ".join(ASSIGN), gen=_assign_gen, mut=True, tags=("assign",))
def op_assign(env, o, p):
    from astropy import units as u
    import numpy as np
    k, v = p["k"], p["v"]
    if k == "perturbation":
        v = user.PERT.get(v)
    elif k == "t":
        v = v * u.s
    elif k == "mass":
        v = v * u.kg
    elif k == "momentum":
        v = np.array(P0[v])
    setattr(o, k, v)
    return None


# ------------------------------------------------------------- random worlds

def gen_geo(rng, small=True, custom=True, warn=False):
    gs = ["Schwarzschild", "Kerr", "KerrNewman"] + (["um_flat", "um_sch"] if custom else [])
    s = {"k": "geo", "g": rng.choice(gs), "ic": rng.randrange(len(POS)), "as": rng.choice("lat"),
         "steps": rng.choice([1, 2, 3]) if small else rng.choice([2, 5, 9]), "delta": rng.choice([0.5, 0.2, 1.0]),
         "order": rng.choice([2, 2, 2, 4]), "omega": rng.choice([1.0, 0.1]), "tl": rng.random() < 0.7,
         "cart": rng.random() < 0.6}
    if not warn:
        s["suppress_warnings"] = True
    return s


def _vars(rng):
    e = rng.choice([1, 1, 2, 3, 4])
    return {"e": e, "vo": rng.choice([None, None, 0] if e == 3 else [0, 1, 2, 3] if e == 4 else [None, 0, 1, 2, 3])}


def derivable(t, name):
    """Whether a metric has such a tensor, and it is quick to compute."""
    d = dims_of({"n": name})
    return (d > 2 or t not in ("weyl", "schou")) and (d < 4 or t == "chris" or name in CHEAP4)


def gen_sym_world(rng, n_met=2, derived=True, big=0.12, twins=0.0):
    w = []
    for _ in range(n_met):
        w.append({"k": "met", "n": rng.choice(PRE_CHEAP if rng.random() < big else CHEAP if rng.random() < 0.55 else SMALL)})
    if derived:
        for _ in range(rng.choice([1, 2, 2, 3])):
            m = rng.randrange(n_met)
            d = dims_of(w[m])
            r = rng.random()
            if r < 0.26:
                w.append({"k": "vec", "m": {"ref": m}, "c": rng.choice("ul"), "v": rng.randrange(2)})
            elif r < 0.44:
                w.append({"k": "bt", "m": {"ref": m}, "c": rng.choice(["ll", "ul", "uu"])})
                if rng.random() < 0.6:
                    w[-1].update(_vars(rng))
                    if rng.random() < 0.5:      # the same, with another order of its variables or another kind
                        w.append(dict(w[-1], **_vars(rng)))
            elif r < 0.55:
                w.append({"k": "tm", "v": rng.randrange(3)})
            elif r < 0.62:
                w.append({"k": "t0", "v": rng.randrange(2)})
            else:
                t = rng.choice(["chris", "ricci", "riem", "ein", "scalar", "stress"] if d == 2 else
                               ["chris", "chris", "ricci", "scalar", "weyl", "schou", "ein", "riem"] if d == 3 else
                               ["chris", "weyl", "schou", "stress"] if w[m]["n"] in CHEAP4 else ["chris"])
                if w[m]["n"] in HEAVY and rng.random() < 0.7:
                    t = "chris"
                w.append({"k": "ten", "m": {"ref": m}, "t": t})
            if n_met > 1 and "m" in w[-1] and twins and rng.random() < twins:
                # the same of another metric
                o = rng.choice([j for j in range(n_met) if j != m])
                if w[-1]["k"] != "ten" or derivable(w[-1]["t"], w[o]["n"]):
                    w.append(dict(w[-1], m={"ref": o}))
    return w


def gen_num_world(rng, full=True):
    w = []
    for _ in range(rng.choice([2, 3])):
        w.append({"k": "coord", "s": rng.choice(["car", "sph", "bl", "bl"]), "d": rng.random() < 0.75,
                  "v": rng.randrange(3)})
    sys_ = [i for i in range(len(w))]
    hub = rng.choice(sys_)      # a coordinate object that several metrics use
    vs = rng.sample(range(3), 3)
    for k in range(rng.choice([2, 3, 4])):
        c = hub if k < 2 or rng.random() < 0.4 else rng.choice(sys_)
        s = w[c]["s"]
        m = rng.choice({"car": ["sch", "base"], "sph": ["sch", "sch", "base"],
                        "bl": ["kerr", "kn", "kn", "kerr", "sch"]}[s])
        q = {"k": "num", "m": m, "c": {"ref": c}, "v": vs[k % 3]}
        if rng.random() < (0.5 if m == "base" else 0.2):
            q["p"] = 1
        if m == "kn" and rng.random() < 0.5:
            q["q"] = 1
        w.append(q)
    if full and rng.random() < 0.5:
        w.append({"k": "emb", "v": rng.randrange(3)})
    if full and rng.random() < 0.15:
        w.append({"k": "shadow", "v": rng.randrange(3)})
    if full and rng.random() < 0.3:
        w.append({"k": "body", "c": {"ref": 0}, "full": rng.randrange(2)})
    if full:
        w.append({"k": "mod"})
    return w


# ---- plain value objects
@build("val")
def _b_val(env, s):
    import einsteinpy.bodies as b
    import einsteinpy.constant as k
    from einsteinpy.symbolic import SymbolicConstant, get_constant
    from einsteinpy.utils.dual import DualNumber
    return [lambda: get_constant("c"), lambda: SymbolicConstant("kappa", "Coupling"), lambda: SymbolicConstant("n"),
            lambda: DualNumber(2.5, -1.0), lambda: b.Sun, lambda: b.Earth, lambda: k.Cosmo_Const,
            lambda: get_constant("G") ** 2 / get_constant("c") + 1][s["v"]]()


@op("val")
def op_val_whole(env, v, p):
    return v


@op("val")
def op_val_use(env, v, p):
    import sympy
    from einsteinpy.bodies import Body
    from einsteinpy.utils.dual import DualNumber
    if isinstance(v, sympy.Symbol):
        return [v.descriptive_name, v.name, sympy.diff(v ** 2, v), v == v + 0, v + 1]
    if isinstance(v, DualNumber):
        return [v * v - 3 / v, v == DualNumber(v.val, v.deriv), str(v)]
    if isinstance(v, Body):
        return [str(v), v.mass * 2, v.q, v.R, v.parent.name if v.parent else None]
    if isinstance(v, sympy.Basic):
        return sorted((s.name, s.descriptive_name) for s in v.free_symbols)
    return [v * 2, str(v)]


# ---- objects built (and computed) inside an operation
@build("lab")
def _b_lab(env, s):
    return None


def _lab_geo_gen(rng, w, i):
    return {"s": dict(gen_geo(rng), sh=rng.choice([0, 1, 1]))}


@op("lab", gen=_lab_geo_gen)
def op_lab_geo(env, o, p):
    g = _b_geo(env, p["s"])
    return [g, g.trajectory]


def _lab_gint_gen(rng, w, i):
    g = gen_geo(rng)
    return {"s": dict(g, k="gint", sh=rng.choice([0, 1, 1])), "n": rng.choice([1, 2, 3])}


@op("lab", gen=_lab_gint_gen)
def op_lab_gint(env, o, p):
    g = _b_gint(env, p["s"])
    for _ in range(p["n"]):
        g.step()
    return g


def gen_rk(rng):
    s = {"k": "rk", "m": rng.choice(["45", "n"]), "f": rng.choice(sorted(RKS)), "t0": rng.choice([0.0, 0.5, -1.0]),
         "h": rng.choice([0.1, 0.03, 0.4])}
    s["tb"] = s["t0"] + rng.choice([1.0, 0.45, -0.8, 2.0])
    return s


@op("lab", gen=lambda rng, w, i: {"s": dict(gen_rk(rng), sh=rng.choice([0, 1])), "n": rng.choice([1, 3, 9])})
def op_lab_rk(env, o, p):
    g = _b_rk(env, p["s"])
    out = []
    for _ in range(p["n"]):
        g.step()
        out.append([g.t, g.y])
    return [g, out]


# ---- calls a user gets wrong: every one of them raises
def _bad(n):
    return lambda rng, w, i: {"v": rng.randrange(n)}


@op("met", gen=_bad(20), tags=("bad",), name="bad")
def op_met_bad(env, m, p):
    import einsteinpy.symbolic as S
    v, n = p["v"], m.dims
    s = list(m.symbols())
    if v == 0:
        return m.change_config("ulu")
    if v == 1:
        return S.MetricTensor(env.keep([[1, 0], [0, 1]]), env.keep(s[:2]), config="lll")
    if v == 2:
        return S.MetricTensor(env.keep([[1, 0], [0, 1]]), "xy")
    if v == 3:
        return S.BaseRelativityTensor(env.keep([[1, 0], [0, 1], [0, 0]]), env.keep(s[:2]), config="lu")
    if v == 4:
        return m.lorentz_transform(env.keep([[1, 0]] * (n + 1)))
    if v == 5:
        return m.tensor_lambdify(*s[:1])[1](1.0, 2.0, 3.0, 4.0, 5.0, 6.0)
    if v == 6:
        return S.SchoutenTensor.from_metric(m) if n == 2 else m.tensor()[99, 99]
    if v == 7:
        return S.ChristoffelSymbols(env.keep([[[0] * n for _ in range(n)] for _ in range(n)]), s, config="ull",
                                    parent_metric=None).change_config("lll")
    if v == 8:
        from einsteinpy.symbolic.tensor import tensor_product
        return tensor_product(m, m, 1, 1)
    if v == 9:
        return S.GenericVector(env.keep([[1] * n] * n), s, config="u", parent_metric=m)
    if v < 18:      # one index too many, a letter that is none
        c = [S.ChristoffelSymbols, S.RiemannCurvatureTensor, S.RicciTensor, S.EinsteinTensor, S.StressEnergyMomentumTensor,
             S.SchoutenTensor, S.WeylTensor, S.GenericVector][v - 10]
        return c(env.keep([[[1] * n] * n] * n) if v != 10 else env.keep([[1] * n] * n), s, config="ullu" if v % 2 else "x",
                 parent_metric=m)
    if v == 18:
        return S.GenericVector(env.keep([1] * n), s, config="u", parent_metric=None).change_config("l")
    return S.Tensor("not a tensor", config="l")


@op("ten vec bt", gen=_bad(3), tags=("bad",), name="bad")
def op_ten_bad(env, t, p):
    v = p["v"]
    if v == 0:
        return t.change_config("q" * max(1, t.order)) if hasattr(t, "change_config") else t.lorentz_transform([[1]])
    if v == 1:
        return t.lorentz_transform(env.keep([[1]])) if t.order else t.tensor()[0, 0]
    return t.tensor_lambdify("no symbol", 3)[1](1)


@op("num", gen=_bad(5), tags=("bad",), name="bad")
def op_num_bad(env, m, p):
    v = p["v"]
    if v == 0:
        return m.metric_covariant(env.keep([1.0, 2.0]))
    if v == 1:
        return m.metric_contravariant("text")
    if v == 2:
        return m.metric_contravariant(env.keep([0.0, None, 1.0, 2.0]))
    if v == 3:
        return type(m)(coords=m.coords, M=3.0)
    return type(m)(coords=m.coords, M=3.0, a=2, nonsense=1)


@op("coord", gen=_bad(6), tags=("bad",), name="bad")
def op_coord_bad(env, c, p):
    from astropy import units as u
    v = p["v"]
    if v == 0:
        names = [n for n in ("to_bl", "bl_differential") if hasattr(c, n)] or ["to_cartesian", "cartesian_differential"]
        f = [getattr(c, n) for n in names if hasattr(c, n)][0]
        return f(M=3 * u.kg) if c.system != "Spherical" else f(a=1 * u.one)
    if v == 1:
        return type(c)(1 * u.kg, 2 * u.m, 3 * u.m, 4 * u.m)
    if v == 2:
        return type(c)(1.0, 2.0)
    if v == 3:
        return c.nonsense
    if v == 4:
        return c.velocity(metric=None) if hasattr(c, "velocity") else c.position(1)
    return c.to_cartesian(1, 2, 3) if hasattr(c, "to_cartesian") else c.cartesian_differential(1, 2, 3)


@op("mod", gen=_bad(12), tags=("bad",), name="bad")
def op_mod_bad(env, o, p):
    import numpy as np
    from astropy import units as u
    import einsteinpy.symbolic as S
    from einsteinpy.bodies import Body
    from einsteinpy.geodesic import Geodesic, Timelike
    from einsteinpy.hypersurface import SchwarzschildEmbedding
    from einsteinpy.integrators import GeodesicIntegrator
    from einsteinpy.rays import Shadow
    from einsteinpy.utils import scalar_factor
    from einsteinpy.utils.dual import DualNumber, _jacobian_g
    from einsteinpy.geodesic.utils import _kerr
    v = p["v"]
    if v == 0:
        return Geodesic(metric="Nope", metric_params=env.keep([0.0]), position=env.keep([9, 1, 0]), momentum=env.keep([0, 0, 4]))
    if v == 1:
        return Timelike(metric="Kerr", metric_params=env.keep((0.3,)), position=env.keep([9, 1, 0]),
                        momentum=env.keep([0, 0, 4]), steps=2, delta=1, order=3)
    if v == 2:
        return GeodesicIntegrator(metric=_kerr, metric_params=env.keep((0.3,)), q0=env.keep(np.ones(4)),
                                  p0=env.keep(np.ones(4)), order=5)
    if v == 3:
        return scalar_factor(env.keep(3 * u.s), era="zz")
    if v == 4:
        return _jacobian_g(_kerr, env.keep((0.7,)), env.keep(np.array([0.0, 9.0, 1.1, 0.3])), 7)
    if v == 5:
        return Shadow(mass=env.keep(1 * u.km), n_rays=4, fov=3 * u.km)
    if v == 6:
        return SchwarzschildEmbedding(env.keep(3 * u.m))
    if v == 7:
        return Body(name="x", mass=env.keep(3 * u.kg), R=env.keep(1 * u.kg), coords=None, nope=1)
    if v == 8:
        return DualNumber(1.0, 2.0) ** "x"
    if v == 9:
        return S.get_constant("no such constant")
    if v == 10:
        from einsteinpy.symbolic import predefined as pd
        return pd.get(("nothing",))
    from einsteinpy.symbolic.helpers import TransformationMatrix
    return TransformationMatrix(env.keep([[[1]]]), env.keep([1]), env.keep([2]))


def _new_gen(rng, w, i):
    k = rng.choice(["shadow", "shadow", "emb", "body", "coord", "num", "bt", "met", "vec", "tm", "num"])
    if k == "shadow":
        return {"w": [{"k": k, "v": rng.randrange(3)}], "f": rng.choice([0, 1])}
    if k == "emb":
        return {"w": [{"k": k, "v": rng.randrange(3)}]}
    if k == "body":
        return {"w": [{"k": k, "v": rng.randrange(3), "full": rng.randrange(2)}]}
    for _ in range(50):
        x = gen_num_world(rng) if k in ("coord", "num") else gen_sym_world(rng, n_met=1, big=0.0)
        j = [j for j, s in enumerate(x) if s["k"] == k]
        if j:
            j = rng.choice(j)
            idx = _ids_of(x, {"o": j})
            m = {a: b for b, a in enumerate(idx)}
            # names of objects of this world, not of the run's
            return {"w": [{q: {"at": v["ref"]} if isinstance(v, dict) and set(v) == {"ref"} else v
                           for q, v in _renumber(x[a], m).items()} for a in idx]}
    return None


@op("mod emb shadow lab", gen=_new_gen)
def op_new(env, o, p):
    """An object built from nothing, and the objects it needs, in this very call."""
    w = [{k: ({"ref": v["at"]} if isinstance(v, dict) and set(v) == {"at"} else v) for k, v in s.items()} for s in p["w"]]
    e = Env([])
    e.specs, e.kept, e.track, e.shared = w, env.kept, env.track, {}
    for s in w:
        e.objs.append(BUILD[s["k"]](e, s))
    x = e.objs[-1]
    if p.get("f"):
        x.smoothen(points=21)
    return x


@op("mod")
def op_constants(env, o, p):
    """The package's public constants."""
    import einsteinpy.constant as k
    return {n: v for n, v in sorted(vars(k).items()) if not n.startswith("_") and hasattr(v, "unit")}


def twin(rng, w, j):
    """Another object much like w[j]."""
    s = dict(w[j])
    k = s["k"]
    if k == "met":
        d = dims_of(s)
        s["n"] = rng.choice([n for n in CHEAP + SMALL + ["Minkowski", "MinkowskiPolar"] if dims_of({"n": n}) == d])
    elif k == "bt":
        s.update(_vars(rng)) if rng.random() < 0.7 else s.update(
            c=rng.choice(["ll", "ul", "uu"]))
    elif k == "vec":
        s.update(rng.choice([{"v": 1 - s["v"]}, {"c": rng.choice("ul")}]))
    elif k == "ten":
        o = [i for i in others(w, "met") if dims_of(w[i]) == dims_of(w[s["m"]["ref"]]) and derivable(s["t"], w[i]["n"])]
        s["m"] = {"ref": rng.choice(o)}
    elif k == "num":
        s.update(rng.choice([{"v": rng.randrange(3)}, {"p": 1 - s.get("p", 0)}]))
    elif k == "coord":
        s.update(rng.choice([{"v": rng.randrange(3)}, {"d": not s["d"]}]))
    elif k == "t0":
        s["v"] = 1 - s["v"]
    elif k == "tm":
        s["v"] = rng.randrange(3)
    else:
        return None
    return s

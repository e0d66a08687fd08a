"""C14: the same results without the just-in-time compiler."""
import hashlib
import json
import math
import random
import warnings

from sim import boot, canon, serve, world

ID = "C14"
TECHNIQUE = "failing import of the compiler, results compared between two server processes"
LEVEL = "exploration"
RUNS = {"quick": 30000, "thorough": 120000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": True}
NUMBA = True
INSTRUMENT = False
RULE = ("One run: a process in which importing numba fails (absent, or present but broken) imports einsteinpy's modules in a "
        "seeded order, or makes 1 to 6 calls of functions that are compiled elsewhere, with seeded arguments; warnings of the "
        "import are counted and the values compared with those of a process with the compiler. Non-trivial: the compiled "
        "functions were really compiled in the reference and plain Python in the other. Distinct by calls and arguments.")
DISTINCT = "hash of the calls with their arguments, or of the import order"
SIM_TIME = "none: the property has no clock"
REAL = ["einsteinpy (all of it)", "numba in the reference process", "separate CPython processes without numba"]
STUBS = ["the failure of `import numba` (module blocked, or its import raises)"]
ASSUME = ["values agree to 1e-9 relative to the largest number of the same component kind",
          "inputs at which the compiled function raises (division by zero on an axis) are not valid inputs"]
servers = {}
down = {}       # processes in which importing einsteinpy failed, and how
SERVED = ["no-numba", "broken-numba"]


def setup(tmp, tier):
    for m in SERVED:
        servers[m] = serve.Server(tmp, m, "0", m)
        servers["bare " + m] = serve.Server(tmp, "bare-" + m, "0", "bare " + m)
    import einsteinpy.coordinates.utils as cu
    import numpy as np
    a = [np.array([1.0, 2.0])] * 8
    for n in FN:        # array signatures, compiled once
        f = getattr(cu, n, None)
        try:
            f(*a[:FN[n]])
        except Exception:
            pass
    for k, v in servers.items():
        try:
            v.ready()
        except RuntimeError as e:
            if k not in SERVED or boot.REPO_SRC not in str(e):
                raise
            down[k] = str(e).strip().splitlines()[-1]


FN = {"cartesian_to_spherical": 7, "cartesian_to_spherical_novel": 4, "cartesian_to_bl": 8, "cartesian_to_bl_novel": 5,
      "spherical_to_cartesian": 7, "spherical_to_cartesian_novel": 4, "bl_to_cartesian": 8, "bl_to_cartesian_novel": 5}
FAST = {"cartesian_to_spherical_fast": (4, 3), "cartesian_to_bl_fast": (5, 3), "spherical_to_cartesian_fast": (4, 3),
        "bl_to_cartesian_fast": (5, 3)}


def gen_args(rng, n, src):
    def length():
        return rng.choice([-1, 1]) * 10 ** rng.uniform(-2, 9)

    t = rng.choice([0.0, rng.uniform(-10, 1e4)])
    scale = 10 ** rng.uniform(-2, 9)
    if src == "car":
        pos = [scale * rng.uniform(-1, 1) for _ in range(3)]
        if rng.random() < 0.15:
            pos[rng.randrange(3)] = 0.0
    else:
        pos = [abs(scale * rng.uniform(0.1, 1)), rng.uniform(0.01, 3.13), rng.uniform(-7, 7)]
        if rng.random() < 0.1:
            pos[1] = rng.choice([0.0, math.pi / 2, math.pi])
    a = [t] + pos
    if n in (5, 8):
        a.append(rng.choice([0.0, abs(scale) * rng.uniform(0, 2)]))
    while len(a) < n:
        a.append(scale * rng.uniform(-1, 1))
    if rng.random() < 0.1:
        a = [float(int(x) % 1000 + (x > 0)) for x in a]
    elif rng.random() < 0.1:
        a = [[x, x * rng.uniform(0.5, 2), x * 0.75] for x in a]
    return a


def gen_call(rng):
    r = rng.random()
    if r < 0.45:
        n = rng.choice(sorted(FN))
        return {"f": n, "a": gen_args(rng, FN[n], "car" if n.startswith("cart") else "pol")}
    if r < 0.6:
        n = rng.choice(sorted(FAST))
        p, v = FAST[n]
        a = gen_args(rng, p + v, "car" if n.startswith("cart") else "pol")
        if isinstance(a[0], list):
            a = [x[0] for x in a]
        return {"f": n, "a": a + [True] if rng.random() < 0.6 else a[:p]}
    if r < 0.75:
        g = [[0.0] * 4 for _ in range(4)]
        for i in range(4):
            g[i][i] = (1 if i == 0 else -1) * 10 ** rng.uniform(-3, 3)
            for j in range(i):
                g[i][j] = g[j][i] = rng.choice([0.0, 10 ** rng.uniform(-6, -3)])
        return {"f": "v0", "a": [g] + [rng.uniform(-1, 1) * 10 ** rng.uniform(0, 8) for _ in range(3)]}
    if r < 0.85:
        return {"f": "_fractal_img", "kw": {"dims": [rng.randrange(1, 8), rng.randrange(1, 8)],
                                            "angle": rng.uniform(0, 6.3), "iter_max": rng.randrange(1, 70),
                                            "zabs_max": rng.choice([20, 2]), "x_range": [-1.6, rng.choice([1.6, 0.3])]}}
    if r < 0.9:
        return {"f": "decorator", "form": rng.choice(["plain", "empty", "nopython", "call"]),
                "x": rng.uniform(0.1, 9)}
    return {"f": "world", "seed": rng.randrange(10 ** 6)}


def generate(rng, i, tier):
    mode = rng.choice(SERVED)
    if rng.random() < 0.12:
        return {"mode": mode, "import": rng.randrange(10 ** 6), "ops": []}
    return {"mode": mode, "ops": [gen_call(rng) for _ in range(rng.choice([1, 3, 6]))]}


def world_ops(seed):
    rng = random.Random(seed)
    w = world.gen_num_world(rng, full=False)
    ops = []
    while len(ops) < 3:
        o = world.gen_op(rng, w, rng.randrange(len(w)), lambda q: q.name in ("convert", "velocity", "set_vt", "position"))
        if o:
            ops.append(o)
    return w, ops


def _f2(x):
    s = 0.0
    for k in range(5):
        s += x ** 2 / (1 + k)
    return s, x - 1


def do(c):
    """One call, as a nested list of numbers with shapes, or the exception's name."""
    import numpy as np
    warnings.simplefilter("ignore")
    import einsteinpy.coordinates.utils as cu
    from einsteinpy.ijit import jit
    try:
        with np.errstate(all="ignore"):
            if c["f"] == "_fractal_img":
                from einsteinpy.plotting.fractal import _fractal_img
                kw = {k: tuple(v) if isinstance(v, list) else v for k, v in c["kw"].items()}
                return plain(_fractal_img(**kw))
            if c["f"] == "decorator":
                f = {"plain": lambda: jit(_f2), "empty": lambda: jit()(_f2), "nopython": lambda: jit(nogil=True)(_f2),
                     "call": lambda: jit(_f2)}[c["form"]]()
                return plain([f(c["x"]), getattr(f, "__name__", None)])
            if c["f"] == "world":
                w, ops = world_ops(c["seed"])
                env = world.Env(w)
                out = []
                for o in ops:
                    try:
                        out.append(flat(canon.canon(world.call(env, o))))
                    except Exception as e:
                        out.append(["exc", type(e).__name__])
                return out
            a = [np.array(x) if isinstance(x, list) else x for x in c["a"]]
            return plain(getattr(cu, c["f"])(*a))
    except Exception as e:
        return ["exc", type(e).__name__]


def plain(v):
    import numpy as np
    if isinstance(v, (tuple, list)):
        return ["seq"] + [plain(x) for x in v]
    if isinstance(v, np.ndarray):
        return ["array", list(v.shape), v.dtype.kind, v.tolist()]
    if isinstance(v, (np.floating, float, int, np.integer)) and not isinstance(v, bool):
        return float(v)
    if isinstance(v, (complex, np.complexfloating)):
        return ["complex", v.real, v.imag]
    return repr(v)


def flat(c):
    """A canonical form with its numbers readable."""
    import numpy as np
    if isinstance(c, tuple):
        if c and c[0] == "nd" and len(c) == 4:
            return ["array", list(c[2]), np.frombuffer(bytes.fromhex(c[3]), dtype=c[1]).reshape(c[2]).tolist()]
        if len(c) == 2 and c[0] == "f":
            return num(c[1])
        if len(c) == 3 and c[0] == "np" and "f" in c[1]:
            return num(c[2])
        return [flat(x) for x in c]
    return c


def num(s):
    try:
        return float.fromhex(s)
    except ValueError:
        return float(s)


def agree(a, b, tol=1e-9):
    """Same shape, order and values to within rounding."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        fa, fb = [x for x in a if isinstance(x, float)], [x for x in b if isinstance(x, float)]
        if len(fa) == len(fb) and fa:
            big = max([abs(x) for x in fa if math.isfinite(x)] or [0.0])
            for x, y in zip(a, b):
                if isinstance(x, float) and isinstance(y, float):
                    if not agree(x, y, tol) and not abs(x - y) <= 1e-14 * big:
                        return False
                elif not agree(x, y, tol):
                    return False
            return True
        return all(agree(x, y, tol) for x, y in zip(a, b))
    return a == b


def do_import(seed):
    """Imports the package's modules in some order; the warnings, and whether all came."""
    import importlib
    import os
    import pathlib
    import sys

    rng = random.Random(seed)
    root = pathlib.Path(boot.REPO_SRC)
    mods = []
    for f in sorted((root / "einsteinpy").rglob("*.py")):
        p = f.relative_to(root).with_suffix("").parts
        mods.append(".".join(p[:-1] if p[-1] == "__init__" else p))
    rng.shuffle(mods)
    bad = []
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter(rng.choice(["always", "default"]))
        for m in mods:
            try:
                importlib.import_module(m)
            except Exception as e:
                bad.append([m, type(e).__name__, str(e)])
    src = os.path.realpath(str(root))
    mine = [str(w.message) for w in ws if os.path.realpath(w.filename).startswith(src) or "numba" in str(w.message)]
    return {"bad": bad, "warnings": mine, "numba": sys.modules.get("numba") is not None}


def expected(scn, oracle):
    return [oracle.get("c14" + json.dumps(c, sort_keys=True), lambda: do(c)) for c in scn["ops"]]


def simulate(scn, exp):
    viol = []
    stats = {"compiler_absent" if scn["mode"] == "no-numba" else "compiler_broken": 1}
    if "import" in scn:
        r = servers["bare " + scn["mode"]].ask("props.c14", "do_import", scn["import"])
        for m in r["bad"]:
            viol.append(("import-fails", "%s: %s: %s" % tuple(m)))
        if len(r["warnings"]) != 1:
            viol.append(("import-warnings", "%d warnings: %s" % (len(r["warnings"]), r["warnings"])))
        if r["numba"]:
            raise RuntimeError("numba is there after all")
    elif scn["mode"] in down:
        viol.append(("import-fails", "importing einsteinpy with %s: %s" % (scn["mode"], down[scn["mode"]])))
        return {"violations": viol, "log": [], "sig": scn["mode"], "stats": {"faults": stats}}
    skipped = 0
    for c, x in zip(scn["ops"], exp):
        if x[:1] == ["exc"] if isinstance(x, list) else False:
            skipped += 1
            continue
        got = servers[scn["mode"]].ask("props.c14", "do", c)
        if not agree(got, x):
            viol.append(("differs", "%s: %s without the compiler, %s with it" % (json.dumps(c), short(got), short(x))))
    sig = hashlib.sha1(json.dumps([scn.get("import"), scn["ops"]], sort_keys=True).encode()).hexdigest()[:12]
    return {"violations": viol, "log": [], "sig": sig,
            "stats": {"faults": stats, "calls": len(scn["ops"]), "invalid_inputs_skipped": skipped}}


def short(x):
    s = json.dumps(x)
    return s if len(s) < 300 else s[:300] + "..."

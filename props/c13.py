"""C13: a step outside tolerance is reported exactly once, no other is."""
import hashlib
import json
import re
import warnings

from sim import canon, user, world

ID = "C13"
TECHNIQUE = "corrupted metric evaluations during integration, against a reference stability monitor"
LEVEL = "exploration"
RUNS = {"quick": 45000, "thorough": 200000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": False}
NUMBA = True
INSTRUMENT = False
RULE = ("One run: 1 to 3 integrators, stepped alternately, or a geodesic, whose metric function returns wrong or undefined "
        "numbers at seeded evaluations or in a seeded region of space, with seeded tolerances; and the same with warnings "
        "suppressed. The norm of every recorded momentum is recomputed with an independent inverse metric and compared with "
        "the warnings of that step. Non-trivial: at least one step outside and one inside tolerance, or a corrupted "
        "evaluation. Distinct by configuration and the pattern of reported steps.")
DISTINCT = "hash of the configurations and of which steps were outside tolerance"
SIM_TIME = "affine parameter advanced by steps; see reached.steps"
REAL = ["einsteinpy.integrators, einsteinpy.geodesic, einsteinpy.utils.dual", "numpy", "warnings"]
STUBS = ["the user's metric functions and the wrong numbers they return"]
ASSUME = ["a violation within 1e-6 (relative) of the tolerance is not judged",
          "a user's metric function that is corrupted at single evaluations is not corrupted in the check itself"]


def gen_obj(rng):
    s = dict(world.gen_geo(rng), k="gint")
    s["g"] = rng.choice(["um_flat", "um_sch", "um_sch", "um_off", "um_const", "Schwarzschild", "Kerr", "KerrNewman"])
    s["order"] = rng.choice([2, 2, 2, 2, 4])
    s["delta"] = rng.choice([0.5, 1.0, 2.0, 0.1, 5.0])
    s["omega"] = rng.choice([1.0, 1.0, 0.1, 0.01])
    s["steps"] = rng.choice([1, 2, 3, 5, 10, 50])
    s["rtol"], s["atol"] = rng.choice([(1e-2, 1e-2), (1e-2, 1e-9), (1e-9, 1e-2), (1e-4, 1e-4), (1e-6, 1e-6), (1e-8, 1e-8),
                                       (0.0, 1e-5), (1e-5, 0.0), (0.0, 0.0), (1e-3, 1e-3), (0.3, 0.0), (0.0, 0.3),
                                       (1e-7, 1e-3)])
    for k in ("suppress_warnings", "cart", "sh"):
        s.pop(k, None)
    if s["g"].startswith("um_") and rng.random() < 0.6:
        v = rng.choice(["nan", "inf", "scale", "scale", "sign", "zero"])
        if rng.random() < 0.5:
            s["bad"] = {"what": v, "x": round(10 ** rng.uniform(-5, 1), 8), "step": rng.choice([1, 1, 2, 3]),
                        "frac": round(rng.random() * 0.6, 3)}
        else:
            s["bad"] = {"what": v, "x": round(10 ** rng.uniform(-5, 1), 8), "r": rng.choice([6.6, 10.2, 9.8, 15.1, 40.5, 12.0]),
                        "side": rng.choice([1, -1])}
    return s


def generate(rng, i, tier):
    n = rng.choice([1, 1, 1, 2, 3])
    objs = [gen_obj(rng)]
    while len(objs) < n:
        q = dict(objs[0])
        if rng.random() < 0.6:
            k = rng.choice(["rtol", "delta", "ic", "tl"])
            q[k] = gen_obj(rng)[k]
        else:
            q = gen_obj(rng)
        objs.append(q)
    order = [j for j in range(n) for _ in range(rng.choice([2, 4, 6, 10]))]
    if rng.random() < 0.7:
        rng.shuffle(order)
    scn = {"objects": objs, "events": [{"o": j} for j in order], "geo": rng.random() < 0.2}
    if scn["geo"]:
        for s in objs:
            if s["g"] == "um_off":
                s["g"] = "um_sch"
            if "step" in s.get("bad", {}):
                s.pop("bad")
    return scn


def spoil(b, v):
    import numpy as np
    v = np.array(v)
    if b["what"] in ("nan", "inf"):
        v = v * 1
        v[1, 1] = v[1, 1] * 0 + float(b["what"])
        return v
    if b["what"] == "scale":
        v[0, 0] = v[0, 0] * (1 + b["x"])
        return v
    if b["what"] == "zero":
        v[3, 3] = v[3, 3] * 0
        return v
    v[1, 1] = -v[1, 1]
    return v


class Bad:
    """Wrong numbers at one evaluation of one step, or wherever r is beyond a radius."""

    def __init__(self, b, evals):
        self.b, self.step, self.n, self.evals, self.hits = b, 0, 0, evals, 0
        self.x = None

    def wrap(self, f):
        b = self.b

        def g(x, *prm):
            v = f(x, *prm)
            self.n += 1
            if "step" in b:
                bad = self.step == b["step"] and self.n == 1 + int(b["frac"] * self.evals)
            else:
                r = x[1].val if hasattr(x[1], "val") else x[1]
                bad = (r - b["r"]) * b["side"] > 0
            if not bad:
                return v
            self.hits += 1
            return spoil(b, v)
        g.__name__ = f.__name__
        return g


def make(s, suppress, evals=0):
    """An integrator whose metric misbehaves as told, and the misbehaviour."""
    import numpy as np
    from einsteinpy.geodesic.utils import _P
    from einsteinpy.integrators import GeodesicIntegrator
    g, clean, prm = metric_of(s)
    bad = None
    if "bad" in s:
        bad = Bad(s["bad"], evals)
        g = bad.wrap(g)
    pos, mom = world.POS[s["ic"]], world.MOM[s["ic"]]
    q0 = np.array([0.0, *pos])
    p0 = np.array(world.P0[s["ic"]]) if s["g"] in ("um_off", "um_const") else np.array(_P(clean, prm, q0, mom, s["tl"]))
    gi = GeodesicIntegrator(metric=g, metric_params=prm, q0=q0, p0=p0, time_like=s["tl"], steps=s["steps"], delta=s["delta"],
                            rtol=s["rtol"], atol=s["atol"], order=s["order"], omega=s["omega"], suppress_warnings=suppress)
    return gi, bad


def metric_of(s):
    from einsteinpy.geodesic.utils import _kerr, _kerrnewman, _sch
    g = user.METRICS.get(s["g"]) or {"Schwarzschild": _sch, "Kerr": _kerr, "KerrNewman": _kerrnewman}[s["g"]]
    return g, g, tuple(world.GMET[s["g"]])


def norm(s, q, p):
    """g^{mn} p_m p_n, from the metric as the user's function gives it at that position."""
    import numpy as np
    g, _, prm = metric_of(s)
    b = s.get("bad")
    m = np.array(g(np.array(q, dtype=float), *prm), dtype=float)
    if b and "r" in b and (q[1] - b["r"]) * b["side"] > 0:
        m = np.array(spoil(b, m), dtype=float)
    p = np.array(p, dtype=float)
    return float(sum(m[i, j] * p[i] * p[j] for i in range(4) for j in range(4) if not m[i, j] == 0))


def judged(s, q, p):
    """True: outside tolerance; False: inside; None: too close to say."""
    import math
    with_nan = norm(s, q, p)
    if not math.isfinite(with_nan):
        return True
    const = -1.0 if s["tl"] else 0.0
    err, tol = abs(with_nan - const), s["atol"] + s["rtol"] * abs(const)
    scale = max(abs(with_nan), abs(const), 1e-30)
    import numpy as np
    big = float(np.max(np.abs(np.array(p, dtype=float)))) ** 2
    slack = 1e-6 * tol + 1e-13 * max(scale, big)
    return None if abs(err - tol) <= slack else err > tol


def step_evals(s):
    gi, _ = make({k: v for k, v in s.items() if k != "bad"}, True)
    box = [0]
    old, user.hook = user.hook, lambda n: box.__setitem__(0, box[0] + 1)
    try:
        gi.step()
    finally:
        user.hook = old
    return box[0]


def expected(scn, oracle):
    return [oracle.get("ev" + json.dumps([s["g"], s["order"], s["ic"]]), lambda: step_evals(s)) if "step" in s.get("bad", {})
            else 0 for s in scn["objects"]]


def reports(ws):
    return [str(w.message) for w in ws if issubclass(w.category, RuntimeWarning) and
            "encountered in" not in str(w.message)]


def simulate(scn, exp):
    import numpy as np
    if scn["geo"]:
        return simulate_geo(scn)
    viol, pattern = [], []
    loud, quiet = [], []
    for s, n in zip(scn["objects"], exp):
        loud.append(make(s, False, n))
        quiet.append(make(s, True, n))
    unjudged = 0
    for e in scn["events"]:
        j = e["o"]
        s = scn["objects"][j]
        for kind, (g, bad) in (("loud", loud[j]), ("quiet", quiet[j])):
            if bad:
                bad.step, bad.n = g.step_num + 1, 0
            exc = None
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    g.step()
                except Exception as ex:
                    exc = ex
            said = reports(ws)
            k = g.step_num
            what = "step %d of integrator %d %s" % (k, j, s)
            if exc is not None:
                viol.append(("raised", "%s: %s: %s" % (what, type(exc).__name__, exc)))
                break
            if kind == "quiet":
                if said:
                    viol.append(("not-suppressed", "%s: %s" % (what, said)))
                continue
            arr = np.array(g.results[-1], dtype=float)
            with np.errstate(all="ignore"):
                out = judged(s, arr[0], arr[1])
            pattern.append((j, out))
            if out is None:
                unjudged += 1
                continue
            if len(said) != int(out):
                viol.append(("missing" if out else "spurious", "%s: norm %r, tolerances %g+%g: %d reports" % (
                    what, norm(s, arr[0], arr[1]), s["rtol"], s["atol"], len(said))))
            elif out and not re.search(r"(?<![\d.])%d(?![\d]|\.\d)" % k, said[0]):
                viol.append(("wrong-step", "%s is reported as %r" % (what, said[0])))
        if viol:
            break
    for j in range(len(loud)):
        a, b = (canon.canon([np.array(r, dtype=float) for r in g.results]) for g in (loud[j][0], quiet[j][0]))
        if a != b and not viol:
            viol.append(("trajectory", "suppressing warnings changes the trajectory of integrator %d: %s" % (j, canon.diff(a, b))))
    return result(scn, viol, pattern, unjudged, sum(b.hits for _, b in loud if b))


def result(scn, viol, pattern, unjudged, hits):
    vals = {v for _, v in pattern}
    return {"violations": viol, "log": [str(pattern)],
            "sig": hashlib.sha1(json.dumps([scn["objects"], pattern]).encode()).hexdigest()[:12],
            "nontrivial": len(vals) > 1 or hits > 0,
            "stats": {"faults": {"corrupted_evaluations": hits}, "steps": len(pattern), "unjudged_steps": unjudged,
                      "steps_outside": sum(1 for _, v in pattern if v)}}


def simulate_geo(scn):
    """The same through Geodesic: the warnings of one calculation against its trajectory."""
    import numpy as np
    from einsteinpy.geodesic import Geodesic
    viol, pattern, unjudged, hits = [], [], 0, 0
    for j, s in enumerate(scn["objects"]):
        n = sum(e["o"] == j for e in scn["events"])
        if s["g"] == "um_const" or not n:
            continue
        g, clean, prm = metric_of(s)
        bad = None
        if "bad" in s:
            bad = Bad(s["bad"], 0)
            g = bad.wrap(g)
        kw = dict(metric=g if s["g"].startswith("um_") else s["g"], metric_params=prm, position=world.POS[s["ic"]],
                  momentum=world.MOM[s["ic"]], time_like=s["tl"], return_cartesian=False, steps=n, delta=s["delta"],
                  rtol=s["rtol"], atol=s["atol"], order=s["order"], omega=s["omega"])
        out = []
        for sw in (False, True):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    geo = Geodesic(suppress_warnings=sw, **kw)
                except Exception as ex:
                    out.append((reports(ws), "exc", type(ex).__name__))
                    continue
            out.append((reports(ws), geo.trajectory[1], None))
        hits += bad.hits if bad else 0
        if out[1][0]:
            viol.append(("not-suppressed", "geodesic %s: %s" % (s, out[1][0])))
        if out[0][2] or out[1][2]:
            if (out[0][2] or out[1][2]) and out[0][2] != out[1][2]:
                viol.append(("trajectory", "geodesic %s: %s with, %s without warnings" % (s, out[0][2], out[1][2])))
            continue
        tr = np.array(out[0][1], dtype=float)
        if canon.canon(out[0][1]) != canon.canon(out[1][1]):
            viol.append(("trajectory", "suppressing warnings changes the trajectory of %s" % s))
        said = list(out[0][0])
        for k in range(1, n + 1):
            with np.errstate(all="ignore"):
                o = judged(s, tr[k - 1][:4], tr[k - 1][4:])
            pattern.append((j, o))
            mine = [m for m in said if re.search(r"(?<![\d.])%d(?![\d]|\.\d)" % k, m)]
            if o is None:
                unjudged += 1
            elif len(mine) != int(o):
                viol.append(("missing" if o else "spurious", "geodesic %s: step %d reported %d times" % (s, k, len(mine))))
                break
        if len(said) > n:
            viol.append(("spurious", "geodesic %s: %d reports for %d steps" % (s, len(said), n)))
    return result(scn, viol, pattern, unjudged, hits)

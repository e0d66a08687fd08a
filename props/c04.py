"""C04: the Runge-Kutta steppers under failing right-hand sides."""
import hashlib
import json
import warnings

from sim import canon, faults, user, world

ID = "C04"
TECHNIQUE = "faults injected into ODE steps, against fault-free and exact reference step sequences"
LEVEL = "exploration"
RUNS = {"quick": 60000, "thorough": 300000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": False}
NUMBA = False
RULE = ("One run: one or two Runge-Kutta steppers (fourth-order or adaptive), forwards or backwards, are stepped to their bound "
        "and 3 steps beyond; at seeded steps the user's right-hand side raises at a chosen evaluation, a numpy call of the "
        "step fails, or the function returns undefined numbers from some time on. Every state, status and warning is "
        "compared with a fault-free run. Non-trivial: at least one fault fired. Distinct by configuration and fault sites.")
DISTINCT = "hash of the stepper configuration and the (step, outcome, fault site) sequence"
SIM_TIME = "t advanced by the steppers; see reached.t_simulated"
REAL = ["einsteinpy.integrators.RK45, RK4naive", "scipy.integrate, numpy"]
STUBS = ["the user's right-hand sides", "failures of numpy calls and of the right-hand side (injected)"]
ASSUME = ["for the fixed-step method the sign of the step size is the sign of the interval, as its documentation implies",
          "an error surfaces in the user's function or at a numeric call made by einsteinpy"]
EXC = ["UserError", "UserError", "RuntimeError", "ValueError", "KeyboardInterrupt", "MemoryError", "FloatingPointError",
       "OverflowError", "SystemExit"]


def gen_obj(rng):
    s = {"k": "rk", "m": rng.choice(["45", "45", "n"]), "f": rng.choice(sorted(world.RKS)),
         "t0": rng.choice([0.0, 0.5, -1.0, 3]), "h": rng.choice([0.1, 0.03, 0.25, 0.125, 0.4])}
    d = rng.choice([1, -1])
    s["tb"] = s["t0"] + d * rng.choice([0.5, 1.0, 1.1, 2.0, 0.75])
    if s["m"] == "n":
        s["h"] *= d
    elif rng.random() < 0.3:
        s["rtol"], s["atol"] = rng.choice([(1e-3, 1e-6), (1e-6, 1e-9)])
    if rng.random() < 0.08:
        s["tb"] = s["t0"]
        if s["m"] == "45":
            s["tb"] = s["t0"] + d * 0.45
    if rng.random() < 0.08:
        s["nan"] = [rng.choice(["nan", "inf"]), round(rng.random(), 2)]
    return s


def generate(rng, i, tier):
    objs = [gen_obj(rng)]
    if rng.random() < 0.2:
        objs.append(dict(objs[0]) if rng.random() < 0.4 else gen_obj(rng))
    fl = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        user = rng.random() < 0.8
        fl.append({"o": rng.randrange(len(objs)), "step": rng.choice([0, 0, 1, 2, 3, 5, 8]),
                   "at": "user" if user else "numpy", "k": rng.randrange(8),
                   "exc": faults.user_exc(rng) if user else rng.choice(EXC),
                   "times": rng.choice([1, 1, 2])})
    return {"objects": objs, "faults": fl}


def build(s):
    if "nan" in s:
        t_bad = s["t0"] + s["nan"][1] * (s["tb"] - s["t0"])
        d = 1 if s["tb"] >= s["t0"] else -1
        bad = float(s["nan"][0])
        inner = user.RHS[s["f"]]

        def f(t, y):
            v = inner(t, y)
            return v * 0 + bad if d * (t - t_bad) > 0 else v
        user.RHS["_bad"] = f
        return world.BUILD["rk"](world.Env([]), dict(s, rhs="_bad"))
    return world.BUILD["rk"](world.Env([]), s)


def state(g):
    return (canon.canon(g.t), canon.canon(g.y))


LIMIT = 3000


def reference(s):
    """All states of an undisturbed run to the end, with the number of steps it takes (None: never ends)."""
    g = build(s)
    out = [state(g)]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        for n in range(LIMIT):
            before = len(mine(w))
            g.step()
            if len(mine(w)) > before and state(g) == out[-1]:
                return out, n, (float(g.t), getattr(g, "status", None))
            out.append(state(g))
    return out, None, None


def mine(ws):
    return [w for w in ws if issubclass(w.category, RuntimeWarning) and "encountered in" not in str(w.message)]


def expected(scn, oracle):
    return [oracle.get("rk" + json.dumps(s, sort_keys=True), lambda: reference(s)) for s in scn["objects"]]


def simulate(scn, exp):
    warnings.simplefilter("ignore")
    viol, stats, log = [], {}, []
    gs = []
    for s in scn["objects"]:
        gs.append(build(s))
    pos = [0] * len(gs)
    t_sim = 0.0
    for j, (s, (ref, n, fin)) in enumerate(zip(scn["objects"], exp)):
        if n is None:
            viol.append(("no-end", "%s: the bound %g is not reached in %d steps" % (s, s["tb"], LIMIT)))
        elif "nan" not in s:
            t, d = fin[0], 1 if s["tb"] >= s["t0"] else -1
            if d * (t - s["tb"]) < 0 or d * (t - s["tb"]) >= abs(s["h"]) or s["m"] == "45" and t != s["tb"]:
                viol.append(("wrong-end", "%s: stops at %r, not at %r" % (s, t, s["tb"])))
            cap = abs(s["tb"] - s["t0"]) / abs(s["h"]) + 2
            if s["m"] == "n" and n > cap:
                viol.append(("no-end", "%s: takes %d steps" % (s, n)))
    if viol:
        return {"violations": viol, "log": log, "sig": "end", "stats": {}}
    left = [dict(f, left=f["times"]) for f in scn["faults"]]
    extra = [3] * len(gs)
    guard = 0
    while any(extra):
        guard += 1
        for j, g in enumerate(gs):
            if not extra[j]:
                continue
            ref, n, fin = exp[j]
            k = pos[j]
            at_end = k >= n
            f = next((f for f in left if f["o"] == j and f["left"] and f["step"] == min(k, 8)), None)
            before = state(g)
            box, inj, exc = {"fired": None}, None, None
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                try:
                    if f is None:
                        g.step()
                    elif f["at"] == "user":
                        f["left"] -= 1
                        with faults.user_fault(f["k"], f["exc"], box=box):
                            g.step()
                    else:
                        f["left"] -= 1
                        inj = faults.Injector(f["k"], f["exc"], only=faults.numpy_callee)
                        with inj:
                            g.step()
                except BaseException as e:
                    exc = e
                    if not isinstance(e, Exception) and not faults.is_injected(e):
                        raise
            fired = inj.fired if inj else box["fired"]
            what = "step %d of %s%s" % (k + 1, s_name(scn["objects"][j]), " (%s)" % f if f else "")
            after = state(g)
            if fired:
                key = f["at"] + ":" + f["exc"]
                stats[key] = stats.get(key, 0) + 1
                log.append([j, k, str(fired)])
                if exc is None:
                    viol.append(("swallowed", "%s: the error raised at %s did not reach the caller" % (what, fired)))
                elif not faults.is_injected(exc):
                    viol.append(("error-replaced", "%s: became %s" % (what, type(exc).__name__)))
                if after != before:
                    viol.append(("half-step", "%s: failed, but changed t or y: %s" % (what, canon.diff(after, before))))
            elif exc is not None:
                viol.append(("raised", "%s: raised %s: %s" % (what, type(exc).__name__, exc)))
            elif at_end:
                extra[j] -= 1
                if after != before:
                    viol.append(("beyond-bound", "%s: is past the end but changed t or y" % what))
                if len(mine(ws)) != 1 or len([w for w in ws if "encountered in" not in str(w.message)]) != 1:
                    viol.append(("warnings", "%s: is past the end and gave %d warnings" % (what, len(mine(ws)))))
            else:
                pos[j] += 1
                if after != ref[k + 1]:
                    viol.append(("wrong-state", "%s: %s" % (what, canon.diff(after, ref[k + 1]))))
                if mine(ws):
                    viol.append(("warnings", "%s: is before the end but warned: %s" % (what, mine(ws)[0].message)))
            if viol:
                break
        if viol or guard > 2 * LIMIT:
            break
    for g, s in zip(gs, scn["objects"]):
        t_sim += abs(float(g.t) - s["t0"])
    sig = hashlib.sha1(json.dumps([scn["objects"], log], sort_keys=True).encode()).hexdigest()[:12]
    return {"violations": viol, "log": log, "sig": sig, "nontrivial": bool(stats),
            "stats": {"faults": stats, "steps": sum(pos), "t_simulated": t_sim,
                      "undefined_rhs": sum("nan" in s for s in scn["objects"])}}


def s_name(s):
    return "%s(%s, %s..%s, %s)" % ("RK45" if s["m"] == "45" else "RK4naive", s["f"], s["t0"], s["tb"], s["h"])


"""C03: a geodesic step is recorded once and whole, or not at all."""
import hashlib
import json
import warnings

from sim import canon, faults, user, world

ID = "C03"
TECHNIQUE = "faults injected into integration steps, against the fault-free step sequence"
LEVEL = "exploration"
RUNS = {"quick": 30000, "thorough": 150000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": False}
NUMBA = True
RULE = ("One run: 1 or 2 geodesic integrators (or a geodesic whose trajectory is recalculated) make 3 to 9 step attempts; "
        "seeded attempts meet a fault: the metric function raises at a chosen evaluation, a numpy call of the step fails, "
        "warnings or floating-point errors are turned into exceptions. After every attempt the recorded results, counter "
        "and current state are compared with each other, with the past and with a fault-free run. Non-trivial: at least one "
        "fault fired. Distinct by configuration, outcomes and fault sites.")
DISTINCT = "hash of the integrator configuration and the (attempt, outcome, fault site) sequence"
SIM_TIME = "affine parameter advanced by steps; see reached.steps"
REAL = ["einsteinpy.integrators, einsteinpy.geodesic, einsteinpy.utils.dual", "numpy"]
STUBS = ["the user's metric functions", "failures of numpy calls and of the metric function (injected)"]
ASSUME = ["an interrupt arrives inside the metric function or as a failed numeric call, not between two adjacent bytecodes of the "
          "recording itself"]
NUM_EXC = ["FloatingPointError", "MemoryError", "LinAlgError", "KeyboardInterrupt"]


def gen_spec(rng):
    s = dict(world.gen_geo(rng), k="gint")
    s["g"] = rng.choice(["um_flat", "um_sch", "um_sch", "um_off", "um_const", "Schwarzschild", "Kerr", "KerrNewman"])
    s["order"] = 2 if s["g"] not in ("um_const", "um_off") else rng.choice([2, 2, 2, 2, 4, 4, 6, 8 if s["g"] == "um_const" else 6])
    if s["g"] in ("um_flat", "um_sch") and rng.random() < 0.2:
        s["order"] = 4
    s["suppress_warnings"] = rng.random() < 0.25
    s["rtol"], s["atol"] = rng.choice([(1e-2, 1e-2), (1e-4, 1e-6), (0.0, 0.0), (1e-9, 1e-12), (1e-2, 0.0)])
    s.pop("cart", None)
    s["steps"], s["delta"] = 3, rng.choice([0.5, 1.0])
    s["sh"] = rng.choice([0, 1])
    return s


def gen_fault(rng, s):
    r = rng.random()
    mine = s["g"].startswith("um_")
    if mine and r < 0.5:
        f = {"at": "user", "exc": faults.user_exc(rng)}
    elif r < 0.75:
        f = {"at": "numpy", "exc": rng.choice(NUM_EXC)}
    else:
        return {"at": "warn"} if r < 0.93 else {"at": "fp"}
    f["frac"] = round(rng.choice([rng.random(), rng.random(), 0.9 + 0.1 * rng.random(), 0.9999, 0.0]), 4)
    return f


def generate(rng, i, tier):
    objs = [gen_spec(rng)]
    if rng.random() < 0.25:
        objs.append(dict(objs[0], sh=1) if rng.random() < 0.5 else gen_spec(rng))
    ev = []
    for _ in range(rng.choice([3, 4, 5, 6, 9])):
        j = rng.randrange(len(objs))
        e = {"o": j}
        if rng.random() < 0.55:
            e["fault"] = gen_fault(rng, objs[j])
        ev.append(e)
    scn = {"objects": objs, "events": ev}
    if rng.random() < 0.2:
        g = dict(objs[0], k="geo", steps=rng.choice([1, 2, 3]))
        if g["g"] == "um_off":
            g["g"] = "um_sch"
        g["order"] = 2
        return {"objects": [g], "events": ev, "geo": True}
    return scn


def _rec(x):
    import numpy as np
    return canon.canon([np.array(v, dtype=float) for v in x])


def reference(s, n):
    """n undisturbed steps; and how many evaluations and numpy calls one step makes."""
    import numpy as np
    warnings.simplefilter("ignore")
    env = world.Env([s])
    g = env.objs[0]
    box = {}
    out, counts = [], []
    if s["k"] == "geo":
        with faults.user_fault(None, box=box):
            with faults.Injector(only=faults.numpy_callee) as inj:
                t = g.calculate_trajectory(**world.gkw(s))
        return [canon.canon(t)], [(box["n"], inj.count)]
    for k in range(n):
        if k:
            g.step()
        else:
            with faults.user_fault(None, box=box):
                with faults.Injector(only=faults.numpy_callee) as inj:
                    g.step()
            counts.append((box["n"], inj.count))
        out.append(_rec(np.array(g.results[-1], dtype=float)))
    return out, counts


def expected(scn, oracle):
    out = []
    for j, s in enumerate(scn["objects"]):
        n = sum(e["o"] == j for e in scn["events"])
        n = 3 if n <= 3 else 6 if n <= 6 else 9
        out.append(oracle.get("ref" + json.dumps([s, n], sort_keys=True), lambda: reference(s, n)))
    return out


def with_fault(f, counts, call, stats):
    """Runs call() under fault f; returns (outcome, fired, exception)."""
    import numpy as np
    box, inj = {"fired": None}, None
    exc = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if f is None:
                call()
            elif f["at"] == "user":
                k = min(counts[0] - 1, int(f["frac"] * counts[0])) if counts[0] else 10 ** 9
                with faults.user_fault(k, f["exc"], box=box):
                    call()
            elif f["at"] == "numpy":
                k = min(counts[1] - 1, int(f["frac"] * counts[1])) if counts[1] else 10 ** 9
                inj = faults.Injector(k, f["exc"], only=faults.numpy_callee)
                with inj:
                    call()
            elif f["at"] == "warn":
                warnings.simplefilter("error")
                call()
            else:
                with np.errstate(all="raise"):
                    call()
        except BaseException as e:
            exc = e
            if not faults.is_injected(e) and not isinstance(e, Exception):
                raise
    fired = (inj.fired if inj else box["fired"])
    if f is not None and (fired or exc is not None):
        k = f["at"] + ":" + f.get("exc", "error")
        stats[k] = stats.get(k, 0) + 1
    return fired, exc


def simulate(scn, exp):
    import numpy as np
    warnings.simplefilter("ignore")
    env = world.Env(scn["objects"])
    viol, stats, log = [], {}, []
    if scn.get("geo"):
        return simulate_geo(scn, exp, env)
    past = [[] for _ in env.objs]
    start = [_rec(g.res_list) for g in env.objs]
    steps = 0
    for n, e in enumerate(scn["events"]):
        j = e["o"]
        g, (ref, counts) = env.objs[j], exp[j]
        before = g.step_num
        fired, exc = with_fault(e.get("fault"), counts[min(before, len(counts) - 1)], g.step, stats)
        log.append([j, type(exc).__name__, str(fired)])
        what = "attempt %d (step %d of integrator %d, %s)" % (n, before + 1, j, e.get("fault"))
        if fired and exc is None:
            viol.append(("swallowed", "%s: the error raised at %s did not reach the caller" % (what, fired)))
        elif fired and not faults.is_injected(exc):
            viol.append(("error-replaced", "%s: %s became %s" % (what, fired, type(exc).__name__)))
        elif exc is not None and not fired and e.get("fault", {}).get("at") not in ("warn", "fp"):
            viol.append(("raised", "%s raised %s: %s" % (what, type(exc).__name__, exc)))
        for q, h in enumerate(env.objs):
            d = h.step_num - len(past[q])
            if q != j and d != 0:
                viol.append(("other-changed", "%s: integrator %d went from %d to %d steps" % (what, q, len(past[q]), h.step_num)))
                continue
            if d not in (0, 1) or (q == j and exc is None and d != 1):
                viol.append(("counter", "%s: the counter went from %d to %d" % (what, len(past[q]), h.step_num)))
            if len(h.results) != h.step_num:
                viol.append(("disagree", "%s: %d recorded results but step_num is %d" % (what, len(h.results), h.step_num)))
            got = [_rec(np.array(r, dtype=float)) for r in h.results]
            cur = _rec(h.res_list)
            last = got[-1] if got else start[q]
            if not _eq(cur, last):
                viol.append(("disagree", "%s: the current state is not the last recorded one" % what))
            if got[:len(past[q])] != past[q]:
                viol.append(("rewritten", "%s: an earlier record changed" % what))
            for k, r in enumerate(got):
                if k < len(exp[q][0]) and r != exp[q][0][k]:
                    viol.append(("wrong-state", "%s: step %d differs from a run without faults: %s" % (
                        what, k + 1, canon.diff(r, exp[q][0][k]))))
                    break
            past[q] = got
        steps += exc is None
        if viol:
            break
    return {"violations": viol, "log": log, "sig": _sig(scn, log), "nontrivial": bool(stats),
            "stats": {"faults": stats, "steps": steps, "attempts": len(scn["events"])}}


def _eq(a, b):
    """Same numbers, whatever holds them."""
    return _nums(a) == _nums(b)


def _nums(c):
    if isinstance(c, tuple) and len(c) == 4 and c[0] == "nd":
        return [c[3]]
    if isinstance(c, tuple):
        return [x for q in c for x in _nums(q)]
    return []


def _sig(scn, log):
    return hashlib.sha1(json.dumps([scn["objects"], log], sort_keys=True).encode()).hexdigest()[:12]


def simulate_geo(scn, exp, env):
    """The same faults while a geodesic's trajectory is recalculated."""
    g, (ref, counts) = env.objs[0], exp[0]
    kw = world.gkw(scn["objects"][0])
    viol, stats, log = [], {}, []
    stored = canon.canon(g.trajectory)
    for n, e in enumerate(scn["events"]):
        box = []
        fired, exc = with_fault(e.get("fault"), counts[0], lambda: box.append(g.calculate_trajectory(**kw)), stats)
        log.append([type(exc).__name__, str(fired)])
        what = "calculation %d (%s)" % (n, e.get("fault"))
        if fired and exc is None:
            viol.append(("swallowed", "%s: the error raised at %s did not reach the caller" % (what, fired)))
        elif exc is None and canon.canon(box[0]) != ref[0]:
            viol.append(("wrong-state", "%s: %s" % (what, canon.diff(canon.canon(box[0]), ref[0]))))
        elif exc is not None and not fired and e.get("fault", {}).get("at") not in ("warn", "fp"):
            viol.append(("raised", "%s raised %s: %s" % (what, type(exc).__name__, exc)))
        if canon.canon(g.trajectory) != stored:
            viol.append(("rewritten", "%s changed the stored trajectory" % what))
        if viol:
            break
    return {"violations": viol, "log": log, "sig": _sig(scn, log), "nontrivial": bool(stats),
            "stats": {"faults": stats, "recalculations": len(scn["events"])}}


def shrinks(scn):
    from sim import run
    for k, e in enumerate(scn["events"]):
        if e.get("fault"):
            ev = list(scn["events"])
            ev[k] = {"o": e["o"]}
            yield dict(scn, events=ev)
    if len(scn["objects"]) > 1:
        for j in range(len(scn["objects"])):
            ev = [dict(e, o=0) for e in scn["events"] if e["o"] == j]
            if ev:
                yield dict(scn, objects=[scn["objects"][j]], events=ev)
    ev = scn["events"]
    for k in range(len(ev)):
        if len(ev) > 1:
            yield dict(scn, events=ev[:k] + ev[k + 1:])


assert user

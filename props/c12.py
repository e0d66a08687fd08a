"""C12: a computation does not depend on what happened before it, on caches or on the hash seed."""
import json
import warnings

from sim import canon, faults, serve, world
from . import cuts
from .threads import compare, name_of, tol

ID = "C12"
TECHNIQUE = "seeded histories, faults, cache clearing and hash seeds, against pristine processes"
LEVEL = "exploration"
RUNS = {"quick": 12500, "thorough": 60000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": True}
NUMBA = True
PRUNE = True
RULE = ("One run: a seeded history of 1 to 8 operations (some rejected, some cut short by an injected interrupt, failed "
        "allocation or user error, with sympy's cache cleared in between), then 1 to 3 questions whose answers, variable "
        "and argument order, names, exceptions and warnings must equal those of a process that starts with the question, "
        "started with another string-hash seed. Non-trivial: the history was not empty. Distinct by history, outcomes "
        "and questions.")
DISTINCT = "hash of the (operation, outcome, fault site) sequence of history and questions"
SIM_TIME = "none: the property has no clock"
REAL = ["einsteinpy (symbolic, metric, coordinates, geodesic, integrators, utils, rays, hypersurface)", "sympy and its cache",
        "separate CPython processes with PYTHONHASHSEED 0, 1, 77 and 4242"]
STUBS = ["the user's own functions", "delivery of interrupts and failed allocations (sys.monitoring call events)"]
ASSUME = ["expressions are compared mathematically (exactly or at random points), everything else exactly; the output of "
          "generated numeric functions to 1e-9"]
SEEDS = ["1", "77", "4242"]
servers = {}
SKIP = {"text"}


def setup(tmp, tier):
    for s in SEEDS:
        servers[s] = serve.Server(tmp, "h" + s, s)
    for v in servers.values():
        v.ready()


def _world(rng):
    r = rng.random()
    if r < 0.6:
        w = world.gen_sym_world(rng, n_met=rng.choice([1, 2]))
        w.append({"k": "mod"})
    elif r < 0.85:
        w = world.gen_num_world(rng)
    else:
        w = []
    if not w or rng.random() < 0.2:
        for _ in range(rng.choice([1, 2])):
            k = rng.random()
            if k < 0.4:
                w.append(dict(world.gen_geo(rng), k="gint", suppress_warnings=False))
            elif k < 0.7:
                w.append(world.gen_geo(rng, warn=True))
            else:
                w.append(world.gen_rk(rng))
    return w


def pick(rng, w, focus, q=False, theme=None):
    for k in range(1000):
        j = focus if focus is not None and rng.random() < (0.9 if theme else 0.55) else rng.randrange(len(w))
        o = world.gen_op(rng, w, j, lambda p: p.name not in SKIP and not (q and p.mut) and (
            not theme or k > 60 or p.name in theme))
        if o:
            return o


def gen_theme(rng, w, focus):
    """A few related operations, so that they meet often."""
    if rng.random() < 0.3 and any(s["k"] == "mod" for s in w):
        return [s["k"] for s in w].index("mod"), ["get_constant", "new_constant", rng.choice(["predefined", "find"])]
    j = focus if focus is not None else rng.randrange(len(w))
    names = sorted(n for (k, n) in world.OPS if k == w[j]["k"] and n not in SKIP)
    return j, rng.sample(names, min(len(names), rng.choice([2, 3])))


def gen_order(rng):
    """What could come out of a set: orders of variables, functions and arguments, after hardly any history."""
    w = world.gen_sym_world(rng, n_met=1)
    if rng.random() < 0.5:
        w.append(dict({"k": "bt", "m": {"ref": 0}, "c": "ll"}, **world._vars(rng)))
    j = len(w) - 1
    q = [world.gen_op(rng, w, j, lambda p: p.name not in SKIP and not p.mut and p.name in ("attrs", "whole", "lambdify"))
         or pick(rng, w, j, q=True) for _ in range(2)]
    return {"objects": w, "events": [{"call": pick(rng, w, None)}], "probes": q, "same": rng.random() < 0.3,
            "hash": rng.choice(SEEDS)}


def applicable(rng, w, j):
    """The operations that make sense on object j."""
    return {n for (k, n), p in world.OPS.items() if k == w[j]["k"] and p.gen(rng, w, j) is not None}


def generate(rng, i, tier):
    if rng.random() < 0.15:
        return gen_order(rng)
    w = _world(rng)
    focus = rng.randrange(len(w)) if rng.random() < 0.5 else None
    theme = None
    if rng.random() < 0.4:
        focus, theme = gen_theme(rng, w, focus)
    pair = None
    if rng.random() < 0.35:     # two objects much alike, asked the same
        focus = rng.choice([j for j in range(len(w)) if w[j]["k"] != "met"] or [0]) if rng.random() < 0.8 else focus
        t = world.twin(rng, w, focus) if focus is not None else None
        if t:
            w.append(t)
            pair = focus, len(w) - 1
    ev = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 8])):
        e = {"call": pick(rng, w, focus, theme=theme)}
        if rng.random() < 0.2:
            at = "user" if rng.random() < 0.3 else "call"
            e["cut"] = {"at": at, "frac": round(rng.random(), 4),
                        "exc": faults.user_exc(rng) if at == "user" else rng.choice(cuts.CUTS)}
        if rng.random() < 0.12:
            e["clear"] = 1
        ev.append(e)
    # the questions are put to objects of their own, so edits made on purpose do not count
    q = [pick(rng, w, focus, q=True, theme=theme) for _ in range(rng.choice([1, 1, 2, 3]))]
    if pair:
        a, b = pair if rng.random() < 0.5 else pair[::-1]
        for k in range(1 if rng.random() < 0.5 else 2):
            few = rng.random() < 0.3    # what a helper might remember by a printed form
            o = world.gen_op(rng, w, a, lambda p: p.name not in SKIP and not p.mut and (
                not few or p.name in ("simplify", "lambdify", "subs")))
            o2 = dict(o, o=b) if o else None
            if o2 and (o2["op"] in applicable(rng, w, b)):
                ev.insert(rng.randrange(len(ev) + 1), {"call": o})
                q.append(o2)
    elif rng.random() < 0.5:
        e = rng.choice(ev)["call"]
        if not world.OPS[(w[e["o"]]["k"], e["op"])].mut:
            q[0] = e
    return {"objects": w, "events": ev, "probes": q, "same": rng.random() < 0.4, "hash": rng.choice(SEEDS)}


def remote_solo(specs, o):
    from sim import run
    return run.solo(specs, o)


def _mutated(scn):
    return {e["call"]["o"] for e in scn["events"] if
            world.OPS[(scn["objects"][e["call"]["o"]]["k"], e["call"]["op"])].mut
            or e["call"]["op"] in ("set_vt", "velocity")}


def expected(scn, oracle):
    out = []
    for o in scn["probes"]:
        s, q = world.closure(scn["objects"], o)
        out.append(oracle.get("h%s" % scn["hash"] + json.dumps([s, q], sort_keys=True),
                              lambda: servers[scn["hash"]].ask("props.c12", "remote_solo", s, q)))
    return {"probes": out,
            "n": [cuts.calls_of(scn, e["call"], oracle) if "cut" in e else None for e in scn["events"]]}


def warned(ws):
    return sorted((w for w in ws if w[0] not in ("DeprecationWarning", "PendingDeprecationWarning", "ResourceWarning",
                                                 "SymPyDeprecationWarning", "ImportWarning")))


def simulate(scn, exp):
    import sympy.core.cache as sc
    env = world.Env(scn["objects"])
    viol, stats, log = [], {}, []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for e, n in zip(scn["events"], exp["n"]):
            if e.get("clear"):
                sc.clear_cache()
                stats["cache_clear"] = stats.get("cache_clear", 0) + 1
            if "cut" in e:
                got = cuts.cut_call(env, e, n, stats)
                log.append([e["call"]["op"], str(got)[:80] if got else None])
            else:
                try:
                    world.call(env, e["call"])
                    log.append([e["call"]["op"], "ok"])
                except Exception as ex:
                    log.append([e["call"]["op"], type(ex).__name__])
    bad = _mutated(scn)
    for o, x in zip(scn["probes"], exp["probes"]):
        s, q = world.closure(scn["objects"], o)
        reuse = scn["same"] and not ({o["o"]} | set(world._ids_of(scn["objects"], o))) & bad
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            env2 = env if reuse else world.Env(s)
            del caught[:]
            try:
                got = ("ok", canon.canon(world.call(env2, o if reuse else q)))
            except Exception as ex:
                got = ("exc", type(ex).__name__)
            ws = [(c.category.__name__, str(c.message)) for c in caught]
        log.append(["?", o["op"], got[0]])
        d = compare(got, x, tol(o))
        if d:
            viol.append(("depends-on-history", "%s, %s: %s" % (
                name_of(scn, o), "after the history" if reuse else "on new objects after the history", d)))
        elif warned(ws) != warned(x[-1]):
            viol.append(("warnings", "%s: warnings %s instead of %s" % (name_of(scn, o), warned(ws), warned(x[-1]))))
    import hashlib
    stats["other_hash_seed"] = 1
    return {"violations": viol, "log": log, "nontrivial": bool(scn["events"]),
            "sig": hashlib.sha1(repr([log, scn["probes"], scn["hash"]]).encode()).hexdigest()[:12],
            "stats": {"faults": stats, "calls": len(log)}}

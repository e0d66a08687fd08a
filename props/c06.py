"""C06: simultaneous integrations."""
import json
import warnings

from sim import run, world
from . import threads
from .c05 import straight
from .threads import simulate  # noqa: F401

ID = "C06"
TECHNIQUE = "seeded bytecode-level thread schedules over concurrent integrations, against runs alone"
LEVEL = "exploration"
RUNS = {"quick": 12500, "thorough": 60000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": True}
NUMBA = True
hang_is_violation = True
RULE = ("One run: 2 to 4 geodesic integrators, geodesics and Runge-Kutta steppers, some built and some only stepped while the "
        "others are under way, sharing metric functions, parameter and initial-data arrays, advanced in 2 to 4 threads under "
        "a seeded bytecode-level scheduler, or alternately in one thread. Non-trivial: at least one preemption inside "
        "einsteinpy code or at least two alternations. Distinct by the sequence of control transfers and operations.")
DISTINCT = "hash of the (thread, function:line+offset) sequence of all control transfers, with the operations of the run"
SIM_TIME = "integration parameter (affine parameter or t) advanced by steps; reported under reached.steps"
REAL = ["einsteinpy.integrators, geodesic, utils.dual, coordinates", "numpy, scipy, numba-compiled leaf functions",
        "CPython threads (parked and released one at a time)"]
STUBS = ["choice of running thread (seeded scheduler)", "threading.Lock/RLock when created by einsteinpy (cooperative)",
         "the user's own metric and right-hand-side functions"]
ASSUME = ["bytecode-level preemption inside einsteinpy code stands for every switch a real interpreter can make",
          "after a code object has run for a seeded number of bytecodes, it is no longer preempted in that run"]


def gen_obj(rng):
    r = rng.random()
    if r < 0.45:
        s = dict(world.gen_geo(rng), k="gint")
        if rng.random() < 0.3:
            s["g"] = rng.choice(["um_off", "um_flat", "um_sch"])
    elif r < 0.65:
        s = world.gen_geo(rng)
        s["steps"] = rng.choice([1, 2])
    elif r < 0.9:
        s = world.gen_rk(rng)
    else:
        return {"k": "lab"}
    s["sh"] = rng.choice([0, 1, 1])
    if s["k"] != "rk":
        s["order"] = 2 if rng.random() < 0.7 else rng.choice([4, 4, 4, 6, 8])
    return s


def gen_objs(rng, n):
    w = [gen_obj(rng)]
    while len(w) < n:
        if rng.random() < 0.55 and w[0]["k"] != "lab":
            s = dict(w[0])      # a sibling that differs in one respect
            if s["k"] == "rk":
                k = rng.choice(["h", "tb", "f", "m"])
                s[k] = s["t0"] + rng.choice([1.0, 0.45, -0.8, 2.0]) if k == "tb" else world.gen_rk(rng)[k]
            else:
                k = rng.choice(["delta", "ic", "g", "order", "omega", "tl", "k"])
                if k == "k":
                    s["k"] = rng.choice(["gint", "geo"])
                    s.setdefault("steps", 2)
                else:
                    s[k] = world.gen_geo(rng)[k]
                    if k == "order":
                        s["order"] = rng.choice([2, 4, 4, 6])
            if s["k"] == "geo" and s["g"] == "um_off":
                s["g"] = "um_sch"
            w.append(s)
        else:
            w.append(gen_obj(rng))
    w.append({"k": "lab"})
    return w


def op_on(rng, w, j):
    s = w[j]
    if s["k"] in ("gint", "rk") and rng.random() < 0.06:    # its owner changes the step size, say
        o = world.gen_op(rng, w, j, lambda q: "assign" in q.tags, assign=True)
        if o:
            return o
    if s["k"] == "gint":
        return {"o": j, "op": "step" if rng.random() < 0.85 else "gint_whole", "a": {}}
    if s["k"] == "rk":
        return {"o": j, "op": "rk_step" if rng.random() < 0.9 else "rk_whole", "a": {}}
    return world.gen_op(rng, w, j, lambda q: q.name not in ("geo_text", "text"))


def generate(rng, i, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    w = gen_objs(rng, n)
    own = list(range(n))
    one = rng.random() < 0.15
    stepped = [j for j in own if w[j]["k"] in ("gint", "rk")]
    free = [j for j in range(len(w)) if j not in stepped]
    if one:
        ops = []
        for _ in range(rng.choice([4, 8, 12])):
            ops.append(op_on(rng, w, rng.randrange(len(w))))
        return {"objects": w, "threads": [ops], "segments": [], "probes": []}
    th = []
    for t in range(n):
        ops = []
        mine = [j for j in stepped if j % n == t]
        for _ in range(rng.choice([1, 1, 2, 3])):
            if mine and (rng.random() < 0.8 or not free):
                ops.append(op_on(rng, w, rng.choice(mine)))
            else:
                ops.append(op_on(rng, w, rng.choice(free)))
        th.append(ops)
    pr = [{"o": j, "op": "trajectory", "a": {}} for j in own if w[j]["k"] == "geo"][:2]
    return {"objects": w, "threads": th, "segments": threads.gen_segments(rng, n),
            "conf": threads.gen_conf(rng, heavy=True), "probes": pr}


def valid(scn):
    owner = {}
    for t, ops in enumerate(scn["threads"]):
        for o in ops:
            if scn["objects"][o["o"]]["k"] in ("gint", "rk") and owner.setdefault(o["o"], t) != t:
                return False
    return bool(scn["threads"])


def expected(scn, oracle):
    out = []
    for ops in scn["threads"]:
        seqs = {}
        for o in ops:
            if scn["objects"][o["o"]]["k"] in ("gint", "rk"):
                seqs.setdefault(o["o"], []).append(dict(o, o=0))
        ans = {j: iter(oracle.get("straight" + json.dumps([[scn["objects"][j]], q], sort_keys=True),
                                  lambda: straight([scn["objects"][j]], q))[0]) for j, q in seqs.items()}
        out.append([next(ans[o["o"]]) if o["o"] in ans else run.ask(oracle, scn["objects"], o) for o in ops])
    return {"threads": out, "probes": [run.ask(oracle, scn["objects"], o) for o in scn["probes"]], "history": []}

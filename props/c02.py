"""C02: queries cut short and repeated."""
from sim import faults, world
from .cuts import CUTS, expected, simulate  # noqa: F401

ID = "C02"
TECHNIQUE = "interrupts, failed allocations and user errors injected at calls, then retries against stand-alone answers"
LEVEL = "exploration"
RUNS = {"quick": 12500, "thorough": 60000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": True}
NUMBA = True
PRUNE = True
RULE = ("One run: a caller makes 2 to 7 public queries on symbolic or numeric objects; at seeded points in some of them a "
        "KeyboardInterrupt, MemoryError or SystemExit is raised just before a call einsteinpy makes, or the user's own "
        "perturbation/metric function raises; the query is then repeated, others follow. Non-trivial: at least one fault "
        "fired. Distinct by the sequence of operations, outcomes and fault positions (function, line, callee).")
DISTINCT = "hash of the (operation, outcome, fault site) sequence"
SIM_TIME = "none: the property has no clock"
REAL = ["einsteinpy.symbolic, einsteinpy.metric, einsteinpy.coordinates, einsteinpy.hypersurface, einsteinpy.rays",
        "sympy, numpy, scipy, astropy, numba-compiled leaf functions"]
STUBS = ["the user's own functions (simulated user)", "delivery of interrupts and failed allocations (sys.monitoring call events)"]
ASSUME = ["an interrupt or failed allocation surfaces at a call made by einsteinpy code, not inside sympy or numpy and not "
          "inside a clean-up block or a container update",
          "the reference answer is the same call on fresh objects in a pristine fork of the same tree"]
SKIP = {"text", "symbols", "attrs", "getitem", "set_vt", "c_text", "smoothen"}


EVAL = {"gcov", "gcontra", "A_contra", "F_contra"}      # these evaluate the user's functions


def pick(rng, w, focus, names=None):
    for k in range(1000):
        j = focus if focus is not None and rng.random() < 0.7 else rng.randrange(len(w))
        o = world.gen_op(rng, w, j, lambda q: q.name not in SKIP and (not names or k > 40 or q.name in names))
        if o:
            return o


def generate(rng, i, tier):
    sym = rng.random() < 0.5
    w = world.gen_sym_world(rng, n_met=1) if sym else world.gen_num_world(rng)
    focus = rng.randrange(len(w))
    own = [j for j, q in enumerate(w) if q["k"] == "num" and (q["m"] == "base" or q.get("p"))]
    if own and rng.random() < 0.6:
        focus = rng.choice(own)
    ev = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        o = pick(rng, w, focus, EVAL if focus in own and rng.random() < 0.6 else None)
        if rng.random() < 0.3:
            ev.append({"call": pick(rng, w, focus)})
        for _ in range(rng.choice([1, 1, 2])):
            at = "user" if o["o"] in own and o["op"] in EVAL and rng.random() < 0.7 else "call"
            ev.append({"call": o, "cut": {"at": at, "frac": round(rng.random(), 4),
                                          "exc": faults.user_exc(rng) if at == "user" else rng.choice(CUTS)}})
            if rng.random() < 0.2:
                o = pick(rng, w, focus)
        if rng.random() < 0.8:
            ev.append({"call": o})
        if rng.random() < 0.1:
            ev[-1]["clear"] = 1
    probes = [pick(rng, w, focus) for _ in range(rng.choice([1, 2]))]
    sh = world.others(w, "shadow")
    if sh and rng.random() < 0.8:
        # smoothing is cut short: the shadow stays as it was, and can be smoothed at the end
        o = {"o": rng.choice(sh), "op": "smoothen", "a": {"n": rng.choice([17, 40])}}
        for _ in range(rng.choice([1, 2])):
            ev.insert(rng.randrange(len(ev) + 1), {"call": o, "mut": 1, "cut": {
                "at": "call", "frac": round(rng.random(), 4), "exc": rng.choice(CUTS)}})
        whole = {"o": o["o"], "op": "sh_whole", "a": {}}
        probes += [whole] + [o] * (rng.random() < 0.5)
    return {"objects": w, "events": ev, "probes": probes}

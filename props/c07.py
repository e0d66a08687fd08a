"""C07: threads sharing numeric metrics and coordinates."""
from sim import world
from . import threads
from .threads import expected, simulate  # noqa: F401

ID = "C07"
TECHNIQUE = "seeded bytecode-level thread schedules over shared numeric objects, against stand-alone answers"
LEVEL = "exploration"
RUNS = {"quick": 20000, "thorough": 90000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": True}
NUMBA = True
hang_is_violation = True
RULE = ("One run: 2 to 4 caller threads make 1 to 5 public calls each on shared numeric metrics, coordinate objects, "
        "embeddings, bodies and module functions; a seeded list of segments decides, bytecode by bytecode, who runs. "
        "Non-trivial: at least one preemption inside einsteinpy code took place. Distinct by the sequence of (thread, "
        "source position) at which control changed hands.")
DISTINCT = "hash of the (thread, function:line+offset) sequence of all control transfers of the run"
SIM_TIME = "none: the property has no clock; progress is counted in bytecode events"
REAL = ["einsteinpy.metric, coordinates, hypersurface, bodies, utils, units, rays, plotting.fractal",
        "numpy, scipy, astropy, numba-compiled leaf functions", "CPython threads (parked and released one at a time)"]
STUBS = ["choice of running thread (seeded scheduler)", "threading.Lock/RLock when created by einsteinpy (cooperative)",
         "the user's own metric and perturbation functions"]
ASSUME = ["bytecode-level preemption inside einsteinpy code stands for every switch a real interpreter can make; numba-compiled "
          "functions hold the interpreter lock and run whole",
          "the time component v_t of a coordinate object and its printed form are set by its user and not shared here"]
PLAIN = {"c_whole", "num_whole", "emb_whole", "sh_whole", "item", "nonzero", "statics", "alpha_bad", "position", "values"}
SKIP = {"set_vt", "c_text", "smoothen"}


def generate(rng, i, tier):
    w = world.gen_num_world(rng)
    n = rng.choice([2, 2, 2, 3, 4])
    focus = rng.randrange(len(w)) if rng.random() < 0.75 else None
    theme = None
    if focus is not None and rng.random() < 0.6:
        names = sorted(k for (q, k) in world.OPS if q == w[focus]["k"] and k not in SKIP | PLAIN)
        theme = rng.sample(names, min(len(names), rng.choice([1, 2]))) or None

    def one():
        for k in range(1000):
            j = focus if focus is not None and rng.random() < (0.95 if theme else 0.75) else rng.randrange(len(w))
            o = world.gen_op(rng, w, j, lambda q: not q.mut and q.name not in SKIP and (not theme or k > 60 or q.name in theme))
            if o:
                return o

    mode = rng.random()
    base = [one() for _ in range(rng.choice([1, 1, 2, 3]))]
    th = []
    for t in range(n):
        if mode < 0.15:
            th.append(list(base))
        elif mode < 0.35:
            ops = list(base) + [one()]
            rng.shuffle(ops)
            th.append(ops)
        else:
            th.append([one() for _ in range(rng.choice([1, 2, 3, 5]))])
    scn = {"objects": w, "threads": th, "segments": threads.gen_segments(rng, n), "conf": threads.gen_conf(rng),
           "probes": [one() for _ in range(rng.choice([0, 1, 2]))]}
    if rng.random() < 0.25:
        scn["history"] = [one()]
    return scn

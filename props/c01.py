"""C01: threads sharing symbolic objects."""
from sim import world
from . import threads
from .threads import expected, simulate  # noqa: F401

ID = "C01"
TECHNIQUE = "seeded bytecode-level thread schedules over shared symbolic objects, against stand-alone answers"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 30000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": True}
NUMBA = False
PRUNE = True
hang_is_violation = True
RULE = ("One run: 2 to 4 caller threads make 1 to 4 public symbolic calls each on shared metrics, tensors, vectors and "
        "transformation matrices; a seeded list of segments decides, bytecode by bytecode, who runs. Non-trivial: at "
        "least one preemption inside einsteinpy code took place. Distinct by the sequence of (thread, source position) "
        "at which control changed hands.")
DISTINCT = "hash of the (thread, function:line+offset) sequence of all control transfers of the run"
SIM_TIME = "none: the property has no clock; progress is counted in bytecode events"
REAL = ["einsteinpy.symbolic (all of it, from the current tree)", "sympy", "CPython threads (parked and released one at a time)"]
STUBS = ["choice of running thread (seeded scheduler)", "threading.Lock/RLock when created by einsteinpy (cooperative)"]
ASSUME = ["bytecode-level preemption inside einsteinpy code stands for every switch a real interpreter can make; switches "
          "inside sympy itself are not explored (sympy is trusted to be thread-safe between calls)",
          "the reference answer is the same call on fresh objects in a pristine fork of the same tree"]


def generate(rng, i, tier):
    w = world.gen_sym_world(rng, n_met=rng.choice([1, 1, 2, 2]), twins=0.4)
    n = rng.choice([2, 2, 2, 3, 4])
    simp = rng.random() < 0.2
    want = (lambda q: True) if simp else (lambda q: not q.mut)
    focus = rng.randrange(len(w)) if rng.random() < 0.7 else None
    mode = rng.random()

    def one(f=None):
        o = None
        while o is None:
            j = f if f is not None and rng.random() < 0.75 else rng.randrange(len(w))
            o = world.gen_op(rng, w, j, want)
            if o and o["op"] == "text" and (simp or w[j]["k"] == "ten"):
                o = None    # the printed form may legitimately depend on who simplified first
            if o and o["op"] in ("text", "symbols", "attrs", "getitem", "tensor", "tm_whole") and rng.random() < 0.6:
                o = None
        return o

    def one_like(o):
        c = [j for j in range(len(w)) if w[j]["k"] == w[o["o"]]["k"] and j != o["o"]]
        return c and world.gen_op(rng, w, rng.choice(c), lambda q: q.name == o["op"])

    base = [one(focus) for _ in range(rng.choice([1, 1, 2, 3]))]
    th = []
    for t in range(n):
        if mode < 0.3:
            th.append(list(base))       # the same calls in every thread
        elif mode < 0.55:
            # the same kinds of calls, of other objects
            th.append([(t and one_like(o)) or o for o in base])
        elif mode < 0.7:
            ops = list(base) + [one(focus)]
            rng.shuffle(ops)
            th.append(ops)
        else:
            th.append([one(focus) for _ in range(rng.choice([1, 2, 2, 3]))])
    probes = [one(focus) for _ in range(rng.choice([0, 1, 2]))]
    scn = {"objects": w, "threads": th, "segments": threads.gen_segments(rng, n), "conf": threads.gen_conf(rng),
           "probes": probes}
    if rng.random() < 0.25:
        scn["history"] = [one(focus)]
    if rng.random() < 0.1:
        scn["clear"] = rng.choice([1, 3])
    return scn

"""C05: checkpoints, copies and restarts."""
import copy
import hashlib
import json
import pickle
import warnings

from sim import canon, faults, serve, world
from .threads import compare, name_of, tol

ID = "C05"
TECHNIQUE = "crash, checkpoint and restart in other simulated processes, against the uninterrupted run"
LEVEL = "exploration"
RUNS = {"quick": 12500, "thorough": 60000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": True}
NUMBA = True
RULE = ("One run: a seeded sequence of operations on a world of objects, divided into lives. Between lives the world is "
        "saved (pickle protocols 2 to 5, or a deep copy), the process goes on with work that is then lost, possibly "
        "dying inside an operation, and the next life starts from the saved bytes in this process or in another one "
        "with another hash seed. Public values right after each restore, and every answer of every life, of the lost "
        "work and of the surviving original, must equal those of one uninterrupted process. Non-trivial: at least one "
        "restore. Distinct by objects, operations and restore kinds.")
DISTINCT = "hash of objects, operations, places and kinds of all restores"
SIM_TIME = "none: the property has no clock"
REAL = ["einsteinpy (symbolic, metric, coordinates, bodies, geodesic, integrators, rays, hypersurface)", "pickle, copy",
        "separate CPython processes with other hash seeds"]
STUBS = ["the user's own functions", "the crash (state of the life is dropped at the checkpoint, mid-operation if so chosen)"]
ASSUME = ["RK45 is deep-copied but not pickled: the scipy base class cannot be pickled",
          "user-supplied functions are importable by the restoring process"]
SEEDS = ["1", "4242"]
servers = {}
SKIP = {"text", "c_text", "symbols", "attrs", "getitem", "geo_text"}


def setup(tmp, tier):
    for s in SEEDS:
        servers[s] = serve.Server(tmp, "h" + s, s)
    for v in servers.values():
        v.ready()


def _world(rng):
    r = rng.random()
    w = []
    if r < 0.4:
        w = world.gen_sym_world(rng, n_met=1)
    elif r < 0.65:
        w = [s for s in world.gen_num_world(rng) if s["k"] != "mod"]
    elif r < 0.72:
        w = [{"k": "val", "v": v} for v in rng.sample(range(8), 3)]
    else:
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            if k < 0.4:
                w.append(dict(world.gen_geo(rng), k="gint"))
            elif k < 0.65:
                w.append(world.gen_geo(rng))
            else:
                w.append(world.gen_rk(rng))
    return w


def _ops(rng, w, n, focus):
    out = []
    for _ in range(n):
        for _ in range(100):
            j = focus if rng.random() < 0.7 else rng.randrange(len(w))
            o = world.gen_op(rng, w, j, lambda p: p.name not in SKIP, assign=True)
            if o and w[j]["k"] in ("gint", "rk") and rng.random() < 0.7:
                o = {"o": j, "op": "step" if w[j]["k"] == "gint" else "rk_step", "a": {}}
            if o:
                break
        out.append(o)
    return out


def generate(rng, i, tier):
    w = _world(rng)
    focus = rng.randrange(len(w))
    local = any(s["k"] == "rk" and s["m"] == "45" for s in w)
    lives = []
    for k in range(rng.choice([2, 2, 2, 3, 4])):
        life = {"ops": _ops(rng, w, rng.choice([0, 1, 1, 2, 3]), focus)}
        if k:
            life["how"] = rng.choice(["deepcopy"] if local else ["deepcopy", "p2", "p3", "p4", "p5", "p5"])
            life["where"] = "local" if life["how"] == "deepcopy" else rng.choice(["local"] + SEEDS)
            if rng.random() < 0.3:
                life["each"] = 1    # every object saved by itself
            if rng.random() < 0.6:
                life["lost"] = _ops(rng, w, rng.choice([1, 2]), focus)
                life["cut"] = round(rng.random(), 3) if rng.random() < 0.5 else None
                life["late"] = rng.random() < 0.5   # the original goes on after the copy has lived
        lives.append(life)
    if any(l.get("each") for l in lives):   # objects saved one by one no longer refer to one another
        for l in lives:
            for k in ("ops", "lost"):
                if k in l:
                    l[k] = [o for o in l[k] if o["op"] != "assign" or w[o["o"]]["k"] in ("gint", "rk", "geo", "body")]
    return {"objects": w, "lives": lives}


def straight(specs, ops):
    """Answers of a sequence of operations in one life, then the public values at the end."""
    warnings.simplefilter("ignore")
    env = world.Env(specs)
    return [answer(env, o) for o in ops], values_of(env)


def values_of(env):
    return [(canon.canon(x), printed(s, x)) for s, x in zip(env.specs, env.objs)]


def printed(s, x):
    """What else a user sees of a coordinate object or body, and of the metrics in which they were used."""
    if s["k"] in ("coord", "body", "num"):
        return ("printed", str(x), repr(x), canon.canon(getattr(x, "v_t", None)))
    return ()


def answer(env, o):
    try:
        return ("ok", canon.canon(world.call(env, o)))
    except Exception as e:
        return ("exc", type(e).__name__)


def expected(scn, oracle):
    def ask(ops):
        return oracle.get("straight" + json.dumps([scn["objects"], ops], sort_keys=True),
                          lambda: straight(scn["objects"], ops))
    out, ops = [], []
    for life in scn["lives"]:
        x = {"values": ask(ops)[1]}
        if life.get("lost"):
            x["lost"] = ask(ops + life["lost"])[0][len(ops):]
        n = len(ops)
        ops = ops + life["ops"]
        x["ops"] = ask(ops)[0][n:]
        out.append(x)
    return out


def split(objs, how, each):
    """How a user saves: all together or one by one (then references are saved along)."""
    if how == "deepcopy":
        return [copy.deepcopy(o) for o in objs] if each else copy.deepcopy(objs)
    p = int(how[1])
    return [pickle.dumps(o, p) for o in objs] if each else pickle.dumps(objs, p)


def join(saved, how, each):
    if how == "deepcopy":
        return saved
    return [pickle.loads(b) for b in saved] if each else pickle.loads(saved)


def bare(specs, objs):
    env = world.Env([])
    env.specs, env.objs = specs, objs
    return env


def remote_life(specs, saved, how, each, ops):
    """Runs in another process: restore, look, go on, save again."""
    warnings.simplefilter("ignore")
    env = bare(specs, join(saved, how, each))
    values = values_of(env)
    answers = [answer(env, o) for o in ops]
    return values, answers, pickle.dumps(env.objs, 5)


def simulate(scn, exp):
    warnings.simplefilter("ignore")
    specs = scn["objects"]
    env = world.Env(specs)
    viol, stats = [], {}

    def check(kind, o, got, want):
        d = compare(got, want, tol(o))
        if d:
            viol.append((kind, "%s: %s" % (name_of(scn, o), d)))

    def lost(env, life, x):
        n = len(life["lost"])
        for k, (o, want) in enumerate(zip(life["lost"], x["lost"])):
            if k == n - 1 and life.get("cut") is not None:
                inj = faults.Injector(int(life["cut"] * 60), "KeyboardInterrupt")
                try:
                    with inj:
                        world.call(env, o)
                except BaseException as e:
                    if not faults.is_injected(e) and not isinstance(e, Exception):
                        raise
                stats["crash_in_operation"] = stats.get("crash_in_operation", 0) + bool(inj.fired)
                return
            check("original-changed", o, answer(env, o), want)
        stats["work_lost"] = stats.get("work_lost", 0) + 1

    for n, (life, x) in enumerate(zip(scn["lives"], exp)):
        if n == 0:
            for o, want in zip(life["ops"], x["ops"]):
                check("wrong-answer", o, answer(env, o), want)
            continue
        how, each = life["how"], life.get("each")
        try:
            saved = split(env.objs, how, each)
        except Exception as e:
            viol.append(("cannot-save", "%s of %s: %s: %s" % (how, [s["k"] for s in specs], type(e).__name__, e)))
            break
        if life.get("lost") and not life.get("late"):
            lost(env, life, x)
        stats["restore_" + ("deepcopy" if how == "deepcopy" else "pickle")] = stats.get(
            "restore_" + ("deepcopy" if how == "deepcopy" else "pickle"), 0) + 1
        old = env
        if life["where"] == "local":
            try:
                env = bare(specs, join(saved, how, each))
            except Exception as e:
                viol.append(("cannot-restore", "%s: %s: %s" % (how, type(e).__name__, e)))
                break
            values = values_of(env)
            answers = [answer(env, o) for o in life["ops"]]
        else:
            stats["restore_in_other_process"] = stats.get("restore_in_other_process", 0) + 1
            try:
                values, answers, b = servers[life["where"]].ask("props.c05", "remote_life", specs, saved, how, each,
                                                                life["ops"])
            except RuntimeError as e:
                viol.append(("cannot-restore", "%s in another process: %s" % (how, str(e)[-300:])))
                break
            try:
                env = bare(specs, pickle.loads(b))
            except Exception as e:
                viol.append(("cannot-restore", "from another process: %s: %s" % (type(e).__name__, e)))
                break
        for s, v, want in zip(specs, values, x["values"]):
            if s["k"] != "coord" and any(l.get("each") for l in scn["lives"]):
                v, want = v[:1], want[:1]   # a body's or metric's coordinates are its own now
            if not canon.same(v, want):
                viol.append(("restored-differs", "%s (%s, %s): %s" % (s, how, life["where"], canon.diff(v, want))))
        for o, got, want in zip(life["ops"], answers, x["ops"]):
            check("wrong-answer", o, got, want)
        if life.get("lost") and life.get("late"):
            lost(old, life, x)
    sig = hashlib.sha1(json.dumps([specs, scn["lives"]], sort_keys=True).encode()).hexdigest()[:12]
    return {"violations": viol, "sig": sig, "log": [], "nontrivial": len(scn["lives"]) > 1,
            "stats": {"faults": stats, "calls": sum(len(l["ops"]) for l in scn["lives"])}}


def shrinks(scn):
    from sim import run
    lives = scn["lives"]
    for k in range(len(lives) - 1, 0, -1):
        yield dict(scn, lives=lives[:k] + lives[k + 1:])
    for k, l in enumerate(lives):
        for key in ("lost", "each", "late"):
            if l.get(key):
                q = {a: b for a, b in l.items() if a != key}
                yield dict(scn, lives=lives[:k] + [q] + lives[k + 1:])
        if l.get("where", "local") != "local":
            yield dict(scn, lives=lives[:k] + [dict(l, where="local")] + lives[k + 1:])
        for m in range(len(l["ops"])):
            yield dict(scn, lives=lives[:k] + [dict(l, ops=l["ops"][:m] + l["ops"][m + 1:])] + lives[k + 1:])
    yield from run.shrinks(scn)

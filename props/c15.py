"""C15: inputs are left alone, and answers stay what they were."""
import json
import warnings

from sim import canon, faults, plots, user, world
from . import cuts
from .c05 import straight
from .threads import compare, name_of, tol

ID = "C15"
TECHNIQUE = "seeded histories with faults and the caller's own edits of answers, against snapshots and stand-alone answers"
LEVEL = "exploration"
RUNS = {"quick": 12000, "thorough": 60000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": True}
NUMBA = True
RULE = ("One run: 3 to 12 public operations on symbolic, numeric, integration and plotting objects built from the caller's own "
        "lists, arrays and quantities; some operations fail or are cut short by an injected fault; between them the caller "
        "overwrites arrays, lists and dictionaries it was given. After every operation everything ever passed in (values of "
        "the user's own functions included) and every answer not overwritten is compared with its snapshot, and every answer "
        "with that of the same operation on fresh objects. Non-trivial: at least two answers or inputs were held over a later "
        "operation. Distinct by the sequence of operations, outcomes, faults and edits.")
DISTINCT = "hash of the (operation, outcome, fault site, edit) sequence"
SIM_TIME = "none: the property has no clock"
REAL = ["all of einsteinpy except its import-time code", "sympy, numpy, scipy, astropy, matplotlib (Agg), plotly, numba"]
STUBS = ["the user's own functions (simulated user)", "delivery of interrupts and failed allocations (sys.monitoring call events)",
         "the display (pyplot.show records)"]
ASSUME = ["units.primitive may hand back a view of the array it was given", "reading an attribute of an object is not an answer of a query: editing it in place is editing the object",
          "the reference answer is the same call on fresh objects in a pristine fork of the same tree"]
LIVE = ("gint", "rk", "shadow", "st", "it")
OWN = {"attrs", "step", "gint_whole", "rk_step", "rk_whole", "item", "set_vt", "primitive", "lab_rk", "lab_gint", "show", "body", "val_use", "tm_whole"}
SKIP = {"text", "constants"}      # the constants themselves are not answers


def setup(tmp, tier):
    plots.install()
    plots.fill_pool()


def _world(rng):
    r = rng.random()
    if r < 0.3:
        return world.gen_sym_world(rng, n_met=rng.choice([1, 2]))
    if r < 0.65:
        return world.gen_num_world(rng)
    if r < 0.78:
        g = plots.gen_pool(rng, 2)
        return g + [plots.gen_plotter(rng), plots.gen_plotter(rng)]
    w = []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.random()
        if k < 0.4:
            s = dict(world.gen_geo(rng), k="gint", sh=rng.choice([0, 1]))
        elif k < 0.7:
            s = dict(world.gen_geo(rng), sh=rng.choice([0, 1]))
        else:
            s = dict(world.gen_rk(rng), sh=rng.choice([0, 1]))
        w.append(s)
    return w + [{"k": "lab"}]


def pick(rng, w, focus):
    for _ in range(1000):
        j = focus if rng.random() < 0.6 else rng.randrange(len(w))
        if w[j]["k"] in ("st", "it"):
            if rng.random() < 0.75:
                return plots.gen_draw(rng, w, j, [0, 1])[0]
            return {"o": j, "op": rng.choice(["clear", "show"]), "a": {}}
        if w[j]["k"] == "pg":
            return {"o": j, "op": "pg_trajectory", "a": {}}
        if w[j]["k"] in ("gint", "rk") and rng.random() < 0.7:
            return {"o": j, "op": "step" if w[j]["k"] == "gint" else "rk_step", "a": {}}
        o = world.gen_op(rng, w, j, lambda q: q.name not in SKIP)
        if o:
            return o


@world.op("pg")
def op_pg_trajectory(env, g, p):
    return g.trajectory


def generate(rng, i, tier):
    w = _world(rng)
    plot = any(s["k"] == "pg" for s in w)
    focus = len(w) - 1 if plot else rng.randrange(len(w))
    ev = []
    for _ in range(rng.choice([2, 3, 4]) if plot else rng.choice([3, 4, 6, 8, 12])):
        r = rng.random()
        if ev and r < 0.2:
            ev.append({"edit": rng.randrange(1000), "what": rng.randrange(4)})
            continue
        again = [e for e in ev if "call" in e]
        e = {"call": rng.choice(again)["call"] if again and r < 0.42 else pick(rng, w, focus)}
        k = w[e["call"]["o"]]["k"]
        if rng.random() < 0.18 and k not in ("st", "it", "pg"):
            at = "user" if rng.random() < 0.3 else "call"
            e["cut"] = {"at": at, "frac": round(rng.random(), 4),
                        "exc": faults.user_exc(rng) if at == "user" else rng.choice(cuts.CUTS)}
            if world.OPS[(k, e["call"]["op"])].mut and k != "gint":
                del e["cut"]
        ev.append(e)
        if rng.random() < 0.25:     # overwrite the answer at once
            ev.append({"edit": -1, "what": rng.randrange(4)})
            if rng.random() < 0.6:
                ev.append({"call": e["call"]})
    return {"objects": w, "events": ev}


def expected(scn, oracle):
    specs = scn["objects"]
    seqs, out = {}, []
    for e in scn["events"]:
        if "call" in e and specs[e["call"]["o"]]["k"] in LIVE and "cut" not in e:
            seqs.setdefault(e["call"]["o"], []).append(e["call"])
    ans = {}
    for j, ops in seqs.items():
        s, q = plots.closure_seq(specs, ops)
        ans[j] = iter(oracle.get("straight" + json.dumps([s, q], sort_keys=True), lambda: straight(s, q))[0])
    for e in scn["events"]:
        if "call" not in e:
            out.append(None)
        elif "cut" in e:
            out.append(None)
        elif e["call"]["o"] in ans:
            out.append(next(ans[e["call"]["o"]]))
        else:
            out.append(cuts.counted(scn, e["call"], oracle)[0])
    return {"ops": out, "n": [cuts.calls_of(scn, e["call"], oracle) if "cut" in e else None for e in scn["events"]]}


def containers(v, out):
    import numpy as np
    if isinstance(v, np.ndarray):
        out.append(v)
        if v.dtype == object:
            for x in v.ravel():
                containers(x, out)
    elif isinstance(v, dict):
        out.append(v)
        for x in v.values():
            containers(x, out)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out.append(v)
        for x in v:
            containers(x, out)
    return out


def edit(v, what):
    """The caller overwrites what it was given; returns how many containers changed."""
    import numpy as np
    n = 0
    for x in containers(v, []):
        if isinstance(x, np.ndarray):
            x = x.view(np.ndarray)
            if x.flags.writeable and x.size:
                if x.dtype == object:
                    x[...] = 7
                elif x.dtype.kind in "fciub":
                    if what == 0:
                        x[...] = np.zeros(x.shape, x.dtype) + 13
                    elif what == 1:
                        np.add(x, 1, out=x, casting="unsafe")
                    else:
                        x.ravel(order="K")[...] = 0
                        x.flat[0] = 3
                n += 1
        elif isinstance(x, list):
            if what == 0:
                del x[:]
            elif what == 1:
                x.append("junk")
            else:
                x.reverse()
                x.insert(0, -1)
            n += 1
        else:
            if what == 0:
                x.clear()
            else:
                x["junk"] = 1
            n += 1
    return n


def public(x):
    """The public values of an object, without what querying it is documented to set."""
    return canon.canon(x)


def simulate(scn, exp):
    import numpy as np
    warnings.simplefilter("ignore")
    specs = scn["objects"]
    env = world.Env([])
    env.track, env.specs = True, specs
    for s in specs:
        env.objs.append(world.BUILD[s["k"]](env, s))
    returned = []        # what user functions returned
    busy = []

    def filt(name, v):
        if not busy and isinstance(v, np.ndarray) and len(returned) < 400:
            returned.append((name, v, canon.canon(v)))
        return v

    user.filt = filt
    viol, stats, log, held = [], {}, [], []
    overs = 0

    def look(o):
        return [None if s["k"] in ("st", "it", "lab", "mod") else public(x) for s, x in zip(specs, env.objs)]

    objs = look(None)
    for e, x, n in zip(scn["events"], exp["ops"], exp["n"]):
        if "edit" in e:
            if held:
                h = held[e["edit"] % len(held)] if e["edit"] >= 0 else held[-1]
                if h[3]:
                    k = edit(h[1], e["what"])
                    stats["edit_of_answer"] = stats.get("edit_of_answer", 0) + bool(k)
                    log.append(["edit", h[0], k])
                    held = [g for g in held if g is not h]
                else:
                    log.append("noedit")
            who = "after the caller overwrote an answer"
            own = set()
        else:
            o = e["call"]
            who = name_of(scn, o)
            kind = specs[o["o"]]["k"]
            v = None
            if "cut" in e:
                got = cuts.cut_call(env, e, n, stats)
                log.append([o["op"], str(got[:2])[:100] if got else None])
                who += " (cut short)"
            else:
                try:
                    v = world.call(env, o)
                    got = ("ok", canon.canon(v))
                except Exception as ex:
                    got = ("exc", type(ex).__name__)
                log.append([o["op"], got[0], got[1] if got[0] == "exc" else 0])
                d = compare(got, x, tol(o))
                if d:
                    viol.append(("wrong-answer", "%s: %s" % (who, d)))
            own = {o["o"]} if world.OPS[(kind, o["op"])].mut else set()
            if v is not None and got[0] == "ok" and o["op"] not in ("pg_trajectory",) and kind not in ("st", "it"):
                whole = o["op"].endswith("whole") or o["op"] in ("item", "smoothen", "lab_gint", "lab_rk")
                # deep answers only: what a mutable object's own attribute list holds is the object's
                held_v = v[1] if o["op"] == "step" else v
                if not (whole and kind in LIVE and kind != "rk"):
                    held.append((who, held_v, canon.canon(held_v), o["op"] not in OWN and not whole,
                                 {o["o"]} | {r for r in world.refs_of(o.get("a", {}))}))
            elif o["op"] == "pg_trajectory":
                held.append((who, v, got[1], True, set()))
        overs += len(held) + len(env.kept) > 1
        for val, was in env.kept:
            now = canon.canon(val)
            if now != was:
                viol.append(("input-modified", "%s changed a value the caller had passed in: %s" % (who, canon.diff(now, was))))
        if "edit" in e:     # a metric may hand the caller's own function's array through
            returned[:] = [(name, val, canon.canon(val)) for name, val, _ in returned]
        for name, val, was in returned:
            now = canon.canon(val)
            if now != was:
                viol.append(("input-modified", "%s changed what the user's function %s had returned: %s" % (
                    who, name, canon.diff(now, was))))
        for h in held:
            now = canon.canon(h[1])
            if not canon.same(now, h[2]):
                viol.append(("answer-changed", "%s changed what %s had returned: %s" % (who, h[0], canon.diff(now, h[2]))))
        now = look(None)
        for j, (a, b) in enumerate(zip(now, objs)):
            if j in own:
                continue
            if not canon.same(a, b):
                viol.append(("object-modified", "%s changed object %d (%s): %s" % (who, j, specs[j]["k"], canon.diff(a, b))))
        objs = now
        if viol:
            break
    import hashlib
    return {"violations": viol, "log": log, "sig": hashlib.sha1(json.dumps(log).encode()).hexdigest()[:12],
            "nontrivial": overs > 0,
            "stats": {"faults": stats, "calls": len(scn["events"]), "values_of_user_functions_watched": len(returned),
                      "inputs_watched": len(env.kept)}}

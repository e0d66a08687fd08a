"""C11: objects built separately share nothing that can be changed."""
import hashlib
import json
import warnings

from sim import canon, plots, world
from .c05 import answer
from .threads import compare, tol

ID = "C11"
TECHNIQUE = "seeded histories of building, editing and querying separate objects, against the same history without the edits"
LEVEL = "exploration"
RUNS = {"quick": 10000, "thorough": 60000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": True}
NUMBA = True
INSTRUMENT = False
RULE = ("One run: 2 to 4 groups of objects, each built by calls of its own (bodies, metrics, coordinates, tensors, predefined "
        "spacetimes, constants, geodesics, integrators, plotters; usually alike), at seeded moments; in between, public "
        "attributes of objects of one or two groups are edited in place or assigned, and their state-changing operations "
        "called. After every edit the public values of all other groups are compared with those before, and every query on "
        "them with the same history in a pristine process where nothing was edited. Non-trivial: at least one edit took "
        "effect and another group was looked at after it. Distinct by the sequence of builds, edits and queries.")
DISTINCT = "hash of the (build, edit target, query) sequence"
SIM_TIME = "none: the property has no clock"
REAL = ["all of einsteinpy", "sympy, numpy, scipy, astropy, matplotlib (Agg), plotly, numba"]
STUBS = ["the user's own functions (simulated user)", "the display (pyplot.show records)"]
ASSUME = ["sharing the user arranges himself (one object passed to several constructors) is not judged",
          "the package's own bodies and constants are one object each, whoever looks them up"]
MODOPS = {"constants", "get_constant", "new_constant", "predefined", "find", "scale", "convert_fn", "dual", "primitive"}
SKIP = {"text", "c_text", "bad"}


def setup(tmp, tier):
    plots.install()


def gen_group(rng, alike=None):
    """Specs of one group; references count from the group's start."""
    if alike is not None and rng.random() < 0.65:
        return json.loads(json.dumps(alike))
    r = rng.random()
    if r < 0.22:
        g = [{"k": "met", "n": rng.choice(world.PRE_CHEAP if rng.random() < 0.5 else world.SMALL)}]
        d = world.dims_of(g[0])
        x = rng.random()
        if x < 0.3:
            g.append({"k": "vec", "m": {"ref": 0}, "c": rng.choice("ul"), "v": rng.randrange(2)})
        elif x < 0.45:
            g.append({"k": "bt", "m": {"ref": 0}, "c": rng.choice(["ll", "ul"])})
        elif x < 0.75:
            g.append({"k": "ten", "m": {"ref": 0}, "t": rng.choice(["chris", "ricci", "ein", "scalar"] if d < 4 else ["chris"])})
        elif x < 0.85:
            g.append({"k": "tm", "v": rng.randrange(3)})
        return g
    if r < 0.5:
        s = rng.choice(["car", "sph", "bl", "bl"])
        g = [{"k": "coord", "s": s, "d": rng.random() < 0.8, "v": rng.randrange(3)}]
        for _ in range(rng.choice([0, 1, 1, 2])):
            g.append({"k": "num", "m": rng.choice({"car": ["base"], "sph": ["sch", "base"], "bl": ["kerr", "kn", "kn"]}[s]),
                      "c": {"ref": 0}, "v": rng.randrange(3)})
            if rng.random() < 0.2:
                g[-1]["p"] = 1
        if rng.random() < 0.3:
            g.append({"k": "body", "full": rng.randrange(2), "v": rng.randrange(2)})
        return g
    if r < 0.62:
        g = [{"k": "body", "full": rng.choice([0, 0, 1]), "v": rng.randrange(3)}]
        if rng.random() < 0.3:
            g.append({"k": "body", "parent": {"ref": 0}, "v": 9})
        return g
    if r < 0.68:
        return [{"k": "emb", "v": rng.randrange(3)}]
    if r < 0.71:
        return [{"k": "shadow", "v": 0}]
    if r < 0.78:
        return [{"k": "val", "v": rng.choice([1, 2, 3, 4, 5])}]
    if r < 0.83:
        return [{"k": "mod"}]
    if r < 0.9:
        s = dict(world.gen_geo(rng), steps=rng.choice([1, 2]))
        return [{k: v for k, v in s.items() if rng.random() < 0.75 or k in ("k", "g", "ic", "steps", "delta")}]
    if r < 0.94:
        return [world.gen_rk(rng)]
    if r < 0.97:
        s = dict(world.gen_geo(rng), k="gint")
        return [{k: v for k, v in s.items() if rng.random() < 0.75 or k in ("k", "g", "ic")}]
    p = plots.gen_plotter(rng)
    return [dict(world.gen_geo(rng), steps=1, order=2), p]


def generate(rng, i, tier):
    groups = [gen_group(rng)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        groups.append(gen_group(rng, groups[0]))
    for a in range(len(groups)):     # a predefined body or constant is one object
        for b in range(a):
            if groups[a][0]["k"] == groups[b][0]["k"] == "val" and groups[a][0]["v"] == groups[b][0]["v"]:
                groups[a] = [{"k": "val", "v": {1: 2, 2: 1}.get(groups[a][0]["v"], 3)}] if groups[a][0]["v"] != 3 else \
                    [{"k": "body", "v": 1}]
    seen = set()
    for g in groups:
        if g[0]["k"] == "val":
            if g[0]["v"] in seen:
                g[:] = [{"k": "body", "v": 2}]
            seen.add(g[0]["v"])
    edited = [g for g in range(len(groups)) if groups[g][0]["k"] != "mod"]
    edited = rng.sample(edited, min(len(edited), rng.choice([1, 1, 2]))) if edited else []
    order = list(range(len(groups)))
    rng.shuffle(order)
    ev, built = [], []

    def some():
        for _ in range(rng.randrange(4)):
            g = rng.choice(built)
            j = rng.randrange(len(groups[g]))
            if g in edited and rng.random() < 0.7:
                ev.append({"edit": [g, j], "at": round(rng.random(), 4), "how": rng.randrange(4)})
            else:
                o = gen_query(rng, groups[g], j)
                if o:
                    ev.append({"call": dict(o, g=g)})
    for g in order:
        ev.append({"build": g})
        built.append(g)
        some()
    for _ in range(rng.choice([1, 2, 3])):
        if edited:
            g = rng.choice(edited)
            ev.append({"edit": [g, rng.randrange(len(groups[g]))], "at": round(rng.random(), 4), "how": rng.randrange(4)})
    some()
    for g in built:
        if g not in edited or rng.random() < 0.3:
            o = gen_query(rng, groups[g], rng.randrange(len(groups[g])))
            if o:
                ev.append({"call": dict(o, g=g)})
    return {"groups": groups, "events": ev, "edited": edited}


def gen_query(rng, specs, j):
    k = specs[j]["k"]
    for _ in range(60):
        if k in ("st", "it"):
            return plots.gen_draw(rng, specs, j, [0], anim=False)[0] if rng.random() < 0.6 else {
                "o": j, "op": "picture", "a": {}}
        if k == "gint" and rng.random() < 0.6:
            return {"o": j, "op": "step", "a": {}}
        if k == "rk" and rng.random() < 0.6:
            return {"o": j, "op": "rk_step", "a": {}}
        o = world.gen_op(rng, specs, j, lambda q: q.name not in SKIP and (k != "mod" or q.name in MODOPS))
        if o:
            return o
    return None


def lone(specs, ops):
    """Builds one group and runs its operations: answers, and the values at the end."""
    warnings.simplefilter("ignore")
    env = world.Env(specs)
    return [answer(env, o) for o in ops], values(specs, env.objs)


def values(specs, objs):
    return [None if s["k"] in ("mod", "lab") else
            (plots.picture(o.fig) if hasattr(o, "fig") else None) if s["k"] == "st" else
            plots.traces(o.show()) if s["k"] == "it" else canon.canon(o) for s, o in zip(specs, objs)]


def expected(scn, oracle):
    out = []
    for g, specs in enumerate(scn["groups"]):
        if g in scn["edited"]:
            out.append(None)
            continue
        ops = [{k: v for k, v in e["call"].items() if k != "g"} for e in scn["events"] if "call" in e and e["call"]["g"] == g]
        out.append(oracle.get("group" + json.dumps([specs, ops], sort_keys=True), lambda: lone(specs, ops)))
    return out


def places(o, own, depth=0, path="", out=None):
    """(path, owner, name, value) for the changeable public attributes reachable from an object."""
    import numpy as np
    out = [] if out is None else out
    d = getattr(o, "__dict__", None)
    if not isinstance(d, dict):
        return out
    for n in sorted(d):
        if n.startswith("_"):
            continue
        v = d[n]
        out.append((path + n, o, n, v))
        if isinstance(v, (list, tuple)):
            for i, x in enumerate(v[:4]):
                if isinstance(x, (np.ndarray, list)):
                    out.append(("%s%s[%d]" % (path, n, i), None, None, x))
        if depth < 1 and own and (type(v).__module__ or "").startswith("einsteinpy"):
            places(v, own, depth + 1, path + n + ".", out)
    return out


def edit_one(o, own, at, how):
    """One edit by the user; a short description of it, or None."""
    import numpy as np
    ps = places(o, own)
    if not ps:
        return None
    path, owner, name, v = ps[min(len(ps) - 1, int(at * len(ps)))]
    if not own and name == "name":
        return None
    if how < 3:
        if isinstance(v, np.ndarray):
            x = v.view(np.ndarray)
            if not x.flags.writeable:
                return None
            if x.dtype == object:
                x[...] = 5
            elif x.dtype.kind in "fciu":
                x[...] = x * 3 + 1 if x.dtype.kind in "fc" else 3
            return path + " in place"
        if isinstance(v, list):
            v.append("edited")
            if how == 1:
                v.reverse()
            if how == 2:
                del v[:]
            return path + " in place"
        if isinstance(v, dict):
            v["edited"] = 1
            return path + " in place"
        if isinstance(v, set):
            v.add("edited")
            return path + " in place"
        t = type(v).__module__ or ""
        if t.startswith("matplotlib") and hasattr(v, "suptitle"):
            v.suptitle("edited")
            v.set_size_inches(2, 2)
            return path + " in place"
        if t.startswith("matplotlib") and hasattr(v, "plot"):
            v.plot([0, 1], [0, 1])
            v.set_title("edited")
            return path + " in place"
        if t.startswith("plotly"):
            v.update_layout(title="edited")
            v.add_scatter(x=[1], y=[2])
            return path + " in place"
    if owner is None or how < 2:
        return None
    if name == "parent_metric" or name == "fig":
        return None
    new = None
    if isinstance(v, str):
        new = "edited"
    elif isinstance(v, bool):
        new = not v
    elif isinstance(v, (int, float)):
        new = v + 1
    elif isinstance(v, np.ndarray):
        new = v * 5
    elif isinstance(v, (list, tuple)):
        new = type(v)(list(v)[::-1])
    elif hasattr(v, "applyfunc"):
        new = v * 2
    try:
        setattr(owner, name, new)
    except Exception:
        return None
    return path + " assigned"


def change(specs, o, rng_at, fresh):
    """A state-changing operation of the edited object instead of an attribute."""
    k = specs["k"]
    if k in ("gint", "rk"):
        if fresh:       # an edited stepper need not come to an end
            o.step()
        return "step" if fresh else None
    if k in ("met", "ten", "vec", "bt") and rng_at < 0.5:
        o.simplify()
        return "simplify"
    if k in ("st", "it"):
        o.clear() if hasattr(o, "fig") else None
        return "clear"
    if k == "val" and specs["v"] in (1, 2) or k == "val" and specs["v"] == 3:
        for n in ("descriptive_name", "val", "deriv"):
            try:
                setattr(o, n, "edited" if n[0] == "d" and n != "deriv" else 4.5)
                return "set " + n
            except Exception:
                pass
    return None


def simulate(scn, exp):
    warnings.simplefilter("ignore")
    from matplotlib import pyplot as plt
    groups = scn["groups"]
    envs, got, log, viol = {}, {g: [] for g in range(len(groups))}, [], []
    stats, after = {}, 0
    effects, touched = 0, set()

    def look(but):
        return {g: values(groups[g], envs[g].objs) for g in envs if g != but}

    for e in scn["events"]:
        if "build" in e:
            g = e["build"]
            envs[g] = world.Env([])
            envs[g].specs = groups[g]
            try:
                for s in groups[g]:
                    envs[g].objs.append(world.BUILD[s["k"]](envs[g], s))
            except Exception as ex:
                if g in scn["edited"]:
                    envs.pop(g)
                    log.append(["build", g, "failed"])
                    continue
                viol.append(("cannot-build", "%s raises %s: %s after other objects were edited" % (
                    groups[g], type(ex).__name__, ex)))
                break
            log.append(["build", g])
        elif "edit" in e:
            g, j = e["edit"]
            if g not in envs:
                continue
            before = look(g)
            s = groups[g][j]
            what = None
            try:
                if e["how"] == 3 and e["at"] < 0.7:
                    what = change(s, envs[g].objs[j], e["at"], (g, j) not in touched)
                if what is None:
                    what = edit_one(envs[g].objs[j], s["k"] != "val", e["at"], e["how"])
            except Exception as ex:
                what = "failed " + type(ex).__name__
            log.append(["edit", g, j, what])
            touched.add((g, j))
            if what:
                effects += 1
                key = "edit_" + ("in_place" if what.endswith("place") else "assigned" if what.endswith("assigned") else "by_operation")
                stats[key] = stats.get(key, 0) + 1
            now = look(g)
            for h in before:
                if before[h] != now[h] and not canon.same(tuple(before[h]), tuple(now[h])):
                    viol.append(("changed-another", "editing %s of an object (%s) changed another object, built separately (%s): %s" % (
                        what, s, groups[h], canon.diff(tuple(now[h]), tuple(before[h])))))
            if viol:
                break
        else:
            c = e["call"]
            g = c["g"]
            if g not in envs or g in scn["edited"] and groups[g][c["o"]]["k"] in ("gint", "rk"):
                continue
            a = answer(envs[g], {k: v for k, v in c.items() if k != "g"})
            got[g].append((c, a))
            after += effects > 0 and g not in scn["edited"]
            log.append([g, c["o"], c["op"], a[0]])
    if not viol:
        for g, x in enumerate(exp):
            if x is None or g not in envs:
                continue
            for (c, a), want in zip(got[g], x[0]):
                d = compare(a, want, tol(c))
                if d:
                    viol.append(("wrong-answer", "after edits of other objects, %s.%s(%s): %s" % (
                        groups[g][c["o"]], c["op"], json.dumps(c.get("a", {})), d)))
            now = values(groups[g], envs[g].objs)
            if not canon.same(tuple(now), tuple(x[1])):
                viol.append(("wrong-values", "after edits of other objects, %s: %s" % (
                    groups[g], canon.diff(tuple(now), tuple(x[1])))))
    plt.close("all")
    return {"violations": viol, "log": log, "sig": hashlib.sha1(json.dumps([groups, log]).encode()).hexdigest()[:12],
            "nontrivial": effects > 0 and after > 0,
            "stats": {"faults": stats, "calls": sum(len(v) for v in got.values()), "queries_after_an_edit": after}}

"""C08: plotters in use at the same time."""
import json
import os
import random
import tempfile
import warnings

from sim import canon, plots, world

ID = "C08"
TECHNIQUE = "seeded histories over several plotters and foreign figures, against a lone plotter"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 30000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": True}
NUMBA = True
INSTRUMENT = False
RULE = ("One run: 2 to 4 static and interactive plotters over 1 to 3 geodesics; 4 to 16 seeded events: draws (accepted and "
        "rejected), shows, saves, clears, pictures read, and other drawing through pyplot (own figures, other plotters, "
        "figures selected and closed). Every picture and saved file is compared with that of a lone plotter in a pristine "
        "process to which only the draws that count were given, and the drawn lines with the trajectories. Non-trivial: at "
        "least two plotters drew, or a draw was rejected. Distinct by the sequence of events.")
DISTINCT = "hash of the event sequence (plotter, operation, arguments)"
SIM_TIME = "none: the property has no clock"
REAL = ["einsteinpy.plotting, einsteinpy.geodesic", "matplotlib (Agg), plotly"]
STUBS = ["the display (pyplot.show records), plotly's page writer (records the figure)"]
ASSUME = ["other drawing goes to figures of its own", "the reference picture is that of a lone plotter in a pristine fork"]
DRAW = ("plot", "plot2D", "parametric_plot", "animate")


def setup(tmp, tier):
    plots.install()
    plots.fill_pool()


def generate(rng, i, tier):
    geos = plots.gen_pool(rng, rng.choice([1, 2, 3]))
    w = geos + [plots.gen_plotter(rng) for _ in range(rng.choice([2, 2, 3, 4]))]
    ps = list(range(len(geos), len(w)))
    gs = list(range(len(geos)))
    ev = []
    for p in ps:
        if rng.random() < 0.6:
            o, bad = plots.gen_draw(rng, w, p, gs)
            ev.append({"call": o, "bad": bad})
    for _ in range(rng.randrange(3, 13)):
        p = rng.choice(ps)
        k = w[p]["k"]
        r = rng.random()
        if r < 0.4:
            last = [e["call"] for e in ev if "call" in e and e["call"]["op"] in DRAW][-1:]
            if last and rng.random() < 0.3:   # the same kind of draw again, left to its defaults
                o, bad = plots.gen_draw(rng, w, p, gs, follow=last[0]["op"])
            else:
                o, bad = plots.gen_draw(rng, w, p, gs)
            ev.append({"call": o, "bad": bad})
        elif r < 0.62:
            ev.append({"x": rng.choice(plots.FOREIGN), "v": rng.randrange(4)})
        elif r < 0.72:
            ev.append({"call": {"o": p, "op": "show", "a": plots.gen_show(rng, k)}})
        elif r < 0.8:
            ev.append({"call": {"o": p, "op": "clear", "a": {}}})
        elif r < 0.9:
            ev.append({"call": {"o": p, "op": "picture", "a": {}}})
        else:
            ev.append({"call": {"o": p, "op": "save", "a": {"name": rng.choice([None, "a.png", "a.png", "a.png", "b.svg"] + ["c.pdf"] * (i % 9 == 0))}}})
    for p in ps:
        ev.append({"call": {"o": p, "op": "picture", "a": {}}})
    if rng.random() < 0.35:
        ev.append({"call": {"o": rng.choice(ps), "op": "save", "a": {"name": rng.choice([None, "z.png"])}}})
    return {"objects": w, "events": ev}


def relevant(scn):
    """For every event that shows something: the operations a lone plotter must do to show the same."""
    state, out = {}, []
    for e in scn["events"]:
        if "x" in e:
            out.append(None)
            continue
        c = e["call"]
        p, op = c["o"], c["op"]
        static = scn["objects"][p]["k"] == "st"
        ops = state.setdefault(p, [])
        ask = None
        if op in DRAW:
            if e["bad"]:
                ask = ops + [c]
            elif static:
                state[p] = [c]
            else:
                ops.append(c)
        elif op == "clear":
            if static:
                ask = list(ops) + [c]
                if ops:
                    ops.append(c)
            else:
                del ops[:]
        elif op == "show":
            ask = list(ops) + [c]
            if static and ops:
                ops.append(c)
        else:
            ask = list(ops) + [c]
            if op == "save" and static and ops:
                ops.append(c)   # matplotlib moves a title when it first renders it
        out.append(ask)
    return out


def attempt(env, c):
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]) if c["op"] == "save" else None
    old = os.getcwd()
    if d:
        os.chdir(d)
    try:
        return ("ok", canon.canon(world.call(env, c)))
    except Exception as e:
        return ("exc", type(e).__name__)
    finally:
        if d:
            os.chdir(old)
            import shutil
            shutil.rmtree(d, ignore_errors=True)


def lone(specs, ops):
    warnings.simplefilter("ignore")
    env = world.Env(specs)
    v = None
    for c in ops:
        v = attempt(env, c)
    return v


def sole(specs, o):
    """What an interactive plotter holds to which one draw was given."""
    warnings.simplefilter("ignore")
    env = world.Env(specs)
    world.call(env, o)
    return plots.raw(env.objs[o["o"]].show())


def merge(parts):
    """The picture that holds all of these: the things drawn one after the other, the latest setting of each kind."""
    data, layout = [], {}

    def into(a, b):
        for k, v in b.items():
            if isinstance(v, dict) and isinstance(a.get(k), dict):
                into(a[k], v)
            else:
                a[k] = json.loads(json.dumps(v)) if isinstance(v, dict) else v

    for p in parts:
        data += p["data"]
        into(layout, p["layout"])
    return {"data": data, "layout": layout}


def plain_title(r):
    """Where two kinds of draw follow each other, the position of the title may be either's."""
    t = r["layout"].get("title")
    if isinstance(t, dict):
        r = dict(r, layout=dict(r["layout"], title=t.get("text")))
    return r


def expected(scn, oracle):
    out = []
    for ops in relevant(scn):
        if ops is None:
            out.append(None)
            continue
        s, q = plots.closure_seq(scn["objects"], ops)
        v = oracle.get("lone" + json.dumps([s, q], sort_keys=True), lambda: lone(s, q))
        parts = None
        if ops[-1]["op"] == "picture" and scn["objects"][ops[-1]["o"]]["k"] == "it":
            parts = []
            for o in ops[:-1]:
                if o["op"] in DRAW:
                    s, q = plots.closure_seq(scn["objects"], [o])
                    parts.append(oracle.get("sole" + json.dumps([s, q], sort_keys=True), lambda: sole(s, q[0])))
        out.append([v, parts])
    return out


def name(scn, c):
    return "plotter %d (%s).%s(%s)" % (c["o"], scn["objects"][c["o"]]["k"], c["op"], json.dumps(c["a"], sort_keys=True))


def look(env, scn, p):
    return attempt(env, {"o": p, "op": "picture", "a": {}})


def simulate(scn, exp):
    import numpy as np
    from matplotlib import pyplot as plt
    warnings.simplefilter("ignore")
    env = world.Env(scn["objects"])
    geos = [(i, canon.canon(x)) for i, x in enumerate(env.objs) if scn["objects"][i]["k"] == "pg"]
    viol, log, user = [], [], []
    stats = {"faults": {}}
    drew, hold = set(), {}
    rejected = 0

    def count(k):
        stats["faults"][k] = stats["faults"].get(k, 0) + 1

    for e, x in zip(scn["events"], exp):
        x, parts = x or (None, None)
        if "x" in e:
            try:
                plots.foreign(env, user, e["x"], e["v"])
            except Exception as ex:     # not what is judged here
                log.append(type(ex).__name__)
            count("foreign " + e["x"])
            log.append(["x", e["x"], e["v"]])
            continue
        c = e["call"]
        p, op = c["o"], c["op"]
        own = [(f, plots.picture(f)) for f in user]
        before = look(env, scn, p) if e.get("bad") else None
        got = attempt(env, c)
        log.append([p, op, c["a"], got[0]])
        if op in DRAW:
            if e["bad"]:
                count("rejected draw")
                rejected += 1
                if got[0] != "exc":
                    viol.append(("not-rejected", name(scn, c) + " was accepted"))
                elif got != x:
                    viol.append(("wrong-answer", "%s raised %s, and %s for a lone plotter" % (name(scn, c), got[1], x[1])))
                after = look(env, scn, p)
                if after != before:
                    viol.append(("rejected-draw-shows", "%s was rejected and yet changed the picture: %s" % (
                        name(scn, c), canon.diff(after, before))))
            elif got[0] != "ok":
                viol.append(("wrong-answer", "%s raised %s" % (name(scn, c), got[1])))
            else:
                drew.add(p)
                if scn["objects"][p]["k"] == "st":
                    hold[p] = []
                hold.setdefault(p, []).extend(plots.should_hold(scn["objects"][p]["k"], c, env.ref(c["a"]["g"])))
                if op == "animate":
                    hold[p] = None
        elif op == "clear":
            hold[p] = []
        if x is not None and not e.get("bad") and got != x:
            viol.append(("wrong-picture", "%s: %s" % (name(scn, c), canon.diff(got, x))))
        if parts is not None:
            have, want = plain_title(plots.raw(env.objs[p].show())), plain_title(merge(parts))
            if have != want:
                viol.append(("wrong-sum", "%s is not the sum of the %d draws since it was cleared: %s" % (
                    name(scn, c), len(parts), canon.diff(plots._tup(plots._plain(have)), plots._tup(plots._plain(want))))))
        if op == "picture" and got[1] is not None and hold.get(p) is not None:
            lines = [d for _, d in plots.drawn_lines(env.objs[p])]
            want = hold[p]
            if len(lines) != len(want) or not all(
                    len(a) == len(b) and all(u.shape == v.shape and np.array_equal(u, v, equal_nan=True)
                                             for u, v in zip(a, b)) for a, b in zip(lines, want)):
                viol.append(("wrong-lines", "%s holds %d lines that are not the %d that were drawn" % (
                    name(scn, c), len(lines), len(want))))
        for f, before in own:
            if plots.picture(f) != before:
                viol.append(("foreign-figure", "%s changed a figure of the user's" % name(scn, c)))
        del plots.shown[:]
    for i, before in geos:
        after = canon.canon(env.objs[i])
        if after != before:
            viol.append(("geodesic-changed", "geodesic %d: %s" % (i, canon.diff(after, before))))
    plt.close("all")
    import hashlib
    stats["calls"] = len(scn["events"])
    return {"violations": viol, "log": log, "stats": stats, "nontrivial": len(drew) > 1 or rejected > 0,
            "sig": hashlib.sha1(json.dumps(log).encode()).hexdigest()[:12]}

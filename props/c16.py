"""C16: saving pictures on a failing disk."""
import hashlib
import json
import os
import shutil
import tempfile
import warnings

from props import c08
from sim import canon, disk, faults, monitor, plots, world

ID = "C16"
TECHNIQUE = "simulated failing disk under saves, against the fault-free file"
LEVEL = "exploration"
RUNS = {"quick": 7500, "thorough": 40000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": True}
NUMBA = True
INSTRUMENT = True
RULE = ("One run: 1 to 3 static plotters draw, other figures come in between, and 2 to 8 saves are made to a simulated disk "
        "that refuses to open a file, fills up after a seeded number of bytes, fails or is interrupted in a write, writes "
        "short, or fails on closing; or the save is cut short inside einsteinpy or while the picture is rendered. A save "
        "that returns is compared byte for byte with that of a lone plotter on a healthy disk; after a failed one the "
        "picture must be as before and the next save complete. Non-trivial: at least one fault fired. Distinct by events, "
        "outcomes and fault positions.")
DISTINCT = "hash of the (event, outcome, fault) sequence"
SIM_TIME = "none: the property has no clock"
REAL = ["einsteinpy.plotting.geodesic.static", "matplotlib (Agg, SVG, PDF), PIL", "the files themselves, in a scratch directory"]
STUBS = ["the raw file layer under open() (fails as seeded)", "pyplot.show"]
ASSUME = ["what the operating system accepted is in the file; loss of power afterwards is outside the property",
          "interrupts surface in writes, in rendering calls of matplotlib, or at calls made by einsteinpy"]
NAMES = ["a.png", "a.png", "b.png", "c.svg", None]


def setup(tmp, tier):
    plots.install()
    plots.fill_pool()
    from matplotlib.axis import Axis
    orig = Axis.draw

    def draw(self, *a, **k):
        if render.left is not None:
            render.count += 1
            if render.left <= 0:
                render.left = None
                render.fired = True
                raise faults.make(render.exc)
            render.left -= 1
        return orig(self, *a, **k)
    Axis.draw = draw


class render:
    left, exc, fired, count = None, None, False, 0


def gen_fault(rng):
    r = rng.random()
    if r < 0.15:
        return {"at": "open", "kind": rng.choice(["EACCES", "EMFILE", "EROFS", "ENOSPC"])}
    if r < 0.25:
        return {"at": "close", "kind": rng.choice(["ENOSPC", "EDQUOT", "EIO"])}
    if r < 0.35:
        return {"at": "call", "n": rng.randrange(3), "kind": rng.choice(["KeyboardInterrupt", "MemoryError"])}
    if r < 0.47:
        return {"at": "render", "n": rng.randrange(6), "kind": rng.choice(["KeyboardInterrupt", "MemoryError"])}
    k = rng.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EFBIG", "KeyboardInterrupt", "MemoryError", "SystemExit", "short",
                    "EINTR"])
    return {"at": "write", "kind": k, "frac": round(rng.random() ** 2, 4), "stays": k in ("ENOSPC", "EDQUOT", "EFBIG")}


def generate(rng, i, tier):
    geos = plots.gen_pool(rng, rng.choice([1, 2]))
    w = geos + [dict(plots.gen_plotter(rng), k="st") for _ in range(rng.choice([1, 2, 2, 3]))]
    gs, ps = list(range(len(geos))), list(range(len(geos), len(w)))
    ev = []

    def draw(p):
        while True:
            o, bad = plots.gen_draw(rng, w, p, gs)
            if not bad:
                break
        if "figsize" not in o["a"]["kw"] and o["op"] != "animate":
            o["a"]["kw"]["figsize"] = rng.choice([[3, 3], [4, 3]])
        ev.append({"call": o})

    for p in ps:
        draw(p)
    for _ in range(rng.randrange(2, 8)):
        p = rng.choice(ps)
        r = rng.random()
        if r < 0.7:
            s = {"o": p, "op": "save", "a": {"name": rng.choice(NAMES + (["d.pdf", "nodir/e.png", "f.bogus"] if i % 5 == 0 else []))}}
            ev.append({"call": s, "fault": gen_fault(rng)})
            if rng.random() < 0.7:      # again, under the same or another name
                ev.append({"call": dict(s, a={"name": rng.choice([s["a"]["name"], rng.choice(NAMES)])})})
        elif r < 0.8:
            draw(p)
        elif r < 0.85:
            ev.append({"call": {"o": p, "op": "show", "a": plots.gen_show(rng, "st")}})
        else:
            x = rng.choice(["fig", "title", "select", "gca", "subplots", "close", "recalc"])
            ev.append({"x": x, "v": rng.randrange(4)})
    ev.append({"call": {"o": rng.choice(ps), "op": "save", "a": {"name": rng.choice(NAMES)}}})
    return {"objects": w, "events": ev}


def plan(scn):
    """For every save, what a lone plotter must do to save the same."""
    state, out = {}, []
    for e in scn["events"]:
        ask = None
        if "call" in e:
            c = e["call"]
            ops = state.setdefault(c["o"], [])
            if c["op"] in c08.DRAW:
                state[c["o"]] = [c]
            elif c["op"] == "show":
                ops.append(c)
            elif c["op"] == "save":
                ask = list(ops) + [c]
        out.append(ask)
    return out


def call(env, c):
    """A draw or show, after which the user looks at the picture (matplotlib moves a title when it first renders it)."""
    world.call(env, c)
    env.objs[c["o"]].fig.canvas.draw()


def save(env, c, d, fault=None):
    """(outcome, {file: bytes hash} now in d, fired)."""
    old = os.getcwd()
    os.chdir(d)
    dk = disk.Disk(d, fault if fault and fault["at"] in ("open", "write", "close") else None)
    inj = faults.Injector(fault["n"], fault["kind"]) if fault and fault["at"] == "call" else None
    if fault and fault["at"] == "render":
        render.left, render.exc, render.fired = fault["n"], fault["kind"], False
    err = None
    try:
        with dk:
            try:
                if inj:
                    with inj:
                        world.call(env, c)
                else:
                    world.call(env, c)
            except BaseException as e:
                err = e
                if not isinstance(e, Exception) and not faults.is_injected(e):
                    raise
    finally:
        render.left = None
        os.chdir(old)
    fired = dk.fired or (inj and inj.fired and "call") or (fault and fault["at"] == "render" and render.fired and "render") or None
    return err, fired, dk


def ours(e):
    """The injected error, or one raised while it was being handled (as matplotlib's PDF writer does)."""
    seen = 0
    while e is not None and seen < 10:
        if faults.is_injected(e):
            return True
        e, seen = e.__cause__ or e.__context__, seen + 1
    return False


def lone(specs, ops):
    warnings.simplefilter("ignore")
    env = world.Env(specs)
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    try:
        for c in ops[:-1]:
            try:
                call(env, c)
            except Exception:
                pass
        err, _, dk = save(env, ops[-1], d)
        return (type(err).__name__ if err is not None else None, plots.files(d), dk.written)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def expected(scn, oracle):
    out = []
    for ops in plan(scn):
        if ops is None:
            out.append(None)
            continue
        s, q = plots.closure_seq(scn["objects"], ops)
        out.append(oracle.get("save" + json.dumps([s, q], sort_keys=True), lambda: lone(s, q)))
    return out


def simulate(scn, exp):
    from matplotlib import pyplot as plt
    warnings.simplefilter("ignore")
    env = world.Env(scn["objects"])
    base = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    viol, log, user, fl = [], [], [], {}
    saves = complete = 0
    try:
        for i, (e, x) in enumerate(zip(scn["events"], exp)):
            if "x" in e:
                try:
                    plots.foreign(env, user, e["x"], e["v"])
                except Exception as ex:
                    log.append(type(ex).__name__)
                continue
            c = e["call"]
            p = env.objs[c["o"]]
            if c["op"] != "save":
                try:
                    call(env, c)
                except Exception as ex:
                    viol.append(("wrong-answer", "%s raised %s" % (c08.name(scn, c), type(ex).__name__)))
                continue
            want_err, want_files, size = x
            f = dict(e["fault"]) if e.get("fault") else None
            if f and "frac" in f:
                f["n"] = int(f["frac"] * size)
            before = plots.picture(p.fig)
            err, fired, dk = save(env, c, base, f)
            saves += 1
            log.append([i, c["a"]["name"], type(err).__name__, fired, dk.writes])
            what = c08.name(scn, c)
            have = dict((n, (s, h)) for n, s, h in plots.files(base))
            benign = fired in ("short write", "EINTR")
            if fired:
                fl[str(fired)] = fl.get(str(fired), 0) + 1
            name_, good = (want_files[0][0], tuple(want_files[0][1:])) if want_files else (None, None)
            if err is None:
                complete += 1
                if want_err:
                    viol.append(("wrong-answer", "%s returned, but raises %s on a healthy disk" % (what, want_err)))
                elif have.get(name_) != good:
                    viol.append(("incomplete", "%s returned after %s, and the file %s is %s instead of %s" % (
                        what, fired or "no fault", name_, have.get(name_), good)))
            else:
                if not fired or benign:
                    if type(err).__name__ != want_err:
                        viol.append(("wrong-error", "%s raised %s: %s with %s" % (what, type(err).__name__, err, fired or "no fault")))
                elif not ours(err) and type(err).__name__ != want_err:
                    viol.append(("wrong-error", "%s: %s came out as %s: %s" % (what, fired, type(err).__name__, err)))
            after = plots.picture(p.fig)
            if after != before:
                viol.append(("picture-changed", "%s (%s) changed the picture: %s" % (what, fired, canon.diff(after, before))))
            if viol:
                break
    finally:
        shutil.rmtree(base, ignore_errors=True)
    plt.close("all")
    return {"violations": viol, "log": log, "nontrivial": bool(fl),
            "stats": {"faults": fl, "saves": saves, "complete_saves": complete},
            "sig": hashlib.sha1(json.dumps([log, scn["events"]]).encode()).hexdigest()[:12]}

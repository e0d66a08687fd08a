"""C09: animations under a simulated display timer."""
import gc
import hashlib
import itertools
import json
import warnings

from sim import canon, faults, monitor, plots, world

ID = "C09"
TECHNIQUE = "simulated display timer with late, dropped, repeated and reordered frames, against the trajectory"
LEVEL = "exploration"
RUNS = {"quick": 7500, "thorough": 40000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": True}
NUMBA = True
INSTRUMENT = True
RULE = ("One run: 1 to 3 static plotters animate 1 to 3 geodesics; a simulated clock fires their timers, each firing seeded to "
        "be on time, late, early, doubled or dropped; frames are also sought out of order, repeated, cut short by an "
        "interrupt, resized, redrawn, paused, and saved through a writer that may run out of space; other plotters, "
        "figures and calculations come in between. After every event each animation's line is compared with the first k "
        "points of its own geodesic, k being the frame that a plain animation with as many frames as points shows after "
        "the same events; some frames are compared pixel by pixel with a lone animation in a pristine process. Non-trivial: "
        "at least 3 frames were judged and a timer fault, seek, save or interleaving happened. Distinct by the event sequence.")
DISTINCT = "hash of the event sequence with the frames shown"
SIM_TIME = "milliseconds of the simulated display clock"
REAL = ["einsteinpy.plotting.geodesic.static, einsteinpy.geodesic", "matplotlib FuncAnimation and Agg canvas"]
STUBS = ["the canvas timer (fired by the simulator)", "pyplot.show", "the movie writer"]
ASSUME = ["which frame is due after a timer event is matplotlib's decision, taken from a plain FuncAnimation driven alike"]


def setup(tmp, tier):
    plots.install()
    plots.fill_pool()


LONG = ["fire", "seek", "seek", "tail", "tail", "redraw", "x", "draw", "gc", "cut"]
KINDS = ["tail", "fire", "fire", "fire", "fire", "burst", "seek", "seek", "save", "resize", "redraw", "cut", "pause", "resume", "x",
         "x", "draw", "animate", "gc", "show"]


def gen_anim(rng, w, ps, gs):
    kw = {}
    if rng.random() < 0.7:
        kw["interval"] = rng.choice([1, 25, 40, 500])
    if rng.random() < 0.4:
        kw["color"] = rng.choice(plots.COLORS)
    return {"o": rng.choice(ps), "op": "animate", "a": {"g": {"ref": rng.choice(gs)}, "kw": kw}}


def generate(rng, i, tier):
    long = i % 12 == 5
    geos = plots.gen_pool(rng, rng.choice([1, 2, 3]), [0, 1, 2, 3, 4, 5, 6] if i % 10 else None)
    if long:
        geos[0]["v"] = rng.choice([8, 9])
    w = geos + [dict(plots.gen_plotter(rng), k="st") for _ in range(rng.choice([1, 2, 2, 3]))]
    gs, ps = list(range(len(geos))), list(range(len(geos), len(w)))
    ev = [{"e": "animate", "call": gen_anim(rng, w, ps[k % len(ps):][:1], gs), "draw": rng.random() < 0.8}
          for k in range(rng.choice([1, 2, 2, 3]))]
    for _ in range(rng.randrange(4, 12 if long else 22)):
        e = rng.choice(LONG if long else KINDS)
        if e == "show" and rng.random() < 0.7:
            e = "seek"
        d = {"e": e, "k": rng.randrange(4)}     # k: which animation
        if e == "fire":
            d["late"] = rng.choice([0, 0, 0, 1, 7, 300, -3])
            d["n"] = rng.choice([1, 1, 2, 5] + [12, 30] * (not long))
        elif e == "burst":
            d["n"] = rng.choice([2, 3])
        elif e == "tail":
            d["last"] = rng.choice([1, 2, 3, 4])
            d["n"] = rng.choice([2, 4, 6])
        elif e == "seek":
            d["frames"] = [round(rng.random(), 3) for _ in range(rng.choice([1, 2, 4]))]
        elif e == "save":
            d["fail"] = rng.choice([None, None, 0.0, 0.4, 0.9])
        elif e == "cut":
            d["frac"] = rng.choice([0, 1, 2, 3])
            d["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
        elif e == "resize":
            d["size"] = rng.choice([[5, 5], [3, 4]])
        elif e == "x":
            d.update(x=rng.choice(plots.FOREIGN), v=rng.randrange(4))
            if d["x"] in ("shadow", "hyper") and rng.random() < 0.8:
                d["x"] = "fig"
        elif e == "draw":
            o, bad = plots.gen_draw(rng, w, rng.choice(ps), gs, anim=False)
            d.update(call=o, bad=bad)
        elif e == "animate":
            d.update(call=gen_anim(rng, w, ps, gs), draw=rng.random() < 0.7)
        elif e == "show":
            d["call"] = {"o": rng.choice(ps), "op": "show", "a": plots.gen_show(rng, "st")}
        ev.append(d)
    if rng.random() < 0.3:
        ev[-1]["pixels"] = 1
    return {"objects": w, "events": ev}


class Anim:
    """One animation under test and its plain twin, driven by the same events."""

    def __init__(self, p, g, interval):
        from matplotlib.animation import FuncAnimation
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        self.fig, self.ax, self.ani = p.fig, p.ax, p.ani
        self.timer = plots.Timer.all[-1]
        self.data = g.trajectory[1][:, 1:4].T.copy()
        self.n = self.data.shape[1]
        self.shown = None
        f = Figure(figsize=(2, 2))
        FigureCanvasAgg(f)
        ax = f.add_axes([0, 0, 1, 1])
        ax.set_axis_off()
        line, = ax.plot([0], [0])

        self.boom = None

        def update(num):
            if self.boom:
                raise self.boom
            self.shown = num
            return (line,)

        self.twin = FuncAnimation(f, update, self.n, interval=interval, blit=True)
        self.twin_fig = f
        self.twin_timer = plots.Timer.all[-1]
        self.due = None
        self.interval = interval
        self.closed = False
        self.clean = True       # pixels comparable with a lone animation
        self.started = False
        self.dirty = False      # the last frame was cut short

    def both(self, fn):
        """Does fn(animation, figure, timer) to both; the twin's and the real one's outcome."""
        out = []
        for a in ((self.twin, self.twin_fig, self.twin_timer), (self.ani, self.fig, self.timer)):
            try:
                fn(*a)
                out.append(None)
            except Exception as e:
                out.append(type(e).__name__)
        return out

    def line(self):
        import numpy as np
        ls = [ln for ln in self.ax.lines if hasattr(ln, "get_data_3d")]
        if not ls:
            return None
        d = [np.atleast_1d(np.asarray(v, dtype=float)) for v in ls[-1].get_data_3d()]
        return len(ls), d

    def check(self):
        import numpy as np
        if self.shown is None:
            return None
        got = self.line()
        want = self.data[:, :self.shown]
        if got is None or got[0] != 1:
            return "%s lines instead of 1" % (got and got[0])
        d = got[1]
        if all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(d, want)):
            return None
        return "frame %d shows %s points%s" % (self.shown, [len(x) for x in d],
                                              "" if any(len(x) != self.shown for x in d) else " that are not the first %d" % self.shown)


class Writer:
    """Counts frames; runs out of space at one of them."""

    @staticmethod
    def make(on_frame, fail):
        from matplotlib.animation import AbstractMovieWriter

        class W(AbstractMovieWriter):
            n = 0

            def setup(self, fig, outfile, dpi=None):
                self.fig, self.outfile, self.dpi = fig, outfile, 50

            def grab_frame(self, **kw):
                if fail is not None and self.n >= fail:
                    raise OSError(28, "No space left on device")
                self.n += 1
                on_frame()

            def finish(self):
                pass
        return W()


def lone_pixels(specs, call, k):
    warnings.simplefilter("ignore")
    env = world.Env(specs)
    world.call(env, call)
    p = env.objs[call["o"]]
    p.fig.canvas.draw()
    p.ani.frame_seq = iter([k])
    plots.Timer.all[-1].fire()
    return pixels(p.fig)


def pixels(fig):
    import numpy as np
    return hashlib.sha1(np.asarray(fig.canvas.buffer_rgba()).tobytes()).hexdigest()


def expected(scn, oracle):
    """Pixels of the frame the marked event ends with, if it is known beforehand."""
    out = {}
    for i, e in enumerate(scn["events"]):
        if e.get("pixels"):
            for j, a in enumerate(x for x in scn["events"] if x["e"] == "animate"):
                g = scn["objects"][a["call"]["a"]["g"]["ref"]]["v"]
                n = plots.POOL[g]["steps"]
                for k in {0, n // 2, n - 1}:
                    s, q = world.closure(scn["objects"], a["call"])
                    out["%d:%d" % (j, k)] = oracle.get("pix" + json.dumps([s, q, k], sort_keys=True),
                                                       lambda: lone_pixels(s, q, k))
    return out


def simulate(scn, exp):
    import errno  # noqa
    from matplotlib import pyplot as plt
    from matplotlib.backend_bases import ResizeEvent
    warnings.simplefilter("ignore")
    env = world.Env(scn["objects"])
    geos = [(i, canon.canon(x)) for i, x in enumerate(env.objs) if scn["objects"][i]["k"] == "pg"]
    viol, log, user, anims = [], [], [], []
    fl = {}
    now = 0.0
    judged = 0

    def count(k, n=1):
        fl[k] = fl.get(k, 0) + n

    def bad(cls, i, e, msg):
        viol.append((cls, "event %d (%s) at %g ms: %s" % (i, e["e"], now, msg)))

    def judge(i, e, only=None):
        nonlocal judged
        for j, a in enumerate(anims):
            if a.closed or only is not None and a is not only:
                continue
            if not a.dirty:
                judged += a.shown is not None
                m = a.check()
                if m:
                    bad("wrong-frame", i, e, "animation %d: %s" % (j, m))
                    return True
            if (a.timer.interval, a.timer.running) != (a.twin_timer.interval, a.twin_timer.running):
                bad("wrong-timer", i, e, "animation %d: timer %s, every %s ms; asked for %s, every %s ms" % (
                    j, "on" if a.timer.running else "off", a.timer.interval,
                    "on" if a.twin_timer.running else "off", a.twin_timer.interval))
                return True
        return False

    def fire(a):
        r = a.both(lambda ani, fig, t: t.fire())
        if r[0] != r[1]:
            return "raised %s" % r[1]
        a.dirty = False

    def act(a, fn):
        r = a.both(fn)
        return None if r[0] == r[1] else "raised %s instead of %s" % (r[1], r[0])

    for i, e in enumerate(scn["events"]):
        k = e["e"]
        m = None
        a = anims[e["k"] % len(anims)] if anims and "k" in e else None
        if k == "animate":
            c = e["call"]
            try:
                world.call(env, c)
            except Exception as ex:
                bad("animate-fails", i, e, type(ex).__name__)
                break
            a = Anim(env.objs[c["o"]], env.ref(c["a"]["g"]), c["a"]["kw"].get("interval", 10))
            anims.append(a)
            fr = list(a.ani.new_frame_seq())
            if len(fr) != a.n:
                bad("wrong-frames", i, e, "%d frames for a geodesic of %d points" % (len(fr), a.n))
                break
            if e["draw"]:
                m = act(a, lambda ani, fig, t: fig.canvas.draw())
                a.started = True
        elif k == "x":
            try:
                plots.foreign(env, user, e["x"], e["v"])
            except Exception as ex:
                log.append(type(ex).__name__)
            count("foreign " + e["x"])
            for b in anims:     # a closed window has no more frames
                b.closed = b.closed or not hasattr(b.fig.canvas, "buffer_rgba")
        elif k in ("draw", "show"):
            try:
                world.call(env, e["call"])
            except Exception as ex:
                log.append(type(ex).__name__)
            for b in anims:
                if b.fig is getattr(env.objs[e["call"]["o"]], "fig", None):
                    b.clean = False
        elif k == "gc":
            gc.collect()
        elif a is None or a.closed:
            continue
        elif k == "fire":
            if not a.timer.running:
                continue
            for _ in range(e["n"]):
                now += max(0, a.timer.interval + e["late"])
                count("timer late" if e["late"] > 0 else "timer early" if e["late"] < 0 else "timer on time")
                if e["late"] > a.timer.interval:
                    count("frames dropped")
                m = fire(a)
                if m or judge(i, e, a):
                    break
        elif k == "tail":       # the end of the run of frames, and the start of the next
            a.both(lambda ani, fig, t: setattr(ani, "frame_seq", itertools.islice(ani.new_frame_seq(), max(0, a.n - e["last"]), None)))
            count("run to the last frame")
            if a.timer.running:
                for _ in range(e["n"]):
                    now += a.timer.interval
                    m = m or fire(a)
                    if judge(i, e, a):
                        break
        elif k == "burst":
            if not a.timer.running:
                continue
            for _ in range(e["n"]):
                m = m or fire(a)
            count("timer doubled", e["n"])
        elif k == "seek":
            fr = [int(x * a.n) for x in e["frames"]]
            a.both(lambda ani, fig, t: setattr(ani, "frame_seq", iter(fr)))
            count("frames out of order", len(fr))
            if a.timer.running:
                for _ in fr:
                    m = m or fire(a)
                    if judge(i, e, a):
                        break
        elif k == "save":
            seen = []
            at = None if e["fail"] is None else int(e["fail"] * a.n)
            for ani, mine in ((a.twin, False), (a.ani, True)):
                def on_frame():
                    if mine:
                        ln = a.line()
                        seen.append(ln[1] if ln and ln[0] == 1 else None)
                a.shown_before = a.shown
                try:
                    ani.save("movie", writer=Writer.make(on_frame, at))
                    r = None
                except OSError:
                    r = "OSError"
                if mine and (r is None) != (at is None):
                    m = "saving the animation %s" % ("hid the full disk" if r is None else "failed")
            a.dirty = False
            want = list(range(a.n))[:at]
            import numpy as np
            ok = len(seen) == len(want) and all(
                d is not None and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(d, a.data[:, :kk]))
                for kk, d in zip(want, seen))
            if not ok:
                m = m or "the saved movie has frames of %s points, expected %s" % (
                    [d and len(d[0]) for d in seen], want)
            count("disk full" if at is not None else "movie saved")
            a.clean = False
        elif k == "resize":
            def size(ani, fig, t):
                fig.set_size_inches(e["size"], forward=False)
                ResizeEvent("resize_event", fig.canvas)._process()
                fig.canvas.draw()
            m = act(a, size)
            a.clean = False
            count("window resized")
        elif k == "redraw":
            m = act(a, lambda ani, fig, t: fig.canvas.draw())
            a.started = True
        elif k in ("pause", "resume"):
            if not a.started:
                continue
            m = act(a, lambda ani, fig, t: getattr(ani, k)())
            a.clean = False
        elif k == "cut":
            if not a.timer.running:
                continue
            inj = faults.Injector(e["frac"], e["exc"])
            try:
                with inj:
                    a.timer.fire()
                a.dirty = False
            except BaseException as ex:
                if faults.is_injected(ex):
                    a.dirty, a.clean, a.boom = True, False, ex
                    count("frame cut short by " + e["exc"])
                else:
                    m = "raised " + type(ex).__name__
            try:    # the twin's frame is cut short alike
                a.twin_timer.fire()
            except BaseException as ex:
                if ex is not a.boom:
                    raise
            a.boom = None
        if m:
            bad("wrong-frame", i, e, m)
            break
        log.append([i, k, now, [b.shown for b in anims]])
        if judge(i, e):
            break
        if e.get("pixels") and not viol:
            for j, b in enumerate(anims):
                for kk in (0, (b.n - 1) // 2, b.n - 2):
                    key = "%d:%d" % (j, kk)
                    if b.clean and not b.closed and b.timer.running and key in exp:
                        b.both(lambda ani, fig, t: setattr(ani, "frame_seq", iter([kk])))
                        fire(b)
                        judged += 1
                        count("pixels compared")
                        if pixels(b.fig) != exp[key]:
                            bad("wrong-pixels", i, e, "frame %d of animation %d looks different from a lone one" % (kk, j))
                            break
    for i, before in geos:
        after = canon.canon(env.objs[i])
        if after != before:
            viol.append(("geodesic-changed", "geodesic %d: %s" % (i, canon.diff(after, before))))
    plt.close("all")
    return {"violations": viol, "log": log, "nontrivial": judged >= 3,
            "stats": {"faults": fl, "frames_judged": judged, "simulated_ms": int(now), "calls": len(scn["events"])},
            "sig": hashlib.sha1(json.dumps(log).encode()).hexdigest()[:12]}

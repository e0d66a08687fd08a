"""Plotters in a simulated world: kinds st (static), it (interactive), and what their pictures hold.

The display is simulated: ``pyplot.show`` and plotly's page writer only record, and
timers are fired by the simulator (see ``Timer``)."""
import hashlib
import os

from . import boot
from . import canon as cn
from . import world
from .world import build, op

shown = []      # what the display was asked to show


def install():
    """Puts the simulated display, browser and timers in place, once."""
    import matplotlib as mpl
    from matplotlib import pyplot as plt
    from matplotlib.backend_bases import FigureCanvasBase
    mpl.rcParams["svg.hashsalt"] = "verif"
    mpl.rcParams["figure.max_open_warning"] = 0
    plt.show = lambda *a, **k: shown.append(tuple(plt.get_fignums()))
    FigureCanvasBase._timer_cls = Timer
    warm()


def warm():
    """Makes the plotting libraries load what they load lazily; nothing of einsteinpy's."""
    import io

    import numpy as np
    from matplotlib import pyplot as plt
    from plotly import graph_objects as go
    for ext in ("pdf", "svg", "png"):
        fig = plt.figure()
        ax = plt.axes(projection="3d")
        ax.plot_surface(np.eye(3), np.eye(3), np.eye(3), label="s")
        ax.plot([1, 2], [1, 2], [1, 3], label="x$^2$")
        ax.set_xlabel("$X\\:(GM/c^2)$")
        ax.legend()
        fig.savefig(io.BytesIO(), format=ext)
        plt.close(fig)
    f = go.Figure()
    f.add_trace(go.Surface(x=np.eye(2), y=np.eye(2), z=np.eye(2), colorscale=[(0, "#000"), (1, "#000")]))
    f.add_trace(go.Scatter3d(x=[1], y=[1], z=[2], marker=dict(size=1), line=dict(color="#000", width=2)))
    f.add_trace(go.Scatter(x=[1], y=[2], fill="toself", fillcolor="#000", line=dict(color="#000")))
    f.update_layout(title=dict(text="t", x=0.4, xanchor="center"), scene=dict(xaxis_title="x"), xaxis_title="q",
                    scene_aspectmode="auto", scene_aspectratio=dict(x=1, y=1, z=1))
    traces(f)
    del Timer.all[:]


class Timer:
    """The display's timer; fires when the simulator says so."""

    all = []

    def __init__(self, interval=None, callbacks=None):
        self.callbacks = list(callbacks or [])
        self.interval = 1000 if interval is None else interval
        self.single_shot = False
        self.running = False
        self.fired = 0
        Timer.all.append(self)

    def start(self, interval=None):
        if interval is not None:
            self.interval = interval
        self.running = True

    def stop(self):
        self.running = False

    def add_callback(self, func, *args, **kwargs):
        self.callbacks.append((func, args, kwargs))
        return func

    def remove_callback(self, func, *args, **kwargs):
        for c in list(self.callbacks):
            if c[0] == func:
                self.callbacks.remove(c)

    def fire(self):
        self.fired += 1
        for f, a, k in list(self.callbacks):
            if f(*a, **k) == 0:
                self.callbacks.remove((f, a, k))
        if not self.callbacks or self.single_shot:
            self.stop()


# --------------------------------------------------------------- reading pictures

def arr(a):
    import numpy as np
    a = np.ma.filled(np.ma.asarray(a, dtype=float), np.nan) if not isinstance(a, np.ndarray) or a.dtype.kind != "O" else a
    a = np.ascontiguousarray(a)
    return (a.shape, hashlib.sha1(a.tobytes()).hexdigest()[:16])


def artist(c):
    from matplotlib import colors
    n = type(c).__name__
    out = [n, str(getattr(c, "get_label", lambda: "")())]
    g = lambda k: getattr(c, k, None)
    if g("get_data_3d"):
        out.append([arr(v) for v in c.get_data_3d()])
    elif g("get_xydata"):
        out.append(arr(c.get_xydata()))
    if g("get_linestyle") and g("get_marker"):
        out += [c.get_linestyle(), float(c.get_linewidth()), str(c.get_marker()), colors.to_hex(c.get_color(), True)]
    if g("_vec") is not None:
        out.append(arr(c._vec))
    if n in ("Polygon", "PathPatch"):
        out.append(arr(c.get_path().vertices))
    for k in ("_facecolor3d",):
        if g(k) is not None:
            try:
                out.append(arr(getattr(c, k)))
            except Exception:
                pass
    if g("_facecolor3d") is None and g("get_facecolor") and not g("get_text"):
        try:
            out.append(arr(c.get_facecolor()))
        except Exception:
            pass
    out.append(c.get_alpha())
    if g("get_text"):
        out.append(c.get_text())
    if n == "Legend":
        out.append([t.get_text() for t in c.get_texts()])
    out.append(bool(c.get_visible()))
    return out


def picture(fig):
    """What a matplotlib figure holds, in a comparable form."""
    import numpy as np
    out = [("size", tuple(float(x) for x in fig.get_size_inches()), float(fig.dpi))]
    for ax in fig.axes:
        a = ["axes", ax.name, arr(ax.get_position(original=True).bounds), ax.get_title(), ax.get_xlabel(), ax.get_ylabel(),
             str(ax.get_aspect())]
        lim = [ax.get_xlim(), ax.get_ylim()]
        if ax.name == "3d":
            a.append(ax.get_zlabel())
            lim.append(ax.get_zlim())
            a += [float(ax.azim), float(ax.elev), arr(ax._box_aspect)]
        a += [arr(np.asarray(x)) for x in lim]
        a += [artist(c) for c in ax.get_children() if type(c).__name__ not in ("XAxis", "YAxis", "ZAxis", "Spine")]
        if ax.get_legend() is not None:
            a.append(artist(ax.get_legend()))
        out.append(a)
    out += [artist(c) for c in fig.texts + fig.lines + fig.patches]
    return _tup(out)


def traces(fig):
    """What a plotly figure holds."""
    return _tup(_plain(fig.to_plotly_json()))


def raw(fig):
    """The same as nested dictionaries."""
    import numpy as np

    def f(x):
        if isinstance(x, dict):
            return {k: f(v) for k, v in x.items()}
        if isinstance(x, np.ndarray):
            return ["array", repr(arr(x))]
        if isinstance(x, (list, tuple)):
            return [f(v) for v in x]
        return x if isinstance(x, (str, int, float, bool, type(None))) else repr(x)
    r = f(fig.to_plotly_json())
    r.setdefault("layout", {})
    r["data"] = list(r.get("data", []))
    for d in r["data"]:
        d.pop("uid", None)
    r["layout"].pop("template", None)
    return {"data": r["data"], "layout": r["layout"]}


def _plain(x):
    import numpy as np
    if isinstance(x, dict):
        return [[k, _plain(x[k])] for k in sorted(x)]
    if isinstance(x, np.ndarray):
        return ["array", arr(x)]
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    return x if isinstance(x, (str, int, float, bool, type(None))) else repr(x)


def _tup(x):
    if isinstance(x, (list, tuple)):
        return tuple(_tup(v) for v in x)
    if isinstance(x, float):
        return ("f", cn.fl(x))
    return x


def drawn_lines(p):
    """The data of every line in the picture of a plotter, as arrays."""
    import numpy as np
    if hasattr(p, "show") and type(p).__name__ == "InteractiveGeodesicPlotter":
        return [(t.name, [np.asarray(v) for v in ([t.x, t.y, t.z] if t.type == "scatter3d" else [t.x, t.y])])
                for t in p.show().data if t.type in ("scatter3d", "scatter") and getattr(t, "fill", None) is None]
    out = []
    for ax in p.fig.axes:
        for ln in ax.lines:
            d = ln.get_data_3d() if hasattr(ln, "get_data_3d") else ln.get_data()
            out.append((ln.get_label(), [np.asarray(v, dtype=float) for v in d]))
    return out


def should_hold(kind, o, g):
    """The lines that one draw of geodesic g must leave in the picture."""
    lam, tr = g.trajectory
    if o["op"] in ("plot", "animate"):
        return [[tr[:, 1], tr[:, 2], tr[:, 3]]]
    if o["op"] == "plot2D":
        a, b = (o["a"].get("kw") or {}).get("coordinates", [1, 2])
        return [[tr[:, a], tr[:, b]]]
    if o["op"] == "parametric_plot":
        return [[lam, tr[:, i]] for i in (1, 2, 3)]
    raise ValueError(o)


def files(d="."):
    """Names and contents of the files in a directory."""
    out = []
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), "rb") as f:
            b = f.read()
        out.append((n, len(b), hashlib.sha1(b).hexdigest()[:16]))
    return tuple(out)


# ------------------------------------------------------------------- the plotters
BH = [None, ("#123", "#00ff00"), ("#888888", "#F0F")]


@build("st")
def _b_st(env, s):
    from einsteinpy.plotting import GeodesicPlotter, StaticGeodesicPlotter
    kw = {}
    if s.get("bh"):
        kw["bh_colors"] = BH[s["bh"]]
    if "erg" in s:
        kw["draw_ergosphere"] = s["erg"]
    return (GeodesicPlotter if s.get("auto") else StaticGeodesicPlotter)(**kw)


@build("it")
def _b_it(env, s):
    from einsteinpy.plotting import InteractiveGeodesicPlotter
    kw = {}
    if s.get("bh"):
        kw["bh_colors"] = BH[s["bh"]]
    if "erg" in s:
        kw["draw_ergosphere"] = s["erg"]
    return InteractiveGeodesicPlotter(**kw)


def _kw(p):
    kw = {k: tuple(v) if isinstance(v, list) else v for k, v in (p.get("kw") or {}).items()}
    return kw


@op("st it", mut=True, tags=("draw",))
def op_plot(env, o, p):
    o.plot(env.ref(p["g"]), **_kw(p))


@op("st it", mut=True, tags=("draw",), name="plot2D")
def op_plot2d(env, o, p):
    o.plot2D(env.ref(p["g"]), **_kw(p))


@op("st it", mut=True, tags=("draw",))
def op_parametric_plot(env, o, p):
    o.parametric_plot(env.ref(p["g"]), **_kw(p))


@op("st", mut=True, tags=("draw",))
def op_animate(env, o, p):
    o.animate(env.ref(p["g"]), **_kw(p))


@op("st it", mut=True)
def op_show(env, o, p):
    v = o.show(**_kw(p))
    return None if v is None else traces(v)


@op("st it", mut=True)
def op_clear(env, o, p):
    o.clear()


@op("st it")
def op_save(env, o, p):
    if p.get("name"):
        o.save(p["name"])
    else:
        o.save()
    if env.specs[env.objs.index(o)]["k"] == "st":
        return files()
    out = [[traces(f), sorted(kw.items())] for f, kw in boot.saved]
    del boot.saved[:]
    return out


@op("st", name="picture")
def op_picture(env, o, p):
    return picture(o.fig) if hasattr(o, "fig") else None


@op("it", name="picture")
def op_picture_it(env, o, p):
    return traces(o.show())


COLORS = ["#ff0000", "#00ff00", "#1234ab", "#000000"]
ASPECT = {"st": ["auto", "equal", "equalxy", "equalxz"], "it": ["auto", "data", "manual", "cube"]}
BAD = ["bogus", "", "Auto", "square"]


def gen_draw(rng, specs, i, geos, anim=True, follow=None):
    """A draw of one of the geodesics geos by plotter i, accepted or not; follow: the kind of draw, told little else."""
    k = specs[i]["k"]
    kw = {}
    name = rng.choice(["plot", "plot2D", "parametric_plot", "plot2D"] + (["animate"] if k == "st" and anim else []))
    if follow and (k == "st" or follow != "animate"):
        if follow == "plot2D":
            kw["coordinates"] = [rng.choice([1, 2, 3]), rng.choice([1, 2, 3])]
        if follow == "plot" and rng.random() < 0.5:
            kw["aspect"] = rng.choice(ASPECT[k])
        return {"o": i, "op": follow, "a": {"g": {"ref": rng.choice(geos)}, "kw": kw}}, False
    if name != "parametric_plot":
        if rng.random() < 0.7:
            kw["color"] = rng.choice(COLORS)
    elif rng.random() < 0.4:
        kw["colors"] = rng.sample(COLORS, 3)
    bad = False
    if name == "plot":
        if rng.random() < 0.5:
            kw["aspect"] = rng.choice(ASPECT[k])
        if k == "it" and rng.random() < 0.4:
            if rng.random() < 0.5:
                kw["aspect"] = "manual"
            kw["aspect_ratio"] = {"x": rng.choice([1, 2]), "y": 1, "z": rng.choice([0.5, 1])}
        if rng.random() < 0.25:
            bad = True
            kw["aspect"] = rng.choice(BAD + [ASPECT["it" if k == "st" else "st"][2]])
    if name == "plot2D":
        kw["coordinates"] = [rng.choice([1, 2, 3]), rng.choice([1, 2, 3])]
        if rng.random() < 0.3:
            bad = True
            kw["coordinates"] = rng.choice([[0, 1], [1, 4], [4, 5], [-1, 2], [7, 1], [2, 0], [3, -3]])
    if name != "animate" and rng.random() < 0.5:
        kw["title"] = rng.choice(["A title", "Another", "third"])
    if k == "st" and name != "animate" and rng.random() < 0.4:
        kw["figsize"] = rng.choice([[4, 3], [6, 6], [5, 5.5]])
    o = {"o": i, "op": name, "a": {"g": {"ref": rng.choice(geos)}, "kw": kw}}
    return o, bad


def gen_plotter(rng):
    s = {"k": rng.choice(["st", "st", "it"]), "bh": rng.randrange(3)}
    if rng.random() < 0.6:
        s["erg"] = rng.random() < 0.5
    if s["k"] == "st" and rng.random() < 0.3:
        s["auto"] = 1
    return s


def gen_show(rng, k):
    kw = {}
    if k == "st" and rng.random() < 0.6:
        kw = {"azim": rng.choice([-60, 10, 45]), "elev": rng.choice([30, 5, 80])}
    return {"kw": kw}


FOREIGN = ["fig", "title", "select", "close", "closeall", "gca", "shadow", "hyper", "recalc", "subplots"]


def foreign(env, user, what, v):
    """Drawing by others through the same library; user: the user's own figures."""
    from matplotlib import pyplot as plt
    if what == "fig" or what in ("title",) and not user:
        f = plt.figure()
        user.append(f)
        plt.plot([1, 2, 3 + v], [v, 1, 0], label="mine")
        plt.title("mine %d" % v)
    elif what == "title":
        plt.figure(user[v % len(user)])
        plt.title("again %d" % v)
        plt.plot([v, 2], [0, v])
    elif what == "select":
        n = plt.get_fignums()
        if n:
            plt.figure(n[v % len(n)])
    elif what == "close":
        if user:
            plt.close(user.pop(v % len(user)))
    elif what == "closeall":
        plt.close("all")
        del user[:]
    elif what == "gca":
        user.append(plt.figure())
        plt.gca().set_xlabel("own %d" % v)
    elif what == "subplots":
        f, ax = plt.subplots(1, 2)
        user.append(f)
        ax[v % 2].scatter([1, 2], [v, 3])
    elif what == "shadow":
        from astropy import units as u
        from einsteinpy.plotting import ShadowPlotter
        from einsteinpy.rays import Shadow
        plt.figure()
        s = Shadow(mass=1 * u.kg, n_rays=40, fov=30 * u.km)
        p = ShadowPlotter(shadow=s, is_line_plot=bool(v % 2))
        p.plot()
        p.show()
    elif what == "hyper":
        from astropy import units as u
        from einsteinpy.hypersurface import SchwarzschildEmbedding
        from einsteinpy.plotting import HypersurfacePlotter
        p = HypersurfacePlotter(SchwarzschildEmbedding(5.972e24 * u.kg), plot_type=["wireframe", "surface"][v % 2], alpha=1000)
        p.plot()
        p.show()
    elif what == "recalc":
        g = [x for x, s in zip(env.objs, env.specs) if s["k"] == "pg"]
        g[v % len(g)].calculate_trajectory(steps=1, delta=0.3, suppress_warnings=True)


@build("pl")
def _b_pl(env, s):
    return None


@op("pl", gen=lambda rng, w, i: {"t": rng.choice(["wireframe", "surface", "none"]), "v": rng.randrange(2), "s": rng.randrange(2)})
def op_hyper(env, o, p):
    from astropy import units as u
    from matplotlib import pyplot as plt
    from einsteinpy.hypersurface import SchwarzschildEmbedding
    from einsteinpy.plotting import HypersurfacePlotter
    h = HypersurfacePlotter(SchwarzschildEmbedding([5.972e24, 1e23][p["v"]] * u.kg), plot_type=p["t"], alpha=1000)
    h.plot()
    if p["s"]:
        h.show()
    return picture(plt.gcf())


@op("pl", gen=lambda rng, w, i: {"l": rng.randrange(2), "v": rng.randrange(2), "s": rng.randrange(3)})
def op_shadow(env, o, p):
    from astropy import units as u
    from matplotlib import pyplot as plt
    from einsteinpy.plotting import ShadowPlotter
    from einsteinpy.rays import Shadow
    plt.figure()
    s = Shadow(mass=1 * u.kg, n_rays=[40, 25][p["v"]], fov=30 * u.km)
    if p["s"] == 2:
        s.smoothen(points=30)
    h = ShadowPlotter(shadow=s, is_line_plot=bool(p["l"]))
    h.plot()
    if p["s"]:
        h.show()
    return picture(plt.gcf())


def closure_seq(specs, ops):
    """The sub-world a sequence of operations needs, renumbered."""
    idx = sorted(set(i for o in ops for i in world._ids_of(specs, o)))
    m = {i: j for j, i in enumerate(idx)}
    return ([world._renumber(specs[i], m) for i in idx],
            [{"o": m[o["o"]], "op": o["op"], "a": world._renumber(o.get("a", {}), m)} for o in ops])


# ---- geodesics computed once, before the runs are forked
POOL = [
    {"g": "Schwarzschild", "ic": 0, "steps": 9, "delta": 1.0},
    {"g": "Kerr", "ic": 1, "steps": 5, "delta": 0.5, "cart": False},
    {"g": "KerrNewman", "ic": 2, "steps": 2, "delta": 1.0, "tl": False},
    {"g": "Kerr", "ic": 3, "steps": 12, "delta": 2.0, "tl": False},
    {"g": "Schwarzschild", "ic": 2, "steps": 1, "delta": 1.0, "tl": True},
    {"g": "KerrNewman", "ic": 0, "steps": 7, "delta": 3.0, "order": 4},
    {"g": "Schwarzschild", "ic": 1, "steps": 3, "delta": 0.2, "cart": False, "tl": False},
    {"g": "Kerr", "ic": 0, "steps": 25, "delta": 4.0},
    {"long": 640, "steps": 640},
    {"long": 1400, "steps": 1400},
]
SHORT = range(8)
pool = []


def long_geodesic(n):
    """A geodesic of many points, whose trajectory is given (by a user's subclass) rather than integrated."""
    import numpy as np
    from einsteinpy.geodesic import Geodesic
    r = np.random.RandomState(n)

    class Given(Geodesic):
        def calculate_trajectory(self, **kw):
            return np.arange(n), np.cumsum(r.standard_normal((n, 8)) * 0.3, axis=0)
    return Given("Schwarzschild", (0.0,), [40.0, np.pi / 2, 0.0], [0.0, 0.0, 3.8])


def fill_pool():
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for s in POOL:
            if "long" in s:
                pool.append(long_geodesic(s["long"]))
                continue
            pool.append(world.BUILD["geo"](world.Env([]), dict(s, k="geo", suppress_warnings=True, **{"as": "t"})))


@build("pg")
def _b_pg(env, s):
    return pool[s["v"]]     # every run and every reference answer has a fork of its own


def gen_pool(rng, n, among=None):
    return [{"k": "pg", "v": v} for v in rng.sample(among or SHORT, n)]

"""C10: no operation leaves a trace in process-wide settings."""
import hashlib
import io
import json
import os
import sys
import tempfile
import warnings

from sim import canon, faults, plots, sched, settings, world
from . import cuts, threads
from .threads import name_of

ID = "C10"
TECHNIQUE = "seeded histories with faults and thread schedules under a seeded user configuration, fingerprint of process-wide state"
LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 40000}
WALL = {"quick": 100, "thorough": 780}
BOOT = {"plotting": True}
NUMBA = True
RULE = ("One run: the process gets a seeded, non-default configuration (generators, warning filters, floating-point error "
        "handling, plotting, printing, locale, umask, environment, handlers...); then 2 to 8 public operations of all parts "
        "are made by one caller - successful, rejected, failing because of that configuration, or cut short by an injected "
        "interrupt, failed allocation or user error - or by 2 to 3 threads under a seeded bytecode-level scheduler. After "
        "every operation (threads: after every operation the thread's own part, at the end the rest) a fingerprint of all "
        "process-wide state is compared with the one before. Non-trivial: an operation failed, was cut short or was "
        "preempted. Distinct by the sequence of operations, outcomes, fault sites and control transfers.")
DISTINCT = "hash of the (operation, outcome, fault site, control transfer) sequence"
SIM_TIME = "none: the property has no clock"
REAL = ["all of einsteinpy", "sympy, numpy, scipy, astropy, matplotlib (Agg), plotly, numba",
        "CPython threads (parked and released one at a time)"]
STUBS = ["the user's own functions (simulated user)", "the display and plotly's page writer",
         "delivery of interrupts and failed allocations (sys.monitoring call events)", "choice of running thread (seeded scheduler)"]
ASSUME = ["pyplot's current figure is the drawing surface, not a setting",
          "an interrupt does not arrive inside a clean-up block"]
SKIP = {"text"}
hang_is_violation = False


def setup(tmp, tier):
    plots.install()
    plots.fill_pool()
    settings.watch()
    settings.warm()


def _world(rng, threaded):
    w = []
    r = rng.random()
    if r < 0.3:
        w = world.gen_sym_world(rng, n_met=1)
    elif r < 0.55:
        w = world.gen_num_world(rng)
    if not w or rng.random() < 0.25:
        for _ in range(rng.choice([1, 2])):
            k = rng.random()
            if k < 0.35:
                w.append(dict(world.gen_geo(rng), k="gint", suppress_warnings=rng.random() < 0.5))
            elif k < 0.6:
                w.append(world.gen_rk(rng))
            else:
                w.append({"k": "lab"})
    if not threaded and rng.random() < 0.35:
        n = len(w)
        w += plots.gen_pool(rng, 1) + [dict(plots.gen_plotter(rng), g=n)]
        if rng.random() < 0.4:
            w.append({"k": "pl"})
    if rng.random() < 0.5:
        w.append({"k": "mod"})
    return w


def pick(rng, w, focus):
    for _ in range(1000):
        j = focus if rng.random() < 0.5 else rng.randrange(len(w))
        k = w[j]["k"]
        if k in ("st", "it"):
            if rng.random() < 0.7:
                return plots.gen_draw(rng, w, j, [w[j]["g"]])[0]
            n = rng.choice(["clear", "show", "save"])
            return {"o": j, "op": n, "a": {"name": rng.choice([None, "a.png", "b.svg"])} if n == "save" and k == "st" else {}}
        if k == "pg":
            continue
        o = world.gen_op(rng, w, j, lambda q: q.name not in SKIP)
        if o:
            return o


def generate(rng, i, tier):
    threaded = rng.random() < 0.3
    w = _world(rng, threaded)
    scn = {"objects": w, "settings": settings.gen(rng)}
    focus = rng.randrange(len(w))
    if threaded:
        n = rng.choice([2, 2, 3])
        same = rng.random() < 0.5 and pick(rng, w, focus)
        ops = []
        for t in range(n):
            ops.append([same if same and rng.random() < 0.7 else pick(rng, w, focus) for _ in range(rng.choice([1, 1, 2]))])
        for t in range(n):      # only one thread advances a stepper
            ops[t] = [o for o in ops[t] if w[o["o"]]["k"] not in ("gint", "rk") or o["o"] % n == t]
        scn.update(threads=ops, segments=threads.gen_segments(rng, n), conf=threads.gen_conf(rng))
        return scn
    ev = []
    for _ in range(rng.choice([2, 3, 4, 6, 8])):
        if any(s["k"] in ("st", "it") for s in w) and rng.random() < 0.2:
            ev.append({"x": rng.choice(["shadow", "hyper", "fig"]), "v": rng.randrange(4)})
            continue
        e = {"call": rng.choice([x for x in ev if "call" in x] or [{"call": None}])["call"] if rng.random() < 0.25 else None}
        e["call"] = e["call"] or pick(rng, w, focus)
        if rng.random() < 0.45:
            at = "user" if rng.random() < 0.3 else "call"
            e["cut"] = {"at": at, "frac": round(rng.random(), 4),
                        "exc": faults.user_exc(rng) if at == "user" else rng.choice(cuts.CUTS + ["RuntimeError"]),
                        "aim": rng.random() < 0.7}
        ev.append(e)
    scn["events"] = ev
    return scn


def count(specs, before, o):
    """How many calls an operation makes after the given ones, without the user's configuration."""
    warnings.simplefilter("ignore")
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    os.chdir(d)
    env = world.Env(specs)
    for q in before:
        try:
            world.call(env, q)
        except Exception:
            pass
    box = {}
    with faults.user_fault(None, box=box, probe=settings.glance):
        with faults.Injector(probe=settings.glance) as inj:
            try:
                world.call(env, o)
            except Exception:
                pass
    return inj.count, box["n"], inj.windows, box["windows"]


def expected(scn, oracle):
    if "threads" in scn:
        return None
    out = []
    for e in scn["events"]:
        if "cut" in e:
            s, q = world.closure(scn["objects"], e["call"])
            pre = []
            if s[q["o"]]["k"] == "st" and q["op"] in ("show", "clear", "save"):
                g = [i for i, x in enumerate(s) if x["k"] == "pg"]
                pre = []
                if not g:
                    s = [{"k": "pg", "v": 0}] + [world._renumber(x, {i: i + 1 for i in range(len(s))}) for x in s]
                    q = dict(q, o=q["o"] + 1)
                pre = [{"o": q["o"], "op": "plot", "a": {"g": {"ref": 0}}}]
            s = [{k: v for k, v in x.items() if not (k == "g" and x["k"] in ("st", "it"))} for x in s]
            out.append(oracle.get("cnt10" + json.dumps([s, pre, q], sort_keys=True), lambda: count(s, pre, q)))
        else:
            out.append(None)
    return out


def report(viol, who, before, after):
    for k, a, b in settings.changed(before, after):
        viol.append(("setting-changed", "%s changed %s: %s -> %s" % ((who, k) + first(a, b))))


def first(a, b):
    """Where two values of one setting differ."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        x = [v for v in a if v not in b]
        y = [v for v in b if v not in a]
        if x or y:
            return canon.short(x, 90), canon.short(y, 90)
    return canon.short(a, 90), canon.short(b, 90)


def simulate(scn, exp):
    sys.stderr, sys.stdout = io.StringIO(), io.StringIO()
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    os.chdir(d)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        env = world.Env(scn["objects"])
    settings.install(scn["settings"])
    base = settings.fingerprint()
    if settings.changed(base, settings.fingerprint()):
        raise RuntimeError("the fingerprint is not stable: %s" % settings.changed(base, settings.fingerprint()))
    if "threads" in scn:
        return _threads(scn, env, base)
    viol, log, stats = [], [], {}
    user = []
    hits = 0
    for e, n in zip(scn["events"], exp):
        if "x" in e:
            who = "drawing (%s)" % e["x"]
            try:
                plots.foreign(env, user, e["x"], e["v"])
                log.append(["x", e["x"]])
            except Exception as ex:
                log.append(["x", e["x"], type(ex).__name__])
        elif "cut" in e:
            got = cuts.cut_call(env, e, n, stats)
            who = name_of(scn, e["call"]) + " (cut short at %s)" % (got[1],) if got and got[0] == "cut" else name_of(scn, e["call"])
            hits += bool(got and got[0] != "ok")
            log.append([e["call"]["op"], str(got[:2] if got and got[0] != "ok" else got and got[0])[:120]])
        else:
            who = name_of(scn, e["call"])
            try:
                world.call(env, e["call"])
                log.append([e["call"]["op"], "ok"])
            except Exception as ex:
                hits += 1
                stats["rejected_or_failed"] = stats.get("rejected_or_failed", 0) + 1
                log.append([e["call"]["op"], type(ex).__name__])
        now = settings.fingerprint()
        report(viol, who, base, now)
        if viol:
            break
    return {"violations": viol, "log": log, "nontrivial": hits > 0,
            "sig": hashlib.sha1(json.dumps([log, scn["settings"]["err"], scn["settings"]["filters"]]).encode()).hexdigest()[:12],
            "stats": {"faults": stats, "calls": len(scn["events"]), "fingerprints": len(scn["events"]) + 1}}


def _threads(scn, env, base):
    viol, seen = [], []

    def body(t):
        def f(s, th):
            for o in scn["threads"][t]:
                th.quiet += 1
                before = settings.thread_part()
                th.quiet -= 1
                try:
                    world.call(env, o)
                    ok = "ok"
                except (sched.SimAbort, sched.NoProgress):
                    raise
                except Exception as ex:
                    ok = type(ex).__name__
                th.quiet += 1
                seen.append([t, o["op"], ok])
                report(viol, "thread %d, %s" % (t, name_of(scn, o)), before, settings.thread_part())
                th.quiet -= 1
        return f

    s = sched.Scheduler([body(t) for t in range(len(scn["threads"]))], scn["segments"], conf=scn.get("conf"),
                        fair=scn.get("fair", False))
    s.run()
    for th in s.threads:
        if th.error is not None:
            raise th.error
    report(viol, "a run of %d threads" % len(s.threads), base, settings.fingerprint())
    return {"violations": viol, "log": s.log, "nontrivial": s.preemptions > 0,
            "sig": hashlib.sha1(json.dumps([s.signature(), seen]).encode()).hexdigest()[:12],
            "stats": {"faults": {"preemption": s.preemptions}, "switches": s.switches, "calls": len(seen), "fingerprints": 2}}

"""Shared engine: several caller threads over shared objects, under a seeded scheduler."""
import json
import warnings

from sim import canon, run, sched, world


def gen_segments(rng, n):
    kind = rng.random()
    segs = []

    def count(mode):
        top = {"i": 3.6, "l": 2.8, "s": 1.7, "p": 1.7, "a": 3.0, "w": 1.2}[mode]
        return max(1, int(10 ** (rng.random() * top)))

    if kind < 0.45:
        for _ in range(rng.randrange(2, 26)):
            m = rng.choice("ilspaspwww")
            segs.append([rng.randrange(n), m, count(m)])
    elif kind < 0.8:
        # one thread stops somewhere, another runs through, the first goes on
        for _ in range(rng.randrange(1, 7)):
            t = rng.randrange(n)
            m = rng.choice("ilspapwwwww")
            segs.append([t, m, count(m)])
            o = rng.randrange(n)
            if o == t:
                o = (t + 1) % n
            segs.append([o, "-", 0] if rng.random() < 0.6 else [o, *(lambda q: [q, count(q)])(rng.choice("ispw"))])
    else:
        m = rng.choice("lspwwi")
        c = rng.choice([1, 1, 2, 3, 7, 20])
        order = list(range(n))
        rng.shuffle(order)
        for _ in range(rng.randrange(10, 80)):
            segs += [[t, m, max(1, c + rng.randrange(-1, 2))] for t in order]
    return segs


def gen_conf(rng, heavy=False):
    return {"salt": rng.randrange(1000), "p": rng.choice([1.0, 1.0, 0.5, 0.25]),
            "hot": rng.choice([300, 1500, 6000] if heavy else [1000, 4000, 20000])}


def expected(scn, oracle):
    ask = lambda o: run.ask(oracle, scn["objects"], o)
    return {"threads": [[ask(o) for o in t] for t in scn["threads"]],
            "probes": [ask(o) for o in scn.get("probes", [])],
            "history": [ask(o) for o in scn.get("history", [])]}


def name_of(scn, o):
    s = scn["objects"][o["o"]]
    return "%s(%s).%s(%s)" % (s["k"], s.get("n") or s.get("t") or s.get("m") or s.get("g") or s.get("v") or "", o["op"],
                              json.dumps(o.get("a", {}), sort_keys=True))


def compare(got, exp, rtol=None):
    """None, or a description of the difference; rtol: numbers need only agree to rounding."""
    if got[0] != exp[0]:
        return "%s instead of %s" % (canon.short(got[:2]), canon.short(exp[:2]))
    if got[0] == "exc":
        return None if got[1] == exp[1] else "raised %s instead of %s" % (got[1], exp[1])
    if canon.same(got[1], exp[1]) or rtol and canon.close(got[1], exp[1], rtol):
        return None
    return canon.diff(got[1], exp[1])


LIVE = ("gint", "rk", "shadow")     # their public attributes change as they are advanced


def tol(o):
    # generated functions: an equal expression in another form rounds differently
    return 1e-9 if o["op"] == "lambdify" else None


def attempt(env, o):
    try:
        v = world.call(env, o)
        return ("ok", canon.canon(v)), v
    except Exception as e:
        return ("exc", type(e).__name__), None


def simulate(scn, exp, clear_cache=True):
    warnings.simplefilter("ignore")
    import sympy
    from sympy.core.cache import clear_cache as cc
    env = world.Env(scn["objects"])
    viol = []
    for o, e in zip(scn.get("history", []), exp["history"]):
        got, _ = attempt(env, o)
        d = compare(got, e, tol(o))
        if d:
            viol.append(("wrong-answer", "before the threads start, %s: %s" % (name_of(scn, o), d)))
    results = [[] for _ in scn["threads"]]

    def body(t):
        def f(s, th):
            for o in scn["threads"][t]:
                try:
                    v = world.call(env, o)
                except sched.SimAbort:
                    raise
                except sched.NoProgress:
                    raise
                except Exception as e:
                    results[t].append(("exc", type(e).__name__, None))
                    continue
                th.quiet += 1
                try:
                    results[t].append(("ok", canon.canon(v), v))
                finally:
                    th.quiet -= 1
        return f

    def on_switch(s, th):
        if scn.get("clear") and s.switches % scn["clear"] == 0:
            cc()

    s = sched.Scheduler([body(t) for t in range(len(scn["threads"]))], scn["segments"], conf=scn.get("conf"),
                        fair=scn.get("fair", False), on_switch=on_switch if scn.get("clear") else None)
    stuck = None
    try:
        s.run()
    except sched.Deadlock as e:
        stuck = "deadlock: %s" % e
    except sched.NoProgress as e:
        stuck = "no progress: %s" % e
    for th in s.threads:
        if isinstance(th.error, sched.NoProgress):
            stuck = stuck or "no progress at %s" % th.error
        elif th.error is not None:
            raise th.error
    stats = {"switches": s.switches, "preemptions": s.preemptions, "lock_waits": s.lock_waits,
             "events": sum(t.events for t in s.threads), "calls": sum(len(t) for t in scn["threads"]),
             "faults": {"preemption": s.preemptions, "cache_clear": s.switches // scn["clear"] if scn.get("clear") else 0}}
    if stuck:
        viol.append(("hang", stuck))
        return {"violations": viol, "stats": stats, "sig": s.signature(), "log": s.log}
    for t, ops in enumerate(scn["threads"]):
        for o, got, e in zip(ops, results[t], exp["threads"][t]):
            d = compare(got, e, tol(o))
            if d:
                viol.append(("wrong-answer", "thread %d, %s: %s" % (t, name_of(scn, o), d)))
            elif got[0] == "ok" and scn["objects"][o["o"]]["k"] not in LIVE:
                try:
                    again = canon.canon(got[2])
                except Exception as ex:
                    again = ("exc", type(ex).__name__)
                if not canon.same(again, got[1]):
                    viol.append(("answer-changed", "what %s returned in thread %d changed later: %s" % (
                        name_of(scn, o), t, canon.diff(again, got[1]))))
    for o, e in zip(scn.get("probes", []), exp["probes"]):
        got, _ = attempt(env, o)
        d = compare(got, e, tol(o))
        if d:
            viol.append(("left-behind", "after the threads ended, %s: %s" % (name_of(scn, o), d)))
    return {"violations": viol, "stats": stats, "sig": s.signature(), "log": s.log,
            "nontrivial": s.preemptions > 0 or len(scn["threads"]) == 1}

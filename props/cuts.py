"""Shared engine: one caller whose calls are cut short by injected faults, then retried."""
import json
import warnings

from sim import canon, faults, world
from .threads import compare, name_of, tol

CUTS = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "MemoryError", "SystemExit"]


def solo_counted(specs, o):
    """The stand-alone answer, with the number of calls and user evaluations it makes."""
    warnings.simplefilter("ignore")
    env = world.Env(specs)
    box = {}
    with faults.user_fault(None, box=box):
        with faults.Injector() as inj:
            try:
                v = world.call(env, o)
                got = None
            except Exception as e:
                got = ("exc", type(e).__name__)
    return got or ("ok", canon.canon(v)), (inj.count, box["n"])


def counted(scn, o, oracle):
    s, q = world.closure(scn["objects"], o)
    return oracle.get("count" + json.dumps([s, q], sort_keys=True), lambda: solo_counted(s, q))


def calls_of(scn, o, oracle):
    return counted(scn, o, oracle)[1]


def expected(scn, oracle):
    ask = lambda o: counted(scn, o, oracle)[0]
    return {"ops": [ask(e["call"]) for e in scn["events"]],
            "n": [calls_of(scn, e["call"], oracle) if "cut" in e else None for e in scn["events"]],
            "probes": [ask(o) for o in scn.get("probes", [])]}


def aim(c, n, j):
    """Where to cut: at a seeded fraction of the calls, or of those made while a process-wide setting is changed."""
    w = n[2 + j] if c.get("aim") and len(n) > 2 else None
    if w:
        return w[int(c["frac"] * len(w))]
    return min(n[j] - 1, int(c["frac"] * n[j])) if n[j] else 0


def cut_call(env, e, n, stats):
    """Runs one event; returns ('cut',) or an answer."""
    c = e["cut"]
    box, inj = {}, None
    try:
        if c["at"] == "user":
            if not n[1]:
                return None
            k = aim(c, n, 1)
            with faults.user_fault(k, c["exc"], box=box):
                v = world.call(env, e["call"])
        else:
            inj = faults.Injector(aim(c, n, 0), c["exc"])
            with inj:
                v = world.call(env, e["call"])
        got = ("ok", canon.canon(v))
    except BaseException as ex:
        got = ("exc", type(ex).__name__)
        if faults.is_injected(ex):
            stats[c["exc"]] = stats.get(c["exc"], 0) + 1
            return ("cut", (inj.fired if inj else box["fired"]))
        if not isinstance(ex, Exception):
            raise
    fired = inj.fired if inj else box["fired"]
    if fired:
        return ("swallowed", fired, got)
    return got


def simulate(scn, exp, settings=None):
    import sympy.core.cache as sc
    warnings.simplefilter("ignore")
    env = world.Env(scn["objects"])
    viol, stats, log = [], {}, []
    changed = set()
    for e, x, n in zip(scn["events"], exp["ops"], exp["n"]):
        if e["call"]["o"] in changed:
            continue
        if e.get("clear"):
            sc.clear_cache()
            stats["cache_clear"] = stats.get("cache_clear", 0) + 1
        if "cut" in e:
            got = cut_call(env, e, n, stats)
            log.append([e["call"]["op"], str(got[:2])[:120] if got else None])
            if got is None or got[0] == "cut":
                continue
            if got[0] == "swallowed":
                viol.append(("swallowed", "%s: %s injected at %s did not reach the caller, who saw %s" % (
                    name_of(scn, e["call"]), e["cut"]["exc"], got[1], canon.short(got[2]))))
                continue
        else:
            try:
                got = ("ok", canon.canon(world.call(env, e["call"])))
            except Exception as ex:
                got = ("exc", type(ex).__name__)
            log.append([e["call"]["op"], got[0]])
        d = compare(got, x, tol(e["call"]))
        if d:
            viol.append(("wrong-answer", "%s: %s" % (name_of(scn, e["call"]), d)))
        if e.get("mut") and got[0] == "ok":     # was not cut short: the object has changed as it should
            changed.add(e["call"]["o"])
    for o, x in zip(scn.get("probes", []), exp["probes"]):
        if o["o"] in changed:
            continue
        try:
            got = ("ok", canon.canon(world.call(env, o)))
        except Exception as ex:
            got = ("exc", type(ex).__name__)
        d = compare(got, x, tol(o))
        if d:
            viol.append(("left-behind", "at the end, %s: %s" % (name_of(scn, o), d)))
    import hashlib
    return {"violations": viol, "log": log, "sig": hashlib.sha1(repr(log).encode()).hexdigest()[:12],
            "nontrivial": any(stats.get(k) for k in faults.EXC),
            "stats": {"faults": stats, "calls": len(scn["events"]) + len(scn.get("probes", []))}}

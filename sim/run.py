"""Runs a property's simulations: workers, oracle, verdicts, minimisation, replay, evidence."""
import copy
import gc
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import boot

VERIF = boot.VERIF
CHILD_WALL = 60.0


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ forked calls

def fork_call(fn, timeout=CHILD_WALL):
    """('ok', value) | ('err', traceback) | ('timeout',) | ('died', status), from a fork."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            try:
                v = ("ok", fn())
                data = pickle.dumps(v)
            except BaseException:
                data = pickle.dumps(("err", traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 13
        finally:
            os._exit(code)
    os.close(w)
    chunks, deadline = [], time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return ("timeout",)
    data = b"".join(chunks)
    if not data:
        return ("died", status)
    return pickle.loads(data)


# ----------------------------------------------------------------------- oracle

class Oracle:
    """Answers of single questions, each computed in a pristine fork, remembered on disk."""

    def __init__(self, directory):
        self.dir = directory
        self.mem = {}
        self.asked = 0

    def get(self, key, fn, timeout=CHILD_WALL):
        if key in self.mem:
            return self.mem[key]
        h = hashlib.sha1(key.encode()).hexdigest()
        path = os.path.join(self.dir, h)
        try:
            with open(path, "rb") as f:
                v = pickle.load(f)
        except (OSError, EOFError):
            self.asked += 1
            v = fork_call(fn, timeout)
            if v[0] in ("timeout", "died"):
                v = fork_call(fn, 2 * timeout)
            tmp = "%s.%d" % (path, os.getpid())
            with open(tmp, "wb") as f:
                pickle.dump(v, f)
            os.replace(tmp, path)
        if v[0] == "err":
            raise HarnessError("oracle: " + v[1])
        if v[0] != "ok":
            raise HarnessError("oracle did not answer (%s) for %s" % (v, key[:300]))
        self.mem[key] = v[1]
        return v[1]


def solo(specs, o):
    """The answer of one operation on fresh objects: ('ok', canon) or ('exc', type)."""
    import warnings
    from . import canon, world
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        env = world.Env(specs)
        del caught[:]
        try:
            v = ("ok", canon.canon(world.call(env, o)))
        except Exception as e:
            v = ("exc", type(e).__name__)
        ws = [(w.category.__name__, str(w.message)) for w in caught]
    return v + (ws,)


def ask(oracle, specs, o):
    from . import world
    s, q = world.closure(specs, o)
    return oracle.get("solo" + json.dumps([s, q], sort_keys=True), lambda: solo(s, q))


# -------------------------------------------------------------------- evaluation

def evaluate(prop, scn, oracle):
    """dict(violations=[(class, msg)], stats=..., sig=...); deterministic in scn."""
    try:
        return _evaluate(prop, scn, oracle)
    except HarnessError as e:
        said = blame(e)
    if said:        # twice the same: it is the code, not the machine
        try:
            return _evaluate(prop, scn, Oracle(tempfile.mkdtemp(dir=oracle.dir)))
        except HarnessError as e:
            if blame(e) == said:
                return {"violations": [("raised", "the simulated program cannot be set up: " + said)], "stats": {}, "sig": "raised"}
            raise
    return _evaluate(prop, scn, oracle)


def blame(e):
    """The exception einsteinpy's code raised where a simulated program is only being put together, or None."""
    text = str(e).split("\nscenario: ")[0].rstrip()
    if boot.REPO_SRC.rstrip("/") + "/einsteinpy/" not in text or "Traceback" not in text:
        return None
    last = text.splitlines()[-1]
    return None if last.startswith(("MemoryError", "KeyboardInterrupt")) else last


def _evaluate(prop, scn, oracle):
    exp = prop.expected(scn, oracle)
    wall = getattr(prop, "child_wall", CHILD_WALL)
    r = fork_call(lambda: prop.simulate(scn, exp), wall)
    if r[0] == "timeout":
        s2 = dict(scn, fair=True)
        r2 = fork_call(lambda: prop.simulate(s2, exp), 3 * wall)
        if r2[0] == "timeout":
            if getattr(prop, "hang_is_violation", False):
                return {"violations": [("hang", "the simulated calls do not finish (twice %g s of wall time; the same "
                                        "calls finish alone)" % wall)], "stats": {}, "sig": "hang"}
            raise HarnessError("run does not finish: " + json.dumps(scn)[:2000])
        r = r2
    if r[0] == "died":
        raise HarnessError("simulated process died with status %s: %s" % (r[1], json.dumps(scn)[:2000]))
    if r[0] == "err":
        raise HarnessError(r[1] + "\nscenario: " + json.dumps(scn)[:3000])
    return r[1]


# ------------------------------------------------------------------ minimisation

LISTS = ("threads", "ops", "history", "segments", "faults", "edits", "events", "probes")


def _list_paths(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if isinstance(v, list) and k in LISTS:
                yield path + (k,)
                if v and isinstance(v[0], list) and (not v[0] or isinstance(v[0][0], dict)):
                    for i in range(len(v)):
                        yield path + (k, i)


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _with(x, path, v):
    x = copy.deepcopy(x)
    y = x
    for p in path[:-1]:
        y = y[p]
    y[path[-1]] = v
    return x


def shrinks(scn):
    """Smaller scenarios, most promising first."""
    paths = list(_list_paths(scn))
    for path in paths:
        v = _get(scn, path)
        n = len(v)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                c = _with(scn, path, v[:i] + v[i + size:])
                if path == ("threads",) and "segments" in scn:
                    gone = set(range(i, min(n, i + size)))
                    ren = {t: k for k, t in enumerate(t for t in range(n) if t not in gone)}
                    c["segments"] = [[ren[s[0]]] + s[1:] for s in c["segments"] if s[0] in ren]
                yield c
            size //= 2
    if "objects" in scn:
        c = prune(scn)
        if c is not scn:
            yield c
    for i, s in enumerate(scn.get("segments", [])):
        if s[1] != "-" and isinstance(s[2], int) and s[2] > 1:
            for n in (1, s[2] // 2, s[2] - 1):
                if n < s[2]:
                    yield _with(scn, ("segments", i), [s[0], s[1], n])


def prune(scn):
    """Without the objects that nothing refers to."""
    from . import world
    used = set()
    rest = {k: v for k, v in scn.items() if k != "objects"}
    todo = _oprefs(rest)
    while todo:
        r = todo.pop()
        if r not in used:
            used.add(r)
            todo += world.refs_of(scn["objects"][r])
    if not used or len(used) == len(scn["objects"]):
        return scn
    m = {i: j for j, i in enumerate(sorted(used))}
    c = _reno(rest, m)
    c["objects"] = [world._renumber(scn["objects"][i], m) for i in sorted(used)]
    return c


def _oprefs(x):
    from . import world
    if isinstance(x, dict):
        out = world.refs_of(x) if set(x) == {"ref"} else []
        if "op" in x and "o" in x and isinstance(x["o"], int):
            out.append(x["o"])
        for v in x.values():
            out += _oprefs(v)
        return out
    if isinstance(x, list):
        return [r for v in x for r in _oprefs(v)]
    return []


def _reno(x, m):
    if isinstance(x, dict):
        if set(x) == {"ref"}:
            return {"ref": m[x["ref"]]}
        y = {k: _reno(v, m) for k, v in x.items()}
        if "op" in x and isinstance(x.get("o"), int):
            y["o"] = m[x["o"]]
        return y
    if isinstance(x, list):
        return [_reno(v, m) for v in x]
    return x


def minimise(prop, scn, cls, oracle, wall=60.0, attempts=400):
    t0, n = time.monotonic(), 0
    cur = scn
    gen = getattr(prop, "shrinks", shrinks)
    progress = True
    while progress:
        progress = False
        for c in gen(cur):
            if time.monotonic() - t0 > wall or n >= attempts:
                return cur, n
            n += 1
            try:
                if hasattr(prop, "valid") and not prop.valid(c):
                    continue
                r = evaluate(prop, c, oracle)
            except Exception:
                continue
            if any(v[0] == cls for v in r["violations"]):
                cur, progress = c, True
                break
    return cur, n


# ----------------------------------------------------------------------- workers

def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v


def _worker(prop, w, n_workers, total, seed, tier, oracle_dir, out, stop_fd, deadline):
    oracle = Oracle(oracle_dir)
    stats, sigs, samples, runs, harness = {}, set(), [], 0, None
    viol = None
    i = w
    last = {}
    try:
        while i < total and time.monotonic() < deadline:
            if os.path.exists(stop_fd):
                break
            last = {"index": i}
            rng = random.Random("%s:%s:%s" % (prop.ID, seed, i))
            scn = prop.generate(rng, i, tier)
            if getattr(prop, "PRUNE", False):
                scn = prune(scn)
            last["scenario"] = scn
            r = evaluate(prop, scn, oracle)
            runs += 1
            merge(stats, r.get("stats", {}))
            if r.get("nontrivial", True):
                sigs.add(r.get("sig") or hashlib.sha1(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:12])
            if len(samples) < 2:
                samples.append({"index": i, "scenario": scn, "sig": r.get("sig"), "stats": r.get("stats")})
            if r["violations"]:
                viol = {"index": i, "scenario": scn, "violations": r["violations"]}
                known = prop_known(prop.ID)
                fresh = [v for v in r["violations"] if not is_known(known, v)]
                if fresh:
                    open(stop_fd, "w").close()
                    viol["violations"] = fresh
                    break
                stats.setdefault("known", {})
                for v in r["violations"]:
                    stats["known"][is_known(known, v)] = stats["known"].get(is_known(known, v), 0) + 1
                viol = None
            i += n_workers
    except Exception:
        harness = traceback.format_exc() + "\nat " + json.dumps(last)[:1500]
        open(stop_fd, "w").close()
    data = pickle.dumps({"stats": stats, "sigs": sigs, "samples": samples, "runs": runs, "viol": viol,
                         "harness": harness, "asked": oracle.asked, "worker": w})
    with os.fdopen(out, "wb") as f:
        f.write(data)


# ---- known findings: `finding: property=<id> key=<substring of the violation> <text>` lines
def prop_known(pid):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("finding: property=%s key=" % pid):
                    rest = line.strip().split(" key=", 1)[1]
                    key, _, text = rest.partition(" | ")
                    out.append((key, text))
    except OSError:
        pass
    return out


def is_known(known, v):
    for key, text in known:
        if key == "%s: %s" % (v[0], v[1]):
            return text
    return None


def parallel(prop, total, seed, tier, wall, oracle_dir, n_workers):
    stop = os.path.join(oracle_dir, "..", "stop")
    deadline = time.monotonic() + wall
    procs = []
    for w in range(n_workers):
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _worker(prop, w, n_workers, total, seed, tier, oracle_dir, wfd, stop, deadline)
            finally:
                os._exit(0)
        os.close(wfd)
        procs.append((pid, r))
    res = []
    for pid, r in procs:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        res.append(pickle.loads(data) if data else {"harness": "worker died", "stats": {}, "sigs": set(),
                                                    "samples": [], "runs": 0, "viol": None, "asked": 0})
    return res


# --------------------------------------------------------------------------- CLI

def load(pid):
    import importlib
    return importlib.import_module("props." + pid.lower())


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0") or 0))
    ap.add_argument("--trace", action="store_true", help="print every run's signature (determinism test)")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    sys.path.insert(0, VERIF)
    prop = load(a.prop)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop.ID)
    os.environ["VERIF_SCRATCH"] = tmp
    main_pid = os.getpid()
    try:
        return _main(a, prop, tmp, t0)
    finally:
        if os.getpid() == main_pid:
            for f in getattr(prop, "servers", {}).values():
                try:
                    f.terminate()
                    f.wait(10)
                except Exception:
                    pass
            shutil.rmtree(tmp, ignore_errors=True)


def _main(a, prop, tmp, t0):
    oracle_dir = os.path.join(tmp, "oracle")
    os.makedirs(oracle_dir)
    try:
        boot.prepare(**getattr(prop, "BOOT", {}))
        if getattr(prop, "NUMBA", True):
            boot.warm_numba()
        if getattr(prop, "INSTRUMENT", True):
            from . import monitor, user
            monitor.prepare(user.ALL)
        if hasattr(prop, "setup"):
            prop.setup(tmp, a.tier)
    except BaseException:
        traceback.print_exc()
        print("HARNESS-ERROR: cannot prepare the simulation")
        return 3
    gc.collect()
    gc.freeze()
    t_ready = time.monotonic()
    if a.replay:
        return replay(prop, a.replay, oracle_dir)
    n_workers = a.workers or min(8, os.cpu_count() or 1)
    total = a.runs or prop.RUNS[a.tier]
    wall = a.wall or prop.WALL[a.tier]
    if a.trace:
        return trace(prop, total, a.seed, a.tier, oracle_dir, n_workers)
    res = parallel(prop, total, a.seed, a.tier, wall, oracle_dir, n_workers)
    t_done = time.monotonic()
    stats, sigs, samples = {}, set(), []
    for r in res:
        merge(stats, r["stats"])
        sigs |= r["sigs"]
        samples += r["samples"]
    runs = sum(r["runs"] for r in res)
    viols = sorted((r["viol"] for r in res if r["viol"]), key=lambda v: v["index"])
    errors = [r["harness"] for r in res if r["harness"]]
    rc = 0
    if viols:
        v = viols[0]
        cls, msg = v["violations"][0]
        scn, tried = minimise(prop, v["scenario"], cls, Oracle(oracle_dir), wall=prop_min_wall(prop))
        try:
            r = evaluate(prop, scn, Oracle(oracle_dir))
            for c, m in r["violations"]:
                if c == cls:
                    msg = m
        except Exception:
            scn = v["scenario"]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        body = {"property": prop.ID, "seed": a.seed, "index": v["index"], "tier": a.tier, "class": cls, "message": msg,
                "minimised_in": tried, "scenario": scn, "original": v["scenario"]}
        h = hashlib.sha1(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop.ID, h))
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        print("violated: %s: %s" % (cls, msg))
        print("scenario: %s" % json.dumps(scn)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        rc = 1
    elif errors:
        print("HARNESS-ERROR in %d worker(s):\n%s" % (len(errors), errors[0]))
        rc = 3
    for text, n in sorted(stats.pop("known", {}).items()):
        print("KNOWN-FINDING: property=%s %s" % (prop.ID, text))
    if not a.no_evidence:
        from . import evidence
        evidence.write(prop, a.tier, a.seed, runs, total, stats, sigs, samples, len(viols),
                       t_done - t_ready, time.monotonic() - t0, n_workers, sum(r["asked"] for r in res))
    print("%s %s: %d of %d runs in %.1f s (%.1f s in all), %d distinct, seed %d -> %s" % (
        prop.ID, a.tier, runs, total, t_done - t_ready, time.monotonic() - t0, len(sigs), a.seed,
        {0: "held", 1: "VIOLATED", 3: "error"}[rc]))
    if rc == 0 and runs < min(total, getattr(prop, "MIN_RUNS", 20)):
        print("HARNESS-ERROR: only %d runs were possible" % runs)
        return 3
    return rc


def prop_min_wall(prop):
    return getattr(prop, "MIN_WALL", 60.0)


def replay(prop, path, oracle_dir):
    body = json.load(open(path))
    scn = body["scenario"] if "scenario" in body else body
    try:
        r = evaluate(prop, scn, Oracle(oracle_dir))
    except Exception:
        traceback.print_exc()
        print("HARNESS-ERROR during replay")
        return 3
    for cls, msg in r["violations"]:
        print("violated: %s: %s" % (cls, msg))
    for line in r.get("log", [])[:200]:
        print("  ", line)
    print("signature", r.get("sig"))
    if r["violations"]:
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        return 1
    print("no violation")
    return 0


def trace(prop, total, seed, tier, oracle_dir, n_workers):
    """Prints one line per run: its index, signature and verdict."""
    stop = []
    outs = []
    for w in range(n_workers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            f = os.fdopen(wfd, "w")
            try:
                oracle = Oracle(oracle_dir)
                for i in range(w, total, n_workers):
                    rng = random.Random("%s:%s:%s" % (prop.ID, seed, i))
                    scn = prop.generate(rng, i, tier)
                    if getattr(prop, "PRUNE", False):
                        scn = prune(scn)
                    try:
                        q = evaluate(prop, scn, oracle)
                        line = [i, q.get("sig"), hashlib.sha1(repr(
                            (q.get("log"), q.get("stats"), q["violations"])).encode()).hexdigest()[:12], q["violations"][:1]]
                    except Exception as e:
                        line = [i, "error", str(e)[:300]]
                    f.write(json.dumps(line) + "\n")
                f.flush()
            finally:
                os._exit(0)
        os.close(wfd)
        outs.append((pid, r))
    lines = []
    for pid, r in outs:
        with os.fdopen(r) as f:
            lines += [json.loads(x) for x in f if x.strip()]
        os.waitpid(pid, 0)
    for x in sorted(lines):
        print(json.dumps(x))
    return 0

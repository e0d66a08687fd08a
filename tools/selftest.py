#!/usr/bin/env python3
"""selftest.py [--runs N] [ID ...]: one seed is one exactly repeatable execution.

Every property's first N runs are made three times, with 1, 3 and 8 workers
(so in other processes, in another order and with another load), and the
signatures, logs, counters and verdicts of every run are compared."""
import argparse
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def trace(pid, runs, workers, seed):
    out = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), pid, "--trace", "--runs", str(runs),
                          "--workers", str(workers), "--seed", str(seed)], capture_output=True, text=True, cwd=VERIF).stdout
    return {json.loads(x)[0]: x for x in out.splitlines() if x.startswith("[")}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--runs", type=int, default=40)
    ap.add_argument("--seed", type=int, default=11)
    a = ap.parse_args()
    ids = a.ids or [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
    bad = 0
    for pid in ids:
        t = [trace(pid, a.runs, w, a.seed) for w in (8, 3, 1)]
        diff = [i for i in range(a.runs) if not t[0].get(i) == t[1].get(i) == t[2].get(i)]
        errs = [x for x in t[0].values() if '"error"' in x]
        missing = [i for i in range(a.runs) if i not in t[0]]
        viol = [x for x in t[0].values() if not x.rstrip().endswith("[]]")]
        print("%s: %d runs, %d differ %s, %d errors, %d missing, %d violated" % (pid, a.runs, len(diff), diff[:5], len(errs),
                                                                                len(missing), len(viol)), flush=True)
        for i in diff[:2]:
            print("   ", *(x.get(i, "").strip() for x in t), sep="\n    ")
        for x in errs[:2] + viol[:2]:
            print("   ", x[:400])
        bad += bool(diff or errs or missing or viol)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""selftest.py [PROPS] [-n CASES]: is one seed one exactly repeatable execution?

Every case is run twice by different processes, with different PYTHONHASHSEEDs, working
directories, numbers of processes beside it and orders of the cases; the recorded events of
every simulated job (each scheduling decision, message and seam: events_sha), its storage
operations (libc_sha), its ending and the verdict must be the same."""
import argparse
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from dst import props, runner, shim  # noqa: E402


def go(pid, lanes, n, seed, hashseeds, base):
    """{case number: what was recorded}"""
    scratch = tempfile.mkdtemp(prefix="selftest-", dir=base)
    try:
        with open(os.path.join(scratch, "known.json"), "w") as f:
            f.write("[]")
        procs = [runner.spawn(scratch, pid, "quick", seed, i, n, 800, 1, hashseed=h)
                 for i, h in zip(lanes, hashseeds)]
        res, errors = runner.collect(procs, 900)
        assert not errors and not any(r["harness"] for r in res), (errors, [r["harness"] for r in res])
        out = {}
        for r in res:
            for i, ran in r["log"]:
                out[i] = ran
        return out
    finally:
        shutil.rmtree(scratch)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*", default=sorted(props.ALL))
    ap.add_argument("-n", type=int, default=64)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    shim.build()
    bad = 0
    for pid in a.props:
        if props.get(pid).compare_lanes:
            continue  # (its lanes differ on purpose)
        one = go(pid, range(8), a.n, a.seed, range(8), runner.scratch_base())
        two = {}
        for half in (range(0, 4), range(4, 8)):
            two.update(go(pid, half, a.n, a.seed, [1000 + 7 * i for i in half], tempfile.gettempdir()))
        differ = [i for i in sorted(one) if one[i] != two.get(i)]
        jobs = sum(len(r) for r in one.values())
        print("%s: %d cases, %d jobs, %d differ %s" % (pid, len(one), jobs, len(differ), differ[:5]))
        for i in differ[:2]:
            for x, y in zip(one[i], two.get(i, [])):
                if x != y:
                    print("   ", x, y)
        bad += len(differ) or one.keys() != two.keys()
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())

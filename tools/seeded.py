#!/usr/bin/env python3
"""seeded.py [-j N] [--confirm] [id...]: apply each seeded bug to a copy of /repo, run the check of its property
there, say whether it was caught.  --confirm also runs the demonstration (clean and patched) and the stable tests.
--all PROPS runs the given checks (comma separated) instead of the bug's own."""
import argparse
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import stable  # noqa: E402


def one(i, a):
    src = os.path.join(HERE, "seeded", i)
    meta = json.load(open(os.path.join(src, "meta.json")))
    copy = "/tmp/sd-%s-%d" % (i, os.getpid())
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, symlinks=True)
    try:
        r = subprocess.run(["git", "-C", copy, "apply", os.path.join(src, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            return i, meta["property"], "DOES NOT APPLY", r.stderr.strip(), 0
        note = ""
        if a.confirm:
            clean = subprocess.run(["bash", os.path.join(src, "demo.sh")], cwd="/repo", capture_output=True).returncode
            pat = subprocess.run(["bash", os.path.join(src, "demo.sh")], cwd=copy, capture_output=True).returncode
            m = stable.missing(copy)
            note = "demo clean %d patched %d, stable tests lost %d" % (clean, pat, len(m))
        t = time.time()
        verdicts = []
        for prop in (a.all.split(",") if a.all else [meta["property"]]):
            env = dict(os.environ, DST_REPO=copy, VERIF_SEED=str(a.seed), VERIF_TIER="quick")
            r = subprocess.run([os.path.join(HERE, "check"), prop], cwd=HERE, env=env, capture_output=True, text=True)
            m = re.search(r"VIOLATION property=%s .*" % prop, r.stdout)
            verdicts.append("%s:%s" % (prop, "CAUGHT" if r.returncode == 1 and m else "missed(rc %d)" % r.returncode))
            if r.returncode == 1:
                note += " | " + " ".join(r.stdout.split("VIOLATION", 1)[-1].split())[:300]
            elif r.returncode:
                note += " | " + r.stderr[-400:]
        return i, meta["property"], " ".join(verdicts), note, time.time() - t
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("ids", nargs="*")
    p.add_argument("-j", type=int, default=1)
    p.add_argument("--confirm", action="store_true")
    p.add_argument("--all")
    p.add_argument("--seed", type=int, default=1)
    a = p.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(HERE, "seeded")))
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        for f in concurrent.futures.as_completed([ex.submit(one, i, a) for i in ids]):
            i, prop, v, note, dt = f.result()
            print("%-28s %-4s %-20s %5.0fs %s" % (i, prop, v, dt, note), flush=True)


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""regress.py [-j N] [commit...]: revert each "fix:" commit listed in known_findings.txt in a copy of /repo and run the
check of the property named there: it must report the defect again."""
import argparse
import concurrent.futures
import os
import re
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(h, prop, what, seeds):
    copy = "/tmp/rg-%s-%d" % (h, os.getpid())
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, symlinks=True)
    try:
        later = subprocess.check_output(["git", "-C", copy, "rev-list", h + "..HEAD"], text=True).split()
        for more in [[]] + [[x] for x in later] + [later[i:] for i in range(len(later) - 1, -1, -1)]:
            # (what a later fix changed too can only be reverted together with that)
            if subprocess.run(["git", "-C", copy, "revert", "-n"] + more + [h], capture_output=True).returncode == 0:
                what += " [with %s]" % " ".join(x[:7] for x in more) if more else ""
                break
            subprocess.run(["git", "-C", copy, "revert", "--abort"], capture_output=True)
            subprocess.run(["git", "-C", copy, "reset", "-q", "--hard"], check=True)
        else:
            return h, prop, "does not revert", what, 0
        t = time.time()
        for seed in seeds:
            env = dict(os.environ, DST_REPO=copy, VERIF_SEED=str(seed), VERIF_TIER="quick")
            r = subprocess.run([os.path.join(HERE, "check"), prop], cwd=HERE, env=env, capture_output=True, text=True)
            if r.returncode == 1 and "VIOLATION property=%s " % prop in r.stdout:
                return h, prop, "REPORTED (seed %s)" % seed, what, time.time() - t
            if r.returncode:
                return h, prop, "rc %d %s" % (r.returncode, r.stderr[-300:]), what, time.time() - t
        return h, prop, "missed", what, time.time() - t
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("commits", nargs="*")
    p.add_argument("-j", type=int, default=1)
    p.add_argument("--seeds", default="1")
    a = p.parse_args()
    todo = re.findall(r"^fixed: property=(\S+) (\S+) (.*)$", open(os.path.join(HERE, "known_findings.txt")).read(), re.M)
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        fs = [ex.submit(one, h, q, w, a.seeds.split(",")) for q, h, w in todo if not a.commits or h in a.commits]
        for f in concurrent.futures.as_completed(fs):
            h, q, v, w, t = f.result()
            print("%s %s %-18s %4.0fs %s" % (h, q, v, t, w), flush=True)


if __name__ == "__main__":
    main()

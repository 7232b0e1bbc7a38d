#!/usr/bin/env python3
"""stable.py COPY: run the test suite in a copy of /repo; prints the stable tests that do not pass there."""
import json
import os
import subprocess
import sys
import tempfile


def missing(copy):
    with tempfile.TemporaryDirectory() as d:
        env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   OMPI_MCA_ess_singleton_isolated="1", OMPI_ALLOW_RUN_AS_ROOT="1",
                   OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                        "--junitxml=" + d + "/j.xml"], cwd=copy, env=env, capture_output=True)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", d + "/o.json", "junit:" + d + "/j.xml"],
                       capture_output=True)
        ok = set(json.load(open(d + "/o.json"))["passed"])
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]


if __name__ == "__main__":
    m = missing(os.path.abspath(sys.argv[1]))
    print("stable tests that do not pass: %d %s" % (len(m), m[:5]))
    sys.exit(1 if m else 0)

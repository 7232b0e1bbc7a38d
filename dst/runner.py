"""
Check driver: runs the lanes of one property, writes its evidence, and reports.

  check <ID>                      the tier named by VERIF_TIER (default quick)
  check <ID> --tier thorough
  check --replay FILE             re-run a replay file; exit 1 if it still violates
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import shim
from .lane import LANES

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")
REPLAYS = os.path.join(ROOT, "build", "replays")


def known_findings():
    """finding: property=C01 name=x kind=y contains="a" contains="b" -- what fails"""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) name=(\S+) kind=(\S+)((?: contains="[^"]*")*) -- (.*)', line)
                if m:
                    out.append({"property": m.group(1), "name": m.group(2), "kind": m.group(3),
                                "contains": re.findall(r'contains="([^"]*)"', m.group(4)),
                                "what": m.group(5).strip()})
    return out


def scratch_base():
    for b in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(b)
            if os.access(b, os.W_OK) and st.f_bavail * st.f_frsize > 1 << 30:
                return b
        except OSError:
            pass
    return tempfile.gettempdir()


def spawn(scratch, prop, tier, base, lane, cases, wall, shrink, extra=(), hashseed=None, workers_env=None):
    out = os.path.join(scratch, "lane%s.json" % (lane if hashseed is None else "%s_%s" % (lane, hashseed)))
    env = dict(os.environ)
    env["LD_PRELOAD"] = shim.SO
    env["PYTHONHASHSEED"] = str(lane if hashseed is None else hashseed)
    env["PYTHONPATH"] = ROOT
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["HDF5_USE_FILE_LOCKING"] = "FALSE"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[k] = "1"
    env["TZ"] = "UTC"
    env["LC_ALL"] = "C.UTF-8"
    known = os.path.join(scratch, "known.json")
    cmd = [sys.executable, "-m", "dst.lane", "--prop", prop, "--tier", tier, "--base", str(base),
           "--lane", str(lane), "--cases", str(cases), "--wall", str(wall), "--shrink", str(shrink),
           "--out", out, "--scratch", scratch, "--known", known] + list(extra)
    err = open(out + ".err", "w")
    p = subprocess.Popen(cmd, env=env, cwd=scratch, stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                         start_new_session=True)
    return p, out


def collect(procs, limit):
    """Wait for the lanes; a lane that overruns is killed and is an error, never a pass."""
    res, errors = [], []
    deadline = time.monotonic() + limit
    for p, out in procs:
        try:
            p.wait(max(0.1, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            errors.append("lane did not finish in time")
            continue
        if os.path.exists(out):
            with open(out) as f:
                res.append(json.load(f))
        else:
            tail = ""
            try:
                with open(out + ".err") as f:
                    tail = f.read()[-2000:]
            except OSError:
                pass
            errors.append("lane died (%s): %s" % (p.returncode, tail))
    return res, errors


def add(d, e):
    for k, v in e.items():
        d[k] = d.get(k, 0) + v
    return d


def run_check(pid, tier, seed, cases=None, lanes=LANES, quiet=False):
    from . import props

    t0 = time.monotonic()
    prop = props.get(pid)
    shim.build()
    n = cases or (prop.quick if tier == "quick" else prop.thorough)
    wall = 500.0 if tier == "quick" else 5400.0
    shrink = 45.0 if tier == "quick" else 300.0
    known = known_findings()
    scratch = tempfile.mkdtemp(prefix="dstrun-", dir=scratch_base())
    try:
        with open(os.path.join(scratch, "known.json"), "w") as f:
            json.dump(known, f)
        procs = [spawn(scratch, pid, tier, seed, i, n, wall, shrink) for i in range(lanes)]
        res, errors = collect(procs, wall + shrink * 2 + 120)
        for r in res:
            errors += r["harness"]
        viol = [v for r in res for v in r["violations"]]
        viol.sort(key=lambda v: (not v["reproduced"], v["index"]))
        if prop.compare_lanes:
            viol += compare(res)
        wall_s = time.monotonic() - t0
        ev = evidence(prop, tier, seed, n, res, viol, known, wall_s, errors)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    hit = {}
    for r in res:
        add(hit, r["known"])
    for k in known:
        if k["property"] == pid and hit.get(k["name"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    c = ev["coverage"]
    print("%s %s: %d cases, %d distinct non-trivial, %d jobs, %d interleavings, %.0f s simulated, %.1f s"
          % (pid, tier, c["evaluations"], c["distinct_nontrivial"], c["simulated_runs"],
             c["distinct_interleavings"], c["simulated_seconds"], wall_s))
    if viol:
        os.makedirs(REPLAYS, exist_ok=True)
        v = viol[0]
        rp = os.path.join(REPLAYS, "%s-%s.json" % (pid, v["seed"]))
        with open(rp, "w") as f:
            json.dump({"property": pid, "kind": v["kind"], "text": v["text"], "seed": v["seed"],
                       "hashseeds": v.get("hashseeds", [v["index"] % LANES]), "case": v["case"],
                       "reproduced": v["reproduced"]}, f, indent=1)
        print("  %s: %s" % (v["kind"], v["text"]))
        for o in viol[1:4]:
            print("  also (seed %s) %s: %s" % (o["seed"], o["kind"], o["text"][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        print("ERROR: the machinery failed: %s" % "\n".join(errors[:3]))
        return 2
    if c["evaluations"] == 0:
        print("ERROR: nothing was explored")
        return 2
    return 0


def compare(res):
    """Same case, different hash seeds: the digests must be equal."""
    by = {}
    for r in res:
        for i, d in r["digests"].items():
            by.setdefault(int(i), {})[r["lane"]] = d
    out = []
    for i in sorted(by):
        lanes = sorted(by[i])
        first = by[i][lanes[0]]
        for ln in lanes[1:]:
            diff = sorted(k for k in set(first["files"]) | set(by[i][ln]["files"])
                          if first["files"].get(k) != by[i][ln]["files"].get(k))
            if diff:
                out.append({"kind": "environment-dependent", "index": i, "seed": first["seed"],
                            "text": "hash seeds %d and %d give different results: %s" % (lanes[0], ln, "; ".join(
                                "%s: %s / %s" % (k, str(first["files"].get(k))[:300],
                                                 str(by[i][ln]["files"].get(k))[:300]) for k in diff[:2])),
                            "case": first["case"], "reproduced": True, "hashseeds": [lanes[0], ln]})
                break
    return out


def evidence(prop, tier, seed, n, res, viol, known, wall_s, errors):
    st = {"jobs": 0, "sim_time": 0.0, "steps": 0, "libc_ops": 0}
    fired, statuses, policies, feats, hit = {}, {}, {}, {}, {}
    inter, sigs, samples = set(), set(), []
    cases = nontriv = planned = 0
    for r in res:
        for k in st:
            st[k] += r["stats"][k]
        add(fired, r["stats"]["fired"])
        add(statuses, r["stats"]["statuses"])
        add(policies, r["stats"]["policies"])
        add(feats, r["features"])
        add(hit, r["known"])
        inter |= set(r["interleavings"])
        sigs |= set(r["signatures"])
        samples += r["samples"]
        cases += r["cases"]
        planned += r["planned"]
        nontriv += r["nontrivial"]
    return {
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(sigs), "rule": prop.rule,
            "samples": samples[:6] or [{"note": "no non-trivial case"}],
            "nontrivial_cases": nontriv, "planned_cases": planned,
            "simulated_runs": st["jobs"],
            "simulated_runs_per_hour": round(st["jobs"] / max(wall_s, 1e-9) * 3600),
            "seeds_per_hour": round(cases / max(wall_s, 1e-9) * 3600),
            "simulated_seconds": round(st["sim_time"], 3), "scheduler_steps": st["steps"],
            "storage_operations": st["libc_ops"],
            "faults_fired": dict(sorted(fired.items())),
            "job_endings": statuses, "schedule_policies": policies,
            "distinct_interleavings": len(inter),
            "interleaving_measure": "hash of the complete sequence of (step, rank, operation, detail) "
                                    "of a job with more than one rank",
            "features_reached": dict(sorted(feats.items())),
            "known_findings_hit": hit, "real_code": prop.real, "stubs": prop.stub,
            "machinery_errors": errors[:5],
        },
        "assumptions": list(prop.assumptions) + COMMON,
        "wall_s": round(wall_s, 3), "violations": len(viol),
    }


COMMON = [
    "Sampling, not enumeration: a clean run is evidence, not proof.",
    "Ranks are threads of one process with private copies of all pyconform and ply modules; "
    "netCDF4/HDF5 state is shared between them, which separate processes would not do.",
    "A rank that dies with an exception makes the MPI launcher abort the other ranks "
    "(mpirun's default); the simulator aborts them after a seeded number of steps.",
    "A crash is the death of the process: completed write calls survive, buffers in the process do not. "
    "Power loss (unsynced page cache) is not simulated, because the code never claims to sync.",
]


def replay(path):
    from . import props  # noqa: F401

    with open(path) as f:
        rec = json.load(f)
    shim.build()
    scratch = tempfile.mkdtemp(prefix="dstrun-", dir=scratch_base())
    try:
        with open(os.path.join(scratch, "known.json"), "w") as f:
            json.dump([], f)
        procs = [spawn(scratch, rec["property"], "quick", 1, 0, 1, 600, 0,
                       ["--replay", os.path.abspath(path)], hashseed=h) for h in rec["hashseeds"]]
        res, errors = collect(procs, 900)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for r in res:
        errors += r["harness"]
    got = [v for r in res for v in r.get("replay", {}).get("violations", [])]
    if len(rec["hashseeds"]) > 1 and len(res) == 2:
        d = [r["replay"]["digests"].get("files") for r in res]
        if d[0] != d[1]:
            got.append(["environment-dependent", "the two hash seeds give different results"])
    same = [g for g in got if g[0] == rec["kind"]]
    for g in got[:5]:
        print("  %s: %s" % (g[0], g[1]))
    if same:
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    if errors:
        print("ERROR: %s" % "\n".join(errors[:3]))
        return 2
    print("the recorded violation did not occur")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    if a.build:
        print(shim.build())
        return 0
    if a.replay:
        return replay(a.replay)
    return run_check(a.property, a.tier, a.seed, a.cases)


if __name__ == "__main__":
    sys.exit(main())

"""
One lane: a warm interpreter (with its own PYTHONHASHSEED and the storage seam
preloaded) that works through the cases whose number is its own modulo LANES.
"""
import argparse
import json
import os
import signal
import sys
import time
import traceback

LANES = 8


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--base", type=int, default=1)
    ap.add_argument("--lane", type=int, required=True)
    ap.add_argument("--cases", type=int, required=True)
    ap.add_argument("--wall", type=float, default=600)
    ap.add_argument("--shrink", type=float, default=60)
    ap.add_argument("--out", required=True)
    ap.add_argument("--replay")
    ap.add_argument("--scratch", required=True)
    ap.add_argument("--known")
    ap.add_argument("--only", type=int)
    a = ap.parse_args()
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(4))
    os.environ["TMPDIR"] = a.scratch

    from . import base, props
    from .lab import HarnessError, Lab

    if os.environ.get("DST_COVER"):
        from . import cover, world
        cover.install(os.environ["DST_COVER"], world.REPO)
    t0 = time.monotonic()
    prop = props.get(a.prop)
    lab = Lab(a.scratch)
    known = json.load(open(a.known)) if a.known else []
    out = {"lane": a.lane, "cases": 0, "nontrivial": 0, "signatures": [], "features": {},
           "violations": [], "known": {}, "harness": [], "samples": [], "digests": {},
           "log": [], "planned": 0, "faults_fired_cases": 0}
    sigs = set()

    def known_of(kind, text):
        for k in known:
            if k["property"] == a.prop and k["kind"] == kind and all(s in text for s in k["contains"]):
                return k["name"]
        return None

    try:
        if a.replay:
            case = json.load(open(a.replay))
            v = prop.run(case["case"], lab)
            out["replay"] = {"violations": v.violations, "ran": v.ran, "digests": v.digests}
            out["cases"] = 1
        else:
            if prop.compare_lanes:
                todo = list(range(a.cases // LANES))
            else:
                todo = [i for i in range(a.cases) if i % LANES == a.lane]
            if a.only is not None:
                todo = [i for i in todo if i == a.only]
            out["planned"] = len(todo)
            for i in todo:
                if time.monotonic() - t0 > a.wall:
                    break
                seed = a.base * 1000003 + i
                try:
                    case = prop.make(seed, a.tier)
                    v = prop.run(case, lab)
                except HarnessError as e:
                    out["harness"].append("case %d: %s" % (i, e))
                    if len(out["harness"]) > 2:
                        break
                    continue
                except Exception:
                    out["harness"].append("case %d: %s" % (i, traceback.format_exc()))
                    if len(out["harness"]) > 2:
                        break
                    continue
                out["cases"] += 1
                out["log"].append([i, v.ran])
                if v.digests:
                    out["digests"][str(i)] = v.digests
                if v.nontrivial:
                    out["nontrivial"] += 1
                    sigs.add(base.signature(case["world"]) if "world" in case else json.dumps(case.get("sig")))
                for f in v.features:
                    if not f.startswith("interleaving:"):
                        out["features"][f] = out["features"].get(f, 0) + 1
                if len(out["samples"]) < 2 and v.nontrivial:
                    out["samples"].append({"seed": seed, "summary": v.summary, "jobs": [
                        [t, s] for t, s, _, _ in v.ran][:12]})
                fresh = []
                for kind, text in v.violations:
                    k = known_of(kind, text)
                    if k:
                        out["known"][k] = out["known"].get(k, 0) + 1
                    else:
                        fresh.append((kind, text))
                if fresh:
                    kind, text = fresh[0]
                    small, sv = base.minimise(prop, case, kind, lab, a.shrink, time.monotonic)
                    if sv is None:
                        small, reproduced = case, False
                    else:
                        reproduced = True
                        text = [t for k, t in sv.violations if k == kind][0]
                    out["violations"].append({"case": small, "kind": kind, "text": text, "index": i,
                                              "seed": seed, "reproduced": reproduced,
                                              "all": v.violations[:10]})
                    break
    except BaseException:
        out["harness"].append(traceback.format_exc())
    finally:
        s = lab.stats
        out["stats"] = {"jobs": s["jobs"], "sim_time": s["sim_time"], "steps": s["steps"],
                        "libc_ops": s["libc_ops"], "fired": s["fired"], "statuses": s["statuses"],
                        "policies": s["policies"]}
        out["interleavings"] = sorted(s["interleavings"])
        out["signatures"] = sorted(__import__("hashlib").sha256(x.encode()).hexdigest()[:16]
                                   for x in sigs)
        out["wall"] = time.monotonic() - t0
        lab.close()
        tmp = a.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(out, f)
        os.replace(tmp, a.out)


if __name__ == "__main__":
    main()

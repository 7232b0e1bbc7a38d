"""
What every property check shares: how a case runs its jobs, how violations are
named, how a violating case is shrunk.
"""
import copy
import json
import os
import random
import shutil

from . import gen, model
from . import scenario as S


class Prop:
    """One property.  A case is JSON: {"seed", "world", ...}; run() judges it."""

    id = None
    title = ""
    level = "exploration"
    quick = 320       # number of cases of the quick tier
    thorough = 6000
    rule = ""
    real = ("pyconform (all modules reached), asaptools SimpleComm and partition, ply, numpy, "
            "cf_units/udunits, netCDF4/HDF5, the kernel's file system (tmpfs)")
    stub = ("MPI transport, process scheduling and isolation of ranks, wall clocks, directory "
            "listing order, uuid/random, storage faults, process death, the MPI launcher's abort")
    assumptions = ()
    knobs = {}
    compare_lanes = False

    # ---------------------------------------------------------------- making
    def rng(self, seed):
        return random.Random("%s/case/%s" % (self.id, seed))

    def make(self, seed, tier):
        """The case of this seed."""
        r = self.rng(seed)
        w = gen.Gen("%s/%s" % (self.id, seed), **self.draw_knobs(r, tier)).make()
        case = {"seed": seed, "world": w}
        self.plan(case, r, tier)
        return case

    def draw_knobs(self, r, tier):
        k = dict(self.knobs)
        if tier == "thorough" and r.random() < 0.4:
            k.setdefault("p_big", 0.7)
            k.setdefault("nfiles", (1, 6))
            k.setdefault("nranks", (1, 6))
        return k

    def plan(self, case, r, tier):
        pass

    # --------------------------------------------------------------- running
    def run(self, case, lab):
        """Returns a Verdict."""
        v = Verdict(case, lab)
        try:
            self.judge(case, v)
        finally:
            v.close()
        return v

    def judge(self, case, v):
        raise NotImplementedError

    # ------------------------------------------------------------- shrinking
    def shrinks(self, case):
        """Simpler cases, most aggressive first."""
        yield from world_shrinks(case)


class Verdict:
    def __init__(self, case, lab):
        self.case, self.lab = case, lab
        self.dir = lab.new_case()
        self.violations = []   # (kind, text)
        self.features = set()  # what was reached, for the distinctness measure
        self.nontrivial = False
        self.traces = {}
        self.digests = {}
        self.ran = []
        self.summary = ""

    def close(self):
        self.lab.drop_case(self.dir)

    def bad(self, kind, text):
        self.violations.append((kind, str(text)[:1500]))

    def feature(self, *names):
        self.features.update(names)

    # one job
    def job(self, tag, job, work="work"):
        tr = self.case.get("traces", {}).get(tag)
        if tr is not None:
            job = dict(job, sched=dict(job.get("sched", {}), trace=tr))
        res = self.lab.job(job, self.dir, work)
        if res["status"] == "hang":
            # a wall-clock limit is not evidence: only a run that is still executing code under
            # test after a second, longer limit is reported, and it is reported as livelock
            old, self.lab.timeout = self.lab.timeout, self.lab.timeout * 2
            try:
                res = self.lab.job(job, self.dir, work)
            finally:
                self.lab.timeout = old
        self.traces[tag] = res.get("trace", [])
        self.ran.append((tag, res["status"], res.get("events_sha"), res.get("libc_sha")))
        if job.get("nranks", 1) > 1:
            self.features.add("interleaving:" + str(res.get("events_sha"))[:12])
        return res

    def setup(self, world, work="work"):
        S.materialise(world, self.lab, self.dir, work)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def copy_work(self, name, src="work"):
        dst = self.path(name)
        shutil.copytree(self.path(src), dst, copy_function=shutil.copy2)
        return name

    def inspect(self, paths, work="work"):
        return self.lab.inspect(self.dir, work, list(paths))


def describe(res):
    """One line about how a job ended."""
    bits = [res["status"]]
    for i, r in enumerate(res.get("ranks", [])):
        if r["exc"]:
            bits.append("rank %d: %s: %s" % (i, r["exc"]["type"], r["exc"]["msg"][:300]))
        elif res["status"] in ("deadlock", "aborted") and r["state"] == "blocked":
            bits.append("rank %d waits in %s" % (i, r["why"]))
    return "; ".join(bits)


def exc_types(res):
    return sorted({r["exc"]["type"] for r in res.get("ranks", []) if r["exc"]})


def failure_kind(res):
    """How the job ended, coarse enough to survive shrinking, fine enough not to drift to another cause."""
    for r in res.get("ranks", []):
        if r["exc"]:
            words = "".join(c if c.isalpha() else " " for c in r["exc"]["msg"]).split()
            return "%s/%s:%s" % (res["status"], r["exc"]["type"], "-".join(words[:3]))
    return res["status"]


def owners(world):
    return [n for n in world["spec"] if "file" in world["spec"][n]]


def expect_ok(v, res, tag=""):
    """A fault-free job of a valid problem completes."""
    if res["status"] != "ok":
        v.bad("not-completed:" + failure_kind(res), "%s job did not complete: %s" % (tag, describe(res)))
        return False
    return True


def outputs(v, world, work="work"):
    ex = model.Expect(world)
    names = {o: ex.final_name(o) for o in owners(world)}
    got = v.inspect(names.values(), work)
    return ex, {o: got[n] for o, n in names.items()}


def present(v, got, tag=""):
    ok = True
    for o, c in got.items():
        if "vars" not in c:
            v.bad("output-unusable", "%s output of %s: %s" % (tag, o, c.get("error", "missing")))
            ok = False
    return ok


def world_features(world):
    f = set()
    o = world["options"]
    f.add("ranks:%d" % world["nranks"])
    f.add("files:%d" % len(owners(world)))
    f.add("chunkdims:%d" % len(o["chunks"]))
    for n in owners(world):
        f.add("fmt:" + world["spec"][n]["file"].get("format", "default"))
        a = world["asts"].get(n)
        for op in ("add", "sub", "mul", "div", "neg", "mean", "sum", "limit", "up", "down", "sqrt",
                   "chdims", "user", "pow", "chunits", "rmunits"):
            if model.has_op(a, (op,)):
                f.add("op:" + op)
    for n, s in world["spec"].items():
        if "direction" in s.get("attributes", {}):
            f.add("dir:" + s["attributes"]["direction"])
        if s.get("datatype") == "char":
            f.add("char")
    return f


def signature(world):
    """A coarse description of the problem, for counting distinct ones."""
    o = world["options"]
    return json.dumps([world["nranks"], o["chunks"], sorted(
        (s["definition"] if isinstance(s.get("definition", ""), str) and "definition" in s else "data", s["dimensions"])
        for s in world["spec"].values()), world["sched"]["policy"]], default=str)


# ------------------------------------------------------------------ shrinking
def world_shrinks(case):
    w = case["world"]

    def variant(fn):
        c = copy.deepcopy(case)
        c.pop("traces", None)
        fn(c, c["world"])
        return c

    def setk(k, val):
        def f(c, x):
            x[k] = val
        return f

    def seto(k, val):
        def f(c, x):
            x["options"][k] = val
        return f

    if w["nranks"] > 1:
        yield variant(setk("nranks", 1))
        if w["nranks"] > 2:
            yield variant(setk("nranks", 2))
    own = owners(w)
    if len(own) > 1:
        for keep in own:
            def f(c, x, keep=keep):
                for o in own:
                    if o != keep:
                        drop_output(x, o)
            yield variant(f)
        for o in own:
            def f(c, x, o=o):
                drop_output(x, o)
            yield variant(f)
    ck = w["options"]["chunks"]
    if ck:
        yield variant(seto("chunks", []))
        for i in range(len(ck)):
            yield variant(seto("chunks", ck[:i] + ck[i + 1:]))
    for n, s in w["spec"].items():
        if "file" not in s and n not in w["dimmap"].values() and not used(w, n):
            # (coordinates fix the dimension map)
            def f(c, x, n=n):
                drop_meta(x, n)
            yield variant(f)
    for i in range(len(w.get("faults", []))):
        def f(c, x, i=i):
            del x["faults"][i]
        yield variant(f)
    if w.get("old"):
        yield variant(setk("old", []))
    if w["hashes"][1]:
        yield variant(setk("hashes", [w["hashes"][0], False]))
    if w["hashes"][0]:
        yield variant(setk("hashes", [0, w["hashes"][1]]))
    if w["sched"]["policy"] != "rr":
        yield variant(setk("sched", dict(w["sched"], policy="rr")))
    yield from ast_shrinks(case, variant)
    if w["options"]["deflate"] is not None:
        yield variant(seto("deflate", None))
    if w["clock"].get("jumps"):
        yield variant(setk("clock", dict(w["clock"], jumps=[])))
    if any(w["clock"].get("skew", [])):
        yield variant(setk("clock", dict(w["clock"], skew=[0.0] * w["nranks"])))
    if len(w["inputs"]) > 1:
        def merge(c, x):
            first = next(iter(x["inputs"]))
            for fn in list(x["inputs"]):
                if fn != first:
                    g = x["inputs"].pop(fn)
                    for d in g["dims"]:
                        x["inputs"][first]["dims"].setdefault(d, g["dims"][d])
                    for k in g["vars"]:
                        x["inputs"][first]["vars"].setdefault(k, g["vars"][k])
            x["infiles"] = [first]
        yield variant(merge)


def used(w, n):
    """Does a definition or the name of a file need this variable?"""
    return any(n in model.variables(a) for k, a in w["asts"].items() if k != n) or any(
        s.get("file", {}).get("autoparse_time_variable") == n for s in w["spec"].values())


def drop_output(w, owner):
    w["spec"].pop(owner, None)
    w["asts"].pop(owner, None)


def drop_meta(w, name):
    w["spec"].pop(name, None)
    w["asts"].pop(name, None)
    for s in w["spec"].values():
        a = s.get("attributes", {})
        if a.get("bounds") == name:
            del a["bounds"]
        if name in a.get("coordinates", "").split():
            del a["coordinates"]
        if "file" in s and name in s["file"].get("metavars", []):
            s["file"]["metavars"] = [m for m in s["file"]["metavars"] if m != name]


def ast_shrinks(case, variant):
    """Replace one sub-expression by one of its operands (when that keeps the dimensions)."""
    w = case["world"]
    for n in owners(w):
        a = w["asts"].get(n)
        if not isinstance(a, list):
            continue
        for path, sub in _subs(a, ()):
            for k, child in enumerate(sub[1:], 1):
                if isinstance(child, list) and child and isinstance(child[0], str) and k <= 2 \
                        and sub[0] not in ("var",):
                    def f(c, x, n=n, path=path, child=child):
                        x["asts"][n] = _replace(x["asts"][n], path, child)
                        x["spec"][n]["definition"] = model.render(x["asts"][n])
                        model.Expect(x).value(n)  # must still make sense
                    try:
                        yield variant(f)
                    except Exception:
                        continue


def _subs(a, path):
    if isinstance(a, list) and a and isinstance(a[0], str):
        yield path, a
        if a[0] != "var":
            for i, x in enumerate(a[1:], 1):
                yield from _subs(x, path + (i,))


def _replace(a, path, new):
    if not path:
        return new
    b = list(a)
    b[path[0]] = _replace(a[path[0]], path[1:], new)
    return b


def minimise(prop, case, kind, lab, budget, clock):
    """Greedy shrinking while a violation of the same kind remains."""
    deadline = clock() + budget

    def fails(c):
        try:
            v = prop.run(c, lab)
        except Exception:
            return None
        return v if any(k == kind for k, _ in v.violations) else None

    best, bestv = case, None
    progress = True
    while progress and clock() < deadline:
        progress = False
        try:
            cands = prop.shrinks(best)
            for c in cands:
                if clock() > deadline:
                    break
                v = fails(c)
                if v is not None:
                    best, bestv, progress = c, v, True
                    break
        except Exception:
            break
    if bestv is None:
        bestv = fails(best)
    if bestv is None:
        return case, None
    # pin the schedule: the replay is an explicit list of which rank ran at every point
    pinned = copy.deepcopy(best)
    pinned["traces"] = bestv.traces
    v = fails(pinned)
    if v is not None:
        best, bestv = pinned, v
        for tag in list(best["traces"]):
            tr = best["traces"][tag]
            n = len(tr)
            while n > 1 and clock() < deadline:
                c = copy.deepcopy(best)
                c["traces"][tag] = tr[: n // 2]
                v = fails(c)
                if v is None:
                    break
                best, bestv, n = c, v, n // 2
    return best, bestv

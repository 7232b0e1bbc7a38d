"""
The properties: how a case of each is made, run and judged.  (Statements are in properties.jsonl.)
"""
import copy
import datetime
import os
import random
import re

import numpy as np

from . import base, gen, model
from . import scenario as S
from .base import Prop, describe, expect_ok, failure_kind, outputs, owners, present, world_features
from .lab import sha, tree

PLAIN = dict(policy="rr", seed=0, depth=1, starved=0)


# ---------------------------------------------------------------- shared parts
def fault_free(world):
    return {k: v for k, v in world.items() if k != "faults"}


def reference(v, world, tag="ref", **over):
    """The undisturbed result: one rank, no chunking, no faults, plain schedule."""
    work = v.copy_work(tag)
    kw = dict(nranks=1, chunks=[], serial=True, faults=[], sched=PLAIN, hashes=[0, False])
    kw.update(over)
    res = v.job(tag, S.job_of(world, **kw), work)
    if not expect_ok(v, res, "undisturbed"):
        return None, None
    ex, got = outputs(v, world, work)
    if not present(v, got, "undisturbed"):
        return None, None
    return ex, got


def against(v, kind, ref, got, tag, only=None):
    for o in got:
        if only is not None and o not in only:
            continue
        for d in S.compare_files(ref[o], got[o]):
            v.bad(kind, "%s: output of %s: %s" % (tag, o, d))


class States:
    """Judges every state in which a published name was ever seen."""

    def __init__(self, v, world, ref, work0="work"):
        ex = model.Expect(world)
        self.v, self.world, self.ref = v, world, ref
        self.names = {ex.final_name(o): o for o in owners(world)}
        self.old = {}
        for n in self.names:
            p = v.path(work0, n)
            if os.path.exists(p):
                self.old[n] = sha(p)
        self.good = {}  # sha -> owner, of complete files already read
        self.known = {}

    def content(self, path, digest, owner, work):
        """[] if the file is a complete output of this owner."""
        key = (digest, owner)
        if key not in self.known:
            c = self.v.lab.inspect(self.v.dir, work, [path])[path]
            if "vars" not in c:
                self.known[key] = ["unreadable: %s" % c.get("error", "missing")]
            else:
                self.known[key] = S.compare_files(self.ref[owner], c)
        return self.known[key]

    def judge(self, res, work, tag):
        """Every state seen during the job and the state it left behind."""
        v = self.v
        had = dict.fromkeys(self.names)
        for n in self.names:
            had[n] = "old" if n in self.old else None
        seq = [(s["path"], s["present"], s.get("sha"), s["file"], "at step %d" % s["step"])
               for s in res["snaps"]]
        for n in self.names:
            p = v.path(work, n)
            ok = os.path.exists(p)
            seq.append((n, ok, sha(p) if ok else None, p if ok else None, "at the end"))
        for n, here, digest, path, when in seq:
            if n not in self.names:
                continue
            if not here:
                if had[n] is not None:
                    v.bad("lost", "%s: %s disappeared (%s, %s)" % (tag, n, when, describe(res)))
                continue
            if digest == self.old.get(n):
                continue
            d = self.content(path, digest, self.names[n], work)
            if d:
                v.bad("partial", "%s: %s holds an incomplete or wrong file %s: %s (%s)"
                      % (tag, n, when, d[0], describe(res)))
            had[n] = "new"
        return had

    def missing(self, had):
        return [n for n, h in had.items() if h != "new"]


def legal(world, chunks):
    """The chunks over dimensions that (still) belong to some written variable."""
    ex = model.Expect(world)
    have = set(d for o in owners(world) for n in ex.members(o) for d in world["spec"][n]["dimensions"]
               if isinstance(world["spec"][n]["definition"], str))
    return [c for c in chunks if c[0] in have]


def legal_sumlike(w, dims):
    """Those of the dimensions over which some written variable is reduced that still belong to a written variable."""
    have = set(d for o in owners(w) for n in model.Expect(w).members(o) for d in w["spec"][n]["dimensions"])
    return [d for d in dims if d in have]


LIBC = ["MUT", "OPENW", "CLOSE", "OPENR", "READ"]


def resolve(pick, prof, nranks):
    """Turn a relative fault position into an absolute one, given a profile of the job."""
    what, frac = pick["what"], pick["frac"]
    if what == "libc":
        n = prof["libc"].get(pick["cls"], 0)
        if n == 0:
            return None
        return {"at": "libc", "cls": pick["cls"], "n": min(n - 1, int(frac * n)),
                "act": pick["act"], "err": pick.get("err", "EIO")}
    if what == "py":
        n = prof["sites"].get(pick["site"], 0)
        if n == 0:
            return None
        return {"at": "py", "site": pick["site"], "n": min(n - 1, int(frac * n)), "act": pick["act"]}
    r = int(pick["rank"] * nranks) % nranks
    n = prof["ranks"][r]["yields"]
    return {"at": "rank", "rank": r, "n": int(frac * n)}


def crash_pick(r):
    x = r.random()
    if x < 0.40:
        c = r.choice(["MUT"] * 5 + ["OPENW", "CLOSE"])
        return {"what": "libc", "cls": c, "frac": r.random(),
                "act": r.choice(["crash_before", "crash_after", "torn"]) if c == "MUT"
                else r.choice(["crash_before", "crash_after"])}
    if x < 0.85:
        return {"what": "py", "site": r.choice(["rename", "rename", "dsclose_w", "dsclose_w", "mkdir",
                                               "dsopen_w", "dsclose_r", "unlink"]),
                "frac": r.random(), "act": r.choice(["crash_before", "crash_after"])}
    return {"what": "rank", "rank": r.random(), "frac": r.random()}


ERRS = {"OPENR": ["EIO", "EMFILE", "EACCES", "ENOENT"], "OPENW": ["ENOSPC", "EACCES", "EDQUOT", "EMFILE", "EIO"],
        "READ": ["EIO"], "MUT": ["ENOSPC", "EIO", "EDQUOT"], "CLOSE": ["EIO", "ENOSPC", "EDQUOT"]}
PYERRS = {"mkdir": ["EACCES", "ENOSPC", "race", "race"], "rename": ["EACCES", "ENOSPC", "EIO"],
          "dsopen_w": ["EACCES", "ENOSPC", "memerr"], "dsopen_r": ["EACCES", "EMFILE", "EIO", "memerr"],
          "dsclose_w": ["EIO", "lost", "lost"], "open_r": ["EACCES", "EIO"]}


def error_pick(r, short=True):
    if r.random() < 0.65:
        c = r.choice(["MUT"] * 6 + ["READ"] * 3 + ["OPENR", "OPENW", "CLOSE"])
        acts = ["once", "once", "sticky"]
        if short and c in ("MUT", "READ"):
            acts.append("short")
        return {"what": "libc", "cls": c, "frac": r.random(), "act": r.choice(acts),
                "err": r.choice(ERRS[c])}
    s = r.choice(["mkdir", "mkdir", "rename", "rename", "dsopen_w", "dsopen_r", "dsclose_w", "open_r"])
    return {"what": "py", "site": s, "frac": r.random(), "act": r.choice(PYERRS[s])}


def hdf5_only(world):
    fm = [f["format"] for f in world["inputs"].values()]
    fm += [world["spec"][o]["file"].get("format", "NETCDF4_CLASSIC") for o in owners(world)]
    return all(f.startswith("NETCDF4") for f in fm)


class Picks(Prop):
    """A property judged over several fault placements of one world."""

    npicks = 8

    def shrinks(self, case):
        if len(case["picks"]) > 1:
            for i in range(len(case["picks"])):
                c = copy.deepcopy(case)
                c.pop("traces", None)
                c["picks"] = [case["picks"][i]]
                yield c
        yield from base.world_shrinks(case)

    def profile(self, v, world):
        work = v.copy_work("prof")
        res = v.job("profile", S.job_of(world, faults=[]), work)
        if not expect_ok(v, res, "fault-free"):
            return None
        ex, got = outputs(v, world, work)
        if not present(v, got, "fault-free"):
            return None
        if world.get("old"):
            # what is right does not depend on what was there before
            clean = v.copy_work("clean")
            for n in S.final_names(world):
                if os.path.exists(v.path(clean, n)):
                    os.unlink(v.path(clean, n))
            r2 = v.job("clean", S.job_of(world, faults=[]), clean)
            if not expect_ok(v, r2, "fault-free, nothing there before"):
                return None
            _, ref = outputs(v, world, clean)
            if not present(v, ref, "fault-free, nothing there before"):
                return None
            against(v, "previous-matters", ref, got, "over previous outputs")
            got = ref
        return res, work, got


# ------------------------------------------------------------------ C01 chunks
class C01(Prop):
    id = "C01"
    title = "chunking"
    quick, thorough = 220, 12000
    knobs = dict(min_chunks=1, nfiles=(1, 3), nranks=(1, 3), p_direction=0.6, p_limits=0.3, p_one=0.1,
                 p_chdims=0.1, p_packed=0.1)
    rule = "distinct problems in which at least one legal chunking split some written dimension into two or more pieces"

    def plan(self, case, r, tier):
        w = case["world"]
        vs = []
        for _ in range(3):
            c = list(w["chunkable"])
            r.shuffle(c)
            c = c[: r.randint(1, max(1, len(c)))]
            vs.append([[d, r.choice([1, 1, 2, 2, 3, max(1, n - 1), n, n + 1])] for d, n in c])
        case["variants"] = vs

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        ex, ref = reference(v, w)
        if ref is None:
            return
        size = dict(w["chunkable"])
        for i, c in enumerate(case["variants"]):
            c = legal(w, c)
            work = v.copy_work("v%d" % i)
            res = v.job("v%d" % i, S.job_of(w, chunks=c, faults=[]), work)
            if not expect_ok(v, res, "chunks %s" % c):
                return
            _, got = outputs(v, w, work)
            against(v, "chunk-dependent", ref, got, "chunks %s" % c)
            if any(k < size[d] for d, k in c):
                v.nontrivial = True
        v.feature(*world_features(w))
        v.summary = "chunkings %s" % case["variants"]

    def shrinks(self, case):
        for i in range(len(case["variants"])):
            if len(case["variants"]) > 1:
                c = copy.deepcopy(case)
                c.pop("traces", None)
                c["variants"] = [case["variants"][i]]
                yield c
        for i, ch in enumerate(case["variants"]):
            for j in range(len(ch)):
                c = copy.deepcopy(case)
                c.pop("traces", None)
                del c["variants"][i][j]
                yield c
        yield from base.world_shrinks(case)


# -------------------------------------------------------- C02 parallel = serial
class C02(Prop):
    id = "C02"
    title = "parallel equals serial"
    quick, thorough = 230, 16000
    knobs = dict(nfiles=(2, 6), nranks=(2, 6), p_limits=0.15, p_expr=0.6)
    rule = "distinct problems with at least two files run on at least two ranks"

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        ex, ref = reference(v, w, chunks=w["options"]["chunks"])
        if ref is None:
            return
        work = v.copy_work("par")
        res = v.job("par", S.job_of(w, faults=[]), work)
        if not expect_ok(v, res, "parallel"):
            return
        _, got = outputs(v, w, work)
        against(v, "rank-dependent", ref, got, "%d ranks" % w["nranks"])
        names = S.final_names(w)
        for n in names:
            k = sum(1 for s in res["snaps"] if s["path"] == n and s["present"])
            if k != 1:
                v.bad("published-%d-times" % min(k, 2), "%s was published %d times by %d ranks"
                      % (n, k, w["nranks"]))
        writers = {}
        for _, rk, p, mode in res["opens"]:
            if mode[0] in "wax" or "+" in mode:
                writers.setdefault(p, set()).add(rk)
        for p, rks in writers.items():
            if len(rks) > 1:
                v.bad("two-writers", "%s was opened for writing by ranks %s" % (p, sorted(rks)))
        v.nontrivial = len(names) > 1 and w["nranks"] > 1
        v.feature(*world_features(w))
        v.summary = "%d files on %d ranks, %s schedule" % (len(names), w["nranks"], w["sched"]["policy"])


# ----------------------------------------------------- model-judged properties
class Modelled(Prop):
    """One or two runs of a whole job, judged against the reference model."""

    what = ("values", "mask")
    kind = "wrong-value"

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        res = v.job("run", S.job_of(w, faults=[]))
        if not expect_ok(v, res):
            return
        ex, got = outputs(v, w)
        if not present(v, got):
            return
        for o in got:
            for d in self.compare(ex, o, got[o], w):
                v.bad(self.kind, d)
        v.nontrivial = self.reached(ex, w)
        v.feature(*world_features(w))
        v.summary = "%s" % [w["spec"][o]["definition"] for o in owners(w)]

    def compare(self, ex, o, content, w):
        return S.check_values(ex, o, content, what=self.what)

    def reached(self, ex, w):
        return True


class C03(Modelled):
    id = "C03"
    title = "values are those of the definitions"
    quick, thorough = 560, 40000
    knobs = dict(p_expr=0.95, p_user=0.08, nfiles=(1, 4), depth=3, p_one=0.08, p_chdims=0.12, p_packed=0.15)
    what = ("values",)
    rule = "distinct problems in which some definition has at least one operator or function"

    def reached(self, ex, w):
        return any(isinstance(w["asts"][o], list) and w["asts"][o][0] != "var" for o in owners(w))


class C09(Modelled):
    id = "C09"
    title = "missing data stay missing"
    quick, thorough = 580, 40000
    knobs = dict(p_missing=1.0, p_fill=0.6, p_expr=0.8, p_direction=0.5, p_chunk=0.8, p_packed=0.15,
                 p_limits=0.3)
    what = ("mask",)
    kind = "wrong-mask"
    rule = "distinct problems in which some written array has both missing and present values"

    def plan(self, case, r, tier):
        case["world"]["options"]["error"] = False  # (limits mask; C12 has the rest)

    def reached(self, ex, w):
        for o in owners(w):
            m = np.ma.getmaskarray(ex.value(o).data)
            if m.any() and not m.all():
                return True
        return False


class C10(Modelled):
    id = "C10"
    title = "coordinate direction"
    quick, thorough = 620, 40000
    knobs = dict(p_direction=1.0, p_bounds=0.7, p_chunk=0.85, p_expr=0.3, min_chunks=0, nfiles=(1, 3),
                 p_metavars=0.6, p_aux=0.1)
    kind = "wrong-direction"
    rule = "distinct problems in which some dimension was written in reverse"

    def reached(self, ex, w):
        return any(ex.inverted(o) for o in owners(w))

    def plan(self, case, r, tier):
        case["spoil"] = [r.choice(["no-direction", "no-direction", "direction-word"]), r.random(), r.random()] \
            if r.random() < 0.25 else None

    def judge(self, case, v):
        Modelled.judge(self, case, v)
        if case.get("spoil"):
            # a coordinate without a direction cannot be written in the declared one
            w2 = copy.deepcopy(case["world"])
            extra = C23.spoil(w2, *case["spoil"])
            if extra is None:
                return
            v.setup(w2, "w2")
            res = v.job("spoilt", S.job_of(w2, faults=[]), "w2")
            v.feature("spoilt:%s/%s" % (case["spoil"][0], res["status"]))
            if res["status"] not in ("failed", "aborted"):
                v.bad("no-direction", "%s: %s" % (case["spoil"], describe(res)))

    def shrinks(self, case):
        if case.get("spoil"):
            c = copy.deepcopy(case)
            c.pop("traces", None)
            c["spoil"] = None
            yield c
        yield from Modelled.shrinks(self, case)


class C11(Modelled):
    id = "C11"
    title = "positive direction"
    quick, thorough = 640, 40000
    knobs = dict(p_positive=0.85, p_expr=0.85, classes=["flux", "flux", "rad", "one"], p_sumlike=0.4)
    kind = "wrong-sign"
    what = ("values", "mask")
    rule = "distinct problems in which some value had to change sign because of its positive direction"

    def reached(self, ex, w):
        for o in owners(w):
            if w["spec"][o]["attributes"].get("positive") or model.has_op(w["asts"][o], ("up", "down")):
                return True
        return False


class C18(Modelled):
    id = "C18"
    title = "header fidelity"
    quick, thorough = 630, 40000
    knobs = dict(p_metavars=0.7, p_datavar=0.7, p_bounds=0.6, p_char=0.35, p_deflate=0.6, p_fill=0.7,
                 p_expr=0.35, p_direction=0.5, p_hidden=0.4, nfiles=(1, 4), p_positive=0.5, p_limits=0.2, p_one=0.08)
    kind = "wrong-header"
    rule = "distinct problems (every one has a header to compare)"

    def compare(self, ex, o, content, w):
        return S.check_header(ex, o, content, w["options"])


# -------------------------------------------------------------- C04 atomicity
class C04(Picks):
    id = "C04"
    title = "crash atomicity of publication"
    quick, thorough = 110, 4000
    knobs = dict(p_old=0.5, nfiles=(1, 3), nranks=(1, 3), p_expr=0.4, p_missing=0.3)
    rule = "distinct problems in which at least one injected process death struck"

    def plan(self, case, r, tier):
        case["picks"] = [crash_pick(r) for _ in range(8 if tier == "quick" else 14)]

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        p = self.profile(v, w)
        if p is None:
            return
        prof, pwork, ref = p
        st = States(v, w, ref)
        st.judge(prof, pwork, "fault-free")
        for i, pick in enumerate(case["picks"]):
            f = resolve(pick, prof, w["nranks"])
            if f is None:
                continue
            tag = "c%d" % i
            work = v.copy_work(tag)
            res = v.job(tag, S.job_of(w, faults=[f]), work)
            st.judge(res, work, "crash %s" % f)
            if res["status"] == "crashed":
                v.nontrivial = True
            elif res["status"] in ("deadlock", "livelock"):
                v.bad("stuck", "%s: %s" % (f, describe(res)))
        v.feature(*world_features(w))
        v.summary = "%d placements of process death, old files %s" % (len(case["picks"]), w["old"])


# --------------------------------------------------------- C05 I/O error honesty
class C05(Picks):
    id = "C05"
    title = "no silent I/O failure"
    quick, thorough = 105, 4000
    knobs = dict(p_old=0.4, nfiles=(1, 3), nranks=(1, 4), p_expr=0.4, p_missing=0.3, p_subdir=0.8)
    rule = "distinct problems in which at least one injected I/O error struck"

    def draw_knobs(self, r, tier):
        k = super().draw_knobs(r, tier)
        k["formats"] = ["NETCDF4", "NETCDF4_CLASSIC"] if r.random() < 0.5 else gen.FORMATS
        k["infmts"] = k["formats"]
        return k

    def plan(self, case, r, tier):
        short = hdf5_only(case["world"])
        case["picks"] = [error_pick(r, short) for _ in range(8 if tier == "quick" else 14)]

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        p = self.profile(v, w)
        if p is None:
            return
        prof, pwork, ref = p
        st = States(v, w, ref)
        for i, pick in enumerate(case["picks"]):
            f = resolve(pick, prof, w["nranks"])
            if f is None:
                continue
            tag = "e%d" % i
            work = v.copy_work(tag)
            res = v.job(tag, S.job_of(w, faults=[f]), work)
            struck = bool(res.get("fired")) or any(res.get("libc_fired", {}).values())
            if struck:
                v.nontrivial = True
            had = st.judge(res, work, "error %s" % f)
            if res["status"] == "ok":
                miss = st.missing(had)
                if miss:
                    v.bad("silent-failure", "error %s: the job succeeded without %s" % (f, miss))
            elif res["status"] in ("deadlock", "livelock", "hang"):
                v.bad("stuck", "error %s: %s" % (f, describe(res)))
            elif res["status"] == "died":
                v.feature("library-death")  # a signal in native code: loud, and judged by what is on disk
            elif not struck:
                v.bad("spurious", "no error struck, but: %s" % describe(res))
            elif pick["act"] in ("short", "race"):
                v.bad("benign-failed", "%s must be survived: %s" % (f, describe(res)))
            v.feature("ending:" + res["status"])
        v.feature(*world_features(w))
        v.summary = "%d I/O errors" % len(case["picks"])


# ----------------------------------------------------------- C06 rerun after crash
class C06(Picks):
    id = "C06"
    title = "rerun after a failure"
    quick, thorough = 90, 4500
    knobs = dict(p_old=0.4, nfiles=(1, 3), nranks=(1, 3), p_expr=0.4, p_missing=0.3, p_subdir=0.8)
    rule = "distinct problems in which at least one failure struck before the final run"

    def plan(self, case, r, tier):
        case["picks"] = []
        for _ in range(3 if tier == "quick" else 6):
            seq = []
            for _ in range(r.choice([1, 1, 2, 3])):
                p = crash_pick(r) if r.random() < 0.6 else error_pick(r, False)
                p["sched"] = r.randrange(1 << 30)
                p["nranks"] = r.choice([None, 1, 2, 3])
                seq.append(p)
            case["picks"].append(seq)

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        p = self.profile(v, w)
        if p is None:
            return
        prof, pwork, ref = p
        st = States(v, w, ref)
        for i, seq in enumerate(case["picks"]):
            work = v.copy_work("r%d" % i)
            what = []
            for j, pick in enumerate(seq):
                f = resolve(pick, prof, w["nranks"])
                if f is None:
                    continue
                nr = pick["nranks"] or w["nranks"]
                if f["at"] == "rank":
                    f["rank"] %= nr
                sched = dict(w["sched"], seed=pick["sched"], starved=0)
                res = v.job("r%d.%d" % (i, j), S.job_of(w, faults=[f], nranks=nr, sched=sched), work)
                what.append("%s:%s" % (f, res["status"]))
                st.judge(res, work, "failing run %s" % f)
                if res["status"] != "ok":
                    v.nontrivial = True
            res = v.job("r%d.last" % i, S.job_of(w, faults=[]), work)
            if not expect_ok(v, res, "rerun after %s" % what):
                continue
            _, got = outputs(v, w, work)
            present(v, got, "rerun after %s:" % what)
            against(v, "rerun-differs", ref, got, "rerun after %s" % what)
        v.feature(*world_features(w))
        v.summary = "%d failure histories" % len(case["picks"])


# --------------------------------------------------------------- C07 confinement
class C07(Picks):
    id = "C07"
    title = "confinement of effects"
    quick, thorough = 160, 5000
    knobs = dict(p_old=0.3, p_bystander=0.9, nfiles=(1, 4), nranks=(1, 3), p_subdir=0.8, p_expr=0.5,
                 p_user=0.03, p_limits=0.2)
    rule = "distinct problems whose output directories also held files of others"

    def plan(self, case, r, tier):
        case["picks"] = [crash_pick(r) if r.random() < 0.5 else error_pick(r, False)
                         for _ in range(4 if tier == "quick" else 8)]
        case["modes"] = [r.choice([0o700, 0o711, 0o750, 0o770, 0o775, 0o777]) for _ in range(r.choice([0, 3, 6]))]

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        there = sorted(tree(v.path("work")), key=lambda p: (not p.endswith("/"), p))  # (directories first)
        for p, m in zip(there, case.get("modes", [])):
            os.chmod(v.path("work", p), m if p.endswith("/") else m & 0o666)
        before = tree(v.path("work"))
        names = set(os.path.normpath(n) for n in S.final_names(w))
        parents = set()
        for n in names:
            d = os.path.dirname(n)
            while d:
                parents.add(d + "/")
                d = os.path.dirname(d)
        work = v.copy_work("run")
        res = v.job("run", S.job_of(w, faults=[]), work)
        if not expect_ok(v, res):
            return
        self.check(v, before, tree(v.path(work)), names, parents, "success", True)
        for i, pick in enumerate(case["picks"]):
            f = resolve(pick, res, w["nranks"])
            if f is None:
                continue
            work = v.copy_work("f%d" % i)
            r2 = v.job("f%d" % i, S.job_of(w, faults=[f]), work)
            self.check(v, before, tree(v.path(work)), names, parents, "%s (%s)" % (r2["status"], f),
                       r2["status"] == "ok")
        v.nontrivial = bool(w["bystanders"])
        v.feature(*world_features(w))
        v.summary = "bystanders %s" % w["bystanders"]

    def check(self, v, before, after, names, parents, tag, done):
        for p, h in before.items():
            if p in names:
                continue
            if after.get(p) != h:
                v.bad("touched", "%s: %s was %s" % (tag, p, "removed" if p not in after else "changed"))
        dirs = set(os.path.dirname(n) for n in names)
        for p in after:
            if p in before or p in names or p in parents:
                continue
            if done:
                v.bad("stray", "%s: %s was left behind" % (tag, p))
            elif p.endswith("/") or os.path.dirname(p) not in dirs:
                v.bad("stray", "%s: %s appeared outside of the output directories" % (tag, p))


# ------------------------------------------------------------------ C08 progress
class C08(Prop):
    id = "C08"
    title = "progress on every schedule"
    quick, thorough = 600, 40000
    knobs = dict(nfiles=(1, 5), nranks=(1, 9), p_expr=0.3, p_missing=0.2, p_char=0.1)
    rule = "distinct problems run on at least two ranks"

    def plan(self, case, r, tier):
        w = case["world"]
        case["mode"] = r.choice(["normal"] * 6 + ["nofiles", "noinput", "skipall", "badchunk", "badspec",
                                                 "nostd", "badinput", "serial1"])
        w["p_eager"] = r.choice([0.0, 0.0, 0.5, 1.0])
        case["abort"] = r.choice([0, 1, 7, 60])

    def job(self, case):
        w = copy.deepcopy(case["world"])
        m = case["mode"]
        own = owners(w)
        over = dict(faults=[], abort_after=None)
        symmetric = True
        if m in ("nofiles", "skipall"):
            over["chunks"] = []
        if m == "nofiles":
            for o in own:
                del w["spec"][o]["file"]
        elif m == "noinput":
            over["infiles"] = []
        elif m == "skipall":
            for o in own:
                w["spec"][o]["definition"] = "NOSUCH"
        elif m == "badchunk":
            over["chunks"] = [["nosuch", 2]]
        elif m == "badspec":
            w["spec"][own[0]]["dimensions"] = w["spec"][own[0]]["dimensions"] + ["nosuch"]
        elif m in ("nostd", "badinput"):
            symmetric = False
            over["abort_after"] = case["abort"]
            if m == "badinput":
                over["infiles"] = list(w["infiles"]) + ["broken.nc"]
        elif m == "serial1":
            over["serial"] = True
            over["nranks"] = 1
        return w, over, symmetric

    def judge(self, case, v):
        w, over, symmetric = self.job(case)
        m = case["mode"]
        v.setup(w)
        if m == "nostd":
            os.unlink(v.path("work", S.STD))
        if m == "badinput":
            with open(v.path("work", "broken.nc"), "w") as f:
                f.write("this is not netCDF")
        job = S.job_of(w, **over)
        res = v.job("run", job)
        good = {"normal": "ok", "nofiles": "ok", "noinput": "ok", "skipall": "ok", "serial1": "ok"}.get(m)
        tag = "%s on %d ranks" % (m, job["nranks"])
        if good:
            if res["status"] != "ok":
                v.bad("no-progress:" + failure_kind(res), "%s: %s" % (tag, describe(res)))
            elif res["inflight"]:
                v.bad("message-left", "%s: %d messages were sent but never received" % (tag, res["inflight"]))
        elif symmetric and res["status"] not in ("failed",):
            v.bad("no-progress:" + failure_kind(res), "%s: every rank must report the error: %s"
                  % (tag, describe(res)))
        elif not symmetric and res["status"] not in ("failed", "aborted"):
            v.bad("no-progress:" + failure_kind(res), "%s: %s" % (tag, describe(res)))
        if symmetric and not good:
            quiet = [i for i, r in enumerate(res["ranks"]) if not r["exc"]]
            if quiet and res["status"] == "failed":
                v.bad("error-not-seen", "%s: ranks %s finished as if nothing happened" % (tag, quiet))
        v.nontrivial = job["nranks"] > 1
        v.feature("mode:" + m, "ranks:%d" % job["nranks"], "eager:%s" % w["p_eager"])
        v.summary = tag


# ----------------------------------------------------------- C12 validation limits
class C12(Prop):
    id = "C12"
    title = "validation limits"
    quick, thorough = 420, 15000
    knobs = dict(p_limits=0.9, p_meanabs=0.25, p_expr=0.45, p_chunk=0.7, p_missing=0.4, nfiles=(1, 3), nranks=(1, 3),
                 p_positive=0.4, p_direction=0.5)
    rule = "distinct problems in which some written value lay outside of its limits"

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        ex = model.Expect(w)
        own = owners(w)
        seen = sorted(set(n for o in own for n in ex.visible(o)))
        out = [n for n in seen if ex.beyond(n).any() or ex.mean_off(n)]
        # default: reported and written as missing
        work = v.copy_work("warn")
        res = v.job("warn", S.job_of(w, faults=[]), work)
        if not expect_ok(v, res):
            return
        _, got = outputs(v, w, work)
        if not present(v, got):
            return
        for o in own:
            for d in S.check_values(ex, o, got[o]):
                v.bad("wrong-limit", d)
        said = " ".join(m for r in res["ranks"] for k, m in r["warned"] if k == "ValidationWarning")
        for n in seen:
            if (n in out) != (repr(n) in said):
                v.bad("warning", "%s: values %s limits, but %s" % (
                    n, "outside" if n in out else "inside", "no warning" if n in out else "a warning"))
        # with the error option: refused
        work = v.copy_work("err")
        res = v.job("err", S.job_of(w, faults=[], error=True), work)
        bad = [o for o in own if any(m in out for m in ex.visible(o))]
        if bad and res["status"] == "ok":
            v.bad("not-refused", "values of %s outside of their limits, but the job with -e succeeded" % bad)
        if not bad:
            expect_ok(v, res, "error-option")
        _, got2 = outputs(v, w, work)
        for o in own:
            if o in bad and "missing" not in got2[o]:
                v.bad("published-invalid", "%s violates its limits but was published by a job with -e" % o)
        if res["status"] == "ok":
            against(v, "error-option-differs", got, got2, "job with -e")
        v.nontrivial = bool(out)
        v.feature(*world_features(w))
        if set(out) - set(own):
            v.feature("limits-beside")
        v.feature("limits:min" if any("valid_min" in w["spec"][o]["attributes"] for o in own) else "nomin")
        if any(w["spec"][o]["attributes"].get(k) == 0 for o in own for k in ("valid_min", "valid_max")):
            v.feature("limit-zero")
        if any(ex.mean_off(o) for o in own):
            v.feature("mean-off")
        v.summary = "limits %s" % [[w["spec"][o]["attributes"].get(k) for k in ("valid_min", "valid_max")]
                                   for o in own]


# ------------------------------------------------------------- C13 unsafe chunking
class C13(Prop):
    id = "C13"
    title = "unsafe chunk requests are refused"
    quick, thorough = 700, 20000
    knobs = dict(p_sumlike=1.0, p_expr=1.0, nfiles=(1, 3), nranks=(1, 4), p_old=0.3, p_missing=0.2, depth=3)
    rule = "distinct problems with a request that must be refused (or overridden in debug mode)"

    def plan(self, case, r, tier):
        w = case["world"]
        kinds = ["unknown", "zero", "negative"]
        if w["sumlike"]:
            kinds += ["sumlike"] * 4 + ["debug"] * 2
        k = r.choice(kinds)
        c = [[d, r.choice([1, 2])] for d, n in w["chunkable"] if r.random() < 0.5]
        if k in ("sumlike", "debug"):
            bad = [r.choice(w["sumlike"]), r.choice([1, 2, 50])]
        elif k == "unknown":
            bad = [r.choice(["nosuch", "bnds2", "Time"]), r.choice([1, 4])]
        else:
            bad = [r.choice(w["chunkable"] or [["time", 1]])[0], 0 if k == "zero" else -r.randint(1, 4)]
            c = [x for x in c if x[0] != bad[0]]
        c.insert(r.randint(0, len(c)), bad)
        case.update(kind=k, chunks=c)

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        before = tree(v.path("work"))
        k = case["kind"]
        if k == "debug":
            ex, ref = reference(v, w)
            if ref is None:
                return
            work = v.copy_work("dbg")
            res = v.job("dbg", S.job_of(w, faults=[], chunks=case["chunks"], debug=True), work)
            if expect_ok(v, res, "debug-mode"):
                _, got = outputs(v, w, work)
                against(v, "debug-differs", ref, got, "debug mode with chunks %s" % case["chunks"])
        else:
            res = v.job("run", S.job_of(w, faults=[], chunks=case["chunks"], abort_after=None))
            tag = "%s request %s" % (k, case["chunks"])
            if res["status"] == "ok":
                v.bad("accepted", "%s was accepted" % tag)
            elif res["status"] != "failed":
                v.bad("stuck", "%s: %s" % (tag, describe(res)))
            after = tree(v.path("work"))
            diff = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
            if diff:
                v.bad("side-effect", "%s changed %s" % (tag, diff))
            if any(s["present"] for s in res["snaps"]):
                v.bad("side-effect", "%s published %s" % (tag, res["snaps"][0]["path"]))
        v.nontrivial = True
        v.feature("request:" + k, *world_features(w))
        v.summary = "%s %s" % (k, case["chunks"])


# --------------------------------------------------------------- C14 independence
class C14(Prop):
    id = "C14"
    title = "outputs do not influence each other"
    quick, thorough = 240, 14000
    knobs = dict(nfiles=(2, 5), nranks=(1, 3), p_share=0.6, p_strshare=0, p_nocoord=0, p_datavar=0.6, p_limits=0.15,
                 p_datause=0.35)
    rule = "distinct problems with at least two output files"

    def plan(self, case, r, tier):
        w = case["world"]
        own = owners(w)
        case["keep"] = [sorted(r.sample(own, r.randint(1, max(1, len(own) - 1)))) for _ in range(2)]
        case["order"] = r.randrange(1 << 30)

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        work = v.copy_work("all")
        res = v.job("all", S.job_of(w, faults=[]), work)
        if not expect_ok(v, res):
            return
        _, ref = outputs(v, w, work)
        if not present(v, ref):
            return
        have = owners(w)
        for i, keep in enumerate(case["keep"]):
            keep = [o for o in keep if o in have] or have[:1]
            w2 = copy.deepcopy(w)
            for o in have:
                if o not in keep:
                    base.drop_output(w2, o)
            # chunked dimensions must still belong to some output
            left = set(d for o in keep for n in model.Expect(w2).members(o)
                       for d in w2["spec"][n]["dimensions"])
            keys = list(w2["spec"])
            random.Random(case["order"] + i).shuffle(keys)
            w2["spec"] = {k: w2["spec"][k] for k in keys}
            w2["asts"] = {k: w2["asts"][k] for k in w2["asts"]}
            w2["options"] = dict(w2["options"], chunks=[c for c in w2["options"]["chunks"] if c[0] in left])
            name = "some%d" % i
            S.materialise(w2, v.lab, v.dir, name)
            res = v.job(name, S.job_of(w2, faults=[]), name)
            if not expect_ok(v, res, "only %s:" % keep):
                continue
            _, got = outputs(v, w2, name)
            against(v, "not-independent", ref, got, "with only %s" % keep, only=keep)
        v.nontrivial = len(have) > 1
        v.feature(*world_features(w))
        v.summary = "%d outputs, subsets %s" % (len(have), case["keep"])


# -------------------------------------------------------------- C15 creation date
class C15(Prop):
    id = "C15"
    title = "creation date and clock independence"
    quick, thorough = 330, 18000
    knobs = dict(nfiles=(1, 4), nranks=(1, 4), p_expr=0.4, p_missing=0.3)
    rule = "distinct problems (every output has a creation date)"

    def plan(self, case, r, tier):
        w = case["world"]
        g = gen.Gen("clock2/%s" % case["seed"])
        case["clock2"] = g.clock(w["nranks"])
        if r.random() < 0.7:
            w["clock"]["tz"] = r.choice([-43200, -25200, 3600, 34200, 50400])

    @staticmethod
    def writing(events, name):
        """[rank, first step, last step] of the making of a file: after what its rank did before, until it is there."""
        opened = [(step, rk) for step, rk, kind, path in events if kind == "dsopen_w" and path.startswith(name)]
        there = [step for step, rk, kind, path in events if kind == "rename.done" and path == name]
        if not opened or not there:
            return []
        start, rk = opened[-1]
        return [[rk, max([0] + [step for step, n, kind, _ in events if n == rk and step < start
                                and kind in ("rename.done", "send", "sent", "recv", "coll")]), there[-1]]]

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        refs = []
        for tag, ck in (("a", w["clock"]), ("b", case["clock2"])):
            work = v.copy_work(tag)
            res = v.job(tag, dict(S.job_of(w, faults=[], clock=ck), want_events=True), work)
            if not expect_ok(v, res):
                return
            _, got = outputs(v, w, work)
            if not present(v, got):
                return
            seen = {}
            for rk, step, t in res["clock_reads"]:
                seen.setdefault(int(t // 1), set()).add(rk)
            names = dict(zip(owners(w), S.final_names(w)))
            for o, c in got.items():
                d = str(c["attrs"].get("creation_date"))
                try:
                    t = datetime.datetime.strptime(d, "%Y-%m-%dT%H:%M:%SZ")
                    secs = int((t - datetime.datetime(1970, 1, 1)).total_seconds())
                except ValueError:
                    v.bad("bad-date", "%s: creation_date is %r" % (o, d))
                    continue
                if secs not in seen:
                    v.bad("wrong-date", "%s: creation_date %s is not the UTC time at which any rank "
                          "was working (clock readings %s)" % (o, d, sorted(seen)[:6]))
                    continue
                writer = {rk for k, rk, p, m in res["opens"] if m[0] in "wa" and p.startswith(names[o])}
                if writer and not writer & seen[secs]:
                    v.bad("wrong-date", "%s: creation_date %s is not a clock reading of the rank that wrote it"
                          % (o, d))
                for rk, lo, hi in self.writing(res["events"], names[o]):
                    if not any(int(t // 1) == secs and n == rk and lo <= step <= hi
                               for n, step, t in res["clock_reads"]):
                        v.bad("wrong-date", "%s: at %s rank %d was not yet, or no longer, writing this file"
                              % (o, d, rk))
            refs.append(got)
        against(v, "clock-dependent", refs[0], refs[1], "other clock")
        v.nontrivial = True
        v.feature("tz:%d" % w["clock"]["tz"], "jumps:%d" % len(w["clock"]["jumps"]),
                  "skew:%s" % any(w["clock"]["skew"]), *world_features(w))
        v.summary = "clock %s" % w["clock"]


# --------------------------------------------------------------- C16 dated names
class C16(Prop):
    id = "C16"
    title = "dated file names"
    quick, thorough = 650, 30000
    knobs = dict(p_autoparse=0.9, nfiles=(1, 4), nranks=(1, 3), p_calendar=0.9, p_expr=0.4, p_missing=0.2,
                 p_tname=0.35, p_notime=0.25)
    rule = "distinct problems with at least one dated file name"

    def plan(self, case, r, tier):
        w = case["world"]
        own = [o for o in owners(w) if "{" in w["spec"][o]["file"]["filename"]]
        case["collide"] = None
        if len(own) > 1 and r.random() < 0.15:
            # two names that differ only in how the dates are asked for
            a, b = own[:2]
            t = r.choice(["%Y", "%Y%m"])
            w["spec"][a]["file"]["filename"] = "same_{%s-%s}.nc" % (t, t)
            w["spec"][b]["file"]["filename"] = "same_{%s-%s}.nc" % (t, t.replace("%Y", "%Y")) if r.random() < 0.3 \
                else "same_{%s-%s}.nc" % (t, t + "")
            ex = model.Expect(w)
            w["spec"][b]["file"]["filename"] = "same_%s" % ex.final_name(a)[5:]
            if r.random() < 0.5:
                w["spec"][b]["file"]["filename"] = respelled(w["spec"][b]["file"]["filename"], r.random())
            case["collide"] = [a, b]

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        before = tree(v.path("work"))
        res = v.job("run", S.job_of(w, faults=[], abort_after=None if case["collide"] else w["abort_after"]))
        if case["collide"] and all(o in w["spec"] for o in case["collide"]):
            if res["status"] == "ok":
                v.bad("collision", "two outputs share the name %s and the job succeeded"
                      % model.Expect(w).final_name(case["collide"][0]))
            v.nontrivial = True
            v.feature("collision")
            return
        if not expect_ok(v, res):
            return
        ex, got = outputs(v, w)
        after = tree(v.path("work"))
        new = sorted(p for p in after if p not in before and not p.endswith("/"))
        want = sorted(os.path.normpath(n) for n in S.final_names(w))
        if new != want:
            v.bad("wrong-name", "files %s, expected %s" % (new, want))
            return
        said = [m for r in res["ranks"] for k, m in r["warned"] if k == "DateTimeAutoParseWarning"]
        for o in got:
            for d in S.check_values(ex, o, got[o], only=[o]):
                v.bad("wrong-content", "%s: %s" % (ex.final_name(o), d))
            if "{" in ex.final_name(o) and not any(w["spec"][o]["file"]["filename"] in m for m in said):
                v.bad("no-warning", "%s has no dates, and nothing was said" % ex.final_name(o))
        if said and not any("{" in ex.final_name(o) for o in got):
            v.bad("warning", "a warning about dates in names: %s" % said[0])
        v.nontrivial = any("{" in w["spec"][o]["file"]["filename"] for o in owners(w))
        v.feature(*world_features(w))
        for t in w["tunits"].values():
            v.feature("calendar:" + t[2])
        v.summary = "%s" % want


# ------------------------------------------------- C17 repeated use in one process
class C17(Prop):
    id = "C17"
    title = "executing again in the same process"
    quick, thorough = 360, 12000
    knobs = dict(nfiles=(1, 3), nranks=(1, 2), p_expr=0.6, p_direction=0.7, p_datavar=0.7, p_old=0.2,
                 p_limits=0.1, p_sumlike=0.4, p_user=0.2, p_autoparse=0.2)
    rule = "distinct problems executed at least twice by one data flow object"

    def plan(self, case, r, tier):
        w = case["world"]
        case["fail"] = r.random() < 0.55
        if case["fail"]:
            w["nranks"] = 1
            case["pick"] = error_pick(r, False)
            if case["pick"].get("site") == "open_r":
                case["pick"]["site"] = "dsopen_w"
                case["pick"]["act"] = "EACCES"
        ex = []
        for _ in range(r.randint(2, 3)):
            c = list(w["chunkable"])
            r.shuffle(c)
            ex.append({"chunks": [[d, r.choice([1, 2, n])] for d, n in c[: r.randint(0, len(c))]],
                       "history": r.random() < 0.5, "deflate": r.choice([None, None, 0, 4]), "heal": True})
        ex[-1]["history"] = w["options"]["history"]
        ex[-1]["deflate"] = w["options"]["deflate"]
        case["executes"] = ex
        for e in ex:
            # chunks that debug mode ignores, and another data flow from the same descriptions
            e["debug"] = [d for d in w["sumlike"] if r.random() < 0.7] if w["sumlike"] and r.random() < 0.4 else None
            e["rebuild"] = r.random() < 0.2
        case["main"] = not case["fail"] and r.random() < 0.25
        if r.random() < 0.5:
            w["clock"]["rate"] = 7.0  # (a later execution is in another second)

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        ex, ref = reference(v, w)
        if ref is None:
            return
        faults = []
        if case["main"]:
            work = v.copy_work("main")
            res = v.job("main", S.job_of(w, faults=[], repeat=2), work)
            if expect_ok(v, res, "the command twice in one process"):
                _, got = outputs(v, w, work)
                against(v, "again-differs", ref, got, "the command twice in one process")
            v.nontrivial = True
            v.feature("main", *world_features(w))
            v.summary = "main() twice"
            return
        executes = [dict(e, chunks=legal(w, e["chunks"])) for e in case["executes"]]
        for e in executes:
            if e["debug"] is not None:
                e["chunks"] = e["chunks"] + [[d, 1] for d in legal_sumlike(w, e["debug"])]
                e["debug"] = True
        if case["fail"] and w["nranks"] == 1:
            work = v.copy_work("prof")
            prof = v.job("profile", S.api_job(w, executes[:1], faults=[]), work)
            if not expect_ok(v, prof, "first execute"):
                return
            f = resolve(case["pick"], prof, 1)
            faults = [f] if f else []
        work = v.copy_work("again")
        res = v.job("again", S.api_job(w, executes, faults=faults), work)
        tag = "executes %s with %s" % (executes, faults)
        if res["status"] != "ok":
            if faults and res["status"] == "died":
                v.feature("library-death")  # HDF5 does not survive a failing close(2)
                return
            if faults and res["status"] == "failed":
                v.feature("failed-in-setup")  # the fault struck while the data flow was built
                return
            v.bad("not-completed:" + failure_kind(res), "%s: %s" % (tag, describe(res)))
            return
        struck = bool(res.get("fired")) or any(res.get("libc_fired", {}).values())
        for i, r in enumerate(res["ranks"]):
            for j, log in enumerate(r["ret"]):
                if not log["ok"] and not struck:
                    v.bad("not-repeatable", "%s: execute %d fails: %s %s" % (tag, j, log["type"], log["msg"]))
                if not log["ok"] and j == len(r["ret"]) - 1 and struck:
                    v.bad("no-recovery", "%s: the last execute still fails: %s %s" % (tag, log["type"], log["msg"]))
                if log.get("open") and not any(f.startswith("py:dsclose") for f in res.get("fired", [])) \
                        and not any(res.get("libc_fired", {}).values()):
                    # (the netCDF library itself cannot close a file that it cannot flush)
                    v.bad("left-open", "%s: execute %d leaves %s open" % (tag, j, log["open"]))
                if not log["chunks_kept"]:
                    v.bad("arguments-changed", "%s: the chunks argument was modified" % tag)
            if struck and any(not log["ok"] for log in r["ret"]):
                v.feature("recovered")
        _, got = outputs(v, w, work)
        if not v.violations:
            present(v, got, tag)
            against(v, "again-differs", ref, got, tag)
            # the files are those of the last execution, not touched up ones of an earlier one
            last = {i: r["ret"][-1]["start"] for i, r in enumerate(res["ranks"])}
            seen = set(int(t // 1) for rk, step, t in res["clock_reads"] if step >= last[rk])
            for o, c in got.items():
                d = str(c["attrs"].get("creation_date"))
                try:
                    t = datetime.datetime.strptime(d, "%Y-%m-%dT%H:%M:%SZ")
                except ValueError:
                    continue  # (C15)
                if int((t - datetime.datetime(1970, 1, 1)).total_seconds()) not in seen:
                    v.bad("earlier-date", "%s: %s has the creation_date %s, at which the last execution was not running"
                          % (tag, o, d))
        v.nontrivial = True
        v.feature("struck" if struck else "undisturbed", *world_features(w))
        v.summary = tag

# ----------------------------------------------------- C19 files in sequential order
class C19(Prop):
    id = "C19"
    title = "input files in sequential order"
    quick, thorough = 1300, 60000
    rule = "distinct (frequency, calendar, units, bounds, cut, break) combinations of two or more files"
    real = "pyconform.mapdates, pyconform.climIO, cf_units/cftime, netCDF4/HDF5, the kernel's file system (tmpfs)"
    STEP = {"day": 1.0, "6hr": 0.25, "3hr": 0.125, "1hr": 1 / 24.0, "2day": 2.0, "10day": 10.0}

    def make(self, seed, tier):
        r = self.rng(seed)
        freq = r.choice(list(self.STEP) + ["mon", "mon", "mon", "year"])
        cal = r.choice(["noleap", "noleap", "360_day", "standard", "proleptic_gregorian"])
        if freq == "year" and cal in ("standard", "proleptic_gregorian"):
            cal = "noleap"
        per = r.choice(["days", "days", "hours", "seconds"]) if freq not in ("mon", "year") \
            else r.choice(["days", "days", "hours"])
        ref = r.choice([[1850, 1, 1], [1979, 1, 1], [1999, 12, 1]] + ([[1, 1, 1]] if cal not in ("standard",) else []))
        start = [ref[0] + r.choice([0, 1, 3, 40]), r.choice([1, 1, 2, 7, 12]), r.choice([1, 1, 28])]
        if freq in ("mon", "year"):
            start[2] = 1
        brk = r.choice(["none"] * 5 + ["gap-in", "gap-between", "gap-file", "repeat", "far-gap", "overlap"])
        nf = r.choice([1, 2, 2, 3, 3, 4]) if brk in ("none", "gap-in", "far-gap") else r.choice([2, 3, 4]) \
            if brk != "gap-file" else r.choice([3, 4])
        sizes = [r.choice([3, 3, 4, 5, 8, 12] if brk not in ("gap-in", "far-gap") else [5, 6, 8, 12])
                 for _ in range(nf)]
        if brk in ("gap-between", "overlap"):
            sizes = [n + 1 for n in sizes]
        names = ["%s%02d.nc" % (r.choice("abz"), i) for i in range(nf + 1)]
        r.shuffle(names)
        # every file may count from its own date, and in its own unit
        own = None
        if r.random() < 0.35:
            own = [[r.choice([ref, ref, [1850, 1, 1], [1979, 1, 1], [1999, 12, 1], [2000, 1, 1]]),
                    r.choice([per, per, "days", "hours"])] for _ in range(nf + 1)]
        return {"seed": seed, "freq": freq, "cal": cal, "per": per, "ref": ref, "start": start, "break": brk, "own": own,
                "sizes": sizes, "names": names, "bounds": r.random() < 0.5, "at": r.random(),
                "off": r.choice([0.5, 1.0, 0.5]), "env_seed": r.randrange(1 << 30), "unlim": r.random() < 0.6,
                "fmt": r.choice(gen.FORMATS), "alignment": r.random() < 0.85, "subdir": r.random() < 0.4,
                "tail": r.choice(["", " 00:00:00", " 0:0:0"]),
                # files of the same name in different directories
                "dirs": ["m%d" % i for i in range(nf + 1)] if r.random() < 0.2 else None,
                "pick": error_pick(r, False) if r.random() < 0.35 else None}

    def edges(self, c, ref, per):
        """Start of every step (and the end of the last), in the units of the files."""
        n = sum(c["sizes"])
        base0 = model.days_between(c["cal"], ref, c["start"])
        y, m, _ = c["start"]
        out = []
        for i in range(n + 40):
            if c["freq"] == "mon":
                k = m - 1 + i
                d = model.days_between(c["cal"], ref, [y + k // 12, k % 12 + 1, 1])
            elif c["freq"] == "year":
                d = model.days_between(c["cal"], ref, [y + i, m, 1])
            else:
                d = base0 + i * self.STEP[c["freq"]]
            out.append(d * {"days": 1.0, "hours": 24.0, "seconds": 86400.0}[per])
        return out

    def files(self, c):
        """[(name, start index list)] in sequential order, and whether the steps are contiguous."""
        idx, i = [], 0
        for n in c["sizes"]:
            idx.append(list(range(i, i + n)))
            i += n
        b, at = c["break"], c["at"]
        names = list(c["names"])
        contiguous = True
        if b == "gap-in":
            f = int(at * len(idx))
            k = 1 + int((at * 7.3) % 1 * (len(idx[f]) - 2))
            del idx[f][k]
            contiguous = False
        elif b == "gap-between" and len(idx) > 1:
            f = int(at * (len(idx) - 1))
            del idx[f][-1]
            contiguous = False
        elif b == "overlap" and len(idx) > 1:
            f = 1 + int(at * (len(idx) - 1))
            idx[f].insert(0, idx[f][0] - 1)
            contiguous = False
        elif b == "gap-file" and len(idx) > 2:
            del idx[1 + int(at * (len(idx) - 2))]
            contiguous = False
        elif b == "repeat":
            idx.append(list(idx[int(at * len(idx))]))
            contiguous = False
        elif b == "far-gap":
            # a whole number of years is missing
            f = int(at * len(idx))
            k = int((at * 7.3) % 1 * len(idx[f])) if f else 1 + int((at * 7.3) % 1 * (len(idx[f]) - 1))
            far = {"mon": 12, "year": 1}.get(c["freq"], 30)
            idx = [[x + far if (g, q) >= (f, k) else x for q, x in enumerate(ix)] for g, ix in enumerate(idx)]
            contiguous = False
        if c["dirs"]:
            names = ["same.nc"] * len(names)
        return list(zip(names, idx)), contiguous

    @staticmethod
    def path(c, k, name):
        return os.path.join("in", c["dirs"][k], name) if c["dirs"] else "in/" + name

    def build(self, c, d, files):
        import netCDF4

        os.makedirs(os.path.join(d, "in"), exist_ok=True)
        for k, (name, ix) in enumerate(files):
            ref, per = (c.get("own") or [[c["ref"], c["per"]]] * (k + 1))[k]
            e = self.edges(c, ref, per)
            path = os.path.join(d, self.path(c, k, name))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            ds = netCDF4.Dataset(path, "w", format=c["fmt"])
            ds.createDimension("time", None if c["unlim"] else len(ix))
            ds.createDimension("bnds", 2)
            t = ds.createVariable("time", "f8", ("time",))
            t.units = "%s since %04d-%02d-%02d%s" % ((per,) + tuple(ref) + (c["tail"],))
            t.calendar = c["cal"]
            if c["bounds"]:
                t.bounds = "time_bnds"
                b = ds.createVariable("time_bnds", "f8", ("time", "bnds"))
                b[:] = [[e[i], e[i + 1]] for i in ix]
                t[:] = [e[i] + c["off"] * (e[i + 1] - e[i]) for i in ix]
            else:
                t[:] = [e[i] for i in ix]
            x = ds.createVariable("x", "f4", ("time",))
            x[:] = np.arange(len(ix))
            ds.close()

    def judge(self, case, v):
        c = case
        files, contiguous = self.files(c)
        d = v.path("work")
        self.fork_build(v, c, d, files)
        r = self.rng(c["seed"])
        listing = [self.path(c, k, n) for k, (n, _) in enumerate(files)]
        r.shuffle(listing)
        job = {"entry": "mapdates", "nranks": 1, "sched": PLAIN, "env_seed": c["env_seed"], "files": listing,
               "kwargs": {} if c["alignment"] else {"alignment": False}}
        runs = [("listed", job), ("by-directory", dict(job, via_listing="in")),
                ("reversed", dict(job, files=listing[::-1]))]
        if c["dirs"]:
            del runs[1]
        want = [n for n, _ in sorted(files, key=lambda x: x[1][0])]
        counts = [len(ix) for _, ix in sorted(files, key=lambda x: x[1][0])]
        # without the check inside of files, a gap there is accepted, and counts as one of the file
        if not c["alignment"] and c["break"] in ("gap-in", "far-gap"):
            v.nontrivial = False
            return
        first = None
        for tag, j in runs:
            res = v.job(tag, j)
            first = first or res
            if not expect_ok(v, res, tag):
                return
            self.check(v, tag, res["ranks"][0]["ret"], want, counts, contiguous)
        if c["pick"]:
            f = resolve(c["pick"], first, 1)
            if f:
                res = v.job("fault", dict(job, faults=[f]))
                if res["status"] == "ok":
                    self.check(v, "with error %s" % f, res["ranks"][0]["ret"], want, counts, contiguous)
                v.feature("fault-ending:" + res["status"])
        v.nontrivial = len(files) > 1
        case["sig"] = [c["freq"], c["cal"], c["per"], c["bounds"], c["sizes"], c["break"], c["fmt"]]
        v.feature("freq:" + c["freq"], "cal:" + c["cal"], "break:" + c["break"], "per:" + c["per"],
                  "bounds" if c["bounds"] else "no-bounds", "own-references" if c["own"] else "one-reference")
        v.summary = "%s %s %s, %d files, %s" % (c["freq"], c["cal"], c["per"], len(files), c["break"])

    def fork_build(self, v, c, d, files):
        from .lab import HarnessError

        def go(w):
            self.build(c, d, files)
            os.write(w, b"ok")
            os._exit(0)

        data, st, _ = v.lab._fork(go)
        if data != b"ok":
            raise HarnessError("could not write the files (status %r)" % st)

    def check(self, v, tag, ret, want, counts, contiguous):
        names, cnt, err = ret
        if contiguous:
            if err:
                v.bad("false-gap", "%s: the steps are contiguous, but a gap was reported" % tag)
            elif names != want or cnt != counts:
                v.bad("wrong-order", "%s: %s %s, expected %s %s" % (tag, names, cnt, want, counts))
        elif not err:
            v.bad("missed-gap", "%s: the steps are not contiguous, but that was not reported (%s %s)"
                  % (tag, names, cnt))

    def shrinks(self, case):
        def variant(**k):
            c = copy.deepcopy(case)
            c.pop("traces", None)
            c.update(k)
            return c

        if case["pick"]:
            yield variant(pick=None)
        if case["dirs"]:
            yield variant(dirs=None)
        if case["own"]:
            yield variant(own=None)
            yield variant(own=[[o, case["per"]] for o, _ in case["own"]])
        if len(case["sizes"]) > 2:
            yield variant(sizes=case["sizes"][:2])
        if len(case["sizes"]) > 1:
            yield variant(sizes=case["sizes"][:1])
        for i, n in enumerate(case["sizes"]):
            if n > 5:
                yield variant(sizes=case["sizes"][:i] + [5] + case["sizes"][i + 1:])
        for k, x in (("fmt", "NETCDF4"), ("cal", "noleap"), ("per", "days"), ("bounds", False),
                     ("unlim", False), ("tail", "")):
            if case[k] != x:
                yield variant(**{k: x})


# --------------------------------------------------------------- C20 skip isolation
class C20(Prop):
    id = "C20"
    title = "outputs with missing inputs are skipped alone"
    quick, thorough = 480, 20000
    knobs = dict(nfiles=(2, 5), nranks=(1, 4), p_skipvar=0.4, p_strshare=0, p_nocoord=0, p_expr=0.5, p_old=0.3, p_missing=0.3)
    rule = "distinct problems with at least one output that cannot be made and one that can"

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        skip = [o for o in w["skipped"] if o in w["spec"]]
        meta = [m for m in w["skippedmeta"] if m in w["spec"]]
        exw = model.Expect(w)
        part = {o: [m for m in meta if m in exw.members(o)] for o in owners(w) if o not in skip}
        skip += [o for o in part if part[o]]
        keep = [o for o in owners(w) if o not in skip]
        w2 = copy.deepcopy(w)
        for o in skip:
            base.drop_output(w2, o)
        for m in meta:
            base.drop_meta(w2, m)
        left = set(d for o in keep for n in model.Expect(w2).members(o) for d in w2["spec"][n]["dimensions"])
        chunks = [c for c in w["options"]["chunks"] if c[0] in left]
        old = {n: sha(v.path("work", n)) for n, _ in w["old"]}
        work = v.copy_work("run")
        w3 = dict(w, options=dict(w["options"], chunks=chunks))
        job = S.job_of(w3, faults=[], watch=False)
        ex = model.Expect(w2)
        res = v.job("run", job, work)
        if not expect_ok(v, res, "with unavailable inputs for %s:" % skip):
            return
        for o in skip:
            n = w["spec"][o]["file"]["filename"]
            p = v.path(work, n)
            if os.path.exists(p) and sha(p) != old.get(n):
                v.bad("made-up", "%s needs an input that does not exist, but %s was written" % (o, n))
            if n in old and not os.path.exists(p):
                v.bad("lost", "%s cannot be made, and its previous file %s is gone" % (o, n))
            names = [o] if o in w["skipped"] else [n]
            for i, r in enumerate(res["ranks"]):
                if i and o in w["undefined"]:
                    break  # (found by the process that reads the standardization)
                if not any(x in m for k, m in r["warned"] for x in names):
                    v.bad("not-reported", "rank %d did not say that %s is skipped" % (i, o))
                    break
        if keep:
            ex2, ref = reference(v, w2)
            if ref is None:
                return
            names = {o: ex2.final_name(o) for o in keep}
            got = v.inspect(names.values(), work)
            for o in keep:
                c = got[names[o]]
                if "vars" not in c:
                    v.bad("skipped-too-much", "%s does not need the missing input but is %s"
                          % (o, c.get("error", "missing")))
                    continue
                for d in S.compare_files(ref[o], c):
                    v.bad("not-isolated", "%s: %s" % (o, d))
        v.nontrivial = bool(skip) and bool(keep)
        v.feature("skipped:%d" % len(skip), *world_features(w2))
        v.feature(*["needed:" + m for o in part for m in part[o]])
        v.feature("undefined" if w["undefined"] else "defined")
        v.summary = "skipped %s, kept %s" % (skip, keep)


# ------------------------------------------------------ C21 environment independence
class C21(Prop):
    id = "C21"
    title = "results do not depend on the environment"
    quick, thorough = 640, 20000
    knobs = dict(nfiles=(1, 4), nranks=(1, 3), p_limits=0.15, p_split=0.9, p_dup=0.5, p_datavar=0.5, p_bounds=0.5,
                 p_metavars=0.6)
    compare_lanes = True
    rule = "distinct problems run under eight hash seeds, directory orders, schedules and clocks"

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        h = int(os.environ.get("PYTHONHASHSEED", "0") or 0)
        g = gen.Gen("lane/%s/%s" % (case["seed"], h))
        res = v.job("run", S.job_of(
            w, faults=[], env_seed=w["env_seed"] + h, hashes=[w["hashes"][0] + h, w["hashes"][1]], sched=g.sched(w["nranks"]),
            clock=g.clock(w["nranks"]), infiles=["in_*.nc"]))
        files = {"status": res["status"]}
        if res["status"] != "ok":
            files["why"] = describe(res)
            v.bad("not-completed:" + failure_kind(res), describe(res))
        _, got = outputs(v, w)
        for o, c in got.items():
            files[o] = canonical(c)
        v.digests = {"files": files, "case": case, "seed": case["seed"]}
        v.nontrivial = True
        v.feature(*world_features(w))
        v.summary = "hash seed %d" % h


# ------------------------------------------------------ C22 declared dependencies
class C22(Prop):
    id = "C22"
    title = "dependencies are the inputs that are needed"
    quick, thorough = 300, 12000
    knobs = dict(nfiles=(1, 4), nranks=(1, 3), p_expr=0.8, p_datause=0.3, p_strshare=0, p_nocoord=0, p_datavar=0.5, p_user=0.2, p_bounds=0.5,
                 p_metavars=0.6, p_split=0.5, p_missing=0.2, p_limits=0.1)
    rule = "distinct problems with at least one dependency"
    real = "pyconform.cli.vardeps, pyconform.cli.xconform and all that they use, netCDF4/HDF5, the kernel's file system"

    def plan(self, case, r, tier):
        w = case["world"]
        for n, s in w["spec"].items():
            # (what a standardization says about its variables appears in the report, too)
            if r.random() < 0.3:
                s["attributes"]["frequency"] = r.choice(["mon", "day"])
            if r.random() < 0.3:
                s["attributes"]["realm"] = "atmos"
        case["deffile"] = r.random() < 0.4
        case["flags"] = ["-f"] if r.random() < 0.3 else []
        names = list(w["spec"]) + ["NOPE"]
        case["select"] = r.sample(names, r.randint(1, min(3, len(names)))) if r.random() < 0.4 else []
        case["pick"] = error_pick(r, False)
        if case["pick"]["what"] == "libc":
            case["pick"].update(cls=r.choice(["OPENR", "READ", "READ"]), err="EIO")
        else:
            case["pick"].update(site="open_r", act="EIO")
        case["drop"] = r.random()
        case["layout"] = [r.choice([" = ", "=", "  =  "]), r.choice(["", "", "   # a comment", "  #"]),
                          r.random() < 0.3]

    @staticmethod
    def report(text):
        """({variable: set or None if undefined}, set of all) of what was printed"""
        if "Complete Specification Requires" not in text:
            return None, None
        head, tail = text.split("Complete Specification Requires the Following Input Variables:")
        out, last = {}, None
        for line in head.split("Output Variable Dependencies:")[1].splitlines():
            if not line.strip():
                continue
            m = re.match(r" *([^\s:\[]+)(?: \[[^\]]*\])?:(.*)$", line)
            if m:
                last = m.group(1)
                rest = m.group(2).strip()
                if rest == "Not defined.":
                    out[last] = None
                elif rest == "No dependencies.":
                    out[last] = set()
                else:
                    out[last] = set(rest.split())
            elif last is not None and out[last] is not None:
                out[last] |= set(line.split())
        return out, set(tail.split())

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        defs = {n: s["definition"] for n, s in w["spec"].items() if isinstance(s["definition"], str)}
        src = S.STD
        argv = list(case["flags"])
        if case["deffile"]:
            src = "definitions.txt"
            eq, end, gaps = case["layout"]
            with open(v.path("work", src), "w") as f:
                f.write("# definitions\n")
                for n, d in defs.items():
                    f.write("%s%s%s%s\n%s" % (n, eq, d, end, "\n  # more\n" if gaps else ""))
            argv.append("-d")
        argv += ["-n", src] + [x for x in case["select"]]
        job = {"entry": "cli", "module": "pyconform.cli.vardeps", "argv": argv, "nranks": 1, "sched": PLAIN,
               "hashes": w["hashes"]}
        res = v.job("deps", job)
        tag = "vardeps %s" % " ".join(argv)
        if not expect_ok(v, res, tag):
            return
        got, every = self.report(res["ranks"][0]["out"])
        if got is None:
            v.bad("no-report", "%s printed %r" % (tag, res["ranks"][0]["out"][-300:]))
            return
        asked = sorted(case["select"]) or sorted(defs)
        want = {n: (model.variables(w["asts"][n]) if n in defs else None) for n in asked}
        for n in asked:
            if n not in got or got[n] != want[n]:
                v.bad("wrong-dependencies", "%s: %s depends on %s, reported %s"
                      % (tag, n, want[n] if want[n] is None else sorted(want[n]), got.get(n, "nothing")))
        total = set().union(*[x for x in want.values() if x])
        if every != total and not v.violations:
            v.bad("wrong-total", "%s: all dependencies are %s, reported %s" % (tag, sorted(total), sorted(every)))
        if v.violations:
            return
        v.feature("report:" + ("text" if case["deffile"] else "json"), "selected" if case["select"] else "complete")
        f = resolve(case["pick"], res, 1)
        if f:
            r2 = v.job("fault", dict(job, faults=[f]))
            if r2["status"] == "ok" and r2["ranks"][0]["out"] != res["ranks"][0]["out"]:
                v.bad("wrong-under-fault", "%s with %s reports %r" % (tag, f, r2["ranks"][0]["out"][-300:]))
            v.feature("fault-ending:" + r2["status"])
        v.nontrivial = bool(total)
        v.summary = "%s -> %s" % (tag, sorted(total))
        v.feature(*world_features(w))
        if case["select"]:
            return
        # what was reported is enough ...
        ex, ref = reference(v, w)
        if ref is None:
            return
        w2 = copy.deepcopy(w)
        self.keep(w2, every)
        v.setup(w2, "enough")
        r3 = v.job("enough", S.job_of(w2, faults=[], watch=False), "enough")
        if not expect_ok(v, r3, "only %s in the inputs:" % sorted(every)):
            return
        names = {o: ex.final_name(o) for o in owners(w)}
        have = v.inspect(names.values(), "enough")
        for o in owners(w):
            c = have[names[o]]
            if "vars" not in c:
                v.bad("not-enough", "with the dependencies %s alone, %s is %s"
                      % (sorted(every), o, c.get("error", "missing")))
                continue
            for d in S.compare_files(ref[o], c):
                v.bad("not-enough", "with the dependencies %s alone: %s: %s" % (sorted(every), o, d))
        # ... and each of them is needed
        cand = sorted(x for x in every if x[0] == "F")
        if not cand or v.violations:
            return
        d = cand[int(case["drop"] * len(cand))]
        w4 = copy.deepcopy(w)
        self.keep(w4, every - {d})
        keep = [o for o in owners(w) if not any(d in got.get(n, ()) for n in ex.members(o))]
        left = set(x for o in keep for n in ex.members(o) for x in w["spec"][n]["dimensions"])
        w4["options"]["chunks"] = [c for c in w4["options"]["chunks"] if c[0] in left]
        v.setup(w4, "less")
        r4 = v.job("less", S.job_of(w4, faults=[], watch=False), "less")
        if not expect_ok(v, r4, "without %s:" % d):
            return
        have = v.inspect(names.values(), "less")
        for o in owners(w):
            there = "vars" in have[names[o]]
            if there != (o in keep):
                v.bad("not-exact", "without %s, %s is %s" % (d, o, "written" if there else "not written"))
        v.feature("dropped")

    @staticmethod
    def keep(w, names):
        for f in w["inputs"].values():
            for n in list(f["vars"]):
                if n not in names:
                    del f["vars"][n]

    def shrinks(self, case):
        for k, x in (("select", []), ("flags", []), ("layout", [" = ", "", False]), ("deffile", False)):
            if case[k] != x:
                c = copy.deepcopy(case)
                c.pop("traces", None)
                c[k] = x
                yield c
        yield from world_shrinks(case)


# -------------------------------------------------- C23 requests that cannot be satisfied
def respelled(name, b):
    """Another way to name the same file"""
    d, n = os.path.split(name)
    if d and b < 0.5:
        return d + ["//", "/./"][int(b * 4)] + n
    return "./" + name


class C23(Prop):
    id = "C23"
    title = "an impossible request is refused, whole"
    quick, thorough = 320, 12000
    knobs = dict(nfiles=(1, 4), nranks=(1, 5), p_old=0.6, p_datavar=0.5, p_bounds=0.5, p_metavars=0.5, p_user=0.2,
                 p_expr=0.5, p_missing=0.1)
    rule = "distinct combinations of a problem, a kind of mistake and a schedule"
    nkinds = 6

    # kinds found in the standardization, with or without input files
    STD = ["std-missing", "std-truncated", "std-list", "no-dimensions", "no-filename", "bad-datatype", "type-of-format",
           "bad-format", "bad-deflate", "text-deflate", "meta-missing", "bounds-missing", "coordinates-missing",
           "two-owners", "data-dimension"]
    # kinds found before any output is opened
    EARLY = ["paren", "operator-last", "two-expressions", "character", "unknown-function", "no-arguments",
             "many-arguments", "out-of-range", "dimension-less", "dimension-more", "chunk-unknown", "chunk-zero",
             "chunk-negative", "chunk-nosize", "chunk-text", "chunk-sumlike", "module-missing", "module-syntax",
             "module-raises", "input-garbage", "input-dtype", "input-dims", "input-size", "unknown-option", "same-file", "input-name"]
    # kinds found when data is on its way to one output
    LATE = ["units-other", "units-unknown", "integer", "deflate-override", "no-direction", "direction-word",
            "text-order", "text-units"]

    def plan(self, case, r, tier):
        case["kinds"] = [[r.choice(self.STD if x < 0.35 else self.EARLY if x < 0.85 else self.LATE), r.random(),
                          r.random()] for x in [r.random() for _ in range(self.nkinds)]]
        case["validate"] = r.random() < 0.5
        case["world"]["abort_after"] = r.choice([0, 1, 5, 30, 200])

    @staticmethod
    def spoil(w, kind, a, b):
        """Make one mistake.  None if this world has no place for it; else what else to do."""
        own = owners(w)
        o = own[int(a * len(own)) % len(own)]
        s = w["spec"][o]
        f = s["file"]
        d = s["definition"]
        text = isinstance(d, str)
        extra = {}
        if kind in ("paren", "operator-last", "two-expressions", "character", "unknown-function", "no-arguments",
                    "many-arguments", "out-of-range", "units-other", "units-unknown", "integer") and not text:
            return None
        if kind == "std-missing":
            extra["std"] = "missing"
        elif kind == "std-truncated":
            extra["std"] = b
        elif kind == "std-list":
            extra["std"] = "list"
        elif kind == "no-dimensions":
            del s["dimensions"]
        elif kind == "no-filename":
            del f["filename"]
        elif kind == "bad-datatype":
            s["datatype"] = ["quad", "f8", "Double", 8][int(b * 4)]
        elif kind == "type-of-format":
            if f.get("format", "NETCDF4_CLASSIC") == "NETCDF4":
                return None
            ms = sorted(m for m in model.Expect(w).members(o) if w["spec"][m].get("datatype") != "char")
            w["spec"][ms[int(a * len(ms))] if b < 0.6 and ms else o]["datatype"] = ["int64", "uint64", "ushort"][int(b * 5) % 3]
        elif kind == "bad-format":
            f["format"] = ["NETCDF9", "netcdf4", ""][int(b * 3)]
        elif kind == "bad-deflate":
            f["deflate"] = [10, -1, 99][int(b * 3)]
        elif kind == "text-deflate":
            f["deflate"] = ["1", 1.5, None][int(b * 3)]
        elif kind == "meta-missing":
            f["metavars"] = f.get("metavars", []) + ["NOPE"]
        elif kind == "bounds-missing":
            s["attributes"]["bounds"] = "NOPE"
        elif kind == "coordinates-missing":
            s["attributes"]["coordinates"] = (s["attributes"].get("coordinates", "") + " NOPE").strip()
        elif kind == "two-owners":
            w["spec"]["other"] = copy.deepcopy(s)
        elif kind == "same-file":
            # another spelling of the name of another output
            x = w["spec"]["other"] = copy.deepcopy(s)
            name = os.path.normpath(model.Expect(w).final_name(o))
            x["file"]["filename"] = respelled(name, b)
        elif kind == "input-name":
            g = sorted(w["inputs"])[int(b * len(w["inputs"]))]
            f["filename"] = g if a < 0.5 else respelled(g, a)
        elif kind == "data-dimension":
            # data with one dimension more or fewer than the variable has
            cand = [n for n in sorted(w["spec"]) if isinstance(w["spec"][n].get("definition"), (list, int, float))
                    and w["spec"][n].get("datatype") != "char"]
            if not cand:
                return None
            x = w["spec"][cand[int(a * len(cand))]]
            if b < 0.5 or not x["dimensions"]:
                x["definition"] = [x["definition"]]
            elif b < 0.75:
                x["definition"] = x["definition"][0]
            else:
                x["dimensions"] = x["dimensions"][1:]
        elif kind == "paren":
            s["definition"] = "(" + d if b < 0.5 else d + ")"
        elif kind == "operator-last":
            s["definition"] = d + [" +", " *", "**", " /"][int(b * 4)]
        elif kind == "two-expressions":
            s["definition"] = d + " " + d if d.strip()[0] not in "+-" else "(%s) (%s)" % (d, d)
        elif kind == "character":
            s["definition"] = [d + " ? 1", "$" + d, d + ";", d + " @ 2"][int(b * 4)]
        elif kind == "unknown-function":
            s["definition"] = ["NOPE(%s)", "NOPE(%s, 1)", "(%s) + NOPE(2)"][int(b * 3)] % d
        elif kind == "no-arguments":
            s["definition"] = ["sqrt()", "up()", "(%s) * 0 + sqrt()" % d][int(b * 3)]
        elif kind == "many-arguments":
            s["definition"] = ["sqrt(%s, 1, 2)", "up(%s, 3)", "down(%s, 1, 1, 1)"][int(b * 3)] % d
        elif kind == "out-of-range":
            s["definition"] = "(%s)" % d
            n = sorted(x for x in model.variables(w["asts"][o]) if x in [
                y for g in w["inputs"].values() for y in g["vars"] if g["vars"][y]["dims"]])
            if not n:
                return None
            s["definition"] = "%s[%d]" % (n[int(b * len(n))], 99)
        elif kind == "dimension-less":
            if not s["dimensions"] or not text or s.get("datatype", "float") == "char":
                return None
            i = int(b * len(s["dimensions"]))
            s["dimensions"] = s["dimensions"][:i] + s["dimensions"][i + 1:]
        elif kind == "dimension-more":
            if s.get("datatype", "float") == "char":
                return None
            s["dimensions"] = s["dimensions"] + ["NOPE"]
        elif kind.startswith("chunk-"):
            have = legal(w, w["chunkable"])
            name = have[int(b * len(have))][0] if have else None
            if kind == "chunk-unknown":
                extra["argv"] = ["-c", "NOPE,2"]
            elif kind == "chunk-sumlike":
                gone = [x for x in w["sumlike"]]
                gone = [x for x in gone if x in set(y for q in own for n in model.Expect(w).members(q)
                                                    for y in w["spec"][n]["dimensions"])]
                if not gone or w["options"].get("debug"):
                    return None
                extra["argv"] = ["-c", "%s,1" % gone[int(b * len(gone))]]
            elif name is None:
                return None
            else:
                extra["argv"] = ["-c", {"chunk-zero": "%s,0", "chunk-negative": "%s,-2", "chunk-nosize": "%s",
                                        "chunk-text": "%s,all"}[kind] % name]
        elif kind == "module-missing":
            extra["argv"] = ["-m", "NOPE.py"]
        elif kind == "module-syntax":
            w.setdefault("modules", {})["m_bad.py"] = "def f(:\n"
        elif kind == "module-raises":
            w.setdefault("modules", {})["m_bad.py"] = "import NOPE_NOPE\n"
        elif kind == "input-garbage":
            extra["garbage"] = True
        elif kind in ("input-dtype", "input-dims", "input-size"):
            cand = [(g, n) for g in sorted(w["inputs"]) for n in sorted(w["inputs"][g]["vars"])
                    if w["inputs"][g]["vars"][n]["dtype"] in ("f8", "f4") and w["inputs"][g]["vars"][n]["dims"]]
            if not cand:
                return None
            g, n = cand[int(b * len(cand))]
            old = w["inputs"][g]
            x = copy.deepcopy(old["vars"][n])
            dims = {q: [old["dims"][q][0], False if kind == "input-size" else old["dims"][q][1]] for q in x["dims"]}
            if kind == "input-dtype":
                x["dtype"] = "f4" if x["dtype"] == "f8" else "f8"
            elif kind == "input-dims":
                x["dims"] = x["dims"][1:]
                x["data"] = x["data"][0] if len(x["data"]) else 0.0
            else:
                q = x["dims"][0]
                dims[q][0] += 1
                n = "EXTRA"
                x = {"dtype": "f8", "dims": [q], "attrs": {}, "data": [0.0] * dims[q][0]}
                dims = {q: dims[q]}
            if "_FillValue" in x["attrs"] and kind == "input-dtype":
                del x["attrs"]["_FillValue"]
            w["inputs"]["in_zz.nc"] = {"format": "NETCDF4", "attrs": {}, "dims": dims, "vars": {n: x}}
            w["infiles"] = w["infiles"] + ([] if any("*" in y for y in w["infiles"]) else ["in_zz.nc"])
        elif kind == "unknown-option":
            extra["argv"] = [["--nope"], ["-d", "much"], ["-c"]][int(b * 3)]
        elif kind == "units-other":
            s["attributes"]["units"] = "candela"
            extra["late"] = [o]
        elif kind == "units-unknown":
            s["attributes"]["units"] = "blurbs"
            extra["late"] = [o]
        elif kind == "integer":
            used = [x for g in w["inputs"].values() for x in g["vars"] if x in model.variables(w["asts"][o])]
            if not used or s.get("datatype", "float") not in ("float", "double") or not all(
                    g["vars"][x]["dtype"] in ("f4", "f8") for g in w["inputs"].values() for x in g["vars"] if x in used):
                return None
            s["datatype"] = "int"
            for q in ("_FillValue", "missing_value", "valid_min", "valid_max"):
                s["attributes"].pop(q, None)
            extra["late"] = [o]
        elif kind in ("text-order", "text-units"):
            ex = model.Expect(w)
            cand = [n for n in sorted(w["spec"]) if w["spec"][n].get("datatype") == "char"
                    and isinstance(w["spec"][n]["definition"], str) and any(n in ex.members(q) for q in own)]
            if not cand:
                return None
            n = cand[int(a * len(cand))]
            x = w["spec"][n]
            if kind == "text-order":
                # another variable settles which dimension is which
                g = [g for g in w["inputs"].values() if "basin" in g["vars"]][0]
                if not text or n != "region_name":
                    return None
                q = g["vars"]["basin"]["dims"][0]
                w["inputs"]["in_zz.nc"] = {"format": "NETCDF4", "attrs": {}, "dims": {q: g["dims"][q]}, "vars": {
                    "regno": {"dtype": "f8", "dims": [q], "attrs": {}, "data": [0.0] * g["dims"][q][0]}}}
                w["infiles"] = w["infiles"] + ([] if any("*" in y for y in w["infiles"]) else ["in_zz.nc"])
                w["spec"]["regno"] = {"datatype": "double", "dimensions": [x["dimensions"][0]], "definition": "regno",
                                      "attributes": {}}
                for q in own:
                    if n in ex.members(q):
                        w["spec"][q]["file"].setdefault("metavars", []).append("regno")
                x["dimensions"] = x["dimensions"][::-1]
            else:
                x["attributes"]["units"] = ["K", "m s-1", "1"][int(b * 3)]
            extra["late"] = [q for q in own if n in ex.members(q)]
        elif kind in ("no-direction", "direction-word"):
            ex = model.Expect(w)
            cand = []
            for n in sorted(w["spec"]):
                x = w["spec"][n]
                if x["attributes"].get("axis") in ("X", "Y", "Z") and len(x["dimensions"]) == 1 and "file" not in x \
                        and isinstance(x["definition"], str) and w["asts"][n][0] == "var" and len(w["asts"][n]) == 2 \
                        and any(n in ex.members(q) for q in own):
                    cand.append(n)
            if not cand:
                return None
            n = cand[int(a * len(cand))]
            x = w["spec"][n]
            extra["late"] = [q for q in own if n in ex.members(q)]
            if kind == "direction-word":
                x["attributes"]["direction"] = ["up", "Increasing", "north"][int(b * 3)]
            else:
                data = [z for g in w["inputs"].values() if w["asts"][n][1] in g["vars"]
                        for z in [g["vars"][w["asts"][n][1]]["data"]]][0]
                if None in data or len(set(data)) < 2:
                    return None
                x["attributes"].setdefault("direction", ["increasing", "decreasing"][int(b * 1000) % 2])
                x["definition"] = "limit(%s, %s)" % (x["definition"], (
                    "above=%r" % sorted(data)[-2] if b < 0.5 else "below=%r" % sorted(data)[1]))
        elif kind == "deflate-override":
            extra["argv"] = ["-d", ["10", "-1"][int(b * 2)]]
            extra["late"] = own
        else:
            raise ValueError(kind)
        return extra

    def judge(self, case, v):
        w = case["world"]
        v.setup(w)
        ref = None
        for i, (kind, a, b) in enumerate(case["kinds"]):
            w2 = copy.deepcopy(w)
            extra = self.spoil(w2, kind, a, b)
            if extra is None:
                continue
            work = "w%d" % i
            v.setup(w2, work)
            std = v.path(work, S.STD)
            if extra.get("std") == "missing":
                os.unlink(std)
            elif extra.get("std") == "list":
                with open(std, "w") as f:
                    f.write("[1, 2]")
            elif "std" in extra:
                t = open(std).read()
                with open(std, "w") as f:
                    f.write(t[: int(extra["std"] * len(t))])
            job = S.job_of(w2, watch=False)
            job["watch"] = S.final_names(w)
            infiles = list(w2["infiles"])
            if extra.get("garbage"):
                g = sorted(w2["inputs"])[int(a * len(w2["inputs"]))]
                with open(v.path(work, g), "wb") as f:
                    f.write(b"no header here" * 20)
            at = len(job["argv"]) - len(infiles)
            job["argv"][at:at] = extra.get("argv", [])
            tag = "%s (%s)" % (kind, " ".join(extra.get("argv", [])) or "%.3f %.3f" % (a, b))
            before = tree(v.path(work))
            res = v.job("bad%d" % i, job, work)
            v.feature("kind:" + kind, "ranks:%d" % w["nranks"], "%s/%s" % (kind, res["status"]))
            v.nontrivial = True
            if not self.refused(v, res, tag):
                continue
            if "late" not in extra:
                self.unchanged(v, before, work, tag)
                if kind in self.STD and case["validate"]:
                    job = dict(job, argv=job["argv"][:at])
                    res = v.job("val%d" % i, job, work)
                    self.refused(v, res, tag + ", without input files")
                    self.unchanged(v, before, work, tag + ", without input files")
                continue
            if ref is None:
                _, ref = reference(v, w)
                if ref is None:
                    return
            st = States(v, w, ref)
            st.judge(res, work, tag)
            names = {o: n for n, o in st.names.items()}
            for o in extra["late"]:
                p = v.path(work, names[o])
                old = st.old.get(names[o])
                if (sha(p) if os.path.exists(p) else None) != old:
                    v.bad("published", "%s: the output of %s was published" % (tag, o))
        if case["validate"]:
            before = tree(v.path("work"))
            res = v.job("validate", S.job_of(w, infiles=[]))
            if expect_ok(v, res, "without input files"):
                self.unchanged(v, before, "work", "without input files")
                v.feature("validated")
        v.summary = ", ".join(k for k, _, _ in case["kinds"])
        v.feature(*world_features(w))

    @staticmethod
    def refused(v, res, tag):
        if res["status"] in ("failed", "aborted"):
            return True
        v.bad("not-refused" if res["status"] == "ok" else "not-refused:" + failure_kind(res),
              "%s: %s" % (tag, describe(res)))
        return False

    @staticmethod
    def unchanged(v, before, work, tag):
        after = tree(v.path(work))
        d = sorted(set(before) ^ set(after)) + sorted(n for n in before if n in after and before[n] != after[n])
        if d:
            v.bad("touched", "%s: refused, but these changed: %s" % (tag, d[:5]))

    def shrinks(self, case):
        if len(case["kinds"]) > 1:
            for k in case["kinds"]:
                c = copy.deepcopy(case)
                c.pop("traces", None)
                c["kinds"] = [k]
                c["validate"] = False
                yield c
        if case["validate"]:
            c = copy.deepcopy(case)
            c.pop("traces", None)
            c["validate"] = False
            yield c
        yield from world_shrinks(case)


# ------------------------------------------------------- C24 several jobs at once
class C24(Prop):
    id = "C24"
    title = "jobs that run at the same time do not disturb each other"
    quick, thorough = 200, 9000
    knobs = dict(nfiles=(2, 5), nranks=(1, 3), p_old=0.4, p_datavar=0.4, p_strshare=0, p_nocoord=0, p_user=0.2, p_bounds=0.4, p_metavars=0.5)
    rule = "distinct pairs of problems, schedules, starting times and endings of one of the jobs"

    def plan(self, case, r, tier):
        w = case["world"]
        own = sorted(owners(w))
        r.shuffle(own)
        n = 3 if len(own) > 2 and r.random() < 0.3 else min(2, len(own))
        cut = sorted(r.sample(range(1, len(own)), n - 1)) if n > 1 else []
        parts = [own[a:b] for a, b in zip([0] + cut, cut + [len(own)])]
        case["parts"] = [[p, r.randint(1, 3)] for p in parts]
        case["rounds"] = [{"delay": [r.random() * 1.2 if i else 0 for i in range(n)], "seed": r.randrange(2 ** 30),
                           "end": r.choice(["none", "kill", "kill", "error", "error"]),
                           "frac": r.random() ** r.choice([1, 0.3]),
                           "group": r.randrange(n), "late": r.choice([0, 0, 0.5]),
                           "site": r.choice(["mkdir", "rename", "dsopen_w", "dsopen_r", "dsclose_w"])}
                          for _ in range(3)]
        w["abort_after"] = r.choice([0, 1, 5, 30])
        if r.random() < 0.25 and not w["old"] and not w["bystanders"]:
            # all in one directory that nobody has made yet, where one of the jobs soon fails and others act late
            for o in own:
                f = w["spec"][o]["file"]
                f["filename"] = "out/j/" + os.path.basename(f["filename"])
            for rd in case["rounds"]:
                rd.update(end="error", frac=r.random() * 0.3, late=0.9, delay=[d * 0.1 for d in rd["delay"]],
                          site=r.choice(["rename", "dsclose_w", "dsclose_w", "dsopen_w"]))

    @staticmethod
    def part(w, keep):
        x = copy.deepcopy(w)
        for o in owners(w):
            if o not in keep:
                base.drop_output(x, o)
        x["options"]["chunks"] = legal(x, x["options"]["chunks"])
        return x

    def judge(self, case, v):
        w = case["world"]
        parts = [[[o for o in p if o in owners(w)], n] for p, n in case["parts"]]
        parts = [p for p in parts if p[0]]
        if len(parts) < 2:
            return
        ref, worlds = {}, []
        for i, (keep, n) in enumerate(parts):
            x = self.part(w, keep)
            worlds.append(x)
            work = "g%d" % i
            v.setup(x, work)
            res = v.job(work, S.job_of(x, nranks=1, chunks=[], serial=True, faults=[], sched=PLAIN, hashes=[0, False]),
                        work)
            if not expect_ok(v, res, "alone"):
                return
            ex, got = outputs(v, x, work)
            if not present(v, got, "alone"):
                return
            ref.update(got)
        v.setup(w)
        import json

        for i, x in enumerate(worlds):
            with open(v.path("work", "std%d.json" % i), "w") as f:
                json.dump(x["spec"], f)
        first, groups = 0, []
        for i, (x, (keep, n)) in enumerate(zip(worlds, parts)):
            argv = ["std%d.json" % i if a == S.STD else a for a in S.argv_of(x)]
            groups.append({"ranks": list(range(first, first + n)), "argv": argv})
            first += n
        total = first
        g = gen.Gen("jobs/%s" % case["seed"])
        job = S.job_of(w, nranks=total, faults=[], sched=g.sched(total), clock=g.clock(total))
        job["groups"] = groups
        st = States(v, w, ref)
        work = v.copy_work("together")
        prof = v.job("together", job, work)
        if not self.ended(v, prof, groups, {}, work, ref, worlds, "together"):
            return
        st.judge(prof, work, "together")
        for k, rd in enumerate(case["rounds"]):
            gs = [dict(q, delay=int(d * prof["steps"])) for q, d in zip(groups, rd["delay"])]
            faults, may = [], {}
            which = rd["group"] % len(groups)
            if rd["end"] == "kill":
                faults = [{"at": "kill", "group": which, "n": int(rd["frac"] * prof["steps"])}]
                may = {which: ("ok", "killed")}
            elif rd["end"] == "error":
                m = prof["sites"].get(rd["site"], 0)
                if m:
                    faults = [{"at": "py", "site": rd["site"], "n": int(rd["frac"] * m), "act": "EIO"}]
                    may = {None: 1}
            gg = gen.Gen("jobs/%s" % rd["seed"])
            j = dict(job, groups=gs, faults=faults, sched=dict(gg.sched(total), late=rd.get("late", 0)))
            work = v.copy_work("round%d" % k)
            res = v.job("round%d" % k, j, work)
            tag = "%d jobs, starting at %s, %s" % (len(gs), [q["delay"] for q in gs], faults)
            v.feature("end:" + rd["end"] if faults else "end:none")
            self.ended(v, res, gs, may, work, ref, worlds, tag)
            st.judge(res, work, tag)
        v.nontrivial = True
        v.feature("jobs:%d" % len(groups), "ranks:%d" % total, *world_features(w))
        v.summary = "%s, %s" % ([[len(p), n] for p, n in parts], case["rounds"])

    @staticmethod
    def ended(v, res, groups, may, work, ref, worlds, tag):
        """Every job but the one that was disturbed ends well, with its outputs."""
        if res["status"] not in ("ok", "failed"):
            v.bad("not-completed:" + failure_kind(res), "%s: %s" % (tag, describe(res)))
            return False
        ends = []
        for g in groups:
            rs = [res["ranks"][n] for n in g["ranks"]]
            ends.append("failed" if any(r["exc"] for r in rs) else "killed" if any(r["killed"] for r in rs) else "ok")
        lost = [i for i, e in enumerate(ends) if e != "ok"]
        if None in may:
            wrong = lost[1:] if len(lost) > 1 else []
        else:
            wrong = [i for i in lost if ends[i] not in may.get(i, ())]
        for i in wrong:
            v.bad("disturbed:" + ends[i], "%s: job %d: %s" % (tag, i, describe(res)))
        v.feature("ends:" + "/".join(sorted(ends)))
        for i, x in enumerate(worlds):
            if ends[i] != "ok":
                continue
            _, got = outputs(v, x, work)
            if present(v, got, "%s: job %d" % (tag, i)):
                against(v, "differs", ref, got, "%s: job %d" % (tag, i))
        return not wrong

    def shrinks(self, case):
        for i in range(len(case["rounds"])):
            c = copy.deepcopy(case)
            c.pop("traces", None)
            del c["rounds"][i]
            yield c
        for i in range(len(case["parts"])):
            if len(case["parts"]) > 2:
                c = copy.deepcopy(case)
                c.pop("traces", None)
                del c["parts"][i]
                yield c
            if case["parts"][i][1] > 1:
                c = copy.deepcopy(case)
                c.pop("traces", None)
                c["parts"][i][1] = 1
                yield c
        for c in world_shrinks(case):
            yield c


def canonical(c):
    """A printable form of a file in which all that matters (but not the date) takes part."""
    if "vars" not in c:
        return str(c)
    import hashlib

    out = {"format": c["format"], "dims": sorted(c["dims"].items()),
           "attrs": sorted((k, str(x)) for k, x in c["attrs"].items() if k != "creation_date"), "vars": {}}
    for n, x in sorted(c["vars"].items()):
        d = np.ascontiguousarray(x["data"])
        out["vars"][n] = [x["dtype"], list(x["dims"]), sorted((k, str(y)) for k, y in x["attrs"].items()),
                          x["zlib"], x["complevel"], list(d.shape),
                          hashlib.sha256(d.tobytes()).hexdigest()[:16]]
    return repr(out)


ALL = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15,
                         C16, C17, C18, C19, C20, C21, C22, C23, C24)}


def get(pid):
    return ALL[pid]()

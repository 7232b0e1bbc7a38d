"""
One laboratory = one warm process that runs simulated jobs in forked children,
in a private scratch directory, and reads back what they left on disk.
"""
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import tempfile
import time
import traceback

from . import world
from .shim import Shim


class HarnessError(Exception):
    """The machinery (not the code under test) failed."""


def scratch_base():
    for base in ("/dev/shm", "/tmp"):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            try:
                st = os.statvfs(base)
                if st.f_bavail * st.f_frsize > 1 << 30:
                    return base
            except OSError:
                pass
    return tempfile.gettempdir()


class Lab:
    def __init__(self, scratch=None):
        self.base = tempfile.mkdtemp(prefix="dst-", dir=scratch or scratch_base())
        self.shim = Shim()
        self.n = 0
        self.stats = {"jobs": 0, "sim_time": 0.0, "steps": 0, "libc_ops": 0, "fired": {},
                      "statuses": {}, "interleavings": set(), "policies": {}}
        self.timeout = 60.0
        world.prewarm()

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    # ------------------------------------------------------------ directories
    def new_case(self):
        self.n += 1
        d = os.path.join(self.base, "case%d" % self.n)
        os.makedirs(os.path.join(d, "work"))
        return d

    def drop_case(self, d):
        assert d.startswith(self.base)
        shutil.rmtree(d, ignore_errors=True)

    def fork_work(self, d, name):
        """A second working directory that is a copy of the first (same relative paths)."""
        dst = os.path.join(d, name)
        shutil.copytree(os.path.join(d, "work"), dst)
        return dst

    # ------------------------------------------------------------------- jobs
    def _fork(self, fn):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                fn(w)
            finally:
                os._exit(4)
        os.close(w)
        buf = []
        deadline = time.monotonic() + self.timeout
        timed_out = False
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                timed_out = True
                os.kill(pid, signal.SIGKILL)
                break
            rd, _, _ = select.select([r], [], [], left)
            if rd:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                buf.append(b)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        return b"".join(buf), st, timed_out

    def job(self, job, case, work="work"):
        """Run one simulated job; returns its result dictionary."""
        cwd = os.path.join(case, work)
        data, st, timed_out = self._fork(
            lambda w: world.run_job(job, case, cwd, w, self.shim))
        if timed_out:
            res = {"status": "hang"}
        elif not data:
            # killed by a signal inside native code: the job died without a result
            res = {"status": "died", "signal": st & 0x7F}
        else:
            try:
                res = json.loads(data)
            except ValueError:
                raise HarnessError("unreadable job result: %r (wait status %r)" % (data[-300:], st))
        if res["status"] == "harness-error":
            raise HarnessError(res["tb"])
        res.setdefault("ranks", [])
        res.setdefault("snaps", [])
        self.account(job, res)
        return res

    def account(self, job, res):
        s = self.stats
        s["jobs"] += 1
        s["sim_time"] += res.get("elapsed", 0.0)
        s["steps"] += res.get("steps", 0)
        s["statuses"][res["status"]] = s["statuses"].get(res["status"], 0) + 1
        for k, v in res.get("libc", {}).items():
            s["libc_ops"] += v
        for f in res.get("fired", []):
            s["fired"][f] = s["fired"].get(f, 0) + 1
        for k, v in res.get("libc_fired", {}).items():
            if v:
                s["fired"]["libc:" + k] = s["fired"].get("libc:" + k, 0) + v
        pol = job.get("sched", {}).get("policy", "uniform")
        if job.get("nranks", 1) > 1:
            s["policies"][pol] = s["policies"].get(pol, 0) + 1
            s["interleavings"].add(res.get("events_sha", "")[:16])

    # -------------------------------------------------------------- inspection
    def inspect(self, case, work, paths):
        """Read the given files (relative to the work dir) in a throw-away process."""
        cwd = os.path.join(case, work)

        def go(w):
            os.chdir(cwd)
            out = {p: read_nc(p) for p in paths}
            data = pickle.dumps(out)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
            os._exit(0)

        if not paths:
            return {}
        data, st, timed_out = self._fork(go)
        try:
            return pickle.loads(data)
        except Exception:
            if len(paths) == 1:
                return {paths[0]: {"error": "reader died (status %r)" % st}}
            out = {}
            for p in paths:
                out.update(self.inspect(case, work, [p]))
            return out


def read_nc(path):
    import netCDF4
    import numpy

    try:
        if not os.path.exists(path):
            return {"missing": True}
        ds = netCDF4.Dataset(path, "r")
        try:
            ds.set_auto_maskandscale(False)
            ds.set_auto_mask(False)
            out = {"format": ds.data_model,
                   "attrs": {a: ds.getncattr(a) for a in ds.ncattrs()},
                   "dims": {k: (len(v), v.isunlimited()) for k, v in ds.dimensions.items()},
                   "vars": {}}
            for k, v in ds.variables.items():
                v.set_auto_chartostring(False)
                flt = v.filters() or {}
                out["vars"][k] = {
                    "dtype": str(v.dtype), "dims": tuple(v.dimensions),
                    "attrs": {a: v.getncattr(a) for a in v.ncattrs()},
                    "data": numpy.array(v[...]),
                    "zlib": bool(flt.get("zlib")), "complevel": int(flt.get("complevel", 0)),
                }
        finally:
            ds.close()
        return out
    except Exception as e:
        return {"error": "%s: %s" % (type(e).__name__, e)}


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        for b in iter(lambda: f.read(1 << 16), b""):
            h.update(b)
    return h.hexdigest()


def tree(root):
    """Every file below root with its content hash and mode (directories end in '/')."""
    out = {}
    for d, dn, fn in os.walk(root):
        rel = os.path.relpath(d, root)
        if rel != ".":
            out[rel + "/"] = "dir %o" % os.stat(d).st_mode
        for f in fn:
            p = os.path.join(d, f)
            out[os.path.normpath(os.path.join(rel, f))] = "%s %o" % (sha(p), os.lstat(p).st_mode)
    return out

"""
The simulated machine: everything that is nondeterministic for a PyConform job,
behind seams owned by one seeded decision stream.

One call of ``run_job`` executes one complete job (all of its MPI ranks, run as
baton-passing threads of this process; exactly one runs at any time) and never
returns: the process writes a JSON result to ``result_fd`` and exits.  It is
always called in a freshly forked child.

Real code: all of pyconform (loaded from the repository under test), asaptools
SimpleComm/partition, ply, numpy, cf_units, netCDF4/HDF5 and the file system.
Simulated: MPI transport, thread/process scheduling, clocks, directory listing
order, uuid/randomness, hash and set iteration order of each process, storage faults, crashes, process isolation of ranks.
"""
import builtins
import datetime as _dt
import errno
import glob as _glob
import hashlib
import importlib.abc
import importlib.util
import io
import json
import os
import pickle
import random
import sys
import threading
import time as _time
import traceback
import types
import uuid as _uuid
import warnings

from . import hashes

REPO = os.environ.get("DST_REPO", "/repo")
PRIVATE = ("pyconform", "ply", "user")  # module-name prefixes that are per rank


# ---------------------------------------------------------------- real calls
class _Real:
    stat = staticmethod(os.stat)
    truncate = staticmethod(os.truncate)
    mkdir = staticmethod(os.mkdir)
    rename = staticmethod(os.rename)
    replace = staticmethod(os.replace)
    unlink = staticmethod(os.unlink)
    remove = staticmethod(os.remove)
    rmdir = staticmethod(os.rmdir)
    link = staticmethod(os.link)
    symlink = staticmethod(os.symlink)
    listdir = staticmethod(os.listdir)
    scandir = staticmethod(os.scandir)
    exists = staticmethod(os.path.exists)
    isfile = staticmethod(os.path.isfile)
    isdir = staticmethod(os.path.isdir)
    open = staticmethod(builtins.open)
    glob = staticmethod(_glob.glob)
    iglob = staticmethod(_glob.iglob)
    time = staticmethod(_time.time)
    gmtime = staticmethod(_time.gmtime)
    localtime = staticmethod(_time.localtime)
    strftime = staticmethod(_time.strftime)
    sleep = staticmethod(_time.sleep)
    datetime = _dt.datetime
    date = _dt.date


# ------------------------------------------------- per-rank module isolation
_CODE = {}


def _code_for(path):
    st = _Real.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _CODE:
        with _Real.open(path, "rb") as f:
            tree = hashes.parse(f.read(), path)
        _CODE[key] = compile(tree, path, "exec", dont_inherit=True)
    return _CODE[key]


class _RepoFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Loads pyconform from the repository (and a private ply) without bytecode files."""

    def __init__(self, sim):
        import ply

        self._ply = os.path.dirname(ply.__file__)
        self._sim = sim

    def _bindings(self):
        r = self._sim.me()
        if r is None:
            return hashes.bindings(None)
        if r.bindings is None:
            seed = self._sim.job.get("hashes")
            r.bindings = hashes.bindings(
                None if seed is None else "%s/%s" % (seed[0], r.n if seed[1] else "all"))
        return r.bindings

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top == "pyconform":
            base = os.path.join(REPO, *name.split("."))
        elif top == "ply":
            base = os.path.join(self._ply, *name.split(".")[1:])
        else:
            return None
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return importlib.util.spec_from_file_location(
                name, os.path.join(base, "__init__.py"), loader=self,
                submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if module.__name__.split(".")[0] == "pyconform":
            module.__dict__.update(self._bindings())
        else:
            module.__dict__.update(hashes.bindings(None))
        exec(_code_for(module.__spec__.origin), module.__dict__)
        if module.__name__ == "ply.yacc":
            real = module.yacc

            def yacc(*a, **k):
                k.setdefault("write_tables", False)
                k["debug"] = False
                if k.get("module") is None:
                    k["module"] = sys.modules[sys._getframe(1).f_globals["__name__"]]
                return real(*a, **k)

            module.yacc = yacc


def private_name(name):
    top = name.split(".")[0]
    return top in ("pyconform", "ply") or (top.startswith("user") and top[4:].isdigit())


def prewarm():
    """Import every shared library and pre-compile the code under test."""
    import argparse  # noqa: F401
    import numpy  # noqa: F401
    import netCDF4  # noqa: F401
    import cf_units  # noqa: F401
    import cftime  # noqa: F401
    import dateutil.parser  # noqa: F401
    import asaptools.simplecomm  # noqa: F401
    import asaptools.partition  # noqa: F401
    import ply.lex  # noqa: F401
    import ply.yacc  # noqa: F401

    sys.dont_write_bytecode = True
    cf_units.Unit("m").convert(1.0, "km")
    cf_units.num2date(1.0, "days since 2000-01-01", "noleap")
    for n in ("dataflow", "datasets", "flownodes", "functions", "indexing", "parsing",
              "parsetab", "physarray", "mapdates", "climIO", "__init__",
              "cli/__init__", "cli/xconform", "cli/vardeps", "cli/iconform",
              "miptableparser"):
        p = os.path.join(REPO, "pyconform", n + ".py")
        if os.path.isfile(p):
            try:
                _code_for(p)
            except SyntaxError:
                pass
    import ply

    for n in ("__init__", "lex", "yacc"):
        _code_for(os.path.join(os.path.dirname(ply.__file__), n + ".py"))


# ------------------------------------------------------------------ decisions
class Decider:
    """All schedule decisions come from here: a seeded policy or a recorded trace."""

    def __init__(self, sched):
        self.policy = sched.get("policy", "uniform")
        self.rng = random.Random("sched/%s" % sched.get("seed", 0))
        self.replay = sched.get("trace")
        self.pos = 0
        self.taken = []
        self.prio = {}
        self.change = set(self.rng.randrange(400) for _ in range(sched.get("depth", 3)))
        self.starved = sched.get("starved")
        self.late = sched.get("late", 0)  # how often something happens before a rank acts on what it has found
        self.until = {}

    def before(self, step, current, kind):
        """The current rank is about to act: it may be held up first, for a while or until nothing else can happen."""
        if self.late and self.replay is None and kind in ("mkdir", "rename", "dsopen_w") and self.rng.random() < self.late:
            self.until[current] = step + self.rng.choice([5, 30, 200, 10 ** 9])

    def rank(self, step, current, runnable):
        """Pick the rank to run next."""
        if self.until:
            awake = [r for r in runnable if self.until.get(r, 0) <= step]
            if not awake:
                self.until.clear()
            elif self.replay is None:
                runnable = awake
        if self.replay is not None:
            c = self.replay[self.pos] if self.pos < len(self.replay) else -1
            self.pos += 1
            if c not in runnable:
                c = current if current in runnable else runnable[0]
        elif len(runnable) == 1:
            c = runnable[0]
        elif self.policy == "uniform":
            c = self.rng.choice(runnable)
        elif self.policy == "sticky":
            if current in runnable and self.rng.random() < 0.85:
                c = current
            else:
                c = self.rng.choice(runnable)
        elif self.policy == "pct":
            for r in runnable:
                self.prio.setdefault(r, self.rng.random())
            if step in self.change and current in self.prio:
                self.prio[current] = -self.rng.random()
            c = max(runnable, key=lambda r: self.prio[r])
        elif self.policy == "starve":
            others = [r for r in runnable if r != self.starved]
            c = self.rng.choice(others or runnable)
        elif self.policy == "rr":
            later = [r for r in runnable if current is not None and r > current]
            c = later[0] if later else runnable[0]
        else:
            raise ValueError(self.policy)
        self.taken.append(c)
        return c


# ------------------------------------------------------------------ the world
class Rank:
    def __init__(self, n):
        self.n = n
        self.sem = threading.Semaphore(0)
        self.state = "ready"
        self.pred = None
        self.why = ""
        self.out = io.StringIO()
        self.err = io.StringIO()
        self.exc = None
        self.ret = None
        self.mods = {}
        self.filters = None
        self.yields = 0
        self.warned = []
        self.bindings = None
        self.killed = None


class _Dispatch(io.TextIOBase):
    def __init__(self, sim, which, fallback):
        self.sim, self.which, self.fallback = sim, which, fallback

    def _t(self):
        r = self.sim.me()
        return getattr(r, self.which) if r is not None else self.fallback

    def write(self, s):
        return self._t().write(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class Sim:
    def __init__(self, job, scratch, result_fd, shim):
        self.job = job
        self.scratch = scratch
        self.fd = result_fd
        self.shim = shim
        self.nranks = job.get("nranks", 1)
        self.ranks = [Rank(i) for i in range(self.nranks)]
        self.decider = Decider(job.get("sched", {}))
        self.current = None
        self.steps = 0
        self.max_steps = job.get("max_steps", 20000)
        self.events = []
        self.msgrng = random.Random("msg/%s" % job.get("sched", {}).get("seed", 0))
        self.envrng = random.Random("env/%s" % job.get("env_seed", 0))
        ck = job.get("clock", {})
        self.base = float(ck.get("base", 1.5e9))
        self.rate = float(ck.get("rate", 0.05))
        self.skew = ck.get("skew", [0] * self.nranks)
        self.jumps = ck.get("jumps", [])
        self.tz = int(ck.get("tz", 0))
        self.ckrng = random.Random("clock/%s" % ck.get("seed", 0))
        self.elapsed = 0.0
        self.clock_reads = []
        self.faults = [dict(f) for f in job.get("faults", [])]
        self.site_count = {}
        self.fired = []
        self.abort_in = None
        # several jobs at once: the ranks of each are a group, with its own COMM_WORLD and its own end
        self.groups = [list(g["ranks"]) for g in job.get("groups", [])] or [list(range(self.nranks))]
        self.group_of = {n: i for i, g in enumerate(self.groups) for n in g}
        self.delay = [g.get("delay", 0) for g in job.get("groups", [])] or [0]
        self.aborts = {}
        self.lost = set()
        self.tls = threading.local()
        self.main_sem = threading.Semaphore(0)
        self.status = None
        self.comms = {}
        self.msgs = []
        self.nmsg = 0
        self.colls = {}
        self.watch = {p: None for p in job.get("watch", [])}
        self.snaps = []
        self.mutations = []
        self.opens = []
        self.reads_closed = 0

    # -- identity
    def me(self):
        return getattr(self.tls, "rank", None)

    # -- clock
    def now(self):
        r = self.me()
        t = self.base + self.elapsed
        n = r.n if r is not None else 0
        if n < len(self.skew):
            t += self.skew[n]
        for at, by in self.jumps:
            if self.steps >= at:
                t += by
        return t

    def read_clock(self):
        t = self.now()
        if self.me() is not None:
            self.clock_reads.append([self.me().n, self.steps, t])
        self.seam("clock", "", can_fault=False)
        return t

    # -- scheduling
    def runnable(self):
        out = []
        for r in self.ranks:
            if r.state == "ready" or (r.state == "blocked" and r.pred()):
                out.append(r.n)
        if len(self.groups) > 1:  # (a job that starts later, unless nothing else is there to run)
            out = [n for n in out if self.delay[self.group_of[n]] <= self.steps] or out
        return out

    # -- several jobs: the launcher ends one of them, or somebody kills it
    def kill_group(self, g, why):
        self.aborts.pop(g, None)
        for n in self.groups[g]:
            if self.ranks[n].state != "done":
                self.ranks[n].state, self.ranks[n].killed = "done", why

    def leave(self, r):
        """The current rank was killed: its thread never runs again."""
        self.hand_over()
        r.sem.acquire()
        r.sem.acquire()

    def hand_over(self):
        """The current rank is done: let another one run, or end."""
        if not [x for x in self.ranks if x.state != "done"]:
            self.main_sem.release()
            return
        ready = self.runnable()
        if not ready and self.aborts:
            for g in list(self.aborts):
                self.kill_group(g, "aborted")
            self.hand_over()
            return
        if not ready:
            self.deadlock()
        t = self.ranks[self.decider.rank(self.steps, None, ready)]
        self.ctx_out(self.ranks[self.current])
        self.ctx_in(t)
        t.sem.release()

    def ctx_out(self, r):
        r.mods = {k: v for k, v in sys.modules.items() if private_name(k)}
        for k in r.mods:
            del sys.modules[k]
        r.filters = warnings.filters[:]

    def ctx_in(self, r):
        for k in [k for k in sys.modules if private_name(k)]:
            del sys.modules[k]
        sys.modules.update(r.mods)
        if r.filters is not None:
            warnings.filters[:] = r.filters
            warnings._filters_mutated()
        self.current = r.n

    def switch(self, frm, to):
        if frm is not None and frm.n == to:
            return
        t = self.ranks[to]
        if frm is not None:
            self.ctx_out(frm)
        self.ctx_in(t)
        t.sem.release()
        if frm is not None and frm.state != "done":
            frm.sem.acquire()

    def seam(self, kind, detail="", can_fault=True):
        """A scheduling point."""
        r = self.me()
        if r is None or self.status is not None:
            return
        self.steps += 1
        r.yields += 1
        self.elapsed += self.ckrng.expovariate(1.0 / self.rate) if self.rate > 0 else 0
        self.events.append((self.steps, r.n, kind, detail))
        self.observe()
        if self.steps > self.max_steps:
            self.finish("livelock")
        if self.abort_in is not None:
            self.abort_in -= 1
            if self.abort_in < 0:
                self.finish("aborted")
        for g in list(self.aborts):
            self.aborts[g] -= 1
            if self.aborts[g] < 0:
                self.kill_group(g, "aborted")
        for f in self.faults:
            if f["at"] == "kill" and not f.get("_f") and self.steps > f["n"]:
                f["_f"] = True
                self.fired.append("kill:group")
                self.kill_group(f["group"], "killed")
        if r.state == "done":
            self.leave(r)
        for f in self.faults:
            if f["at"] == "rank" and f["rank"] == r.n and not f.get("_f") and r.yields > f["n"]:
                f["_f"] = True
                self.fired.append("rank:crash")
                self.finish("crashed")
        ready = self.runnable()
        self.decider.before(self.steps, r.n, kind)
        nxt = self.decider.rank(self.steps, r.n, ready)
        self.switch(r, nxt)

    def block(self, pred, why):
        r = self.me()
        while not pred():
            r.state, r.pred, r.why = "blocked", pred, why
            ready = self.runnable()
            if not ready and self.aborts:
                for g in list(self.aborts):
                    self.kill_group(g, "aborted")
                if r.state == "done":
                    self.leave(r)
                continue
            if not ready:
                self.deadlock()
            nxt = self.decider.rank(self.steps, r.n, ready)
            self.switch(r, nxt)
            r.state, r.pred = "ready", None
        r.state, r.pred, r.why = "ready", None, ""

    def deadlock(self):
        if self.abort_in is not None:
            self.finish("aborted")
        self.finish("deadlock")

    # -- observation of published names
    def observe_initial(self):
        for p in self.watch:
            try:
                st = _Real.stat(p)
                self.watch[p] = (st.st_ino, st.st_size, st.st_mtime_ns)
            except OSError:
                self.watch[p] = None

    def observe(self):
        for p in self.watch:
            try:
                st = _Real.stat(p)
                key = (st.st_ino, st.st_size, st.st_mtime_ns)
            except OSError:
                key = None
            if key != self.watch[p]:
                self.watch[p] = key
                snap = {"path": p, "step": self.steps, "file": None,
                        "present": key is not None}
                if key is not None:
                    name = os.path.join(self.scratch, "snap_%d_%d" % (self.steps, len(self.snaps)))
                    armed = self.shim is not None and self.shim.lib is not None
                    if armed:
                        self.shim.arm(False)
                    with _Real.open(p, "rb") as f:
                        data = f.read()
                    with _Real.open(name, "wb") as f:
                        f.write(data)
                    if armed:
                        self.shim.arm(True)
                    snap["file"] = name
                    snap["sha"] = hashlib.sha256(data).hexdigest()
                self.snaps.append(snap)

    # -- python level faults
    def fault(self, site):
        """Return the action planned for this occurrence of a python-level site."""
        n = self.site_count.get(site, 0)
        self.site_count[site] = n + 1
        for f in self.faults:
            if f["at"] == "py" and f["site"] == site and not f.get("_f") and f["n"] == n:
                f["_f"] = True
                self.fired.append("py:%s:%s" % (site, f["act"]))
                return f["act"]
        return None

    def guarded(self, site, path, fn):
        """Perform one python-level I/O operation with its seam and its faults."""
        if self.me() is None or self.status is not None:
            return fn()
        self.seam(site, str(path))
        act = self.fault(site)
        if act == "crash_before":
            self.finish("crashed")
        if act and act.startswith("E") and site.startswith("dsclose"):
            raise RuntimeError("NetCDF: HDF error")  # (what netCDF4 makes of it)
        if act and act.startswith("E"):
            raise OSError(getattr(errno, act), os.strerror(getattr(errno, act)), str(path))
        if act == "memerr":
            raise MemoryError("injected")
        res = fn()
        if act == "lost":  # the last data could not be written when the file was closed
            _Real.truncate(path, _Real.stat(path).st_size * 2 // 3)
            self.lost.add(str(path))
            raise RuntimeError("NetCDF: HDF error")
        if act == "crash_after":
            self.finish("crashed")
        if act == "race" and site == "mkdir":
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), str(path))
        self.seam(site + ".done", str(path))
        return res

    # -- the end
    def finish(self, status):
        if self.status is None:
            self.status = status
            if self.shim is not None and self.shim.lib is not None:
                self.shim.arm(False)
            self.report()
        os._exit(0)

    def report(self):
        try:
            self.observe_final()
        except Exception:
            pass
        ev = hashlib.sha256(repr(self.events).encode()).hexdigest()
        res = {
            "status": self.status,
            "steps": self.steps,
            "elapsed": self.elapsed,
            "events_sha": ev,
            "trace": self.decider.taken,
            "ranks": [
                {"state": r.state, "why": r.why, "exc": r.exc, "ret": r.ret, "killed": r.killed, "yields": r.yields,
                 "out": r.out.getvalue()[-20000:], "err": r.err.getvalue()[-4000:],
                 "warned": r.warned[-200:]}
                for r in self.ranks
            ],
            "clock_reads": self.clock_reads[:4000],
            "fired": self.fired,
            "sites": self.site_count,
            "snaps": self.snaps,
            "mutations": self.mutations,
            "opens": self.opens,
            "inflight": len(self.msgs),
        }
        if self.job.get("want_events"):
            res["events"] = self.events
        if self.shim is not None and self.shim.lib is not None:
            res["libc"] = self.shim.counts()
            res["libc_fired"] = self.shim.fired()
            res["sticky_hits"] = self.shim.sticky_hits()
            res["libc_sha"] = hashlib.sha256(repr(self.shim.log()).encode()).hexdigest()
            if self.job.get("want_libc_log"):
                res["libc_log"] = self.shim.log()
        data = json.dumps(res).encode()
        off = 0
        while off < len(data):
            off += os.write(self.fd, data[off:off + 65536])
        os.close(self.fd)

    def observe_final(self):
        self.steps += 1
        self.observe()

    # -- rank bodies
    def body(self, r, entry):
        self.tls.rank = r
        r.sem.acquire()
        try:
            r.ret = entry(self, r)
            r.state = "done"
        except SystemExit as e:
            code = e.code
            r.ret = code
            r.state = "done"
            if code not in (None, 0):
                r.exc = {"type": "SystemExit", "msg": str(code), "tb": ""}
        except BaseException as e:  # noqa: B902 - the rank process dies with a traceback
            r.exc = {"type": type(e).__name__, "msg": str(e)[:2000],
                     "tb": traceback.format_exc()[-3000:]}
            r.state = "done"
            e.__traceback__ = None
            del e
        if r.exc is not None and len(self.groups) > 1:
            self.aborts.setdefault(self.group_of[r.n], self.job.get("abort_after", 0))
        elif r.exc is not None and self.abort_in is None:
            self.abort_in = self.job.get("abort_after", 0)
        if self.status is not None:
            return
        self.hand_over()

    def run(self, entry):
        threads = [threading.Thread(target=self.body, args=(r, entry), daemon=True)
                   for r in self.ranks]
        base_filters = warnings.filters[:]
        for r in self.ranks:
            r.filters = base_filters[:]
        for t in threads:
            t.start()
        self.observe_initial()
        first = self.decider.rank(0, None, [r.n for r in self.ranks])
        self.switch(None, first)
        self.main_sem.acquire()
        failed = any(r.exc is not None for r in self.ranks)
        self.finish("failed" if failed else "ok")


# ------------------------------------------------------------------- fake MPI
class _Status:
    pass


class FakeComm:
    """The subset of mpi4py's communicator interface, over the simulated transport."""

    def __init__(self, sim, cid, members):
        self._sim, self._cid, self._members = sim, cid, members

    def Get_size(self):
        return len(self._members)

    def Get_rank(self):
        return self._members.index(self._sim.me().n)

    size = property(Get_size)
    rank = property(Get_rank)

    # point to point
    def _post(self, payload, dest, tag, typed):
        s = self._sim
        src = self.Get_rank()
        s.nmsg += 1
        m = {"cid": self._cid, "src": src, "dst": dest, "tag": tag, "data": payload,
             "id": s.nmsg, "typed": typed, "taken": False}
        eager = s.msgrng.random() < s.job.get("p_eager", 0.5)
        s.seam("send", "%d>%d/%d" % (src, dest, tag))
        s.msgs.append(m)
        if not eager:
            s.block(lambda: m["taken"], "send %d>%d tag %d" % (src, dest, tag))
        else:
            s.seam("sent", "%d>%d/%d" % (src, dest, tag))

    def _match(self, me, source, tag, typed):
        seen = set()
        out = []
        for m in self._sim.msgs:
            if m["cid"] != self._cid or m["dst"] != me or m["typed"] != typed:
                continue
            if tag != -1 and m["tag"] != tag:
                continue
            if source != -1 and m["src"] != source:
                continue
            if m["src"] in seen:  # non-overtaking per source
                continue
            seen.add(m["src"])
            out.append(m)
        return out

    def _take(self, source, tag, typed):
        s = self._sim
        me = self.Get_rank()
        s.seam("recv", "%d<%d/%d" % (me, source, tag))
        s.block(lambda: bool(self._match(me, source, tag, typed)),
                "recv %d<%d tag %d" % (me, source, tag))
        c = self._match(me, source, tag, typed)
        m = c[s.msgrng.randrange(len(c))] if len(c) > 1 else c[0]
        s.msgs.remove(m)
        m["taken"] = True
        return m

    def send(self, obj, dest=0, tag=0):
        self._post(pickle.dumps(obj), dest, tag, False)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        return pickle.loads(self._take(source, tag, False)["data"])

    def Send(self, buf, dest=0, tag=0):
        import numpy

        self._post(numpy.array(buf, copy=True), dest, tag, True)

    def Recv(self, buf, source=-1, tag=-1, status=None):
        m = self._take(source, tag, True)
        buf[...] = m["data"].reshape(buf.shape)

    # collectives
    def _collective(self, name, value):
        """Every member deposits a value; all proceed when all have arrived."""
        s = self._sim
        me = self.Get_rank()
        key = (self._cid, me)
        seq = s.colls.get(key, 0)
        s.colls[key] = seq + 1
        slot = s.colls.setdefault(("slot", self._cid, seq), {})
        s.seam("coll", "%s#%d" % (name, seq))
        slot[me] = (name, pickle.dumps(value))
        n = len(self._members)
        s.block(lambda: len(slot) == n, "%s #%d" % (name, seq))
        names = {v[0] for v in slot.values()}
        if len(names) > 1:
            raise RuntimeError("mismatched collectives: %s" % sorted(names))
        return {k: pickle.loads(v[1]) for k, v in slot.items()}

    def Barrier(self):
        self._collective("barrier", None)

    barrier = Barrier

    def allgather(self, v):
        d = self._collective("allgather", v)
        return [d[i] for i in range(len(self._members))]

    def gather(self, v, root=0):
        d = self._collective("gather", v)
        return [d[i] for i in range(len(self._members))] if self.Get_rank() == root else None

    def bcast(self, v=None, root=0):
        return self._collective("bcast", v)[root]

    def scatter(self, v=None, root=0):
        return self._collective("scatter", v)[root][self.Get_rank()]

    def allreduce(self, v, op=None):
        vals = self.allgather(v)
        out = vals[0]
        for x in vals[1:]:
            out = {"SUM": lambda a, b: a + b, "PROD": lambda a, b: a * b,
                   "MAX": max, "MIN": min, None: lambda a, b: a + b}[op](out, x)
        return out

    def Split(self, color=0, key=0):
        got = self.allgather(color)
        members = [self._members[i] for i, c in enumerate(got) if c == color]
        return FakeComm(self._sim, (self._cid, color, self._sim.colls[(self._cid, self.Get_rank())]),
                        members)

    def Abort(self, code=1):
        self._sim.me().exc = {"type": "MPI_Abort", "msg": str(code), "tb": ""}
        self._sim.finish("aborted")


class GroupComm:
    """COMM_WORLD when several jobs run: each sees its own ranks only."""

    def __init__(self, sim):
        self._sim = sim
        self._comms = [FakeComm(sim, ("world", i), g) for i, g in enumerate(sim.groups)]

    def __getattr__(self, name):
        return getattr(self._comms[self._sim.group_of[self._sim.me().n]], name)


def install_mpi(sim):
    mpi = types.ModuleType("mpi4py.MPI")
    if len(sim.groups) > 1:
        world = GroupComm(sim)
    else:
        world = FakeComm(sim, 0, list(range(sim.nranks)))
    mpi.COMM_WORLD = world
    mpi.ANY_SOURCE = -1
    mpi.ANY_TAG = -1
    mpi.SUM, mpi.PROD, mpi.MAX, mpi.MIN = "SUM", "PROD", "MAX", "MIN"
    mpi.Status = _Status
    pkg = types.ModuleType("mpi4py")
    pkg.MPI = mpi
    pkg.__path__ = []
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = mpi


# ---------------------------------------------------------------------- seams
def install_clock(sim):
    real = _Real.datetime
    realdate = _Real.date

    class _Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, real)

    class datetime(real, metaclass=_Meta):
        @classmethod
        def utcnow(cls):
            return real.fromtimestamp(sim.read_clock(), _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def now(cls, tz=None):
            t = sim.read_clock()
            if tz is None:
                return (real.fromtimestamp(t, _dt.timezone.utc)
                        + _dt.timedelta(seconds=sim.tz)).replace(tzinfo=None)
            return real.fromtimestamp(t, tz)

        @classmethod
        def today(cls):
            return cls.now()

    class _DMeta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, realdate)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, realdate)

    class date(realdate, metaclass=_DMeta):
        @classmethod
        def today(cls):
            return datetime.now().date()

    _dt.datetime = datetime
    _dt.date = date

    def utc_tuple(t):
        return _Real.gmtime(t)

    def vtime():
        return sim.read_clock()

    _time.time = vtime
    _time.time_ns = lambda: int(sim.read_clock() * 1e9)
    _time.gmtime = lambda s=None: _Real.gmtime(sim.read_clock() if s is None else s)
    _time.localtime = lambda s=None: _Real.gmtime((sim.read_clock() if s is None else s) + sim.tz)
    _time.strftime = lambda f, t=None: _Real.strftime(f, _time.localtime() if t is None else t)
    _time.asctime = lambda t=None: _Real.strftime("%a %b %d %H:%M:%S %Y",
                                                  _time.localtime() if t is None else t)
    _time.ctime = lambda s=None: _time.asctime(_time.localtime(s))

    def vsleep(s):
        sim.elapsed += max(0.0, float(s))
        sim.seam("sleep", str(s))

    _time.sleep = vsleep


def install_fs(sim):
    import netCDF4

    root = sim.scratch

    def ours(p):
        try:
            p = os.fspath(p)
            if isinstance(p, bytes):
                p = p.decode()
        except TypeError:
            return False
        return sim.me() is not None and os.path.abspath(p).startswith(root)

    def path_op(site, real):
        def op(path, *a, **k):
            if not ours(path):
                return real(path, *a, **k)

            def go():
                res = real(path, *a, **k)
                sim.mutations.append([site, sim.me().n, os.path.relpath(os.fspath(path), os.getcwd()), None])
                return res
            return sim.guarded(site, path, go)
        return op

    def path_op2(site, real):
        def op(src, dst, *a, **k):
            if not ours(dst) and not ours(src):
                return real(src, dst, *a, **k)

            def go():
                res = real(src, dst, *a, **k)
                sim.mutations.append([site, sim.me().n, os.path.relpath(os.fspath(src), os.getcwd()),
                                      os.path.relpath(os.fspath(dst), os.getcwd())])
                return res
            return sim.guarded(site, dst, go)
        return op

    os.mkdir = path_op("mkdir", _Real.mkdir)
    os.rename = path_op2("rename", _Real.rename)
    os.replace = path_op2("rename", _Real.replace)
    os.unlink = path_op("unlink", _Real.unlink)
    os.remove = path_op("unlink", _Real.remove)
    os.rmdir = path_op("rmdir", _Real.rmdir)
    os.link = path_op2("link", _Real.link)

    def probe(real):
        def op(p):
            if ours(p):
                sim.seam("stat", str(p), can_fault=False)
            return real(p)
        return op

    os.path.exists = probe(_Real.exists)
    os.path.isfile = probe(_Real.isfile)
    os.path.isdir = probe(_Real.isdir)

    def shuffled(lst):
        lst = sorted(lst)
        sim.envrng.shuffle(lst)
        return lst

    _glob.glob = lambda *a, **k: shuffled(_Real.iglob(*a, **k))
    _glob.iglob = lambda *a, **k: iter(shuffled(_Real.iglob(*a, **k)))
    os.listdir = lambda *a, **k: shuffled(_Real.listdir(*a, **k))

    def sim_open(file, mode="r", *a, **k):
        if isinstance(file, int) or not ours(file):
            return _Real.open(file, mode, *a, **k)
        w = any(c in mode for c in "wax+")

        def go():
            f = _Real.open(file, mode, *a, **k)
            if w:
                sim.opens.append(["text", sim.me().n, os.path.relpath(os.fspath(file), os.getcwd()), mode])
            return f
        return sim.guarded("open_w" if w else "open_r", file, go)

    builtins.open = sim_open
    io.open = sim_open

    RealDataset = netCDF4.Dataset
    open_state = {}
    lost = sim.lost

    class Dataset(RealDataset):
        def __init__(self, filename, mode="r", *a, **k):
            w = mode not in ("r", "rs")
            site = "dsopen_w" if w else "dsopen_r"

            def go():
                RealDataset.__init__(self, filename, mode, *a, **k)
                if sim.me() is not None:
                    sim.opens.append(["nc", sim.me().n,
                                      os.path.relpath(os.fspath(filename), os.getcwd()), mode])
            sim.guarded(site, filename, go)
            open_state[id(self)] = (w, str(filename))
            lost.discard(str(filename))

        def close(self):
            w, fn = open_state.get(id(self), (False, ""))
            if fn and fn in lost:
                raise RuntimeError("NetCDF: Not a valid ID")
            res = sim.guarded("dsclose_w" if w else "dsclose_r", fn,
                              lambda: RealDataset.close(self))
            open_state.pop(id(self), None)
            return res

        def isopen(self):  # (netCDF4 regards a file as open whose closing failed)
            w, fn = open_state.get(id(self), (False, ""))
            return 1 if fn and fn in lost else RealDataset.isopen(self)

    Dataset.__name__ = Dataset.__qualname__ = "Dataset"
    netCDF4.Dataset = Dataset


def install_random(sim):
    rng = random.Random("uuid/%s" % sim.job.get("env_seed", 0))
    _uuid.uuid4 = lambda: _uuid.UUID(int=rng.getrandbits(128), version=4)
    random.seed("glob/%s" % sim.job.get("env_seed", 0))


# -------------------------------------------------------------------- entries
def entry_xconform(sim, r):
    import importlib

    m = importlib.import_module("pyconform.cli.xconform")
    if "groups" in sim.job:
        m.main(list(sim.job["groups"][sim.group_of[r.n]]["argv"]))
    else:
        for _ in range(sim.job.get("repeat", 1)):
            m.main(list(sim.job["argv"]))
    return 0


def entry_api(sim, r):
    """Library use: descriptors and data flow built in this process, executed one or more
    times; a failing execute is caught and retried, as a workflow engine would."""
    import importlib
    import importlib.util

    for n, m in enumerate(sim.job.get("modules", [])):
        spec = importlib.util.spec_from_file_location("user%d_%d" % (n, r.n), m)
        sys.modules[spec.name] = importlib.util.module_from_spec(spec)  # (functions are found as long as they live)
        spec.loader.exec_module(sys.modules[spec.name])
    ds = importlib.import_module("pyconform.datasets")
    df = importlib.import_module("pyconform.dataflow")
    from collections import OrderedDict

    with _Real.open(sim.job["stdfile"]) as f:
        dsdict = json.load(f, object_pairs_hook=OrderedDict)
    outds = ds.OutputDatasetDesc(dsdict=dsdict)
    inpds = ds.InputDatasetDesc(filenames=list(sim.job["infiles"]))
    flow = df.DataFlow(inpds, outds)
    log = []
    for i, ex in enumerate(sim.job["executes"]):
        chunks = OrderedDict((a, b) for a, b in ex.get("chunks", []))
        before = list(chunks.items())
        start = sim.steps
        try:
            if ex.get("rebuild"):
                flow = df.DataFlow(inpds, outds)
            flow.execute(chunks=chunks, serial=bool(ex.get("serial", False)),
                         history=bool(ex.get("history", False)), deflate=ex.get("deflate"),
                         debug=bool(ex.get("debug", False)))
            log.append({"ok": True})
        except Exception as e:
            log.append({"ok": False, "type": type(e).__name__, "msg": str(e)[:500]})
        log[-1]["start"] = start
        log[-1]["chunks_kept"] = list(chunks.items()) == before
        if ex.get("heal") and sim.shim is not None and sim.shim.lib is not None:
            sim.shim.clear_sticky()
        if sim.job.get("snapshot_between"):
            sim.observe()
        if sim.nranks == 1:
            log[-1]["open"] = open_files(sim.scratch)
    return log


def open_files(scratch):
    """Files below the scratch directory that this process has open."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if p.startswith(os.path.realpath(scratch) + "/") and ".nc" in os.path.basename(p):
            out.append(os.path.basename(p))
    return sorted(out)


def entry_cli(sim, r):
    import importlib

    m = importlib.import_module(sim.job["module"])
    old = sys.argv
    sys.argv = [sim.job["module"]] + list(sim.job["argv"])
    try:
        m.main(list(sim.job["argv"]))
    finally:
        sys.argv = old
    return 0


def entry_mapdates(sim, r):
    import importlib

    m = importlib.import_module("pyconform.mapdates")
    files = list(sim.job["files"])
    if sim.job.get("via_listing"):
        files = [os.path.join(sim.job["via_listing"], f) for f in os.listdir(sim.job["via_listing"])]
    res = m.get_files_in_order(files, **sim.job.get("kwargs", {}))
    return [list(map(str, res[0])), [int(c) for c in res[1]], int(res[2])]


ENTRIES = {"xconform": entry_xconform, "api": entry_api, "cli": entry_cli,
           "mapdates": entry_mapdates}


def run_job(job, scratch, cwd, result_fd, shim):
    """Run one job in this (forked) process; never returns."""
    try:
        sys.dont_write_bytecode = True
        os.chdir(cwd)
        for k in [k for k in sys.modules if private_name(k)]:
            del sys.modules[k]
        sys.path[:] = [p for p in sys.path if p not in ("", ".")]
        sim = Sim(job, scratch, result_fd, shim)
        sys.meta_path.insert(0, _RepoFinder(sim))
        install_mpi(sim)
        install_clock(sim)
        install_random(sim)
        install_fs(sim)
        devnull = _Real.open(os.devnull, "w")
        os.dup2(devnull.fileno(), 1)
        os.dup2(devnull.fileno(), 2)
        sys.stdout = _Dispatch(sim, "out", devnull)
        sys.stderr = _Dispatch(sim, "err", devnull)

        def showwarning(message, category, filename, lineno, file=None, line=None):
            r = sim.me()
            if r is not None:
                r.warned.append([category.__name__, str(message)[:300]])

        warnings.showwarning = showwarning
        warnings.resetwarnings()
        if shim is not None and shim.lib is not None:
            shim.reset(scratch)
            shim.relative(True)
            shim.on_crash(lambda: sim.finish("crashed"))
            for f in job.get("faults", []):
                if f["at"] == "libc":
                    shim.plan(f["cls"], f["n"], f["act"], f.get("err", "EIO"))
            shim.arm(True)
        sim.run(ENTRIES[job["entry"]])
    except BaseException:
        data = json.dumps({"status": "harness-error", "tb": traceback.format_exc()}).encode()
        try:
            os.write(result_fd, data)
        finally:
            os._exit(3)

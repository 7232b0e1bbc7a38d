F = "pyconform/flownodes.py"; D = "pyconform/dataflow.py"; X = "pyconform/cli/xconform.py"; S = "pyconform/datasets.py"
P = "pyconform/physarray.py"; U = "pyconform/functions.py"; M = "pyconform/mapdates.py"
HEAD = """
from h import *
"""
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    import textwrap
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo="from h import *\n\n" + textwrap.dedent(demo)))

bug("c01-explicit-stop", "C01", [(F, """
                wchunk = tuple(chunk[d] for d in vdesc.dimensions)
""", """
                wchunk = tuple(
                    slice(chunk[d].start, chunk[d].start + chunks.get(d, gdims[d]))
                    for d in vdesc.dimensions
                )
""")], "an unlimited dimension of the output, chunked with a size that does not divide its length",
"the write chunk of the last piece reaches past the end, so that its data are broadcast into extra records",
"""
with scratch():
    nc("in.nc", {"time": None, "x": 2}, {"time": ("f8", ("time",), range(5), {"units": "days since 2000-01-01"}),
       "a": ("f8", ("time", "x"), np.arange(10.).reshape(5, 2), {"units": "m"})})
    spec = {"time": var("time", ["time"], units="days since 2000-01-01"),
            "v": var("a", ["time", "x"], "v.nc", units="m")}
    run(spec, "in.nc", chunks={"time": 2})
    same(read("v.nc", "v"), np.arange(10.).reshape(5, 2), "chunked by 2")
    run(spec, "in.nc", chunks={"time": 4})
    same(read("v.nc", "v"), np.arange(10.).reshape(5, 2), "chunked by 4")
""")

bug("c02-tmp-per-directory", "C02", [(F, """
            tmp_fname = "{}{}".format(fname, self._tmp_ext)
            fdir = dirname(fname)
""", """
            fdir = dirname(fname)
            tmp_fname = self._tmp_path_()
"""), (F, """
            tmp_fname = "{}{}".format(self.label, self._tmp_ext)
            if exists(tmp_fname):
""", """
            tmp_fname = self._tmp_path_()
            if exists(tmp_fname):
"""), (F, """
    def _close_(self):
        \"\"\"
        Close the file""", """
    def _tmp_path_(self):
        fdir = dirname(self.label)
        return "{}.pyconform{}".format(fdir + "/" if fdir else "", self._tmp_ext)

    def _close_(self):
        \"\"\"
        Close the file""")],
"two processes that write files of one directory at the same time",
"the temporary file is named after the directory only, so two ranks write into the same temporary file",
"""
import threading
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"}), "b": ("f8", ("x",), [5, 6, 7, 8], {"units": "m"})})
    def spec():
        return {"v": var("a", ["x"], "out/v.nc", units="m"), "w": var("b", ["x"], "out/w.nc", units="m")}
    r0, r1 = flow(spec(), "in.nc"), flow(spec(), "in.nc")
    # rank 1 runs completely while rank 0 is in the middle of writing its file
    mine = [n for n in Rank(0, 2).partition(list(r0._filesizes.items()), func=dataflow.WeightBalanced())]
    node = r0._writenodes[mine[0]]
    inner = node.inputs[0].inputs[0]
    class Slow:
        def __getattr__(self, k):
            return getattr(inner, k)
        def __getitem__(self, i):
            if i is not None and not done:
                done.append(1)
                quiet(r1.execute, scomm=Rank(1, 2))
            return inner[i]
    done = []
    node.inputs[0].inputs[0] = Slow()
    try:
        quiet(r0.execute, scomm=Rank(0, 2))
    except Exception as e:
        check(False, "a parallel run failed: %r" % e)
    same(read("out/v.nc", "v"), [1., 2, 3, 4], "v")
    same(read("out/w.nc", "w"), [5., 6, 7, 8], "w")
""")

bug("c04-rename-first", "C04", [(F, """
            self._file.close()
            self._idims = set()
            self._file = None
            tmp_fname = "{}{}".format(self.label, self._tmp_ext)
            if exists(tmp_fname):
                rename(tmp_fname, self.label)
""", """
            tmp_fname = "{}{}".format(self.label, self._tmp_ext)
            if exists(tmp_fname):
                rename(tmp_fname, self.label)
            self._file.close()
            self._idims = set()
            self._file = None
""")], "a process that dies (or an error that strikes) between the renaming and the closing of the file",
"the file gets its final name before it is closed; what closing writes is missing if the process dies just then",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    spec = {"v": var("a", ["x"], "v.nc", units="m")}
    from pyconform import flownodes
    real = flownodes.Dataset
    class Watch(real):
        def close(self):
            if self._mine:
                check(not os.path.exists("v.nc"), "published before it is closed")
            return super().close()
        def __init__(self, name, mode="r", **k):
            super().__init__(name, mode, **k)
            self.__dict__["_mine"] = mode != "r"
        def __getattr__(self, k):
            if k == "_mine":
                return True
            return super().__getattr__(k)
    f = flow(spec, "in.nc")
    opened = []
    class Proxy:
        # hands through to a real dataset
        def __init__(self, *a, **k):
            object.__setattr__(self, "ds", real(*a, **k))
            object.__setattr__(self, "w", "w" in a)
        def __getattr__(self, k):
            return getattr(self.ds, k)
        def __enter__(self):
            return self
        def __exit__(self, *a):
            self.ds.close()
        def close(self):
            if self.w:
                check(not os.path.exists("v.nc"), "the file has its final name although it is not closed yet")
            self.ds.close()
    flownodes.Dataset = Proxy
    quiet(f.execute, serial=True)
    same(read("v.nc", "v"), [1., 2, 3, 4], "v")
""")

bug("c04-overwrite-in-place", "C04", [(F, """
            tmp_fname = "{}{}".format(fname, self._tmp_ext)
            fdir = dirname(fname)
""", """
            # Replace an existing file in place, so that its owner and permissions stay as they are
            tmp_fname = fname if exists(fname) else "{}{}".format(fname, self._tmp_ext)
            fdir = dirname(fname)
""")], "a previous file under the output's name, and a process that dies while it writes the new one",
"an existing output file is overwritten in place, so a crash leaves neither the old nor the new file",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    nc("v.nc", {"x": 4}, {"v": ("f8", ("x",), [9, 9, 9, 9], {"units": "m"})})
    before = open("v.nc", "rb").read()
    spec = {"v": var("a", ["x"], "v.nc", units="m")}
    f = flow(spec, "in.nc")
    pid = os.fork()
    if pid == 0:
        class Dies:
            def __init__(self, n): self.n = n
            def __getattr__(self, k): return getattr(self.n, k)
            def __getitem__(self, i):
                if i is None: return self.n[i]
                os._exit(7)
        node = f._writenodes["v.nc"].inputs[0]
        node.inputs[0] = Dies(node.inputs[0])
        quiet(f.execute, serial=True)
        os._exit(0)
    os.waitpid(pid, 0)
    check(os.path.exists("v.nc") and open("v.nc", "rb").read() == before, "the previous file was destroyed by a run that died")
""")

bug("c05-mkdir-race", "C05", [(F, """
            if len(fdir) > 0 and not exists(fdir):
                try:
                    makedirs(fdir)
                except:
                    if exists(fdir):
                        print(
                            "Already created directory for output file {!r}".format(
                                fname
                            )
                        )
                    else:
                        raise IOError(
                            "Failed to create directory for output file {!r}".format(
                                fname
                            )
                        )
""", """
            if len(fdir) > 0 and not exists(fdir):
                try:
                    makedirs(fdir)
                except:
                    raise IOError(
                        "Failed to create directory for output file {!r}".format(fname)
                    )
""")], "another process creates the output directory between the check for it and its creation",
"a directory that appears in the meantime is taken for an error",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    spec = {"v": var("a", ["x"], "out/deep/v.nc", units="m")}
    from pyconform import flownodes
    real = flownodes.exists
    def late(p):
        r = real(p)
        if p == "out/deep" and not r:
            os.makedirs(p)   # another rank is faster
        return r
    flownodes.exists = late
    try:
        run(spec, "in.nc")
    except OSError as e:
        check(False, "lost the race for the directory: %s" % e)
    same(read("out/deep/v.nc", "v"), [1., 2, 3, 4], "v")
""")

bug("c05-rename-swallowed", "C05", [(F, """
            if exists(tmp_fname):
                rename(tmp_fname, self.label)
""", """
            if exists(tmp_fname):
                try:
                    rename(tmp_fname, self.label)
                except OSError as err:
                    warn("Could not rename {!r}: {!s}".format(tmp_fname, err))
""")], "the renaming of the finished temporary file fails",
"the job succeeds although its output was not published",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    spec = {"v": var("a", ["x"], "v.nc", units="m")}
    os.mkdir("v.nc")   # a directory is in the way
    try:
        run(spec, "in.nc")
    except OSError:
        sys.exit(0)
    check(False, "no error, but no output either")
""")

bug("c05-unreadable-is-missing", "C05", [(F, """
            data = ncvar[index12]

""", """
            try:
                data = ncvar[index12]
            except RuntimeError:
                # Unreadable data are missing data
                shape = tuple(
                    len(range(*i.indices(n)))
                    for i, n in zip(index12, shape0)
                    if isinstance(i, slice)
                )
                data = numpy.ma.masked_all(shape, dtype=ncvar.dtype)

""")], "the storage fails while input data are read",
"data that cannot be read are written as missing, and the job succeeds",
"""
with scratch():
    nc("in.nc", {"x": 5000}, {"a": ("f8", ("x",), np.random.RandomState(0).rand(5000), {"units": "m"})}, zlib=True)
    size = os.path.getsize("in.nc")
    with open("in.nc", "r+b") as f:      # damage the compressed data
        f.seek(size - 12000)
        f.write(b"\\x5a" * 8000)
    spec = {"v": var("a", ["x"], "v.nc", units="m")}
    try:
        run(spec, "in.nc")
    except Exception:
        sys.exit(0)
    check(False, "unreadable input, but the job succeeded: %s" % read("v.nc", "v")[:3])
""")

bug("c06-noclobber", "C06", [(F, """
                self._file = Dataset(tmp_fname, "w", format=fmt)
""", """
                self._file = Dataset(tmp_fname, "w", format=fmt, clobber=False)
""")], "a temporary file that a crashed run left behind",
"the run after a crash fails because the temporary file exists",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    spec = {"v": var("a", ["x"], "out/v.nc", units="m")}
    f = flow(spec, "in.nc")
    pid = os.fork()
    if pid == 0:
        class Dies:
            def __init__(self, n): self.n = n
            def __getattr__(self, k): return getattr(self.n, k)
            def __getitem__(self, i):
                if i is None: return self.n[i]
                os._exit(7)
        node = f._writenodes["out/v.nc"].inputs[0]
        node.inputs[0] = Dies(node.inputs[0])
        quiet(f.execute, serial=True)
    os.waitpid(pid, 0)
    try:
        run(spec, "in.nc")
    except Exception as e:
        check(False, "the run after a crash fails: %r" % e)
    same(read("out/v.nc", "v"), [1., 2, 3, 4], "v")
""")

bug("c06-keep-newer", "C06", [(F, """
            if exists(tmp_fname):
                rename(tmp_fname, self.label)
""", """
            if exists(tmp_fname) and not exists(self.label):
                rename(tmp_fname, self.label)
            elif exists(tmp_fname):
                # Keep the published file, unless the new one has more data
                if getsize(tmp_fname) >= getsize(self.label):
                    rename(tmp_fname, self.label)
                else:
                    remove(tmp_fname)
"""), (F, "from os.path import dirname, exists", "from os.path import dirname, exists, getsize")],
"a previous file under the output's name that is larger than the new one",
"an older, larger file stays in place of the new result",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    nc("v.nc", {"x": 40000}, {"v": ("f8", ("x",), np.random.rand(40000), {"units": "m"})})
    run({"v": var("a", ["x"], "v.nc", units="m")}, "in.nc")
    same(read("v.nc", "v"), [1., 2, 3, 4], "v")
""")

bug("c07-clean-others", "C07", [(F, """
            if exists(tmp_fname):
                rename(tmp_fname, self.label)
""", """
            if exists(tmp_fname):
                replace(tmp_fname, self.label)

            # Remove what earlier (crashed) runs left behind
            fdir = dirname(self.label)
            for stale in glob("{}*{}".format(fdir + "/" if fdir else "", self._tmp_ext)):
                remove(stale)
"""), (F, "from datetime import datetime\n", "from datetime import datetime\nfrom glob import glob\n"), (F, "from os import makedirs, remove, rename", "from os import makedirs, remove, replace")],
"another file in the output directory whose name ends like a temporary file (of another rank, job or user)",
"the cleanup after each file removes temporary files of others",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    os.mkdir("out")
    open("out/other.tmp.nc", "w").write("precious")
    run({"v": var("a", ["x"], "out/v.nc", units="m")}, "in.nc")
    same(read("out/v.nc", "v"), [1., 2, 3, 4], "v")
    check(os.path.exists("out/other.tmp.nc"), "a file of somebody else was removed")
""")

bug("c07-backup", "C07", [(F, """
            if exists(tmp_fname):
                rename(tmp_fname, self.label)
""", """
            if exists(tmp_fname):
                if exists(self.label):
                    replace(self.label, "{}.bak".format(self.label))
                replace(tmp_fname, self.label)
"""), (F, "from os import makedirs, remove, rename", "from os import makedirs, remove, replace")], "a previous file under the output's name",
"the previous file is kept under another name, where it may replace a file of the user",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    open("v.nc.bak", "w").write("precious")
    spec = {"v": var("a", ["x"], "v.nc", units="m")}
    run(spec, "in.nc")
    run(spec, "in.nc")
    check(open("v.nc.bak", "rb").read() == b"precious", "a file that is no output was replaced")
""")

bug("c08-idle-ranks-leave", "C08", [(D, """
            print("{}: Finished writing file: {}".format(prefix, fname))

        scomm.sync()
""", """
            print("{}: Finished writing file: {}".format(prefix, fname))

        # Processes without files have nothing to wait for
        if fnames or scomm.is_manager():
            scomm.sync()
""")], "more processes than there are output files",
"processes without files leave before the last synchronization, and the others wait for them forever",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    spec = {"v": var("a", ["x"], "v.nc", units="m")}
    n = []
    for r in range(3):
        c = Rank(r, 3)
        quiet(flow(spec, "in.nc").execute, scomm=c)
        n.append(c.syncs)
    check(len(set(n)) == 1, "the processes do not synchronize equally often: %s" % n)
""")

bug("c09-limit-unmasks", "C09", [(U, """
                data[below_ind] = below_val
""", """
                data[np.ma.getdata(data) < below_val] = below_val
""")], "a limit function with a lower bound, and missing data whose fill value lies below it",
"missing data are replaced by the limit",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), np.ma.masked_values([1, -9999., 3, 4], -9999.), {"units": "m", "_FillValue": -9999.})})
    spec = {"v": var("limit(a, below=2)", ["x"], "v.nc", units="m", _FillValue=1e20)}
    run(spec, "in.nc")
    same(read("v.nc", "v"), np.ma.masked_values([2, -1, 3, 4], -1), "limit")
""")

bug("c10-direction-of-raw-data", "C10", [(F, """
                        vdir_inp = WriteNode._direction_(vnode[:])
""", """
                        vdir_inp = WriteNode._direction_(vnode.inputs[0][:])
""")], "a coordinate whose values change sign (positive up/down) on the way to the file",
"the direction is determined before the sign of the coordinate is changed",
"""
with scratch():
    nc("in.nc", {"z": 3}, {"z": ("f8", ("z",), [1, 2, 3], {"units": "m", "positive": "up"}), "a": ("f8", ("z",), [10, 20, 30], {"units": "m"})})
    spec = {"z": var("z", ["z"], units="m", axis="Z", positive="down", direction="increasing"), "v": var("a", ["z"], "v.nc", units="m")}
    run(spec, "in.nc")
    same(read("v.nc", "z"), [-3., -2, -1], "z")
    same(read("v.nc", "v"), [30., 20, 10], "v")
""")

bug("c11-transposed-positive", "C11", [(P, """
            positive=self.positive,
            units=self.units,
        )

    def sum(""", """
            positive=self.positive if len(dims) == 0 else None,
            units=self.units,
        )

    def sum(""")], "the mean of data with a positive direction, written with (or combined with data of) the other direction",
"the mean forgets the positive direction of its data",
"""
with scratch():
    nc("in.nc", {"z": 2, "x": 2}, {"a": ("f8", ("z", "x"), [[10, 20], [30, 40]], {"units": "m", "positive": "up"})})
    spec = {"v": var("mean(a, 'z')", ["x"], "v.nc", units="m", positive="down")}
    run(spec, "in.nc")
    same(read("v.nc", "v"), [-20., -30], "v")
""")

bug("c12-mask-once", "C12", [(F, """
                msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
                warn(msg, ValidationWarning)
                indata = numpy.ma.masked_where(indata > valid_max, indata)
""", """
                if not self._reported:
                    self._reported = True
                    msg = "valid_max: {} > {} ({!r})".format(
                        dmax, valid_max, self.label
                    )
                    warn(msg, ValidationWarning)
                    indata = numpy.ma.masked_where(indata > valid_max, indata)
"""), (F, """
        # Save the variable descriptor object
        self._vdesc = vdesc
""", """
        # Save the variable descriptor object
        self._vdesc = vdesc
        self._reported = False
""")], "chunking, with values above the limit in two or more chunks",
"only the first chunk with values above valid_max is masked",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 20, 3, 40], {"units": "m"})})
    spec = {"v": var("a", ["x"], "v.nc", units="m", valid_max=10., _FillValue=1e20)}
    run(spec, "in.nc", chunks={"x": 2})
    with netCDF4.Dataset("v.nc") as d:
        d.set_auto_mask(False)
        same(d.variables["v"][:], [1, 1e20, 3, 1e20], "limits")
""")

bug("c12-error-on-manager", "C12", [(X, """
    if args.error:
        simplefilter""", """
    if args.error and scomm.is_manager():
        simplefilter""")], "a parallel run with -e in which a process other than the first writes the violating file",
"the option to fail on violations is in effect on the first process only",
"""
with scratch():
    import json
    from pyconform.cli import xconform
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 20, 3, 40], {"units": "m"})})
    spec = {"v": var("a", ["x"], "v.nc", units="m", valid_max=10.), "w": var("2*a", ["x"], "w.nc", units="m", valid_max=10.)}
    class R(Rank):
        def partition(self, data, func=None, involved=False, tag=0):
            if isinstance(func, xconform.Duplicate):
                return self.shared.pop(0)
            return super().partition(data, func, involved, tag)
    json.dump(spec, open("std.json", "w"))
    c = R(1, 2)
    c.shared = [datasets.OutputDatasetDesc(dsdict=json.load(open("std.json"), object_pairs_hook=OrderedDict)), datasets.InputDatasetDesc(filenames=["in.nc"])]
    xconform.create_comm = lambda serial=False: c
    with warnings.catch_warnings():
        try:
            quiet(xconform.main, ["-e", "-f", "std.json", "in.nc"])
        except Exception as e:
            check("valid_max" in str(e), "wrong error %r" % e)
        else:
            check(False, "rank 1 ignores -e")
""")

bug("c13-toplevel-only", "C13", [(D, """
            for nd in iter_dfs(vnode):
                if isinstance(nd, EvalNode):
                    unmapped_sumlike_dimensions.update(nd.sumlike_dimensions)
""", """
            for nd in vnode.inputs:
                if isinstance(nd, EvalNode):
                    unmapped_sumlike_dimensions.update(nd.sumlike_dimensions)
""")], "a mean or sum inside of a larger expression, and a request to chunk its dimension",
"dimensions that are summed over inside of an expression may be chunked",
"""
with scratch():
    nc("in.nc", {"x": 2, "y": 4}, {"a": ("f8", ("x", "y"), np.arange(8.).reshape(2, 4), {"units": "m"})})
    spec = {"v": var("a - mean(a, 'y')", ["x", "y"], "v.nc", units="m")}
    try:
        run(spec, "in.nc", chunks={"y": 2})
    except ValueError:
        sys.exit(0)
    check(False, "chunking over the dimension of a mean was accepted: %s" % read("v.nc", "v"))
""")

bug("c13-manager-refuses", "C13", [(D, """
            else:
                raise ValueError(
                    'Cannot chunk over dimensions that are summed over (or "sum-like")'
""", """
            elif scomm is None or scomm.is_manager():
                raise ValueError(
                    'Cannot chunk over dimensions that are summed over (or "sum-like")'
""")], "a parallel run with a request to chunk a summed dimension",
"only the first process refuses the request; the others go on and wait for it",
"""
with scratch():
    nc("in.nc", {"x": 2, "y": 4}, {"a": ("f8", ("x", "y"), np.arange(8.).reshape(2, 4), {"units": "m"})})
    spec = {"v": var("a - mean(a, 'y')", ["x", "y"], "v.nc", units="m"), "w": var("a", ["x", "y"], "w.nc", units="m")}
    for r in range(2):
        try:
            quiet(flow(spec, "in.nc").execute, chunks={"y": 2}, scomm=Rank(r, 2))
        except ValueError:
            continue
        check(False, "rank %d accepts to chunk over the dimension of a mean" % r)
""")

bug("c14-read-cache", "C14", [(F, """
            data = ncvar[index12]

""", """
            # Outputs often use the same data: do not read them again
            key = (self._filepath, self._variable, str(index12))
            if key not in ReadNode._cache:
                ReadNode._cache[key] = ncvar[index12]
            data = ReadNode._cache[key]

"""), (F, """
    def __init__(self, variable, index=slice(None)):
""", """
    _cache = {}

    def __init__(self, variable, index=slice(None)):
""")], "two outputs that use the same double-precision variable, one of which changes its sign or limits it in place",
"the data of one output are changed in place by another one that shares them",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m", "positive": "up"})})
    spec = {"v": var("limit(a, above=2)", ["x"], "v.nc", units="m"), "w": var("a", ["x"], "w.nc", units="m")}
    run(spec, "in.nc")
    same(read("v.nc", "v"), [1., 2, 2, 2], "v")
    same(read("w.nc", "w"), [1., 2, 3, 4], "w")
""")

bug("c15-local-time", "C15", [(F, 'datetime.utcnow().strftime(', 'datetime.now().strftime(')],
"a machine whose time zone is not UTC", "the creation date is local time although it is marked as UTC",
"""
import datetime, time
os.environ["TZ"] = "XXX+7"
time.tzset()
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    run({"v": var("a", ["x"], "v.nc", units="m")}, "in.nc")
    with netCDF4.Dataset("v.nc") as f:
        d = datetime.datetime.strptime(f.creation_date, "%Y-%m-%dT%H:%M:%SZ").replace(tzinfo=datetime.timezone.utc)
    check(abs(d.timestamp() - time.time()) < 600, "creation_date %s" % d)
""")

bug("c15-stale-date", "C15", [(F, """
            self._filedesc.attributes["creation_date"] = datetime.utcnow().strftime(
                "%Y-%m-%dT%H:%M:%SZ"
            )
""", """
            self._filedesc.attributes.setdefault(
                "creation_date", datetime.utcnow().strftime("%Y-%m-%dT%H:%M:%SZ")
            )
""")], "a data flow that is executed again later, or a standardization whose file attributes have a creation date",
"the creation date of the first execution (or of the standardization file) is written",
"""
import datetime, time
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    run({"v": var("a", ["x"], "v.nc", units="m", fattrs={"creation_date": "1999-01-01T00:00:00Z"})}, "in.nc")
    with netCDF4.Dataset("v.nc") as f:
        d = datetime.datetime.strptime(f.creation_date, "%Y-%m-%dT%H:%M:%SZ").replace(tzinfo=datetime.timezone.utc)
    check(abs(d.timestamp() - time.time()) < 600, "creation_date %s" % d)
""")

bug("c16-second-calendar", "C16", [(F, """
                    num2date(t2.data[0], str(t2.units), t2.units.calendar)
""", """
                    num2date(t2.data[0], str(t2.units), calendar="standard")
""")], "a time coordinate in another than the standard calendar",
"the second date of the file name is computed in the standard calendar",
"""
with scratch():
    nc("in.nc", {"time": 3}, {"time": ("f8", ("time",), [40000, 40001, 40002], {"units": "days since 1850-01-01", "calendar": "noleap"}),
                              "a": ("f8", ("time",), [1, 2, 3], {"units": "m"})})
    run({"time": var("time", ["time"], units="days since 1850-01-01", calendar="noleap"), "v": var("a", ["time"], "v_{%Y%m%d-%Y%m%d}.nc", units="m")}, "in.nc")
    check(os.path.exists("v_19590804-19590806.nc"), os.listdir("."))
""")

bug("c17-history-stays", "C17", [(D, """
            if history:
                self._writenodes[fname].enable_history()
            else:
                self._writenodes[fname].disable_history()
""", """
            if history:
                self._writenodes[fname].enable_history()
""")], "a data flow executed with history and then again without",
"the second execution writes the history although it was not asked to",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    f = flow({"v": var("a", ["x"], "v.nc", units="m")}, "in.nc")
    quiet(f.execute, serial=True, history=True)
    quiet(f.execute, serial=True, history=False)
    with netCDF4.Dataset("v.nc") as d:
        check("history" not in d.variables["v"].ncattrs(), "history written without being asked for")
""")

bug("c17-deflate-stays", "C17", [(F, """
                    zlib = deflate > 0
                    clev = deflate if zlib else 1
""", """
                    self._filedesc._deflate = deflate
                    zlib = self._filedesc.deflate > 0
                    clev = self._filedesc.deflate if zlib else 1
""")], "a data flow executed with a deflate override and then again without",
"the override of one execution is in effect in the next one, too",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    f = flow({"v": var("a", ["x"], "v.nc", units="m", deflate=3)}, "in.nc")
    quiet(f.execute, serial=True, deflate=0)
    quiet(f.execute, serial=True)
    with netCDF4.Dataset("v.nc") as d:
        check(d.variables["v"].filters()["complevel"] == 3, d.variables["v"].filters())
""")

bug("c18-deflate-zero", "C18", [(X, "        deflate=args.deflate,\n", "        deflate=args.deflate or None,\n")],
"-d 0 on the command line, and a file that declares compression",
"an override of 0 (no compression) is ignored",
"""
import json
from pyconform.cli import xconform
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    json.dump({"v": var("a", ["x"], "v.nc", units="m", deflate=3)}, open("std.json", "w"))
    quiet(xconform.main, ["-s", "-d", "0", "-f", "std.json", "in.nc"])
    with netCDF4.Dataset("v.nc") as d:
        check(not d.variables["v"].filters()["zlib"], d.variables["v"].filters())
""")

bug("c18-first-coordinate", "C18", [(S, """
                    for mvname in vdesc.attributes["coordinates"].split():
""", """
                    for mvname in vdesc.attributes["coordinates"].split()[:1]:
""")], "a coordinates attribute with two or more names of variables that are in the file for no other reason",
"auxiliary coordinates after the first are not written",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    spec = {"h": var(2.0, [], units="m"), "k": var(3.0, [], units="m"), "v": var("a", ["x"], "v.nc", units="m", coordinates="h k")}
    run(spec, "in.nc")
    with netCDF4.Dataset("v.nc") as d:
        check("h" in d.variables and "k" in d.variables, list(d.variables))
""")

bug("c19-raw-average", "C19", [(M, """
    average = (date_info["t0"] + date_info["tn"]) / 2
""", """
    average = (d0 + dn) / 2
""")], "files that do not share one reference date in the units of their time coordinate",
"files are ordered by the plain numbers of their times",
"""
from pyconform import mapdates
with scratch():
    for n, ref, t in (("a.nc", "2000-01-01", [40, 41, 42]), ("b.nc", "2000-02-11", [2, 3, 4]), ("c.nc", "2000-02-01", [15, 16, 17])):
        nc(n, {"time": None}, {"time": ("f8", ("time",), t, {"units": "days since " + ref, "calendar": "noleap"})})
    r = quiet(mapdates.get_files_in_order, ["c.nc", "b.nc", "a.nc"])
    check(r == (["a.nc", "b.nc", "c.nc"], [3, 3, 3], 0), "%r" % (r,))
""")

bug("c20-partial-file", "C20", [(D, """
            if vmissing:
                warn(
                    "Skipping output file {} due""", """
            if vmissing and fdesc.variables:
                if exists(fname):
                    remove(fname)
                warn(
                    "Skipping output file {} due"""),
 (D, "import numpy\nfrom asaptools.partition", "from os import remove\nfrom os.path import exists\n\nimport numpy\nfrom asaptools.partition")],
"an output that cannot be made and that has a file from an earlier run",
"the previous file of a skipped output is removed",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    open("w.nc", "w").write("an earlier result")
    run({"v": var("a", ["x"], "v.nc", units="m"), "w": var("nosuch", ["x"], "w.nc", units="m")}, "in.nc")
    check(os.path.exists("w.nc"), "the earlier file is gone")
    same(read("v.nc", "v"), [1., 2, 3, 4], "v")
""")

bug("c21-set-of-dimensions", "C21", [(D, """
            unmapped_inp = tuple(d for d in inp_dims if d not in mapped_inp)
""", """
            unmapped_inp = tuple(set(inp_dims) - set(mapped_inp))
""")], "an output whose dimensions are renamed and not mapped by any coordinate of its own, under another hash seed",
"which input dimension becomes which output dimension depends on the hash seed",
"""
import subprocess
code = '''
from h import *
nc("in.nc", {"lat": 3, "lon": 3}, {"a": ("f8", ("lat", "lon"), np.arange(9.).reshape(3, 3), {"units": "m"})})
run({"v": var("a", ["y", "x"], "v.nc", units="m")}, "in.nc")
same(read("v.nc", "v"), np.arange(9.).reshape(3, 3), "v")
'''
with scratch():
    for s in range(8):
        e = dict(os.environ, PYTHONHASHSEED=str(s))
        r = subprocess.run([sys.executable, "-c", code], env=e, capture_output=True, text=True)
        check(r.returncode == 0, "hash seed %d: %s" % (s, (r.stdout + r.stderr)[-300:]))
""")

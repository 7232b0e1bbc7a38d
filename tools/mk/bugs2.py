F = "pyconform/flownodes.py"; D = "pyconform/dataflow.py"; X = "pyconform/cli/xconform.py"; S = "pyconform/datasets.py"
P = "pyconform/physarray.py"; U = "pyconform/functions.py"; M = "pyconform/mapdates.py"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    import textwrap
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo="from h import *\n\n" + textwrap.dedent(demo)))

bug("c03-mean-of-means", "C03", [(U, """
        indims = [d for d in dimensions if d in data.dimensions]
        return data.mean(dimensions=indims)
""", """
        for d in dimensions:
            if d in data.dimensions:
                data = data.mean(dimensions=[d])
        return data
""")], "a mean over two dimensions of data with missing values that are spread unevenly",
"the mean over several dimensions is computed one dimension after the other, which weights the values wrongly where data are missing",
"""
with scratch():
    a = np.ma.masked_values([[1., 2, 3], [9, -9, -9]], -9.)
    nc("in.nc", {"t": 2, "x": 2, "y": 3}, {"a": ("f8", ("t", "x", "y"), np.ma.stack([a, a + 1]), {"units": "m", "_FillValue": 1e20})})
    run({"v": var("mean(a, 'x', 'y')", ["t"], "v.nc", units="m")}, "in.nc")
    same(read("v.nc", "v"), [3.75, 4.75], "mean")
""")

bug("c04-new-files-directly", "C04", [(F, """
            # Try to open the output file for writing
            try:
                self._file = Dataset(tmp_fname, "w", format=fmt)
""", """
            # Try to open the output file for writing (a new file protects no old one)
            try:
                self._file = Dataset(
                    tmp_fname if exists(fname) else fname, "w", format=fmt
                )
""")], "a process that dies while it writes an output that did not exist before",
"a new output is written under its final name at once, where a crash leaves it incomplete",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    f = flow({"v": var("a", ["x"], "v.nc", units="m")}, "in.nc")
    pid = os.fork()
    if pid == 0:
        class Dies:
            def __init__(self, n): self.n = n
            def __getattr__(self, k): return getattr(self.n, k)
            def __getitem__(self, i):
                if i is None: return self.n[i]
                os._exit(7)
        node = f._writenodes["v.nc"].inputs[0]
        node.inputs[0] = Dies(node.inputs[0])
        quiet(f.execute, serial=True)
        os._exit(0)
    os.waitpid(pid, 0)
    check(not os.path.exists("v.nc"), "an incomplete file has the final name")
""")

bug("c05-close-swallowed", "C05", [(F, """
            self._file.close()
            self._idims = set()
            self._file = None
""", """
            try:
                self._file.close()
            except RuntimeError as err:
                warn("Could not close {!r}: {!s}".format(self.label, err))
            self._idims = set()
            self._file = None
""")], "the closing of the finished file fails",
"the file is published although its last data could not be written, and the job succeeds",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    from pyconform import flownodes
    real = flownodes.Dataset
    class Proxy:
        def __init__(self, *a, **k):
            object.__setattr__(self, "ds", real(*a, **k))
            object.__setattr__(self, "w", "w" in a)
        def __getattr__(self, k):
            return getattr(self.ds, k)
        def __enter__(self):
            return self
        def __exit__(self, *a):
            self.ds.close()
        def close(self):
            self.ds.close()
            if self.w:
                with open("v.nc.tmp.nc", "r+b") as f:
                    f.truncate(40)
                raise RuntimeError("NetCDF: No space left on device")
    flownodes.Dataset = Proxy
    try:
        run({"v": var("a", ["x"], "v.nc", units="m")}, "in.nc")
    except Exception:
        check(not os.path.exists("v.nc"), "a damaged file was published")
        sys.exit(0)
    check(False, "the job succeeded")
""")

bug("c06-lock-file", "C06", [(F, """
        try:
            self._execute_(chunks=chunks, deflate=deflate)
        except:
""", """
        fdir = dirname(self.label)
        if len(fdir) > 0 and not exists(fdir):
            makedirs(fdir, exist_ok=True)
        # Keep other jobs from writing the same file
        lock = "{}.lock".format(self.label)
        if exists(lock):
            raise IOError("Output file {!r} is being written already".format(self.label))
        open(lock, "w").close()
        try:
            self._execute_(chunks=chunks, deflate=deflate)
            remove(lock)
        except:
            if exists(lock):
                remove(lock)
"""), (F, """
            if len(fdir) > 0 and not exists(fdir):
                try:
                    makedirs(fdir)
                except:
                    if exists(fdir):
                        print(
                            "Already created directory for output file {!r}".format(
                                fname
                            )
                        )
                    else:
                        raise IOError(
                            "Failed to create directory for output file {!r}".format(
                                fname
                            )
                        )

""", "")], "a process that dies while it writes, and a second run",
"a lock file that the crashed run left behind keeps all later runs from writing",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    spec = {"v": var("a", ["x"], "out/v.nc", units="m")}
    f = flow(spec, "in.nc")
    pid = os.fork()
    if pid == 0:
        class Dies:
            def __init__(self, n): self.n = n
            def __getattr__(self, k): return getattr(self.n, k)
            def __getitem__(self, i):
                if i is None: return self.n[i]
                os._exit(7)
        node = f._writenodes["out/v.nc"].inputs[0]
        node.inputs[0] = Dies(node.inputs[0])
        quiet(f.execute, serial=True)
    os.waitpid(pid, 0)
    try:
        run(spec, "in.nc")
    except Exception as e:
        check(False, "the run after a crash fails: %r" % e)
    same(read("out/v.nc", "v"), [1., 2, 3, 4], "v")
""")

bug("c08-sync-per-file", "C08", [(D, """
            print("{}: Finished writing file: {}".format(prefix, fname))

        scomm.sync()
""", """
            print("{}: Finished writing file: {}".format(prefix, fname))
            scomm.sync()
""")], "a number of files that does not divide evenly among the processes",
"the processes synchronize once per file of their own, so that they wait for each other forever",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    spec = {n: var("a", ["x"], n + ".nc", units="m") for n in ("u", "v", "w")}
    n = []
    for r in range(2):
        c = Rank(r, 2)
        quiet(flow(spec, "in.nc").execute, scomm=c)
        n.append(c.syncs)
    check(len(set(n)) == 1, "the processes do not synchronize equally often: %s" % n)
""")

bug("c09-only-fillvalue", "C09", [(F, """
            data = ncvar[index12]

            # Upconvert, if possible
            if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
                data = data.astype(numpy.float64)
""", """
            # Masking is expensive, so avoid it for data without missing values
            ncvar.set_auto_mask("_FillValue" in attrs)
            data = numpy.ma.asarray(ncvar[index12])

            # Upconvert, if possible
            if ncvar.dtype.kind == "f" and ncvar.dtype.itemsize < 8:
                data = data.astype(numpy.float64)

""")], "an input variable whose missing values are declared by missing_value alone (or that was not completely written)",
"values that the input declares missing are used as data",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, -9999., 3, 4], {"units": "m", "missing_value": -9999.})})
    run({"v": var("a * 2", ["x"], "v.nc", units="m", _FillValue=1e20)}, "in.nc")
    same(read("v.nc", "v"), np.ma.masked_values([2, -1, 6, 8], -1), "v")
""")

bug("c09-limits-drop-mask", "C09", [(F, """
            if dmax > valid_max:
                msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
                warn(msg, ValidationWarning)
                indata = numpy.ma.masked_where(indata > valid_max, indata)
""", """
            toolarge = indata > valid_max
            if numpy.any(toolarge):
                msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
                warn(msg, ValidationWarning)
                indata.mask = toolarge.filled(False)
""")], "a variable with missing values some of which exceed the declared maximum",
"when a value exceeds the maximum, values that were missing before are written as data",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), np.ma.masked_values([1, -9999., 3, 40], -9999.), {"units": "m", "_FillValue": -9999.})})
    run({"v": var("a", ["x"], "v.nc", units="m", _FillValue=1e20, valid_max=10.0)}, "in.nc")
    same(read("v.nc", "v"), np.ma.masked_values([1, -1, 3, -1], -1), "v")
""")

bug("c10-records-stay", "C10", [(F, """
                        if vdir_inp != vdir_out:
                            self._idims.add(tuple(vdesc.dimensions.keys())[0])
""", """
                        if vdir_inp != vdir_out:
                            cdim = tuple(vdesc.dimensions.keys())[0]
                            if not self._filedesc.dimensions[cdim].unlimited:
                                self._idims.add(cdim)
""")], "a direction that is opposite to that of the input, declared for the record (unlimited) dimension",
"the record dimension is never reversed",
"""
with scratch():
    nc("in.nc", {"time": None, "x": 2}, {"time": ("f8", ("time",), [0, 1, 2], {"units": "days since 2000-01-01"}),
       "a": ("f8", ("time", "x"), np.arange(6.).reshape(3, 2), {"units": "m"})})
    run({"time": var("time", ["time"], units="days since 2000-01-01", axis="T", direction="decreasing"),
         "v": var("a", ["time", "x"], "v.nc", units="m")}, "in.nc")
    same(read("v.nc", "time"), [2., 1, 0], "time")
    same(read("v.nc", "v"), np.arange(6.).reshape(3, 2)[::-1], "v")
""")

bug("c11-extremes", "C11", [(U, """
            m = data.view(np.ma.MaskedArray).max(axis=axis)
        return PhysArray(
            m,
            name=new_name,
            positive=data.positive,
            units=data.units,
            dimensions=outdims,
        )
""", """
            m = data.view(np.ma.MaskedArray).max(axis=axis)
        return PhysArray(m, name=new_name, units=data.units, dimensions=outdims)
""")], "a maximum of data with a direction, declared in the other direction",
"the maximum of a variable has no direction any more, so that its sign is not changed when the other direction is declared",
"""
with scratch():
    nc("in.nc", {"t": 2, "x": 2}, {"a": ("f8", ("t", "x"), [[1, 2], [3, 4]], {"units": "W m-2", "positive": "down"})})
    run({"v": var("max(a, 'x')", ["t"], "v.nc", units="W m-2", positive="up")}, "in.nc")
    same(read("v.nc", "v"), [-2., -4], "max")
""")

bug("c12-one-limit-at-a-time", "C12", [(F, """
            if dmin < valid_min:
                msg = "valid_min: {} < {} ({!r})".format(dmin, valid_min, self.label)
                warn(msg, ValidationWarning)
                indata = numpy.ma.masked_where(indata < valid_min, indata)
""", """
            toosmall = indata < valid_min
            if numpy.any(toosmall):
                msg = "valid_min: {} < {} ({!r})".format(dmin, valid_min, self.label)
                warn(msg, ValidationWarning)
                return numpy.ma.masked_where(toosmall, indata)
""")], "data that violate both limits in one chunk",
"values above the maximum are neither reported nor masked if others are below the minimum",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [-5., 2, 3, 40], {"units": "m"})})
    run({"v": var("a", ["x"], "v.nc", units="m", _FillValue=1e20, valid_max=10.0, valid_min=0.0)}, "in.nc")
    with netCDF4.Dataset("v.nc") as d:
        d.set_auto_mask(False)
        same(d["v"][...], [1e20, 2, 3, 1e20], "v")
""")

bug("c13-input-names", "C13", [(D, """
        return set(
            self._i2omap[d] for d in unmapped_sumlike_dimensions if d in self._i2omap
        )
""", """
        return set(d for d in unmapped_sumlike_dimensions if d in self._o2imap)
""")], "a reduction over a dimension that one output keeps under another name",
"chunking over a renamed dimension that a definition sums over is accepted",
"""
with scratch():
    nc("in.nc", {"x": 4, "y": 2}, {"x": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"}), "a": ("f8", ("x", "y"), np.arange(8.).reshape(4, 2), {"units": "m"})})
    spec = {"v": var("mean(a, 'x')", ["j"], "v.nc", units="m"), "w": var("a", ["i", "j"], "w.nc", units="m")}
    try:
        run(spec, "in.nc", chunks={"i": 2})
    except ValueError:
        sys.exit(0)
    check(False, "accepted")
""")

bug("c14-map-in-order", "C14", [(D, """
        nodeorder = [
            vname
            for _, vname in sorted(
                (len(self._ods.variables[vname].dimensions), vname)
                for vname in definfos
            )
        ]
""", """
        nodeorder = list(definfos)
""")], "outputs with renamed and reordered dimensions that are listed before their coordinates",
"the dimensions are mapped in the order of the standardization, so a variable with reordered dimensions that comes first is written transposed",
"""
with scratch():
    nc("in.nc", {"x": 2, "y": 2}, {"x": ("f8", ("x",), [1, 2], {"units": "m"}), "y": ("f8", ("y",), [3, 4], {"units": "m"}),
       "a": ("f8", ("x", "y"), [[1, 2], [3, 4]], {"units": "m"})})
    def spec(order):
        s = {"v": var("a", ["j", "i"], "v.nc", units="m"), "i": var("x", ["i"], units="m"), "j": var("y", ["j"], units="m")}
        return OrderedDict((k, s[k]) for k in order)
    run(spec("ijv"), "in.nc")
    same(read("v.nc", "v"), [[1., 3], [2, 4]], "coordinates first")
    try:
        run(spec("vij"), "in.nc")
    except Exception as e:
        check(False, "fails: %r" % e)
    same(read("v.nc", "v"), [[1., 3], [2, 4]], "coordinates last")
""")

bug("c16-whole-days", "C16", [(F, """
                    num2date(t2.data[0], str(t2.units), t2.units.calendar)
""", """
                    num2date(int(t2.data[0]), str(t2.units), t2.units.calendar)
""")], "a last time that is not a whole number of its units",
"the last date of the name is rounded down to whole units of time",
"""
with scratch():
    nc("in.nc", {"time": None}, {"time": ("f8", ("time",), [0.25, 0.5, 1.75], {"units": "days since 2000-01-01", "calendar": "noleap"}),
       "a": ("f8", ("time",), [1, 2, 3], {"units": "m"})})
    run({"time": var("time", ["time"], units="days since 2000-01-01", calendar="noleap"),
         "v": var("a", ["time"], "v_{%Y%m%d%H-%Y%m%d%H}.nc", units="m")}, "in.nc")
    check(os.listdir(".") .count("v_2000010106-2000010218.nc") == 1, str(os.listdir(".")))
""")

bug("c17-attributes-used-up", "C17", [(F, """
                vattrs = OrderedDict((k, v) for k, v in vnode.attributes.items())

                vdtype = vdesc.dtype
                fillval = vattrs.get("_FillValue", None)
""", """
                vattrs = vnode.attributes

                vdtype = vdesc.dtype
                fillval = vattrs.pop("_FillValue", None)
""")], "a second execution of the same data flow with a declared fill value",
"the declared fill value is taken out of the attributes when the file is written the first time",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), np.ma.masked_values([1, -9999., 3, 40], -9999.), {"units": "m", "_FillValue": -9999.})})
    f = flow({"v": var("a", ["x"], "v.nc", units="m", _FillValue=1e20)}, "in.nc")
    for i in range(2):
        quiet(f.execute, serial=True)
        with netCDF4.Dataset("v.nc") as d:
            check("_FillValue" in d["v"].ncattrs() and d["v"]._FillValue == 1e20, "fill value in execution %d" % i)
""")

bug("c18-inherited-calendar", "C18", [(F, """
                if self._vdesc.calendar() is None and info.units.calendar is not None:
                    self.attributes["calendar"] = info.units.calendar
""", """
                if (
                    self._vdesc.refdatetime() is None
                    and self._vdesc.calendar() is None
                    and info.units.calendar is not None
                ):
                    self.attributes["calendar"] = info.units.calendar
""")], "a time coordinate with declared units but without a declared calendar, from input in another calendar than the standard one",
"the calendar of the input is not written, so that readers assume another one (or the conversion fails)",
"""
with scratch():
    nc("in.nc", {"time": None}, {"time": ("f8", ("time",), [0, 1, 2], {"units": "days since 2000-01-01", "calendar": "noleap"}),
       "a": ("f8", ("time",), [1, 2, 3], {"units": "m"})})
    try:
        run({"time": var("time", ["time"], units="days since 2000-01-01"), "v": var("a", ["time"], "v.nc", units="m")}, "in.nc")
    except Exception as e:
        check(False, "fails: %r" % e)
    with netCDF4.Dataset("v.nc") as d:
        check(getattr(d["time"], "calendar", "") in ("noleap", "365_day"), "calendar")
""")

bug("c18-lists-as-text", "C18", [(F, """
                                avalue = "invdims({}, dims=[{}])".format(
                                    avalue, idimstr
                                )
                        ncvar.setncattr(aname, avalue)
""", """
                                avalue = "invdims({}, dims=[{}])".format(
                                    avalue, idimstr
                                )
                        ncvar.setncattr(
                            aname,
                            " ".join(str(v) for v in avalue)
                            if isinstance(avalue, (list, tuple))
                            else avalue,
                        )
""")], "an attribute that is a list of numbers",
"numbers in attributes become text",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    run({"v": var("a", ["x"], "v.nc", units="m", flag_values=[1, 2, 4])}, "in.nc")
    with netCDF4.Dataset("v.nc") as d:
        check(not isinstance(d["v"].flag_values, str) and list(d["v"].flag_values) == [1, 2, 4], repr(d["v"].flag_values))
""")

bug("c19-same-units", "C19", [(M, "XX", "XX")], "", "", "")
BUGS.pop()

bug("c20-remove-outdated", "C20", [(D, """
                warn(
                    "Skipping output file {} due to missing required variables: "
                    "{}".format(fname, ", ".join(sorted(vmissing))),
                    DefinitionWarning,
                )
            else:
""", """
                missing = ", ".join(sorted(vmissing))
                warn(
                    "Skipping output file {} due to missing required variables: "
                    "{}".format(fname, missing),
                    DefinitionWarning,
                )
                # Do not leave an outdated file that looks like a result of this job
                if exists(fname):
                    remove(fname)
            else:
"""), (D, "import numpy\n", "from os import remove\nfrom os.path import exists\n\nimport numpy\n")],
"a previous file of an output that is skipped",
"the previous file of a skipped output is removed",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    run({"v": var("a", ["x"], "v.nc", units="m"), "w": var("a", ["x"], "w.nc", units="m")}, "in.nc")
    before = open("w.nc", "rb").read()
    run({"v": var("a", ["x"], "v.nc", units="m"), "w": var("b", ["x"], "w.nc", units="m")}, "in.nc")
    check(os.path.exists("w.nc") and open("w.nc", "rb").read() == before, "the previous file is gone")
""")

bug("c02-hash-partition", "C02", [(D, """
        fnames = scomm.partition(
            list(self._filesizes.items()), func=WeightBalanced(), involved=True
        )
""", """
        # (The assignment of a file does not depend on the other files)
        fnames = [
            fname
            for fname in self._filesizes
            if hash(fname) % scomm.get_size() == scomm.get_rank()
        ]
"""), (D, "from asaptools.partition import WeightBalanced\n", "")],
"processes with different hash seeds (the default of Python)",
"every process decides by itself, with a hash that differs between processes, which files it writes; some are written by none, some by several",
"""
import subprocess
CODE = '''
from h import *
r = int(sys.argv[1])
nc("in%d.nc" % r, {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
spec = {n: var("a", ["x"], "%s/%s.nc" % (r, n), units="m") for n in "abcdefgh"}
class R(Rank):
    pass
spec = OrderedDict((n, var("a", ["x"], n + ".nc", units="m")) for n in "abcdefgh")
os.mkdir(str(r)); os.rename("in%d.nc" % r, "%d/in.nc" % r); os.chdir(str(r))
quiet(flow(spec, "in.nc").execute, scomm=Rank(r, 2))
'''
with scratch() as d:
    n = []
    for r in range(2):
        e = dict(os.environ, PYTHONHASHSEED=str(r + 1))
        subprocess.run([sys.executable, "-c", CODE, str(r)], env=e, check=True)
        n.append(set(os.listdir(str(r))) - {"in.nc"})
    check(not n[0] & n[1], "written by both: %s" % sorted(n[0] & n[1]))
    check(len(n[0] | n[1]) == 8, "not written by any: %s" % sorted(n[0] | n[1]))
""")

bug("c21-first-file-of-a-set", "C21", [(F, """
        for fdesc in variable.files.values():
            if fdesc.exists():
                self._filepath = fdesc.name
                break
""", """
        existing = {fdesc.name for fdesc in variable.files.values() if fdesc.exists()}
        if existing:
            self._filepath = existing.pop()
""")], "an input variable in several files with different encodings of the same data (units, packing), and another hash seed",
"the file from which a variable is read depends on the hash seed",
"""
import subprocess
CODE = '''
from h import *
run({"v": var("a", ["x"], "v.nc", units="m")}, *["in%d.nc" % i for i in range(6)])
print(read("v.nc", "v").tobytes().hex())
'''
with scratch():
    for i in range(6):
        nc("in%d.nc" % i, {"x": 4}, {"a": ("f8", ("x",), np.array([1, 2, 3, 4]) + i * 1e-9, {"units": "m"})})
    out = {subprocess.run([sys.executable, "-c", CODE], env=dict(os.environ, PYTHONHASHSEED=str(s)), check=True, capture_output=True).stdout for s in range(8)}
    check(len(out) == 1, "%d different results" % len(out))
""")

F = "pyconform/flownodes.py"; D = "pyconform/dataflow.py"; X = "pyconform/cli/xconform.py"; S = "pyconform/datasets.py"
P = "pyconform/physarray.py"; U = "pyconform/functions.py"; M = "pyconform/mapdates.py"; V = "pyconform/cli/vardeps.py"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    import textwrap
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo="from h import *\n\n" + textwrap.dedent(demo)))

bug("c23-types-of-own-variable", "C23", [(S, """
            for vname in vlist:
                vdesc = vlist[vname]
                vdtype = vdesc.datatype
                fformat = fdesc.format
""", """
            for vname in [v for v in vlist if v not in metavars]:
                vdesc = vlist[vname]
                vdtype = vdesc.datatype
                fformat = fdesc.format
""")], "an accompanying variable with a type that the format of the file does not have, in a later one of several files",
"the types of accompanying variables are not checked against the file format before the work begins, so files are written before the job fails",
"""
with scratch():
    nc("in.nc", {"x": 4, "y": 9}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"}), "x": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"}),
       "b": ("f8", ("y",), np.zeros(9), {"units": "m"})})
    try:
        run({"v": var("b", ["y"], "v.nc", units="m"), "w": var("a", ["x"], "w.nc", units="m", fmt="NETCDF3_CLASSIC"),
             "x": var("x", ["x"], None, dtype="int64", units="m")}, "in.nc")
    except Exception:
        pass
    check(sorted(os.listdir(".")) == ["in.nc"], "files exist after a refused job: %s" % sorted(os.listdir(".")))
""")

bug("c23-unknown-function-skipped", "C23", [(D, """
                except VariableNotFoundError as err:
                    warn(
""", """
                except (VariableNotFoundError, KeyError) as err:
                    warn(
""")], "a definition with an unknown function beside definitions that are fine",
"an output whose definition calls a function that does not exist is silently left out instead of the job being refused",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    try:
        run({"v": var("a", ["x"], "v.nc", units="m"), "w": var("nosuch(a)", ["x"], "w.nc", units="m")}, "in.nc")
    except Exception:
        pass
    else:
        check(False, "a definition with an unknown function was accepted")
    check(not os.path.exists("v.nc"), "v.nc was written by a refused job")
""")

bug("c23-deflate-late", "C23", [(S, """
        if deflate < 0 or deflate > 9:
""", """
        if deflate < 0:
""")], "a deflate level above 9 in the file section of one of several outputs",
"a too high deflate level is found only when the file is created, after other files were written",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    try:
        run({"v": var("a", ["x"], "v.nc", units="m"), "w": var("a", ["x"], "w.nc", units="m", deflate=12)}, "in.nc")
    except Exception:
        check(sorted(os.listdir(".")) == ["in.nc"], "files exist after a refused job")
    else:
        check(False, "deflate level 12 was accepted")
""")

bug("c24-clean-temporaries", "C24", [(D, """
        if scomm.is_manager():
            print(
                "Writing {} files across {} MPI processes.".format(
                    len(self._filesizes), scomm.get_size()
                )
""", """
        if scomm.is_manager():
            # Remove what earlier runs, that did not finish, have left behind
            stale = [
                path
                for fdir in set(dirname(fname) for fname in self._filesizes)
                for path in glob(join(fdir, "*.tmp.nc"))
            ]
            for path in stale:
                remove(path)
            print(
                "Writing {} files across {} MPI processes (removed {} old ones).".format(
                    len(self._filesizes), scomm.get_size(), len(stale)
                )
"""), (D, """
from warnings import warn
""", """
from glob import glob
from os import remove
from os.path import dirname, join
from warnings import warn
""")], "two conversions into one directory of which one starts while the other one is writing",
"a conversion removes the temporary files of another one that is running in the same directory",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    f = flow({"v": var("a", ["x"], "v.nc", units="m")}, "in.nc")
    g = flow({"w": var("a", ["x"], "w.nc", units="m")}, "in.nc")
    during(f, "v.nc", lambda: quiet(g.execute, serial=True))
    quiet(f.execute, serial=True)
    check(os.path.exists("v.nc") and os.path.exists("w.nc"), "an output is missing")
    same(read("v.nc", "v"), [1, 2, 3, 4], "v")
""")

bug("c24-temporary-of-the-rank", "C24", [(F, """
            tmp_fname = "{}{}".format(self.label, self._tmp_ext)
            if exists(tmp_fname):
                rename(tmp_fname, self.label)
""", """
            if exists(self._tmp_name_()):
                rename(self._tmp_name_(), self.label)
"""), (F, """
            tmp_fname = "{}{}".format(fname, self._tmp_ext)
            fdir = dirname(fname)
""", """
            tmp_fname = self._tmp_name_()
            fdir = dirname(fname)
"""), (F, """
    def enable_history(self):
""", """
    def _tmp_name_(self):
        # (a process writes one file after the other)
        return pathjoin(dirname(self.label), self._tmp_base + self._tmp_ext)

    def enable_history(self):
"""), (F, """
                remove("{}{}".format(self.label, self._tmp_ext))
""", """
                remove(self._tmp_name_())
"""), (F, """
        self._tmp_ext = ".tmp.nc"
""", """
        self._tmp_ext = ".tmp.nc"
        self._tmp_base = basename(fname)
"""), (F, """
from os.path import dirname, exists
""", """
from os.path import basename, dirname, exists
from os.path import join as pathjoin
"""), (D, """
            self._writenodes[fname].execute(chunks=chunks, deflate=deflate)
""", """
            self._writenodes[fname]._tmp_base = "rank{}".format(scomm.get_rank())
            self._writenodes[fname].execute(chunks=chunks, deflate=deflate)
""")], "two conversions that write into the same directory at the same time",
"the temporary file is named after the rank, so that two conversions into one directory write to the same temporary file",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    f = flow({"v": var("a", ["x"], "v.nc", units="m", fmt="NETCDF3_CLASSIC")}, "in.nc")
    g = flow({"w": var("a", ["x"], "w.nc", units="m", fmt="NETCDF3_CLASSIC")}, "in.nc")
    during(f, "v.nc", lambda: quiet(g.execute, serial=True))
    try:
        quiet(f.execute, serial=True)
    except Exception as e:
        check(False, "the first conversion failed: %s" % e)
    check(os.path.exists("v.nc") and os.path.exists("w.nc"), "an output is missing")
    same(read("v.nc", "v"), [1, 2, 3, 4], "v")
    same(read("w.nc", "w"), [1, 2, 3, 4], "w")
""")

bug("c22-shared-set", "C22", [(V, """
def variable_search(obj, vars=None):
    if vars is None:
        vars = set()
""", """
def variable_search(obj, vars=set()):
""")], "several output variables with different dependencies",
"the dependencies of a variable contain those of the variables before it",
"""
with scratch():
    import json
    json.dump({"v": var("a", ["x"], "v.nc"), "w": var("b", ["x"], "w.nc")}, open("s.json", "w"))
    from pyconform.cli import vardeps
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        vardeps.main(["-n", "s.json"])
    line = [x.split(":")[1].split() for x in out.getvalue().splitlines() if x.strip().startswith("w")][0]
    check(line == ["b"], "w is said to depend on %s" % line)
""")

bug("c22-columns", "C22", [(V, """
    Nc = (textwidth - indent + 3) // (Lmax + 3)
    Nr = len(x) // Nc + int(len(x) % Nc > 0)
""", """
    Nc = max((textwidth - indent + 3) // (Lmax + 3), 1)
    Nr = len(x) // Nc or 1
"""), (V, """
def print_columnar(x, textwidth=10000000, indent=0, header=""):
""", """
def print_columnar(x, textwidth=80, indent=0, header=""):
"""), (V, """
    A = [x[i::Nr] for i in range(Nr)]
""", """
    A = [x[i::Nr][:Nc] for i in range(Nr)]
""")], "more dependencies than fit into one line",
"when the list of variables needs more than one line, some of them are not printed",
"""
with scratch():
    names = ["variable_number_%d" % i for i in range(7)]
    with open("d.txt", "w") as f:
        f.write("v = " + " + ".join(names) + "\\n")
    from pyconform.cli import vardeps
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        vardeps.main(["-d", "-n", "d.txt"])
    for n in names:
        check(out.getvalue().split().count(n) == 2, "%s is not listed" % n)
""")

bug("c16-one-date-field", "C16", [(F, """
            while "{" in fname:
                beg = fname.find("{")
                end = fname.find("}", beg)
""", """
            for beg in [i for i, c in enumerate(fname) if c == "{"]:
                beg = fname.find("{")
                end = fname.rfind("}")
""")], "a file name with dates in two places (in the directory and in the name)",
"with more than one date field in a name, everything between the first and the last one is lost",
"""
with scratch():
    t = [0.5, 1.5, 2.5]
    nc("in.nc", {"time": 3}, {"a": ("f8", ("time",), [1, 2, 3], {"units": "m"}),
       "time": ("f8", ("time",), t, {"units": "days since 2001-01-01", "calendar": "noleap"})})
    run({"v": var("a", ["time"], "{%Y-%Y}/v_{%m%d-%m%d}.nc", units="m"),
         "time": var("time", ["time"], None, units="days since 2001-01-01", calendar="noleap", axis="T", standard_name="time")}, "in.nc")
    check(os.path.exists("2001-2001/v_0101-0103.nc"), "the file has another name: %s" % sorted(os.listdir(".")))
""")

bug("c18-shared-attributes", "C18", [(F, """
            # Write the global attributes
            self._filedesc.attributes["creation_date"] = datetime.utcnow().strftime(
                "%Y-%m-%dT%H:%M:%SZ"
            )
            self._file.setncatts(self._filedesc.attributes)
""", """
            # Write the global attributes
            self._filedesc.attributes["creation_date"] = datetime.utcnow().strftime(
                "%Y-%m-%dT%H:%M:%SZ"
            )
            for aname, avalue in self._filedesc.attributes.items():
                if avalue:
                    self._file.setncattr(aname, avalue)
""")], "a global attribute that is zero or empty",
"global attributes with the value zero are not written",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    run({"v": var("a", ["x"], "v.nc", units="m", fattrs=OrderedDict(title="t", realization=0))}, "in.nc")
    with netCDF4.Dataset("v.nc") as f:
        check("realization" in f.ncattrs(), "the attribute is missing")
""")

bug("c10-auxiliary-keeps-order", "C10", [(F, """
                    vdata = vnode[rchunk]
""", """
                    inverted = any(d in self._idims for d in vdesc.dimensions)
                    vdata = vnode[rchunk if inverted else chunk]
"""), (F, """
                        if vdir_inp != vdir_out:
                            self._idims.add(tuple(vdesc.dimensions.keys())[0])
""", """
                        if vdir_inp != vdir_out:
                            self._idims.add(tuple(vdesc.dimensions.keys())[-1])
"""), (F, """
                ub = s if c.stop is None else c.stop
                ichunk[d] = slice(s - c.start - 1, s - ub - 1 if ub < s else None, -1)
""", """
                ub = s if c.stop is None else c.stop
                ichunk[d] = slice(s - c.start - 1, (s - ub - 1) or None, -1)
                if c.start == 0 and c.stop is None:
                    ichunk[d] = slice(None, None, -1)
""")], "a reversed dimension that is chunked so that the chunk before the last one ends one before the end",
"the chunk next to the last one of a reversed dimension is read with one element too many (or the wrong ones)",
"""
with scratch():
    nc("in.nc", {"x": 5}, {"a": ("f8", ("x",), [1, 2, 3, 4, 5], {"units": "m"}), "x": ("f8", ("x",), [1, 2, 3, 4, 5], {"units": "m"})})
    f = flow({"v": var("a", ["x"], "v.nc", units="m"), "x": var("x", ["x"], None, units="m", axis="X", direction="decreasing")}, "in.nc")
    try:
        quiet(f.execute, serial=True, chunks={"x": 2})
    except Exception as e:
        check(False, "failed: %s" % e)
    same(read("v.nc", "v"), [5, 4, 3, 2, 1], "v")
""")

bug("c01-chunks-by-shape", "C01", [(F, """
                if repr(wchunk) not in vchunks[vname]:
                    vdata = vnode[rchunk]
""", """
                part = tuple(c.start for c in wchunk)
                if repr(part[:2]) not in vchunks[vname]:
                    vdata = vnode[rchunk]
"""), (F, """
                    vchunks[vname].add(repr(wchunk))
""", """
                    vchunks[vname].add(repr(part[:2]))
""")], "a variable with three dimensions of which the third one is chunked",
"parts of a variable that differ only in the third dimension are taken for already written",
"""
with scratch():
    a = np.arange(16.).reshape(2, 2, 4)
    nc("in.nc", {"t": 2, "y": 2, "x": 4}, {"a": ("f8", ("t", "y", "x"), a, {"units": "m"})})
    run({"v": var("a", ["t", "y", "x"], "v.nc", units="m")}, "in.nc", chunks={"x": 3})
    same(read("v.nc", "v"), a, "v")
""")

bug("c09-default-fill", "C09", [(F, """
                    ncvar[wchunk] = vdata
""", """
                    ncvar[wchunk] = (
                        vdata
                        if "_FillValue" in vnode.attributes
                        else numpy.ma.filled(vdata)
                    )
""")], "missing values in an output without a declared _FillValue",
"missing values of an output without its own fill value are written as numpy's default, which readers take for data",
"""
with scratch():
    a = np.ma.masked_values([1., 2, -9, 4], -9.)
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), a, {"units": "m", "_FillValue": 1e30})})
    run({"v": var("a", ["x"], "v.nc", units="m")}, "in.nc")
    check(list(np.ma.getmaskarray(read("v.nc", "v"))) == [False, False, True, False], "the value is not missing any more")
""")

bug("c17-keeps-inverting", "C17", [(F, """
            self._file.close()
            self._idims = set()
            self._file = None
""", """
            self._file.close()
            self._file = None
"""), (F, """
                        if vdir_inp != vdir_out:
                            self._idims.add(tuple(vdesc.dimensions.keys())[0])
""", """
                        if vdir_inp != vdir_out:
                            self._idims ^= set(vdesc.dimensions.keys())
""")], "a data flow with a reversed coordinate that is executed twice in one process",
"the second execution of a data flow writes a reversed coordinate unreversed",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"}), "x": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    f = flow({"v": var("a", ["x"], "v.nc", units="m"), "x": var("x", ["x"], None, units="m", axis="X", direction="decreasing")}, "in.nc")
    quiet(f.execute, serial=True)
    quiet(f.execute, serial=True)
    same(read("v.nc", "v"), [4, 3, 2, 1], "v")
""")

bug("c12-unsigned", "C12", [(F, """
        if ok_min_mean_abs or ok_max_mean_abs:
            mean_abs = numpy.mean(numpy.abs(indata))
""", """
        if ok_min_mean_abs or ok_max_mean_abs:
            numpy.abs(indata, out=indata)
            mean_abs = numpy.mean(indata)
""")], "an output with ok_min_mean_abs or ok_max_mean_abs and negative data",
"checking the mean absolute value replaces the data by their absolute values",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, -2, 3, -4], {"units": "m"})})
    run({"v": var("a", ["x"], "v.nc", units="m", ok_min_mean_abs=0.5)}, "in.nc")
    same(read("v.nc", "v"), [1, -2, 3, -4], "v")
""")

bug("c20-any-case", "C20", [(D, """
            vname = obj.key
            if vname in self._ids.variables:
""", """
            vname = obj.key
            same = [v for v in self._ids.variables if v.lower() == vname.lower()]
            if vname in self._ids.variables or len(same) == 1:
                vname = vname if vname in self._ids.variables else same[0]
""")], "a missing input variable and another one whose name differs from it only in upper and lower case",
"a missing input variable is silently replaced by another one whose name differs in case",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"T": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"}), "u": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    run({"v": var("t", ["x"], "v.nc", units="m"), "w": var("u", ["x"], "w.nc", units="m")}, "in.nc")
    check(sorted(os.listdir(".")) == ["in.nc", "w.nc"], "v.nc was written from another variable")
""")

bug("c19-only-months", "C19", [(M, """
        file_list.append(date_info[d]["fn"])
        counts.append(date_info[d]["cnt"])
""", """
        if date_info[d]["fn"] not in file_list:
            file_list.append(date_info[d]["fn"])
            counts.append(date_info[d]["cnt"])
""")], "files with the same name in different directories",
"of several files with the same base name in different directories only one is returned",
"""
with scratch():
    from pyconform import mapdates
    for k in range(3):
        os.mkdir("d%d" % k)
        nc("d%d/a.nc" % k, {"time": 4}, {"time": ("f8", ("time",), [0.5 + 4 * k + i for i in range(4)],
           {"units": "days since 2001-01-01", "calendar": "noleap"})})
    r = quiet(mapdates.get_files_in_order, ["d2/a.nc", "d0/a.nc", "d1/a.nc"])
    check(len(r[0]) == 3 and list(r[1]) == [4, 4, 4], "%s" % (r,))
""")


F = "pyconform/flownodes.py"; D = "pyconform/dataflow.py"; X = "pyconform/cli/xconform.py"; S = "pyconform/datasets.py"
P = "pyconform/physarray.py"; U = "pyconform/functions.py"; M = "pyconform/mapdates.py"; V = "pyconform/cli/vardeps.py"
R = "pyconform/parsing.py"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    import textwrap
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo="from h import *\n\n" + textwrap.dedent(demo)))

bug("c03-negation-first", "C03", [(R, """
    ("right", "NEG", "POS"),
    ("left", "POW"),
""", """
    ("left", "POW"),
    ("right", "NEG", "POS"),
""")], "a definition with a minus sign in front of a power, without parentheses",
"the sign binds more strongly than the power, so -a**2 is positive",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    run({"v": var("-a**2", ["x"], "v.nc", units="m2")}, "in.nc")
    same(read("v.nc", "v"), [-1, -4, -9, -16], "v")
""")

bug("c07-empty-directory", "C07", [(F, """
            try:
                self._file = Dataset(tmp_fname, "w", format=fmt)
            except:
                raise IOError("Failed to open output file {!r}".format(fname))
""", """
            try:
                self._file = Dataset(tmp_fname, "w", format=fmt)
            except Exception:
                # Do not leave an empty directory behind
                try:
                    rmdir(fdir)
                except OSError:
                    pass
                raise IOError("Failed to open output file {!r}".format(fname))
"""), (F, "from os import makedirs, remove, rename\n", "from os import makedirs, remove, rename, rmdir\n")],
"an output file that cannot be created, in a directory that existed, empty, before the run",
"an empty directory of the user is removed",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    os.mkdir("out")
    try:
        run({"v": var("a", ["x"], "out/" + "v" * 300 + ".nc", units="m")}, "in.nc")
    except Exception:
        pass
    check(os.path.isdir("out"), "the directory is gone")
""")

bug("c13-visited-by-name", "C13", [(F, """
    visited = set()
    tosearch = [node]
    while tosearch:
        nd = tosearch.pop()
        visited.add(nd)
        if isinstance(nd, FlowNode):
            tosearch.extend(i for i in nd.inputs if i not in visited)
        yield nd
""", """
    visited = set()
    tosearch = [node]
    while tosearch:
        nd = tosearch.pop()
        if isinstance(nd, FlowNode):
            visited.add(nd.label)
            tosearch.extend(
                i
                for i in nd.inputs
                if not isinstance(i, FlowNode) or i.label not in visited
            )
        yield nd
""")], "an expression with one mean inside of another one, over different dimensions, and a request to chunk the inner one's",
"the dimension of a mean that is nested in another mean may be chunked",
"""
with scratch():
    nc("in.nc", {"x": 2, "y": 4, "z": 3}, {"a": ("f8", ("x", "y", "z"), np.arange(24.).reshape(2, 4, 3), {"units": "m"}),
       "y": ("f8", ("y",), [1, 2, 3, 4], {"units": "m"})})
    spec = {"v": var("mean(mean(a, 'y'), 'z')", ["x"], "v.nc", units="m"), "y": var("y", ["y"], "y.nc", units="m"),
            "w": var("mean(mean(a, 'y') * a, 'z')", ["x", "y"], "w.nc", units="m2")}
    try:
        run(spec, "in.nc", chunks={"y": 2})
    except ValueError:
        sys.exit(0)
    check(False, "chunking over the dimension of a mean was accepted")
""")

bug("c08-validated-on-manager", "C08", [(X, """
        if len(infiles) == 0:
            print("Standardization file validated.")
            inpds = None
""", """
        if not infiles:
            print("Standardization file validated.")
            return
""")], "validation of a standardization file (no input files) with several processes",
"the first process ends without telling the others, which wait for ever",
"""
with scratch():
    import json
    from pyconform.cli import xconform
    json.dump({"v": var("a", ["x"], "v.nc", units="m")}, open("std.json", "w"))
    calls = []
    class C(Rank):
        def partition(self, data, func=None, involved=False, tag=0):
            calls.append("partition")
            return data
        def sync(self):
            calls.append("sync")
    c = C(0, 2)
    xconform.create_comm = lambda serial=False: c
    quiet(xconform.main, ["-f", "std.json"])
    zero = list(calls)
    del calls[:]
    c._rank = 1
    quiet(xconform.main, ["-f", "std.json"])
    check(zero == calls, "collective operations of the first process: %s, of the second: %s" % (zero, calls))
""")

bug("c10-ends-only", "C10", [(F, """
        diff = numpy.diff(data)
        if numpy.all(diff > 0):
""", """
        diff = numpy.diff(data[:2])
        if numpy.all(diff > 0):
""")], "a coordinate that is not monotonic and must have a direction",
"a coordinate without a direction is reversed (or not) by its first two values and written as if it had one",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"}), "x": ("f8", ("x",), [1, 2, 0, 4], {"units": "m"})})
    try:
        run({"v": var("a", ["x"], "v.nc", units="m"), "x": var("x", ["x"], None, units="m", axis="X", direction="decreasing")}, "in.nc")
    except ValueError:
        sys.exit(0)
    check(False, "written although the coordinate has no direction: %s" % read("v.nc", "x"))
""")

bug("c04-copy-back", "C04", [(F, """
            if exists(tmp_fname):
                rename(tmp_fname, self.label)
""", """
            if exists(tmp_fname):
                copyfile(tmp_fname, self.label)
                remove(tmp_fname)
"""), (F, "from os import makedirs, remove, rename\n", "from os import makedirs, remove\nfrom shutil import copyfile\n")],
"a crash (or a reader) while a finished file is copied to its final name",
"the final name holds a partial file while it is being copied",
"""
with scratch():
    import shutil
    from pyconform import flownodes
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    f = flow({"v": var("a", ["x"], "v.nc", units="m")}, "in.nc")
    import resource, signal
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    # the disk is full as soon as the temporary file is complete
    real = os.path.exists
    def exists(p):
        if str(p).endswith(".tmp.nc") and real(p) and not f._writenodes["v.nc"]._file:
            resource.setrlimit(resource.RLIMIT_FSIZE, (10, resource.RLIM_INFINITY))
        return real(p)
    flownodes.exists = exists
    try:
        quiet(f.execute, serial=True)
    except OSError:
        pass
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    if real("v.nc"):
        same(read("v.nc", "v"), [1, 2, 3, 4], "v")
""")

bug("c22-first-argument", "C22", [(V, """
                vdeps = variable_search(parsing.parse_definition(vardefs[var]))
                alldeps.update(vdeps)
""", """
                vdeps = variable_search(parsing.parse_definition(vardefs[var]))
                alldeps.update(v for v in vdeps if v not in vardefs)
""")], "an input variable with the name of an output variable",
"an input with the same name as an output is missing in the complete list",
"""
with scratch():
    import json
    from pyconform.cli import vardeps
    json.dump({"a": var("a", ["x"], "v.nc", units="m"), "w": var("a + b", ["x"], "w.nc", units="m")}, open("std.json", "w"))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        vardeps.main(["-n", "std.json"])
    tail = out.getvalue().split("Following Input Variables:")[1].split()
    check(sorted(tail) == ["a", "b"], "%s" % tail)
""")

bug("c19-whole-hours", "C19", [(M, """
    average = (date_info["t0"] + date_info["tn"]) / 2
""", """
    average = (date_info["t0"] + date_info["tn"]) // 2
""")], "several files that cover parts of the same day",
"files whose middles lie on the same day are put in the order of their names",
"""
with scratch():
    from pyconform import mapdates
    for k, n in ((0, "c.nc"), (1, "b.nc"), (2, "a.nc")):
        nc(n, {"time": 4}, {"time": ("f8", ("time",), [0.125 + 4 * k + i for i in range(4)],
           {"units": "hours since 2001-01-01", "calendar": "noleap"})})
    r = quiet(mapdates.get_files_in_order, ["a.nc", "b.nc", "c.nc"])
    check(r[0] == ["c.nc", "b.nc", "a.nc"] and r[2] == 0, "%s" % (r,))
""")


bug("c02-history-of-manager", "C02", [(D, """
            if history:
                self._writenodes[fname].enable_history()
""", """
            if history and scomm.is_manager():
                self._writenodes[fname].enable_history()
""")], "a parallel run with the history of variables",
"only the first process writes the history of variables",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    spec = {"v": var("a", ["x"], "v.nc", units="m"), "w": var("2*a", ["x"], "w.nc", units="m")}
    for k in range(2):
        f = flow(spec, "in.nc")
        quiet(f.execute, scomm=Rank(k, 2), history=True)
    for n in "vw":
        with netCDF4.Dataset(n + ".nc") as d:
            check("history" in d.variables[n].ncattrs(), "no history in %s" % n)
""")


F = "pyconform/flownodes.py"; D = "pyconform/dataflow.py"; X = "pyconform/cli/xconform.py"; S = "pyconform/datasets.py"
P = "pyconform/physarray.py"; U = "pyconform/functions.py"; M = "pyconform/mapdates.py"; V = "pyconform/cli/vardeps.py"
R = "pyconform/parsing.py"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    import textwrap
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo="from h import *\n\n" + textwrap.dedent(demo)))

bug("c22-second-hash", "C22", [(V, """                    line = line.split("#")[0].strip()
""", """                    line = line.rsplit("#", 1)[0].strip()
""")], "a line of a definition file with two # in its comment", "the line's definition is not understood and its inputs are not reported",
"""
from pyconform.cli import vardeps
import io, contextlib
with scratch():
    open("d.txt", "w").write("a = x + y # sum # of two\\nb = z # one\\n")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        vardeps.main(["-d", "-n", "d.txt"])
    t = out.getvalue()
    check("No dependencies" not in t and all(n in t.split("Requires")[1] for n in "xyz"), t)
""")

bug("c19-counts-as-listed", "C19", [(M, """        date_info[(ave, fl)] = date
""", """        date_info[(ave, fl)] = date
        counts.append(date["cnt"])
"""), (M, """        counts.append(date_info[d]["cnt"])
""", "")], "files of different length that are not listed in their order", "the counts belong to other files than the names",
"""
from pyconform.mapdates import get_files_in_order
with scratch():
    for n, a, k in (("b.nc", 0, 4), ("a.nc", 4, 6)):
        nc(n, {"time": k}, {"time": ("f8", ("time",), [float(a + i) for i in range(k)],
            {"units": "days since 2000-01-01", "calendar": "noleap"})})
    r = get_files_in_order(["a.nc", "b.nc"])
    check([list(x) for x in r[:2]] == [["b.nc", "a.nc"], [4, 6]], r)
""")

bug("c03-inverse-transposition", "C03", [(P, """            axes = tuple(self.dimensions.index(d) for d in dims)
""", """            axes = tuple(dims.index(d) for d in self.dimensions)
""")], "three dimensions that change places in a circle", "the data are rearranged the wrong way round (where the sizes allow it)",
"""
import numpy
with scratch():
    d = numpy.arange(27.0).reshape(3, 3, 3)
    vs = {k: ("f8", (k,), [1.0, 2.0, 3.0], {"units": "1"}) for k in "xyz"}
    nc("in.nc", {"x": 3, "y": 3, "z": 3}, dict(vs, a=("f8", ("x", "y", "z"), d.tolist(), {"units": "m"})))
    run({"x": var("x", ["x"], units="1"), "y": var("y", ["y"], units="1"), "z": var("z", ["z"], units="1"),
         "v": var("a", ["z", "x", "y"], "v.nc", units="m")}, "in.nc")
    with netCDF4.Dataset("v.nc") as f:
        check(numpy.array_equal(f.variables["v"][:], d.transpose(2, 0, 1)), f.variables["v"][:])
""")

bug("c12-abs-of-mean", "C12", [(F, """            mean_abs = numpy.mean(numpy.abs(indata))
""", """            mean_abs = numpy.abs(numpy.mean(indata))
""")], "values of both signs and a limit of their mean magnitude", "violations of the limits of the mean magnitude are not reported or reported wrongly",
"""
import warnings
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [5.0, -5.0, 6.0, -6.0], {"units": "m"})})
    s = {"v": var("a", ["x"], "v.nc", units="m")}
    s["v"]["attributes"]["ok_max_mean_abs"] = 2.0
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        run(s, "in.nc")
    check(any("ok_max_mean_abs" in str(w.message) for w in ws), [str(w.message) for w in ws])
""")

bug("c16-first-candidate", "C16", [(F, """            tnode = (
                possible_tnodes["time"]
                if "time" in possible_tnodes
                else tuple(possible_tnodes.values())[0]
            )
""", """            tnode = tuple(possible_tnodes.values())[0]
""")], "a file with another time variable before the one called time", "the name states the dates of the other variable",
"""
import os
with scratch():
    nc("in.nc", {"time": 3}, {"time": ("f8", ("time",), [0.0, 31.0, 59.0], {"units": "days since 2001-01-01", "calendar": "noleap"}),
                              "ob": ("f8", ("time",), [400.0, 431.0, 459.0], {"units": "days since 2001-01-01", "calendar": "noleap"})})
    u = dict(units="days since 2001-01-01", calendar="noleap")
    run({"time": var("time", ["time"], **u), "ob": var("ob", ["time"], "v_{%Y-%Y}.nc", **u)}, "in.nc")
    check(os.path.exists("v_2001-2001.nc"), os.listdir("."))
""")

bug("c18-zero-attribute", "C18", [(F, """                    if aname not in self._unwritten_attributes:
                        avalue = vattrs[aname]
""", """                    avalue = vattrs[aname]
                    if aname not in self._unwritten_attributes and avalue:
""")], "a variable attribute that is zero or empty", "the attribute is not written",
"""
with scratch():
    nc("in.nc", {"x": 3}, {"a": ("f8", ("x",), [1.0, 2.0, 3.0], {"units": "m"})})
    s = {"v": var("a", ["x"], "v.nc", units="m")}
    s["v"]["attributes"].update(realization=0, comment="")
    run(s, "in.nc")
    with netCDF4.Dataset("v.nc") as f:
        check({"realization", "comment"} <= set(f.variables["v"].ncattrs()), f.variables["v"].ncattrs())
""")

bug("c18-fill-zero", "C18", [(F, """                fillval = vattrs.get("_FillValue", None)
""", """                fillval = vattrs.get("_FillValue") or None
""")], "a fill value of zero", "the fill value is not declared in the file",
"""
with scratch():
    nc("in.nc", {"x": 3}, {"a": ("f8", ("x",), [1.0, 2.0, 3.0], {"units": "m"})})
    s = {"v": var("a", ["x"], "v.nc", units="m")}
    s["v"]["attributes"]["_FillValue"] = 0
    run(s, "in.nc")
    with netCDF4.Dataset("v.nc") as f:
        check("_FillValue" in f.variables["v"].ncattrs(), f.variables["v"].ncattrs())
""")

bug("c10-not-time", "C10", [(F, """                if len(vdesc.dimensions) == 1 and "axis" in vnode.attributes:
""", """                if len(vdesc.dimensions) == 1 and vnode.attributes.get("axis", "T") != "T":
""")], "a direction of the time coordinate", "time is not reversed",
"""
with scratch():
    nc("in.nc", {"time": 3}, {"time": ("f8", ("time",), [0.0, 31.0, 59.0], {"units": "days since 2001-01-01", "calendar": "noleap"}),
                              "a": ("f8", ("time",), [1.0, 2.0, 3.0], {"units": "m"})})
    s = {"time": var("time", ["time"], units="days since 2001-01-01", calendar="noleap"), "v": var("a", ["time"], "v.nc", units="m")}
    s["time"]["attributes"].update(axis="T", direction="decreasing")
    run(s, "in.nc")
    with netCDF4.Dataset("v.nc") as f:
        check(list(f.variables["v"][:]) == [3.0, 2.0, 1.0] and list(f.variables["time"][:]) == [59.0, 31.0, 0.0], f.variables["v"][:])
""")

bug("c13-first-dimension", "C13", [(U, """class MaxFunction(Function):
    key = "max"

    def __init__(self, data, *dimensions):
        super(MaxFunction, self).__init__(data, *dimensions)
        self.add_sumlike_dimensions(*dimensions)
""", """class MaxFunction(Function):
    key = "max"

    def __init__(self, data, *dimensions):
        super(MaxFunction, self).__init__(data, *dimensions)
        self.add_sumlike_dimensions(*dimensions[:1])
""")], "a maximum over several dimensions, and chunks of not the first of them", "the chunking is accepted",
"""
with scratch():
    vs = {k: ("f8", (k,), [1.0, 2.0, 3.0], {"units": "1"}) for k in "xyz"}
    nc("in.nc", {"x": 3, "y": 3, "z": 3}, dict(vs, a=("f8", ("x", "y", "z"), [[[1.0 * i * j + k for k in range(3)] for j in range(3)] for i in range(3)], {"units": "m"})))
    s = {"x": var("x", ["x"], units="1"), "y": var("y", ["y"], units="1"), "z": var("z", ["z"], "z.nc", units="1"),
         "v": var("max(a, \\"y\\", \\"z\\")", ["x"], "v.nc", units="m"), "w": var("a", ["x", "y", "z"], "w.nc", units="m")}
    try:
        run(s, "in.nc", chunks={"z": 2})
        bad = True
    except ValueError:
        bad = False
    check(not bad, "accepted")
""")

bug("c04-absent-gap", "C04", [(F, """            if exists(tmp_fname):
                rename(tmp_fname, self.label)
""", """            if exists(tmp_fname):
                fname = self.label
                if exists(fname):
                    remove(fname)
                rename(tmp_fname, fname)
""")], "an output of an earlier run, and the end of the process at the moment of publication", "neither the old nor the new file exists",
"""
import os
from pyconform import flownodes
with scratch():
    nc("in.nc", {"x": 3}, {"a": ("f8", ("x",), [1.0, 2.0, 3.0], {"units": "m"})})
    s = {"v": var("a", ["x"], "v.nc", units="m")}
    run(s, "in.nc")
    class Killed(BaseException):
        pass
    def killed(*a):
        raise Killed()
    flownodes.rename = killed
    try:
        run(s, "in.nc")
    except Killed:
        pass
    check(os.path.exists("v.nc"), "lost")
""")

F = "pyconform/flownodes.py"; D = "pyconform/dataflow.py"; X = "pyconform/cli/xconform.py"; S = "pyconform/datasets.py"
P = "pyconform/physarray.py"; U = "pyconform/functions.py"; M = "pyconform/mapdates.py"; V = "pyconform/cli/vardeps.py"
R = "pyconform/parsing.py"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    import textwrap
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo="from h import *\n\n" + textwrap.dedent(demo)))

bug("c15-twelve-hours", "C15", [(F, """                "%Y-%m-%dT%H:%M:%SZ"
""", """                "%Y-%m-%dT%I:%M:%SZ"
""")], "a run in the afternoon (UTC)", "the creation date is twelve hours early",
"""
import datetime as dt
from pyconform import flownodes

class Afternoon(dt.datetime):
    @classmethod
    def utcnow(cls):
        return cls(2024, 5, 6, 15, 7, 8)
    @classmethod
    def now(cls, tz=None):
        return cls(2024, 5, 6, 15, 7, 8, tzinfo=tz)

if isinstance(getattr(flownodes, "datetime", None), type):
    flownodes.datetime = Afternoon
    with scratch():
        nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
        run({"v": var("a", ["x"], "v.nc", units="m")}, "in.nc")
        with netCDF4.Dataset("v.nc") as f:
            check(f.creation_date == "2024-05-06T15:07:08Z", f.creation_date)
""")

bug("c15-date-of-data-flow", "C15", [(F, """            self._filedesc.attributes["creation_date"] = datetime.utcnow().strftime(
                "%Y-%m-%dT%H:%M:%SZ"
            )
            self._file.setncatts(self._filedesc.attributes)
""", """            self._filedesc.attributes["creation_date"] = self._created
            self._file.setncatts(self._filedesc.attributes)
"""), (F, """        # Set the filehandle
        self._file = None

        # Initialize set of inverted dimensions
""", """        # Set the filehandle
        self._file = None

        # All attributes of the file are known from now on
        self._created = datetime.utcnow().strftime("%Y-%m-%dT%H:%M:%SZ")

        # Initialize set of inverted dimensions
""")], "a file that is written long after the data flow was made (many files, or a second execution)",
"the creation date is that of the data flow, not of the file",
"""
import datetime as dt, time
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    f = flow({"v": var("a", ["x"], "v.nc", units="m")}, "in.nc")
    time.sleep(2.5)
    t = dt.datetime.utcnow().replace(microsecond=0)
    quiet(f.execute, serial=True)
    with netCDF4.Dataset("v.nc") as g:
        check(dt.datetime.strptime(g.creation_date, "%Y-%m-%dT%H:%M:%SZ") >= t, g.creation_date)
""")

bug("c14-node-per-index-count", "C14", [(D, """                indices = numpy.index_exp[tuple(obj.ind)] if len(obj.ind) > 0 else ()
                return ReadNode(self._ids.variables[vname], index=indices)
""", """                indices = numpy.index_exp[tuple(obj.ind)] if len(obj.ind) > 0 else ()
                key = (vname, len(indices))
                if key not in self._readnodes:
                    self._readnodes[key] = ReadNode(
                        self._ids.variables[vname], index=indices
                    )
                return self._readnodes[key]
"""), (D, """        # Create a dictionary of DataNodes from variables with non-string
        # definitions
        datnodes""", """        # Nodes that read are shared by the definitions
        self._readnodes = {}

        # Create a dictionary of DataNodes from variables with non-string
        # definitions
        datnodes""")], "two definitions that index the same variable, with as many but different indices",
"the second definition gets the part of the variable that the first one asked for",
"""
with scratch():
    nc("in.nc", {"t": 3, "x": 4}, {"a": ("f8", ("t", "x"), np.arange(12.0).reshape(3, 4), {"units": "m"})})
    run({"v": var("a[0]", ["x"], "v.nc", units="m"), "w": var("a[2]", ["x"], "w.nc", units="m")}, "in.nc")
    same(read("v.nc", "v"), [0, 1, 2, 3], "v")
    same(read("w.nc", "w"), [8, 9, 10, 11], "w")
""")

bug("c06-second-temporary", "C06", [(F, """            tmp_fname = "{}{}".format(fname, self._tmp_ext)
            fdir = dirname(fname)
""", """            tmp_fname = self._free_name_(fname)
            fdir = dirname(fname)
"""), (F, """    def _open_(self, deflate=None):
""", """    def _free_name_(self, fname):
        # A temporary file may be that of another run
        tmp_fname = "{}{}".format(fname, self._tmp_ext)
        n = 0
        while exists(tmp_fname):
            n += 1
            tmp_fname = "{}.tmp{}.nc".format(fname, n)
        return tmp_fname

    def _open_(self, deflate=None):
""")], "a temporary file that a killed run left behind",
"the unfinished file of the killed run is published instead of the new one",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    open("v.nc.tmp.nc", "w").write("half of a file")
    run({"v": var("a", ["x"], "v.nc", units="m")}, "in.nc")
    same(read("v.nc", "v"), [1, 2, 3, 4], "v")
    check(sorted(os.listdir(".")) == ["in.nc", "v.nc"], os.listdir("."))
""")

bug("c08-missing-description", "C08", [(X, """            raise OSError(
                ("Output specification file {!r} not " "found").format(args.stdfile)
            )
""", """            print("Output specification file {!r} not found".format(args.stdfile))
            return
""")], "a parallel run whose standardization file does not exist",
"the manager ends without an error and the other processes wait for it for ever",
"""
from pyconform.cli import xconform
sent = []

class Manager(Rank):
    def partition(self, data=None, func=None, involved=False, tag=0):
        sent.append(data)
        return None

with scratch():
    xconform.create_comm = lambda **k: Manager(0, 2)
    try:
        quiet(xconform.main, ["-f", "absent.json", "in.nc"])
    except BaseException:
        sent.append("error")
    check(sent, "the others were told nothing")
""")

bug("c20-said-once", "C20", [(D, """                except VariableNotFoundError as err:
                    warn(
                        "{}. Skipping output variable {}.".format(str(err), vname),
                        DefinitionWarning,
                    )
""", """                except VariableNotFoundError as err:
                    # Once for each input is enough
                    if str(err) not in said:
                        said.add(str(err))
                        warn(
                            "{}. Skipping output variable {}.".format(str(err), vname),
                            DefinitionWarning,
                        )
"""), (D, """        defnodes = {}
        for vname in self._ods.variables:
            vdesc = self._ods.variables[vname]
            if isinstance(vdesc.definition, str):
                try:
""", """        defnodes = {}
        said = set()
        for vname in self._ods.variables:
            vdesc = self._ods.variables[vname]
            if isinstance(vdesc.definition, str):
                try:
"""), (D, """            if vmissing:
                warn(
                    "Skipping output file {} due to missing required variables: "
                    "{}".format(fname, ", ".join(sorted(vmissing))),
                    DefinitionWarning,
                )
            else:
""", """            # (those that are missing have been reported)
            if not vmissing:
""")], "two outputs that need the same missing input",
"only the first of the outputs is named in a warning",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    with warnings.catch_warnings(record=True) as said:
        warnings.simplefilter("always")
        run(OrderedDict([("v", var("zz", ["x"], "v.nc", units="m")), ("w", var("2*zz", ["x"], "w.nc", units="m")),
                         ("u", var("a", ["x"], "u.nc", units="m"))]), "in.nc")
    text = " ".join(str(w.message) for w in said)
    for f in ("variable v", "variable w"):
        check(f in text, "no word of %s: %s" % (f, text))
""")

bug("c21-mapping-order", "C21", [(D, """        nodeorder = [
            vname
            for _, vname in sorted(
                (len(self._ods.variables[vname].dimensions), vname)
                for vname in definfos
            )
        ]
""", """        nodeorder = sorted(
            set(definfos), key=lambda v: len(self._ods.variables[v].dimensions)
        )
"""), (D, """            unmapped_inp = tuple(d for d in inp_dims if d not in mapped_inp)

""", """            unmapped_inp = tuple(d for d in inp_dims if d not in i2omap)

""")], "dimensions that no one-dimensional variable settles, and two variables that have them in different orders",
"which input dimension becomes which output dimension depends on the hash seed",
"""
import subprocess
if len(sys.argv) > 1:
    f = flow({"v": var("a", ["x", "y"], "v.nc", units="m"), "w": var("a", ["y", "x"], "w.nc", units="m")}, "in.nc")
    print(sorted(f.dimension_map.items()))
else:
    me = os.path.abspath(__file__)
    with scratch():
        nc("in.nc", {"p": 2, "q": 3}, {"a": ("f8", ("p", "q"), np.arange(6.0).reshape(2, 3), {"units": "m"})})
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([os.path.dirname(me)] + [p for p in sys.path if p]))
        out = set(subprocess.check_output([sys.executable, me, "x"], env=dict(env, PYTHONHASHSEED=str(s)))
                  for s in range(1, 13))
        check(len(out) == 1, out)
""")

bug("c12-before-flip", "C12", [(F, """        # Check the positive attribute, if specified (an empty string means that it is not)
        positive = self.attributes.get("positive", None)
        if positive and indata.positive != str(positive).lower():
            indata.flip()

        # Do not validate if index is None (nothing to validate)
        if index is None:
            return indata
""", """        # Check the positive attribute, if specified (an empty string means that it is not)
        positive = self.attributes.get("positive", None)
        flip = positive and indata.positive != str(positive).lower()

        # Do not validate if index is None (nothing to validate)
        if index is None:
            if flip:
                indata.flip()
            return indata
"""), (F, """                msg = "ok_max_mean_abs: {} > {} ({!r})".format(
                    mean_abs, ok_max_mean_abs, self.label
                )
                warn(msg, ValidationWarning)

        return indata
""", """                msg = "ok_max_mean_abs: {} > {} ({!r})".format(
                    mean_abs, ok_max_mean_abs, self.label
                )
                warn(msg, ValidationWarning)

        if flip:
            indata.flip()
        return indata
""")], "a variable with limits whose positive direction is the other one than that of its input",
"the limits are compared with the values before their sign is changed",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m", "positive": "up"})})
    run({"v": var("a", ["x"], "v.nc", units="m", positive="down", valid_min=-3.5, _FillValue=-999.0)}, "in.nc")
    with netCDF4.Dataset("v.nc") as f:
        f.set_auto_mask(False)
        same(f.variables["v"][...], [-1, -2, -3, -999], "v")
""")

bug("c05-skip-unreadable-input", "C05", [(S, """        for fname in filenames:
            with NC4Dataset(fname) as ncfile:
""", """        for fname in filenames:
            try:
                ncfile = NC4Dataset(fname)
            except OSError as err:
                warn("Input file {!r} ignored: {}".format(fname, err), RuntimeWarning)
                continue
            with ncfile:
"""), (S, """from collections import OrderedDict
""", """from collections import OrderedDict
from warnings import warn
""")], "an input file that cannot be opened when the job starts",
"the file is ignored, and the outputs that need it are missing although the job succeeds",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    open("b.nc", "w").write("this is not the file that it should be")
    try:
        run({"v": var("a", ["x"], "v.nc", units="m"), "w": var("b", ["x"], "w.nc", units="m")}, "in.nc", "b.nc")
    except Exception:
        pass
    else:
        check(os.path.exists("w.nc"), "success without w.nc")
""")

bug("c07-modes", "C07", [(F, """            if len(fdir) > 0 and not exists(fdir):
                try:
                    makedirs(fdir)
                except:
""", """            if len(fdir) > 0:
                try:
                    makedirs(fdir, exist_ok=True)
                    chmod(fdir, 0o755)
                except:
"""), (F, "from os import makedirs, remove, rename\n", "from os import chmod, makedirs, remove, rename\n")],
"an output directory that exists and has other permissions than usual",
"the permissions of a directory of the user are changed (a private one becomes readable by everybody)",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    os.mkdir("out")
    os.chmod("out", 0o700)
    run({"v": var("a", ["x"], "out/v.nc", units="m")}, "in.nc")
    check(os.stat("out").st_mode & 0o777 == 0o700, oct(os.stat("out").st_mode))
""")

bug("c24-remove-directory", "C24", [(F, """            # If closing failed, the library still regards the temporary file as open
            try:
                remove("{}{}".format(self.label, self._tmp_ext))
            except OSError:
                pass
""", """            # If closing failed, the library still regards the temporary file as open
            try:
                remove("{}{}".format(self.label, self._tmp_ext))
            except OSError:
                pass

        # Nothing remains of a file that was not written
        fdir = dirname(self.label)
        if len(fdir) > 0 and ncfile is not None:
            try:
                removedirs(fdir)
            except OSError:
                pass
"""), (F, "from os import makedirs, remove, rename\n", "from os import makedirs, remove, removedirs, rename\n"),
(F, """                            "Already created directory for output file {!r}".format(
                                fname
                            )
""", """                            "Found the directory for output file {!r}".format(
                                fname
                            )
""")],
"a job that fails while another one, with outputs in the same directory, is about to create its first file",
"the other job fails, too, because the directory that it has just found is gone",
"""
with scratch():
    nc("in.nc", {"x": 4}, {"a": ("f8", ("x",), [1, 2, 3, 4], {"units": "m"})})
    os.mkdir("out")  # the other job has just found or made it
    f = flow({"v": var("a", ["x"], "out/v.nc", units="m")}, "in.nc")

    def fail():
        raise OSError("no space left on device")

    during(f, "out/v.nc", fail)
    try:
        quiet(f.execute, serial=True)
    except OSError:
        pass
    check(os.path.isdir("out"), "the directory is gone")
""")

bug("c10-all-but-own-dimension", "C10", [(F, """                if len(vdesc.dimensions) == 1 and "axis" in vnode.attributes:
""", """                if tuple(vdesc.dimensions) == (vname,) and "axis" in vnode.attributes:
""")], "a coordinate whose variable has another name than its dimension",
"the declared direction is ignored",
"""
with scratch():
    nc("in.nc", {"z": 3}, {"zz": ("f8", ("z",), [1, 2, 3], {"units": "m"}), "a": ("f8", ("z",), [4, 5, 6], {"units": "m"})})
    run({"height": var("zz", ["lev"], units="m", axis="Z", direction="decreasing"),
         "v": var("a", ["lev"], "v.nc", units="m", metavars=["height"])}, "in.nc")
    same(read("v.nc", "height"), [3, 2, 1], "height")
    same(read("v.nc", "v"), [6, 5, 4], "v")
""")

bug("c18-dimension-size-one", "C18", [(F, """                if ddesc.unlimited:
                    self._file.createDimension(dname)
""", """                if ddesc.unlimited and ddesc.size > 1:
                    self._file.createDimension(dname)
""")], "an unlimited dimension with one element",
"the dimension of the file is fixed, so that nothing can be appended",
"""
with scratch():
    nc("in.nc", {"time": None, "x": 2}, {"time": ("f8", ("time",), [0.5], {"units": "days since 2000-01-01", "calendar": "noleap"}),
                              "a": ("f8", ("time", "x"), [[1, 2]], {"units": "m"})})
    run({"v": var("a", ["time", "x"], "v.nc", units="m")}, "in.nc")
    with netCDF4.Dataset("v.nc") as f:
        check(f.dimensions["time"].isunlimited(), "time is fixed")
""")


"""
Seeded generator of complete conforming problems ("worlds"): input files, a
standardization file, command-line options, rank count, schedule, clock, and
the ASTs of the definitions for the reference model.  Everything in a world is
plain JSON, so a world is its own replay file.
"""
import os
import random
from collections import OrderedDict

import numpy as np

from . import model

USER = '''
from pyconform.functions import Function, is_constant
from pyconform.physarray import PhysArray


class TwiceFunction(Function):
    key = "twice"

    def __getitem__(self, index):
        x = self.arguments[0][index]
        return PhysArray(x * 2, name="twice({})".format(x.name), units=x.units)
'''

FORMATS = ["NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA"]

DEFAULTS = dict(
    nfiles=(1, 4), nranks=(1, 4), p_missing=0.5, p_positive=0.3, p_direction=0.5, p_bounds=0.4,
    p_char=0.2, p_rename=0.5, p_chunk=0.7, p_limits=0.0, p_subdir=0.6, p_datavar=0.4,
    p_sumlike=0.4, p_slice=0.3, p_expr=0.75, p_history=0.5, p_old=0.0, p_autoparse=0.0,
    p_template_dir=0.0, p_hidden=0.2, p_intvar=0.3, p_deflate=0.3, p_fill=0.6, p_split=0.6,
    p_metavars=0.4, p_calendar=0.5, formats=FORMATS, p_share=0.4, p_user=0.0, min_chunks=0,
    p_chdims=0.12, depth=3, p_skipvar=0.0, p_big=0.0, p_bystander=0.0, p_packed=0.1, p_one=0.03,
    p_cpos=0.15, p_tdir=0.15, p_stale=0.1, p_inherit=0.15, p_scalar=0.12, p_datause=0.12, p_tbnds=0.25,
    p_fixedtime=0.15, p_nan=0.06, p_intcoord=0.15, p_case=0.15, p_attrs=0.2, p_defaults=0.1, p_int=0.3, p_dup=0.15, p_meanabs=0.06, p_nc4=0.12, p_tother=0.12, p_aux=0.04, p_early=0.15, p_nocoord=0.2, p_strshare=0.5, p_tname=0.15, p_notime=0.04, p_badunits=0.4,
)


def sliced(ast, n):
    """Does the definition index this variable?"""
    if not isinstance(ast, list):
        return False
    return ast[0] == "var" and ast[1] == n and len(ast) > 2 or any(sliced(x, n) for x in ast[1:])


class Gen:
    def __init__(self, seed, **knobs):
        self.r = random.Random("world/%s" % seed)
        self.k = dict(DEFAULTS)
        self.k.update(knobs)
        self.seed = seed

    def p(self, name):
        return self.r.random() < self.k[name]

    def make(self):
        r = self.r
        self.dims = OrderedDict()
        # worlds of the extended format only: more integer types, several unlimited dimensions
        self.nc4 = self.p("p_nc4") and "NETCDF4" in self.k["formats"] and "NETCDF4" in (self.k.get("infmts") or FORMATS)
        if self.nc4:
            self.k["formats"] = self.k["infmts"] = ["NETCDF4"]
        big = self.p("p_big")
        self.dims["time"] = [r.randint(2, 14 if big else 6), not self.p("p_fixedtime")]
        names = ["lat", "lon", "lev"]
        for n in names[: r.randint(1, 3)]:
            self.dims[n] = [r.randint(2, 9 if big else 4), self.nc4 and r.random() < 0.3]
        for n in self.dims:
            if self.p("p_one"):
                self.dims[n][0] = 1
        self.vars = OrderedDict()   # input variables
        self.asts = OrderedDict()
        self.spec = OrderedDict()
        self.tunits = {}
        self.inherited = OrderedDict()   # attributes that the output takes over from its input
        self.alias = {}                  # input dimension -> dimension that chdims() makes of it
        self.dimmap = {}
        self.used_out = set()
        self.coordinates()
        self.fields()
        self.outputs()
        w = OrderedDict()
        w["seed"] = self.seed
        w["inputs"], w["infiles"] = self.input_files()
        w["spec"] = self.spec
        w["asts"] = self.asts
        w["dimmap"] = self.dimmap
        if self.nocoord:
            w["nocoord"] = True
        w["tunits"] = self.tunits
        w["inherited"] = self.inherited
        w["modules"] = OrderedDict([("userfuncs.py", USER)]) if self.uses_user() else OrderedDict()
        self.limits(w)
        self.skips(w)
        w["options"] = self.options()
        self.mean_limits(w)
        inv = {v: k for k, v in self.dimmap.items()}
        w["chunkable"] = [[o, self.dims[inv[o]][0]] for o in self.chunkable()]
        w["sumlike"] = sorted(d for d in self.sumlike() if d in self.have())
        w["nranks"] = r.randint(*self.k["nranks"])
        w["sched"] = self.sched(w["nranks"])
        w["clock"] = self.clock(w["nranks"])
        w["env_seed"] = r.randrange(1 << 30)
        # every process with its own hash seed, or all with the same (PYTHONHASHSEED is set)
        w["hashes"] = [w["env_seed"] % 9973, w["env_seed"] % 4 > 0]
        w["p_eager"] = r.choice([0.0, 0.5, 1.0])
        w["abort_after"] = r.choice([0, 0, 1, 5, 40])
        w["faults"] = []
        w["old"] = self.old_files(w)
        w["bystanders"] = self.bystander_files(w)
        return w

    # ---------------------------------------------------------------- inputs
    def calendar(self):
        """The calendar's name, or another one of its names"""
        if not self.p("p_tother"):
            return self.cal
        return self.r.choice({"noleap": ["365_day", "NoLeap"], "standard": ["gregorian"], "360_day": ["360_day"]}[self.cal])

    def hours(self, ref, per):
        """Reference dates with a time (but not where midnight would become a fraction that is not exact)"""
        if self.p("p_tother") and not (self.k["p_autoparse"] and per == "days"):
            ref = tuple(ref) + (self.r.randint(1, 23),)
        return tuple(ref)

    def coordinates(self):
        r = self.r
        self.cal = r.choice(["noleap", "360_day", "standard"]) if self.p("p_calendar") else "noleap"
        self.early = self.cal != "standard" and self.p("p_early")
        self.tref = (r.choice([1, 850] if self.early else [1850, 1979, 2000]), r.randint(1, 12), 1)
        n = self.dims["time"][0]
        t0 = r.randint(0, 4000)
        step = r.choice([1, 1, 30, 0.25])
        per = r.choice(["days", "days", "days", "hours"])
        if self.p("p_tother"):
            per = r.choice(["minutes", "seconds"])
        self.tref = self.hours(self.tref, per)
        f = int(86400 / model.SECONDS[per])
        off = r.choice([0.5, 0.5, 1.0])
        self.tin = [per, list(self.tref), self.cal]
        ta = OrderedDict(units="%s since %s" % (per, model.refdate(self.tref)), calendar=self.calendar())
        if self.cal == "standard" and self.p("p_tother"):
            del ta["calendar"]  # which is the default
        whole = step >= 1 and self.p("p_intcoord")
        h = 0 if whole else 0.5
        self.vars["time"] = dict(
            dtype="i4" if whole else "f8", dims=["time"], data=[(t0 + h + step * i) * f for i in range(n)],
            tref=self.tin, attrs=OrderedDict(ta, axis="T", standard_name="time"))
        self.tb = None
        if self.p("p_tbnds"):
            self.tb = r.choice(["units", "plain"])
            self.dims["bnds"] = [2, False]
            self.vars["time_bnds"] = dict(
                dtype="f8", dims=["time", "bnds"], attrs=OrderedDict(ta) if self.tb == "units" else OrderedDict(),
                data=[[(t0 + h + step * (i - off)) * f, (t0 + h + step * (i + 1 - off)) * f] for i in range(n)])
            if self.tb == "units":
                self.vars["time_bnds"]["tref"] = self.tin
        for d in self.dims:
            if d in ("time", "bnds"):
                continue
            n = self.dims[d][0]
            lo = {"lat": -80.0, "lon": 0.0, "lev": 10.0}[d]
            vals, x = [], lo
            whole = self.p("p_intcoord")
            for _ in range(n):
                vals.append(int(x) if whole else round(x, 3))
                x += r.randint(1, 40) + (0 if whole else 0.5)
            if d != "lon" and r.random() < 0.4:
                vals.reverse()
            a = OrderedDict(axis={"lat": "Y", "lon": "X", "lev": "Z"}[d])
            a["units"] = {"lat": "degrees_north", "lon": "degrees_east", "lev": "Pa"}[d]
            if d == "lev" and self.p("p_cpos"):
                a["positive"] = r.choice(["up", "down"])
            self.vars[d] = dict(dtype=r.choice(["i4", "i2"] if whole else ["f8", "f4"]), dims=[d], data=vals, attrs=a)
        if self.p("p_bounds"):
            d = r.choice([x for x in self.dims if x not in ("time", "bnds")])
            self.bnd = d
            self.dims["bnds"] = [2, False]
            c = self.vars[d]["data"]
            self.vars[d + "_bnds"] = dict(dtype="f8", dims=[d, "bnds"], attrs=OrderedDict(
                units=self.vars[d]["attrs"]["units"]),
                data=[[round(v - 0.25, 3), round(v + 0.25, 3)] for v in c])
        else:
            self.bnd = None
        self.char = None
        if self.p("p_char"):
            n, m = r.randint(2, 4), r.randint(3, 6)
            self.dims["region"] = [n, False]
            self.dims["slen"] = [m, False]
            self.char = "basin"
            self.vars["basin"] = dict(
                dtype="S1", dims=["region", "slen"], attrs=OrderedDict(),
                data=["".join(r.choice("abcxyz") for _ in range(r.randint(1, m))) for _ in range(n)])

    def number(self, scale=1.0):
        r = self.r
        return round(r.uniform(-1, 1) * scale * r.choice([1, 10, 100]), 3)

    def fill_data(self, shape, fn):
        if not shape:
            return fn()
        return [self.fill_data(shape[1:], fn) for _ in range(shape[0])]

    def fields(self):
        r = self.r
        self.byclass = {}
        space = [d for d in self.dims if d in ("lat", "lon", "lev")]
        for i in range(r.randint(2, 6)):
            cls = r.choice(self.k.get("classes") or list(model.CLASSES))
            dims = ["time"] if r.random() < 0.8 else []
            dims += [d for d in space if r.random() < 0.7]
            if len(dims) == 0:
                dims = [r.choice(list(space))]
            if i and self.p("p_scalar"):
                dims = []
            if r.random() < 0.5:
                r.shuffle(dims)
            if "time" in dims and not self.nc4:  # the record dimension must come first in classic formats
                dims.remove("time")
                dims.insert(0, "time")
            isint = self.p("p_intvar")
            dt = r.choice(["i4", "i2"] + ["i1", "i8"] * self.nc4) if isint else r.choice(["f4", "f8"])
            packed = isint and self.p("p_packed")
            shape = [self.dims[d][0] for d in dims]
            miss = self.p("p_missing")
            if isint:
                top = 90 if dt == "i1" or packed or self.k["p_limits"] >= 0.5 else r.choice([90, 90, 30000])
                fn = lambda: r.choice([x for x in [r.randint(-top, top) for _ in range(3)]  # noqa: E731
                                       if x not in (-999, -9999)] or [1])
            else:
                fn = self.number
            if cls in ("area",):
                base = fn
                fn = lambda: abs(base()) + 1  # noqa: E731
            pm = r.choice([0.1, 0.4])
            if not isint and self.p("p_nan"):
                some = fn
                fn = lambda: float("nan") if r.random() < 0.15 else some()  # noqa: E731
            g = (lambda: None if r.random() < pm else fn()) if miss else fn
            a = OrderedDict()
            units = r.choice(model.CLASSES[cls])
            if isint and not packed:
                units = model.CLASSES[cls][0]
            if not (cls == "one" and r.random() < 0.3):
                a["units"] = units
            else:
                units = "1"
                if self.p("p_badunits"):  # not known to UDUNITS: regarded as unitless
                    a["units"] = "blurbs"
            if miss:
                how = r.choice(["_FillValue"] * 5 + ["missing_value", "both", "default"])
                fv = r.choice([-999, -9999]) if isint else r.choice([1e20, -9999.0])
                if dt == "i1":  # (bytes have no fill value of their own)
                    how, fv = "_FillValue", -128
                if not isint and self.p("p_nan"):
                    fv = float("nan")
                if how in ("_FillValue", "both"):
                    a["_FillValue"] = fv
                if how in ("missing_value", "both"):
                    a["missing_value"] = fv
            if packed:
                a["scale_factor"], a["add_offset"] = r.choice([0.5, 0.01, 2.0]), r.choice([0.0, 100.0, -3.5])
                if cls == "area":
                    a["add_offset"] = 1000.0
            if self.p("p_positive") and cls in ("flux", "rad"):
                a["positive"] = r.choice(["Up", "DOWN"] if self.p("p_case") else ["up", "down"])
            name = "F%d" % i
            plain = [d for d in dims if d in ("lat", "lon", "lev")]
            if plain and self.p("p_chdims"):
                # this variable has another name for a dimension
                d = r.choice(plain)
                n = "n" + d
                self.alias[n] = d
                self.dims[n] = list(self.dims[d])
                dims[dims.index(d)] = n
            self.vars[name] = dict(dtype=dt, dims=dims, data=self.fill_data(shape, g), attrs=a)
            self.byclass.setdefault(cls, []).append(name)

    def input_files(self):
        r = self.r
        used = set()
        for a in self.asts.values():
            used |= model.variables(a)
        coords = [v for v in self.vars if v in self.dims]
        rest = [v for v in self.vars if v not in coords]
        nf = r.randint(1, 3) if self.p("p_split") else 1
        files = OrderedDict()
        names = ["in_%s.nc" % chr(97 + i) for i in range(nf)]
        r.shuffle(names)
        for i, fn in enumerate(names):
            files[fn] = dict(format=r.choice(self.k.get("infmts") or FORMATS), dims=OrderedDict(), vars=OrderedDict(),
                             attrs=OrderedDict(source="model run %d" % i))
        for v in rest + coords:
            where = [r.choice(names)]
            if v in coords and r.random() < 0.5:
                where = list(names)
            for fn in where:
                files[fn]["vars"][v] = self.vars[v]
                for d in self.vars[v]["dims"]:
                    files[fn]["dims"][d] = self.dims[d]
        files = OrderedDict((f, files[f]) for f in names if files[f]["vars"])
        if len(files) > 1 and self.p("p_dup"):
            self.second(files)
        return files, list(files)

    def second(self, files):
        """The same field once more in a later file: in another unit, with another layout and fill value."""
        r = self.r
        names = list(files)
        first = {}
        for f in names:
            for n in files[f]["vars"]:
                first.setdefault(n, f)
        can = []
        for n in sorted(first):
            v = self.vars[n]
            u = v["attrs"].get("units")
            other = [x for x in model.CLASSES.get(model.CLASS_OF.get(u), []) if x != u]
            if n[0] == "F" and v["dtype"] == "f8" and other and first[n] != names[-1] and "missing_value" not in v["attrs"]:
                can.append((n, other))
        if not can:
            return
        n, units = r.choice(can)
        v = self.vars[n]
        where = r.choice(names[names.index(first[n]) + 1:])
        x = dict(v, attrs=OrderedDict(v["attrs"], units=r.choice(sorted(units))))
        old, new = model.U.named(v["attrs"]["units"]), model.U.named(x["attrs"]["units"])

        def conv(y):
            if isinstance(y, list):
                return [conv(z) for z in y]
            return None if y is None else float(old.convert(np.float64(y), new))

        x["data"] = conv(v["data"])
        fv = v["attrs"].get("_FillValue")
        if fv is not None and fv == fv:
            x["attrs"]["_FillValue"] = -8.888e30
        if len(v["dims"]) == 2 and "time" not in v["dims"] and not any(
                sliced(a, n) for a in self.asts.values()):
            x["dims"] = v["dims"][::-1]
            x["data"] = [list(c) for c in zip(*x["data"])]
        files[where]["vars"][n] = x
        for d in x["dims"]:
            files[where]["dims"][d] = self.dims[d]

    # ----------------------------------------------------------- definitions
    def leaf(self, cls):
        r = self.r
        n = r.choice(self.byclass[cls])
        v = self.vars[n]
        x = ["var", n]
        if len(v["dims"]) > 1 and self.p("p_slice"):
            # an integer index removes a (non-time, usually) dimension
            k = r.randrange(len(v["dims"]))
            idx = [None] * len(v["dims"])
            s = self.dims[v["dims"][k]][0]
            idx[k] = r.choice([0, s - 1, -1, r.randrange(s)])
            while idx and idx[-1] is None:
                idx.pop()
            x = ["var", n, idx]
        return self.unalias(x)

    def unalias(self, x):
        ds = self.adims(x)
        k = max([i + 1 for i, d in enumerate(ds) if d in self.alias] or [0])
        if k:
            x = ["chdims", x] + [self.alias.get(d, d) for d in ds[:k]]
        return x

    def ranged(self, x, d):
        """A bare variable, or a part of it along a dimension that is about to be reduced."""
        if x[0] != "var" or len(x) > 2 or not self.p("p_slice"):
            return x
        ds = self.vars[x[1]]["dims"]
        s = self.dims[d][0]
        a = self.r.choice([None, 0, 1, -s])
        b = self.r.choice([None, s, max(1, s - 1), -1])
        sl = [a, b, self.r.choice([None, None, 1, 2])]
        if not range(s)[slice(*sl)]:
            return x
        return ["var", x[1], [None] * ds.index(d) + [sl]]

    def expr(self, cls, depth):
        """A random expression whose unit belongs to cls."""
        r = self.r
        if depth <= 0 or r.random() < 0.25:
            return self.leaf(cls)
        opts = ["addsub", "scale", "scale", "neg", "limit"]
        if cls in ("flux", "rad"):
            opts += ["updown", "updown"]
        if cls == "len" and "area" in self.byclass:
            opts += ["sqrt"]
        if self.p("p_sumlike"):
            opts += ["mean", "mean", "sum", "min", "max"]
        if "one" in self.byclass and cls not in ("temp",):
            opts += ["mulone"]
        if cls == "area" and "len" in self.byclass:
            opts += ["pow", "pow"]
        opts += ["chunits"]
        if cls == "one":
            opts += ["const", "rmunits"]
        if cls == "temp":
            opts = [o for o in opts if o not in ("scale", "neg", "mulone")]
        if self.p("p_user") and cls in ("len", "pres"):
            opts = ["user"]
        o = r.choice(opts)
        if o == "addsub":
            return [r.choice(["add", "sub"]), self.expr(cls, depth - 1), self.expr(cls, depth - 1)]
        if o == "scale":
            c = r.choice([2, 0.5, 3, 1.5, 10])
            e = self.expr(cls, depth - 1)
            return r.choice([["mul", e, c], ["mul", c, e], ["div", e, c]])
        if o == "neg":
            return ["neg", self.expr(cls, depth - 1)]
        if o == "limit":
            a, b = sorted([self.number(), self.number()])
            if r.random() < 0.3:
                a = None
            elif r.random() < 0.4:
                b = None
            return ["limit", self.expr(cls, depth - 1), a, b]
        if o == "updown":
            return [r.choice(["up", "down"]), self.expr(cls, depth - 1)]
        if o == "sqrt":
            return ["sqrt", self.leaf("area")]
        if o == "mulone":
            return ["mul", self.expr(cls, depth - 1), self.leaf("one")]
        if o == "pow":
            return ["pow", self.leaf("len"), 2]
        if o == "chunits":
            c2 = r.choice(list(self.byclass))
            return ["chunits", self.leaf(c2), r.choice(model.CLASSES[cls])]
        if o == "const":
            c = r.choice([1, 2.5, 10])
            e = self.expr(cls, depth - 1)
            return r.choice([["add", e, c], ["add", c, e], ["sub", e, c], ["sub", c, e]])
        if o == "rmunits":
            return ["rmunits", self.leaf(r.choice(list(self.byclass)))]
        if o == "user":
            return ["user", "twice", self.expr(cls, depth - 1)]
        e = self.expr(cls, depth - 1)
        ds = self.adims(e)
        ds = [d for d in ds if d not in ("bnds",)]
        if len(ds) < 2:
            return e
        n = 1 if len(ds) < 3 or r.random() < 0.7 else 2
        ds = r.sample(ds, n)
        return [o, self.ranged(e, ds[0])] + ds

    def varinfo(self, name):
        return self.vars[name] if name in self.vars else self.data[name]

    def adims(self, ast):
        """Dimensions of an expression."""
        if isinstance(ast, (int, float)):
            return []
        k = ast[0]
        if k == "var":
            v = self.varinfo(ast[1])["dims"]
            idx = list(ast[2]) if len(ast) > 2 else []
            idx += [None] * (len(v) - len(idx))
            return [d for d, i in zip(v, idx) if not isinstance(i, int)]
        if k in ("add", "sub", "mul", "div"):
            a, b = self.adims(ast[1]), self.adims(ast[2])
            return a + [d for d in b if d not in a]
        if k in ("mean", "sum", "min", "max"):
            return [d for d in self.adims(ast[1]) if d not in ast[2:]]
        if k == "user":
            return self.adims(ast[2])
        if k == "chdims":
            nd = list(self.adims(ast[1]))
            nd[:len(ast) - 2] = ast[2:]
            return nd
        return self.adims(ast[1])

    # --------------------------------------------------------------- outputs
    def outputs(self):
        r = self.r
        ren = self.p("p_rename")
        tn = r.choice(["time1", "time2", "tt", "tt"]) if self.p("p_tname") else "time"
        onames = {"time": tn, "lat": "y" if ren else "lat", "lon": "x" if ren else "lon",
                  "lev": "plev" if ren else "lev", "bnds": "bnds", "region": "region",
                  "slen": "strlen"}
        for d in self.dims:
            if d not in self.alias:
                self.dimmap[d] = onames[d]
        order = [d for d in self.dims if d in ("time", "lat", "lon", "lev")]
        r.shuffle(order)
        entries = OrderedDict()
        for d in order:
            o = onames[d]
            a = OrderedDict()
            ast = ["var", d]
            if d == "time":
                a["axis"], a["standard_name"] = "T", "time"
                if tn != "time" and not self.p("p_tdir"):  # known as a time by less than that
                    for q in r.sample(["axis", "standard_name"], r.randint(0, 2)):
                        del a[q]
                per = r.choice(["days", "hours"] + ["minutes", "seconds"] * self.p("p_tother"))
                ref = r.choice([self.tref, (1850, 1, 1), (2000, 1, 1)] + [(1, 1, 1)] * self.early)
                ref = self.hours(ref[:3], per)
                self.time_units(o, a, per, ref)
                dt = "double"
                if self.p("p_tdir") and not self.k["p_autoparse"]:
                    a["direction"] = r.choice(["increasing", "decreasing"])
                if self.tb:
                    tb = ["var", "time_bnds"] if self.tb == "units" else \
                        ["tunits", ["var", "time_bnds"]] + self.tin + [r.choice(["node", "str", "parts"])]
                    if r.random() < 0.6:
                        ast = ["mean", tb, "bnds"]
                    if r.random() < 0.7:
                        a["bounds"] = o + "_bnds"
                        ba = OrderedDict()
                        if r.random() < 0.5:
                            self.time_units(o + "_bnds", ba, per, ref)
                        entries[o + "_bnds"] = self.entry(o + "_bnds", tb, [o, "bnds"], "double", ba)
            else:
                a["axis"] = {"lat": "Y", "lon": "X", "lev": "Z"}[d]
                a["units"] = self.vars[d]["attrs"]["units"]
                if d == "lev" and r.random() < 0.5:
                    a["units"] = "hPa"
                a["standard_name"] = d
                if self.p("p_direction"):
                    a["direction"] = r.choice(["increasing", "decreasing"])
                dt = r.choice(["double", "float"])
                if d == "lev" and self.p("p_cpos"):
                    a["positive"] = r.choice(["up", "down"])
                if self.bnd == d:
                    a["bounds"] = o + "_bnds"
            entries[o] = self.entry(o, ast, [o], dt, a)
        self.aux = {}
        for d in order:
            if d != "time" and self.p("p_aux"):
                # another coordinate variable decides about the direction
                o = onames[d]
                own = entries[o]["attributes"]
                own.pop("direction", None)
                a = OrderedDict((k, own[k]) for k in ("units", "axis"))
                if r.random() < 0.3:
                    del own["axis"]
                a["direction"] = r.choice(["increasing", "decreasing"])
                self.aux["aux_" + o] = o
                entries["aux_" + o] = self.entry("aux_" + o, ["var", d], [o], "double", a)
        if self.bnd:
            o = onames[self.bnd]
            a = OrderedDict()
            if r.random() < 0.5:
                a["units"] = entries[o]["attributes"]["units"]
            entries[o + "_bnds"] = self.entry(
                o + "_bnds", ["var", self.bnd + "_bnds"], [o, "bnds"], "double", a)
        if self.char:
            entries["region_name"] = self.entry(
                "region_name", ["var", "basin"], ["region", "strlen"], "char", OrderedDict())
        self.data = {}
        if not ren and "lat" in self.dims and not self.dims["lat"][1] and self.p("p_datause"):
            entries["wlat"] = dict(
                datatype=r.choice(["double", "float", "int"]), dimensions=["lat"], attributes=OrderedDict(units="1"),
                definition=[r.randint(1, 9) for _ in range(self.dims["lat"][0])])
            self.data["wlat"] = dict(dims=["lat"], dtype="f8")
        scal = [v for v in self.byclass.get("len", []) if not self.vars[v]["dims"] and not self.vars[v]["dtype"][0] == "i"]
        if scal and r.random() < 0.6:
            entries["href"] = self.entry("href", ["var", scal[0]], [], "double", OrderedDict(units="m"))
        if self.p("p_datavar"):
            kind = r.choice(["scalar", "vector"] + (["chars"] if r.random() < 0.5 else []))
            a = OrderedDict(comment="data variable")
            if kind == "scalar":
                a["units"] = "m"
                entries["height"] = dict(
                    datatype="double", dimensions=[], definition=r.choice([2.0, 10.0, 0.0]),
                    attributes=a)
                self.data["height"] = dict(dims=[], dtype="f8")
            elif kind == "vector":
                a["units"] = "hPa"
                t = r.choice(["double", "float", "int"] + ["int64", "uint64", "ushort", "uint"] * self.nc4)
                entries["dvec"] = dict(
                    datatype=t, dimensions=["dvecdim"],
                    definition=[r.randint(0 if t[0] == "u" else -50, 50) for _ in range(r.randint(1, 4))], attributes=a)
            else:
                entries["dlab"] = dict(
                    datatype="char",
                    dimensions=["labdim", "strlen" if self.char and self.p("p_strshare") else "labstr"],
                    definition=["".join(r.choice("pqr") for _ in range(n)) for n in r.choice([
                        [r.randint(2, 8)] + [r.randint(1, 4) for _ in range(r.randint(0, 2))], [1] * r.randint(1, 3)])],
                    attributes=a)
        self.datavars = [e for e in ("height", "dvec", "dlab", "href") if e in entries]
        if self.p("p_hidden") and "lat" in self.dims:
            entries["_hid"] = self.entry("_hid", ["var", "lat"], [onames["lat"]], "double",
                                         OrderedDict(units="degrees_north"))
        nf = r.randint(*self.k["nfiles"])
        classes = [c for c in self.byclass]
        dirs = [""] if not self.p("p_subdir") else ["out/", "out/a/b/", "out/c/"]
        for i in range(nf):
            name = "V%d" % i
            cls = r.choice(classes)
            ast = self.expr(cls, self.k["depth"]) if self.p("p_expr") else self.leaf(cls)
            if r.random() < 0.2 and self.k["p_expr"] > 0:
                c2 = r.choice([c for c in classes if c != "temp"] or ["one"])
                if c2 in self.byclass and cls != "temp":
                    ast = [r.choice(["mul", "div"]), ast, self.leaf(c2)]
                    cls = None
            if cls not in (None, "temp") and self.p("p_datause") and self.k["p_expr"] > 0:
                c = r.choice([2, 1.5])
                use = [["mul", ast, r.choice([["var", n]] * 3 + [
                    ["limit", ["var", n], None, 4], ["limit", ["var", n], 5, None], ["neg", ["var", n]]])] for n in self.data]
                ast = r.choice(use + [["div", c, ast]])
                cls = None
            if not self.adims(ast):
                ast = self.leaf_full()
                cls = self.cls_of(next(iter(model.variables(ast))))
            dims = [onames[d] for d in self.adims(ast)]
            if r.random() < 0.5:
                r.shuffle(dims)
            a = OrderedDict()
            if cls is not None and r.random() < 0.8:
                a["units"] = r.choice(model.CLASSES[cls])
                if self.isint(ast):
                    a["units"] = self.vars[next(iter(model.variables(ast)))]["attrs"].get("units", "1").replace("blurbs", "1")
                if ast[0] == "var" and self.p("p_inherit"):
                    a["units"] = r.choice(["?", "", "unknown"])
                    self.inherited[name] = OrderedDict(units=self.vars[ast[1]]["attrs"].get("units", "1").replace("blurbs", "1"))
            a["standard_name"] = "quantity_%d" % i
            if cls in ("flux", "rad") and self.p("p_positive"):
                a["positive"] = r.choice(["", "Up", "Down"] if self.p("p_case") else ["up", "down"])
            dt = r.choice(["double", "double", "float", "float", "float", "real"])
            intok = self.isint(ast)
            if intok and r.random() < 0.6:
                dt = r.choice(["int", "int", "short", "byte"] + ["int64"] * 2 * self.nc4)
                if dt == "byte" and self.varinfo(ast[1]).get("data") is not None and max(
                        [abs(x) for x in np.array(self.varinfo(ast[1])["data"], dtype=object).flat if x is not None] + [0]) > 120:
                    dt = "short"  # (too large for a byte)
            if self.p("p_fill"):
                a["_FillValue"] = {"int": -99999, "short": -32000, "byte": -128, "int64": -99999}.get(dt, 1e20)
                if r.random() < 0.3:
                    a["missing_value"] = a["_FillValue"]
            elif dt == "byte":
                a["_FillValue"] = -128  # bytes have no fill value of their own
            fmt = r.choice(self.k["formats"])
            bare = self.p("p_defaults")
            if bare and "NETCDF4_CLASSIC" in self.k["formats"]:
                fmt = "NETCDF4_CLASSIC"
            else:
                bare = False
            if dt in ("real",) and fmt != "NETCDF4":
                dt = "float"
            if tn in dims and fmt != "NETCDF4":
                # the record dimension must be first (and alone) in the classic formats
                dims.remove(tn)
                dims.insert(0, tn)
            e = self.entry(name, ast, dims, dt, a)
            fa = OrderedDict(title="file %d" % i, experiment=r.choice(["hist", "ssp"]))
            if self.p("p_stale"):
                fa["creation_date"] = "1999-12-31T23:59:59Z"
            if self.p("p_attrs"):
                fa["realization"] = r.randint(1, 40)
                fa["branch_time"] = r.choice([0.0, 1.5, 3650.25])
                fa["contact"] = r.choice(["", "a b", "line 1\nline 2", "\u00e9t\u00e9", "{%Y}"])
                a["flag_values"] = [1, 2, 4]
                a["comment"] = r.choice(["x, y: z", "'quoted'", "50 % \u00b5m", "{name}"])
            f = OrderedDict(filename="%s%s.nc" % (r.choice(dirs), name.lower()), format=fmt,
                            attributes=fa)
            if bare:
                del f["format"]
                if r.random() < 0.5:
                    del f["attributes"]
                if dt == "float":
                    del e["datatype"]
            elif self.p("p_deflate"):
                f["deflate"] = r.randint(0, 5)
            mv = []
            if self.p("p_metavars"):
                mv = [m for m in self.datavars + (["_hid"] if "_hid" in entries else [])
                      if r.random() < 0.7]
            co = [m for m in self.datavars + (["region_name"] if self.char else []) if r.random() < 0.5]
            r.shuffle(co)
            if co:
                a["coordinates"] = " ".join(co)
            if self.char and r.random() < 0.5:
                mv.append("region_name")
            mv += [m for m, o in self.aux.items() if r.random() < (0.7 if o in dims else 0.1)]
            # a data variable can be used in definitions only if it is a member of some file
            mv += [m for m in sorted(model.variables(ast)) if m in self.data and m not in mv]
            if mv:
                f["metavars"] = mv
            if tn not in dims and self.p("p_notime"):
                # there are no dates, so the name is what was asked for
                f["filename"] = self.template(r.choice(dirs), name.lower())
            if self.p("p_autoparse") and tn in dims:
                f["filename"] = self.template(r.choice(dirs), name.lower())
                if self.tb and r.random() < 0.5:
                    # the dates are those of another variable, which is not written
                    if "_tm" not in entries:
                        entries["_tm"] = self.entry("_tm", ["mean", tb, "bnds"], [tn], "double", OrderedDict())
                        self.time_units("_tm", entries["_tm"]["attributes"], per, ref)
                    f["autoparse_time_variable"] = "_tm"
            e["file"] = f
            entries[name] = e
        keys = list(entries)
        if r.random() < 0.5:
            r.shuffle(keys)
        for k in keys:
            self.spec[k] = entries[k]
        self.nocoord = False
        if self.p("p_nocoord") and "wlat" not in self.data:
            self.no_coordinates(onames)

    def no_coordinates(self, onames):
        """Leave out the variables of some dimensions, so that other variables settle how dimensions are mapped."""
        r = self.r
        spec = OrderedDict(self.spec)
        free = [d for d in ("lat", "lon", "lev") if d in self.dims and d != self.bnd and d not in self.alias.values()]
        for d in free:
            if r.random() < 0.8:
                spec.pop(onames[d], None)
        pairs = [(a, b) for a in free for b in free if a < b
                 and any({onames[a], onames[b]} <= set(e["dimensions"]) and isinstance(e["definition"], str)
                         for e in spec.values())]
        if pairs and r.random() < 0.8:  # a variable of both dimensions is the one that settles them
            two = {onames[d] for d in r.choice(pairs)}
            for n in list(spec):
                if len(two & set(spec[n]["dimensions"])) == 1:
                    spec.pop(n)
            if r.random() < 0.5:  # (and the other way round)
                a, b = sorted(two)
                flip = {a: b, b: a}
                for n in spec:
                    spec[n] = OrderedDict(spec[n], dimensions=[flip.get(d, d) for d in spec[n]["dimensions"]])
            for n in [n for n in spec if "file" in spec[n] and "metavars" in spec[n]["file"]]:
                f = spec[n]["file"]
                spec[n] = OrderedDict(spec[n], file=OrderedDict(
                    f, metavars=[m for m in f["metavars"] if m in spec or m not in self.spec]))
            if not any("file" in e for e in spec.values()):
                return
        try:
            dmap = model.dimension_map(spec, lambda n: self.adims(self.asts[n]))
        except ValueError:
            return  # (such a request is refused)
        self.spec, self.dimmap, self.nocoord = spec, dmap, True
        for n in list(self.asts):
            if n not in spec:
                del self.asts[n]

    def template(self, d, name):
        r = self.r
        fmtc = r.choice(["%Y%m%d", "%Y%m", "%Y%m%d%H%M", "%Y", "%Y.%m.%d", "%H%M%S.%d%m%Y"])
        x = r.random()
        if x < 0.15:
            return "%s{%s-%s}/%s.nc" % (d, fmtc, fmtc, name)
        if x < 0.3:
            return "%s{%%Y-%%Y}/%s_{%s-%s}.nc" % (d, name, fmtc, fmtc)
        if x < 0.4:
            return "%s%s_{%s-%%m}_{%%d-%%d}x.nc" % (d, name, fmtc)
        return "%s%s_{%s-%s}.nc" % (d, name, fmtc, fmtc)

    def time_units(self, o, a, per, ref):
        """units and calendar of an output time variable, all or in part taken over from the input"""
        r = self.r
        eper, eref = per, list(ref)
        full = model.refdate(ref)
        a["units"] = "%s since %s" % (per, full)
        a["calendar"] = self.calendar()
        if self.p("p_inherit"):
            k = r.choice(["ref", "per", "all", "empty"])
            if k != "ref":
                eper = self.tin[0]
            if k != "per":
                eref = list(self.tref)
            a["units"] = {"ref": "%s since ?" % per, "per": "? since %s" % full, "all": "?", "empty": ""}[k]
            inh = OrderedDict(units="%s since %s" % (eper, model.refdate(eref)))
            self.inherited[o] = inh
        if self.p("p_inherit"):
            del a["calendar"]
            self.inherited.setdefault(o, OrderedDict())["calendar"] = self.cal
        self.tunits[o] = [eper, eref, self.cal]

    def leaf_full(self):
        for c in self.byclass:
            for n in self.byclass[c]:
                if self.vars[n]["dims"]:
                    return self.unalias(["var", n])

    def cls_of(self, name):
        for c, ns in self.byclass.items():
            if name in ns:
                return c

    def isint(self, ast):
        """Only a bare reference to an integer variable is written as an integer."""
        if not (isinstance(ast, list) and ast[0] == "var"):
            return False
        v = self.varinfo(ast[1])
        return v["dtype"][0] == "i" and "scale_factor" not in v["attrs"]

    def entry(self, name, ast, dims, dt, attrs):
        self.asts[name] = ast
        return OrderedDict(attributes=attrs, datatype=dt, definition=model.render(ast, self.style()),
                           dimensions=list(dims))

    def style(self):
        """How definitions are written (see model.render)."""
        return self.r.randrange(1 << 30) if self.r.random() < 0.6 else None

    # --------------------------------------------------------------- options
    def sumlike(self):
        """Output dimensions that may not be chunked."""
        out = set()

        def walk(a):
            if isinstance(a, list):
                if a[0] in ("mean", "sum", "min", "max"):
                    for d in a[2:]:
                        if d in self.dimmap:
                            out.add(self.dimmap[d])
                for x in a:
                    walk(x)
        for n in self.in_files():
            if n in self.asts:
                walk(self.asts[n])
        return out

    def have(self):
        have = set()
        for n in self.in_files():
            if isinstance(self.spec[n].get("definition"), str):  # (the data of others is not mapped to input dimensions)
                have |= set(self.spec[n]["dimensions"])
        return have

    def chunkable(self):
        bad = self.sumlike()
        have = self.have()
        return [o for d, o in self.dimmap.items()
                if d in ("time", "lat", "lon", "lev", "region", "slen") and o not in bad and o in have]

    def in_files(self):
        """Names of the output variables that are a member of some file."""
        ex = model.Expect(dict(spec=self.spec, infiles=[], inputs={}))
        out = []
        for n in self.spec:
            if "file" in self.spec[n]:
                out += [m for m in ex.members(n) if m not in out]
        return out

    def chunks(self, force=False):
        r = self.r
        out = []
        if force or self.p("p_chunk"):
            c = self.chunkable()
            r.shuffle(c)
            inv = {v: k for k, v in self.dimmap.items()}
            for o in c[: r.randint(1, max(1, len(c)))]:
                n = self.dims[inv[o]][0]
                out.append([o, r.choice([1, 1, 2, max(1, n - 1), n, n + 2])])
        return out

    def options(self):
        r = self.r
        o = OrderedDict(chunks=self.chunks(self.k["min_chunks"] > 0), history=self.p("p_history"),
                        deflate=None, error=False, serial=False)
        if r.random() < 0.2:
            o["deflate"] = r.randint(0, 9)
        return o

    def sched(self, nranks):
        r = self.r
        return OrderedDict(policy=r.choice(["uniform", "uniform", "sticky", "pct", "starve", "rr"]),
                           seed=r.randrange(1 << 30), depth=r.randint(1, 4),
                           starved=r.randrange(nranks), late=0.5 if r.random() < 0.12 else 0)

    def clock(self, nranks):
        r = self.r
        base = r.choice([0.0, 951782399.0, 1e9, 1483228799.0, 1.7e9, 4102444799.0]) + r.randint(-86400, 86400) * 1.0
        base = max(base, 86400.0 * 3)
        return OrderedDict(
            base=base, rate=r.choice([0.0, 0.001, 0.5, 60.0, 5000.0]),
            skew=[round(r.uniform(-120, 120), 3) if r.random() < 0.5 else 0.0 for _ in range(nranks)],
            jumps=[[r.randint(1, 300), r.choice([-7200.0, -1.0, 3600.0, 86400.0])]
                   for _ in range(r.choice([0, 0, 1, 2]))],
            tz=r.choice([0, -25200, 3600, 34200]), seed=r.randrange(1 << 30))

    def uses_user(self):
        return any(model.has_op(a, ("user",)) for a in self.asts.values())

    def limits(self, w):
        """Validation limits: never closer to a value than rounding could matter, except
        exactly at one when the stored value is exact."""
        r = self.r
        for n in list(self.spec):
            e = self.spec[n]
            if "file" not in e and (n in w["dimmap"].values() or n in w["tunits"] or n.endswith("_bnds")
                                    or n.startswith("aux_") or n[0] == "_" or e.get("datatype") == "char" or r.random() < 0.5):
                continue  # (of the variables that accompany others, limit some that hold data)
            if not self.p("p_limits"):
                continue
            x = model.Expect(w).value(n)
            data = np.ma.getdata(x.data)
            vals = sorted(set(float(v) for v in data[~np.ma.getmaskarray(x.data)].flat if not np.isnan(v)))
            if not vals:
                vals = [0.0]
            big = max(abs(vals[0]), abs(vals[-1]), 300.0 if "K" in x.unit.exps else 1e-3)
            exact = self.exact(n)
            cands = [vals[0] - 0.1 * big, vals[-1] + 0.1 * big]
            for a, b in zip(vals, vals[1:]):
                if b - a > 1e-3 * big:
                    cands += [(a + b) / 2] * 2
            if all(abs(v) > 1e-3 * big for v in vals) or exact:
                cands += [0.0, 0, 0]
            if exact:
                cands += [vals[0], vals[-1], r.choice(vals)]
            a, b = sorted([r.choice(cands), r.choice(cands)])
            if r.random() < 0.35:
                a = None
            elif r.random() < 0.35:
                b = None
            if a is not None:
                e["attributes"]["valid_min"] = a
            if b is not None:
                e["attributes"]["valid_max"] = b

    def mean_limits(self, w):
        """Limits of the mean magnitude, which only warn; where warnings are judged, never close to the mean."""
        r = self.r
        for n in list(self.spec):
            e = self.spec[n]
            if "file" not in e or e.get("datatype") == "char" or not self.p("p_meanabs"):
                continue
            if self.k["p_limits"] < 0.5:
                lo, hi = r.choice([-1.0, 1e30]), r.choice([1e35, -1.0])
            else:
                lo, hi = -1.0, 1e35
                m = model.Expect(w).mean_abs(n)
                if m and not w["options"]["chunks"]:
                    lo, hi = m * r.choice([0.2, 0.9, 1.1, 3]), m * r.choice([0.3, 0.9, 1.1, 5])
            e["attributes"].update(r.choice([{"ok_min_mean_abs": lo}, {"ok_max_mean_abs": hi},
                                             {"ok_min_mean_abs": lo, "ok_max_mean_abs": hi}]))

    def exact(self, n):
        """Is the stored value of this output exactly the input value?"""
        a, e = self.asts.get(n), self.spec[n]
        if not (isinstance(a, list) and a[0] == "var" and e.get("datatype") in ("double", "int")):
            return False
        v = self.vars[a[1]]
        if v["dtype"] == "f4" or "scale_factor" in v["attrs"]:
            return False
        u = self.inherited.get(n, e["attributes"]).get("units")
        return u is None or u == v["attrs"].get("units", "1").replace("blurbs", "1")

    def skips(self, w):
        """Make some definitions refer to an input variable that does not exist."""
        r = self.r
        own = [n for n in self.spec if "file" in self.spec[n]]
        w["skipped"] = []
        w["undefined"] = []
        w["skippedmeta"] = []
        if self.k["p_skipvar"] and r.random() < 0.35:
            # a variable that files contain along with others
            c = [n for n in self.spec if n.endswith("_bnds") or n in ("region_name", "href", "_hid")]
            if c:
                m = r.choice(sorted(c))
                self.spec[m]["definition"] = "NOSUCHMETA"
                w["skippedmeta"].append(m)
        for n in own:
            if self.p("p_skipvar"):
                e = self.spec[n]
                how = r.choice(["plain", "sum", "arg", "empty"])
                if how == "empty":
                    e["definition"] = r.choice(["", "  ", None])
                    if e["definition"] is None:
                        del e["definition"]
                    w["skipped"].append(n)
                    w["undefined"].append(n)
                    continue
                x = self.nosuch(n)
                e["definition"] = {"plain": x, "sum": "(%s + %s)" % (e["definition"], x),
                                   "arg": "limit(%s, above=1.0)" % x}[how]
                w["skipped"].append(n)

    def nosuch(self, n):
        """A name that no input variable has: a similar one, or that of another output."""
        r = self.r
        have = set(self.vars) | set(k for k, v in self.spec.items() if not isinstance(v.get("definition"), str))
        own = sorted(k for k, v in self.spec.items() if "file" in v and k != n)
        v = r.choice(sorted(self.vars))
        x = r.choice(["NOSUCH", v.swapcase(), v + "0", v[:-1]] + own)
        return "NOSUCH" if x in have or len(x) < 2 else x

    def bystander_files(self, w):
        r = self.r
        out = []
        if self.k["p_bystander"] and r.random() < 0.3:  # the directories of the outputs exist and are empty
            w["old"] = []
            return sorted(set(os.path.dirname(v["file"]["filename"]) + "/" for v in self.spec.values() if "file" in v)
                          - {"/"})
        for n, v in self.spec.items():
            if "file" in v and "{" not in v["file"]["filename"] and self.p("p_bystander"):
                f = v["file"]["filename"]
                d = os.path.dirname(f)
                out.append(r.choice([f + ".bak", f[:-3] + ".nc4", os.path.join(d, "README"),
                                     os.path.join(d, "tmp", "keep.nc"), f + "_", "." + "notes",
                                     os.path.join(d, "other.tmp.nc"), os.path.join(d, "")]))
                if d and r.random() < 0.2:
                    out.append(r.choice([d + "/", os.path.dirname(d) + "/", "empty/"]))
        return sorted(set(out) - {"", "/"})

    def old_files(self, w):
        r = self.r
        out = []
        for n, v in self.spec.items():
            if "file" in v and "{" not in v["file"]["filename"] and self.p("p_old"):
                out.append([v["file"]["filename"], r.choice(["nc", "junk", "empty", "big"])])
        return out

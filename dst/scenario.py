"""
Turning a world into files and jobs, and judging what a job left behind.
"""
import json
import os
import re

import numpy as np

from . import model
from .lab import sha

STD = "std.json"
OLD_MARK = "previous generation"


# --------------------------------------------------------------- materialise
def write_inputs(world, workdir):
    """Create the input files, the standardization file and earlier outputs."""
    import netCDF4

    os.chdir(workdir)
    for fn, f in world["inputs"].items():
        if os.path.dirname(fn):
            os.makedirs(os.path.dirname(fn), exist_ok=True)
        ds = netCDF4.Dataset(fn, "w", format=f["format"])
        ds.setncatts(f.get("attrs", {}))
        for d, (n, unlim) in f["dims"].items():
            ds.createDimension(d, None if unlim else n)
        for v, x in f["vars"].items():
            fill = x["attrs"].get("_FillValue")
            nv = ds.createVariable(v, x["dtype"], tuple(x["dims"]), fill_value=fill)
            for a, b in x["attrs"].items():
                if a == "missing_value":
                    b = np.dtype(x["dtype"]).type(b)
                if a != "_FillValue":
                    nv.setncattr(a, b)
            shape = tuple(f["dims"][d][0] for d in x["dims"])
            if x["dtype"] == "S1":
                n = shape[-1]
                nv[...] = np.array([list(s.ljust(n, "\0")) for s in x["data"]],
                                   dtype="S1").reshape(shape)
            else:
                flat = model._flatten(x["data"])
                dt = np.dtype(x["dtype"])
                nv.set_auto_maskandscale(False)
                fv = x["attrs"].get("missing_value", fill)
                if fv is None:
                    fv = model.DEFAULT_FILL[x["dtype"]]
                nv[...] = np.array([fv if y is None else y for y in flat], dtype=dt).reshape(shape)
        ds.close()
    with open(STD, "w") as f:
        json.dump(world["spec"], f)
    for name, text in world.get("modules", {}).items():
        with open(name, "w") as f:
            f.write(text)
    for fn in world.get("bystanders", []):
        if os.path.dirname(fn):
            os.makedirs(os.path.dirname(fn), exist_ok=True)
        if fn.endswith("/"):
            continue  # an empty directory
        with open(fn, "w") as f:
            f.write("not an output of this job: " + fn)
    for fn, kind in world.get("old", []):
        if os.path.dirname(fn):
            os.makedirs(os.path.dirname(fn), exist_ok=True)
        if kind in ("nc", "big"):
            ds = netCDF4.Dataset(fn, "w")
            ds.title = OLD_MARK
            n = 20000 if kind == "big" else 3
            ds.createDimension("n", n)
            ds.createVariable("old", "f8", ("n",))[:] = range(n)
            ds.close()
        elif kind == "empty":
            open(fn, "w").close()
        else:
            with open(fn, "w") as f:
                f.write("not a netCDF file: " + kind)


def materialise(world, lab, case, work="work"):
    d = os.path.join(case, work)
    os.makedirs(d, exist_ok=True)

    def go(w):
        write_inputs(world, d)
        os.write(w, b"ok")
        os._exit(0)

    data, st, _ = lab._fork(go)
    if data != b"ok":
        from .lab import HarnessError
        raise HarnessError("could not materialise world (status %r)" % st)


def argv_of(world, **over):
    o = dict(world["options"])
    o.update(over)
    argv = ["-f", STD]
    for n, s in o["chunks"]:
        argv += ["-c", "%s,%s" % (n, s)]
    if not o["history"]:
        argv.append("-n")
    if o["deflate"] is not None:
        argv += ["-d", str(o["deflate"])]
    if o["error"]:
        argv.append("-e")
    if o["serial"]:
        argv.append("-s")
    if o.get("debug"):
        argv.append("--debug")
    for m in world.get("modules", {}):
        argv += ["-m", m]
    argv += list(o.get("infiles", world["infiles"]))
    return argv


def job_of(world, watch=True, **over):
    """The job of a world; keyword arguments override options or job fields."""
    jf = {}
    for k in ("nranks", "sched", "clock", "env_seed", "p_eager", "abort_after", "faults", "hashes",
              "max_steps", "want_events", "want_libc_log"):
        if k in over:
            jf[k] = over.pop(k)
        elif k in world:
            jf[k] = world[k]
    job = {"entry": "xconform", "argv": argv_of(world, **over)}
    job.update(jf)
    sk = job.get("clock", {}).get("skew")
    if sk is not None and len(sk) < job.get("nranks", 1):
        job["clock"] = dict(job["clock"], skew=list(sk) + [0.0] * (job["nranks"] - len(sk)))
    if watch:
        job["watch"] = final_names(world)
    return job


def api_job(world, executes, watch=True, **over):
    job = job_of(world, watch=watch, **over)
    job.pop("argv")
    job.update(entry="api", stdfile=STD, infiles=list(world["infiles"]), executes=executes,
               modules=sorted(world.get("modules", {})))
    return job


def final_names(world):
    ex = model.Expect(world)
    return [ex.final_name(n) for n in world["spec"] if "file" in world["spec"][n]]


# --------------------------------------------------------------------- oracle
def is_masked(raw, var):
    """Positions a conforming reader treats as missing."""
    k = np.dtype(var["dtype"])
    m = np.zeros(raw.shape, bool)
    fills = []
    if "_FillValue" in var["attrs"]:
        fills.append(var["attrs"]["_FillValue"])
    else:
        code = {"float32": "f4", "float64": "f8", "int32": "i4", "int16": "i2", "int8": "i1", "int64": "i8",
                "uint16": "u2", "uint32": "u4", "uint64": "u8"}.get(str(k))
        if code:
            fills.append(model.DEFAULT_FILL[code])
    if "missing_value" in var["attrs"]:
        fills.append(var["attrs"]["missing_value"])
    for f in fills:
        m |= raw == np.asarray(f).astype(k)
    return m


def aggregates(text):
    return isinstance(text, str) and re.search(r"\b(mean|sum|min|max)\(", text) is not None


def close(got, want, dtype, extra=0.0):
    if np.dtype(dtype).kind in "iuS":
        return got == want
    nan = np.isnan(want)
    if nan.any():
        return np.where(nan, np.isnan(got), close(got, np.where(nan, 0.0, want), dtype, extra))
    big = float(np.max(np.abs(want))) if want.size else 0.0
    if np.dtype(dtype).itemsize == 4:
        tol = 4e-6 * (np.abs(want) + 0.25 * (big + extra)) + 1e-30
    else:
        tol = 1e-9 * (np.abs(want) + big + extra) + 1e-30
    return np.abs(got.astype("f8") - want) <= tol


def check_values(ex, owner, content, only=None, skip=(), what=("values", "mask")):
    """Compare every variable of one published file with the reference model."""
    out = []
    for n in ex.visible(owner):
        if (only is not None and n not in only) or n in skip:
            continue
        if n not in content["vars"]:
            out.append("%s: variable %s is missing" % (owner, n))
            continue
        v = content["vars"][n]
        want, mask = ex.array(owner, n)
        got = v["data"]
        if v["dtype"] in ("|S1", "S1"):
            w = np.where(mask, b"", want)
            if w.shape[-1:] < got.shape[-1:]:
                pad = np.zeros(w.shape[:-1] + (got.shape[-1] - w.shape[-1],), "S1")
                w = np.concatenate([w, pad], axis=-1)
            if w.shape != got.shape or not np.array_equal(w.astype("S1"), got):
                out.append("%s: characters of %s differ" % (owner, n))
            continue
        if want.shape != got.shape:
            out.append("%s: shape of %s is %s, expected %s" % (owner, n, got.shape, want.shape))
            continue
        gm = is_masked(got, v)
        if got.dtype.kind == "f" and want.dtype.kind == "f":
            nan = np.isnan(want) & ~mask
            if nan.any():
                # undefined: NaN or missing; numpy.ma may have left it out of an aggregate
                wrong = nan & ~gm & ~np.isnan(got)
                if wrong.any() and "values" in what and not aggregates(ex.spec[n]["definition"]):
                    i = tuple(int(k) for k in np.argwhere(wrong)[0])
                    out.append("%s: %s%s holds %r, the definition gives nan" % (owner, n, list(i), got[i].item()))
                gm, mask = gm | nan, mask | nan
        if "mask" in what:
            if np.any(gm & ~mask):
                i = tuple(int(k) for k in np.argwhere(gm & ~mask)[0])
                out.append("%s: %s%s is missing but has the value %r in the inputs"
                           % (owner, n, list(i), float(want[i])))
            if np.any(~gm & mask):
                i = tuple(int(k) for k in np.argwhere(~gm & mask)[0])
                out.append("%s: %s%s must be missing but holds %r" % (owner, n, list(i), got[i].item()))
        if "values" in what:
            both = ~gm & ~mask
            if both.any():
                good = close(got[both], want[both].astype("f8"), v["dtype"], 300.0 if ex.offset_units(n) else 0.0)
                if not np.all(good):
                    idx = np.argwhere(both)[np.argwhere(~good)[0][0]]
                    i = tuple(int(k) for k in idx)
                    out.append("%s: %s%s holds %r, the definition gives %r"
                               % (owner, n, list(i), got[i].item(), float(want[i])))
    return out


def same_attr(a, b):
    if isinstance(b, str) or isinstance(a, str):
        return str(a) == str(b) and isinstance(a, str) == isinstance(b, str)
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isclose(a.astype("f8"), b.astype("f8"), rtol=1e-6)))


def check_header(ex, owner, content, options):
    out = []
    w = ex.w
    sp = w["spec"]
    f = sp[owner]["file"]
    fmt = f.get("format", "NETCDF4_CLASSIC")
    if content["format"] != fmt:
        out.append("%s: format %s, expected %s" % (owner, content["format"], fmt))
    names = ex.visible(owner)
    if sorted(content["vars"]) != sorted(names):
        out.append("%s: variables %s, expected %s" % (owner, sorted(content["vars"]), sorted(names)))
        return out
    want = {d for n in names for d in sp[n]["dimensions"]}
    if set(content["dims"]) != want:
        out.append("%s: dimensions %s, expected %s" % (owner, sorted(content["dims"]), sorted(want)))
        return out
    for d in want:
        if list(content["dims"][d]) != list(ex.dim(d)):
            out.append("%s: dimension %s is %s, expected %s" % (owner, d, content["dims"][d], ex.dim(d)))
    ga = dict(content["attrs"])
    cd = ga.pop("creation_date", None)
    if cd is None or not re.match(r"^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$", str(cd)):
        out.append("%s: creation_date is %r" % (owner, cd))
    wa = dict(f.get("attributes", {}))
    stale = wa.pop("creation_date", None)
    if stale is not None and cd == stale:
        out.append("%s: creation_date is that of the standardization file" % owner)
    if set(ga) != set(wa) or any(not same_attr(ga[k], wa[k]) for k in wa):
        out.append("%s: global attributes %s, expected %s" % (owner, ga, wa))
    defl = options.get("deflate")
    lev = f.get("deflate", 2) if defl is None else defl
    for n in names:
        v = content["vars"][n]
        s = sp[n]
        dt = np.dtype(model.NC2NP[s.get("datatype", "float")])
        if np.dtype(v["dtype"]) != dt:
            out.append("%s: %s has type %s, expected %s" % (owner, n, v["dtype"], dt))
        if list(v["dims"]) != list(s["dimensions"]):
            out.append("%s: %s has dimensions %s, expected %s" % (owner, n, v["dims"], s["dimensions"]))
        wa = {k: x for k, x in ex.attrs(n).items() if k not in ("direction", "history")}
        ga = dict(v["attrs"])
        h = ga.pop("history", None)
        if options["history"] and not h:
            out.append("%s: %s has no history attribute" % (owner, n))
        if not options["history"] and h is not None:
            out.append("%s: %s has a history attribute although it was turned off" % (owner, n))
        if "calendar" in ex.w.get("inherited", {}).get(n, {}):
            ga["calendar"] = {"365_day": "noleap", "gregorian": "standard"}.get(ga.get("calendar"), ga.get("calendar"))
        if wa.get("units") == "":
            wa.pop("units"), ga.pop("units", None)
        if set(ga) != set(wa) or any(not same_attr(ga[k], wa[k]) for k in wa):
            out.append("%s: attributes of %s are %s, expected %s" % (owner, n, ga, wa))
        if fmt.startswith("NETCDF4") and s["dimensions"]:
            if v["zlib"] != (lev > 0) or (lev > 0 and v["complevel"] != lev):
                out.append("%s: %s is stored with zlib=%s level %s, expected level %s"
                           % (owner, n, v["zlib"], v["complevel"], lev))
    return out


def compare_files(a, b, ignore=("creation_date",)):
    """Differences between two published files, apart from the ignored global attributes."""
    if "error" in a or "error" in b or "missing" in a or "missing" in b:
        ka = a.get("error") or a.get("missing")
        kb = b.get("error") or b.get("missing")
        return [] if ka == kb else ["readable in one run only: %s / %s" % (ka, kb)]
    out = []
    if a["format"] != b["format"]:
        out.append("format %s / %s" % (a["format"], b["format"]))
    ga = {k: v for k, v in a["attrs"].items() if k not in ignore}
    gb = {k: v for k, v in b["attrs"].items() if k not in ignore}
    if set(ga) != set(gb) or any(not same_attr(ga[k], gb[k]) for k in ga):
        out.append("global attributes %s / %s" % (ga, gb))
    if a["dims"] != b["dims"]:
        out.append("dimensions %s / %s" % (a["dims"], b["dims"]))
    if set(a["vars"]) != set(b["vars"]):
        out.append("variables %s / %s" % (sorted(a["vars"]), sorted(b["vars"])))
    for n in a["vars"]:
        if n not in b["vars"]:
            continue
        x, y = a["vars"][n], b["vars"][n]
        for k in ("dtype", "dims", "zlib", "complevel"):
            if x[k] != y[k]:
                out.append("%s: %s %s / %s" % (n, k, x[k], y[k]))
        xa, ya = x["attrs"], y["attrs"]
        if set(xa) != set(ya) or any(not same_attr(xa[k], ya[k]) for k in xa):
            out.append("%s: attributes %s / %s" % (n, xa, ya))
        if x["data"].shape != y["data"].shape:
            out.append("%s: shapes %s / %s" % (n, x["data"].shape, y["data"].shape))
            continue
        if x["data"].dtype.kind in "S":
            if not np.array_equal(x["data"], y["data"]):
                out.append("%s: characters differ" % n)
            continue
        mx, my = is_masked(x["data"], x), is_masked(y["data"], y)
        if not np.array_equal(mx, my):
            i = tuple(int(k) for k in np.argwhere(mx != my)[0])
            out.append("%s%s is missing in one run only" % (n, list(i)))
            continue
        ok = mx | close(x["data"], y["data"].astype("f8"), x["dtype"])
        if not np.all(ok):
            i = tuple(int(k) for k in np.argwhere(~ok)[0])
            out.append("%s%s: %r / %r" % (n, list(i), x["data"][i].item(), y["data"][i].item()))
    return out


def input_hashes(world, workdir):
    names = list(world["inputs"]) + [STD] + list(world.get("modules", {}))
    return {f: sha(os.path.join(workdir, f)) for f in names}

"""Small helpers of the demonstrations: everything happens inside a fresh scratch directory."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import warnings
from collections import OrderedDict

import numpy as np

os.environ.setdefault("OMPI_MCA_ess_singleton_isolated", "1")
os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT", "1")
os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1")
import netCDF4  # noqa: E402
from asaptools.simplecomm import SimpleComm, create_comm  # noqa: E402

from pyconform import dataflow, datasets  # noqa: E402

warnings.simplefilter("ignore")


@contextlib.contextmanager
def scratch():
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="demo-")
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d)


def nc(path, dims, variables, fmt="NETCDF4", **kw):
    """variables: name -> (type, dims, data, attributes)"""
    with netCDF4.Dataset(path, "w", format=fmt) as f:
        for k, n in dims.items():
            f.createDimension(k, n)
        for k, (t, ds, data, attrs) in variables.items():
            attrs = dict(attrs)
            v = f.createVariable(k, t, ds, fill_value=attrs.pop("_FillValue", None), **kw)
            v.setncatts(attrs)
            v[...] = data


def var(definition, dims, filename=None, dtype="double", fmt="NETCDF4", fattrs=None, metavars=None,
        deflate=None, **attrs):
    e = OrderedDict(definition=definition, dimensions=list(dims), datatype=dtype, attributes=OrderedDict(attrs))
    if filename:
        e["file"] = OrderedDict(filename=filename, format=fmt, attributes=fattrs or {})
        if metavars:
            e["file"]["metavars"] = metavars
        if deflate is not None:
            e["file"]["deflate"] = deflate
    return e


def flow(spec, *inputs):
    return dataflow.DataFlow(datasets.InputDatasetDesc(filenames=list(inputs)),
                             datasets.OutputDatasetDesc(dsdict=OrderedDict(spec)))


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def run(spec, *inputs, **kw):
    kw.setdefault("serial", True)
    f = flow(spec, *inputs)
    quiet(f.execute, **kw)
    return f


def read(path, name):
    with netCDF4.Dataset(path) as f:
        return f.variables[name][...]


class Rank(SimpleComm):
    """One process of a parallel run, without the others: it computes its own share of the work."""

    def __init__(self, rank, size):
        super().__init__()
        self._rank, self._size = rank, size
        self.syncs = 0

    def get_rank(self):
        return self._rank

    def get_size(self):
        return self._size

    def is_manager(self):
        return self._rank == 0

    def partition(self, data, func=None, involved=False, tag=0):
        return func(data, self._rank, self._size)

    def sync(self):
        self.syncs += 1


def check(cond, msg):
    if not cond:
        print("FAILED:", msg, file=sys.stderr)
        sys.exit(1)


def same(a, b, msg):
    a, b = np.ma.asarray(a), np.ma.asarray(b)
    ok = a.shape == b.shape and (np.ma.getmaskarray(a) == np.ma.getmaskarray(b)).all() \
        and np.ma.allclose(a, b, rtol=1e-6, atol=1e-9)
    check(ok, "%s:\n%s\nexpected\n%s" % (msg, a, b))


def during(f, filename, action):
    """Have something happen while this file of a data flow is being written."""
    class Node:
        def __init__(self, n):
            self.n, self.done = n, False

        def __getattr__(self, k):
            return getattr(self.n, k)

        def __getitem__(self, i):
            if i is not None and not self.done:
                self.done = True
                action()
            return self.n[i]

    node = f._writenodes[filename].inputs[0]
    node.inputs[0] = Node(node.inputs[0])

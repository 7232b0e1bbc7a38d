"""
Small executable reference model of what a conforming job must write.

It shares no code with pyconform: named-dimension arithmetic over numpy masked
arrays, its own unit table (scale/offset/exponents), its own calendar
arithmetic, its own treatment of positive direction, missing data, coordinate
direction and validation limits.  A definition is an AST (nested lists) made by
the generator, never a parsed string.
"""
import datetime
import math
import random

import numpy as np

# unit -> (scale to SI, offset to SI, exponents)
_B = {
    "1": (1.0, 0.0, {}),
    "%": (0.01, 0.0, {}),
    "m": (1.0, 0.0, {"m": 1}),
    "km": (1000.0, 0.0, {"m": 1}),
    "cm": (0.01, 0.0, {"m": 1}),
    "K": (1.0, 0.0, {"K": 1}),
    "degC": (1.0, 273.15, {"K": 1}),
    "Pa": (1.0, 0.0, {"kg": 1, "m": -1, "s": -2}),
    "hPa": (100.0, 0.0, {"kg": 1, "m": -1, "s": -2}),
    "kg m-2 s-1": (1.0, 0.0, {"kg": 1, "m": -2, "s": -1}),
    "g m-2 s-1": (0.001, 0.0, {"kg": 1, "m": -2, "s": -1}),
    "m2": (1.0, 0.0, {"m": 2}),
    "km2": (1e6, 0.0, {"m": 2}),
    "W m-2": (1.0, 0.0, {"kg": 1, "s": -3}),
    "kW m-2": (1000.0, 0.0, {"kg": 1, "s": -3}),
    "degrees_north": (math.pi / 180, 0.0, {"rad": 1}),
    "degrees_east": (math.pi / 180, 0.0, {"rad": 1}),
}
CLASSES = {
    "one": ["1", "%"],
    "len": ["m", "km", "cm"],
    "temp": ["K", "degC"],
    "pres": ["Pa", "hPa"],
    "flux": ["kg m-2 s-1", "g m-2 s-1"],
    "rad": ["W m-2", "kW m-2"],
    "area": ["m2", "km2"],
}
CLASS_OF = {u: c for c, us in CLASSES.items() for u in us}
DEFAULT_FILL = {"f4": 9.969209968386869e36, "f8": 9.969209968386869e36, "i4": -2147483647,
                "i2": -32767, "i1": -127, "i8": -9223372036854775806, "u2": 65535, "u4": 4294967295,
                "u8": 18446744073709551614, "S1": b"\x00"}
NC2NP = {"int64": "i8", "uint64": "u8", "ushort": "u2", "uint": "u4", "float": "f4", "real": "f4", "double": "f8", "int": "i4", "short": "i2",
         "byte": "i1", "char": "S1"}


class U:
    """A unit: either linear (scale, offset, exponents) or a time reference."""

    def __init__(self, scale=1.0, offset=0.0, exps=None, tref=None):
        self.scale, self.offset = scale, offset
        self.exps = {k: v for k, v in (exps or {}).items() if v}
        self.tref = tref  # (seconds per unit, refdate tuple, calendar)

    @staticmethod
    def named(name):
        s, o, e = _B[name]
        return U(s, o, e)

    def mul(self, o, sign=1):
        e = dict(self.exps)
        for k, v in o.exps.items():
            e[k] = e.get(k, 0) + sign * v
        return U(self.scale * o.scale ** sign, 0.0, e)

    def pow(self, n):
        return U(self.scale ** n, 0.0, {k: v * n for k, v in self.exps.items()})

    def convert(self, x, to):
        if isinstance(x, np.ma.MaskedArray):
            # (not with masked arithmetic: numpy.ma's division masks what is not finite)
            return np.ma.array(self.convert(x.data, to), mask=np.ma.getmaskarray(x))
        if self.tref is not None:
            secs = x * self.tref[0] + days_between(self.tref[2], to.tref[1], self.tref[1]) * 86400.0
            return secs / to.tref[0]
        assert self.exps == to.exps, (self.exps, to.exps)
        if self.scale == to.scale and self.offset == to.offset:
            return x
        return (x * self.scale + self.offset - to.offset) / to.scale


def not_a_number(x):
    d = np.ma.getdata(x)
    return np.isnan(d) & ~np.ma.getmaskarray(x) if d.dtype.kind == "f" else np.zeros(d.shape, bool)


def with_nan(res, nan):
    """res (a masked array), but NaN wherever nan is true: whether numpy.ma masks what is
    not finite depends on its internal representation, so the comparison has to decide."""
    res = np.ma.asarray(res)
    if not np.any(nan):
        return res
    return np.ma.array(np.where(nan, np.nan, np.ma.getdata(res)), mask=np.ma.getmaskarray(res) & ~nan)


_NOLEAP = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def day_number(cal, ymd):
    y, m, d = ymd[:3]
    if cal == "noleap":
        return y * 365 + _NOLEAP[m - 1] + d - 1
    if cal == "360_day":
        return y * 360 + (m - 1) * 30 + d - 1
    return datetime.date(y, m, d).toordinal()


def hour(ref):
    """A reference date is (year, month, day) or (year, month, day, hour)."""
    return ref[3] if len(ref) > 3 else 0


def refdate(ref):
    return "%04d-%02d-%02d %02d:00:00" % (tuple(ref[:3]) + (hour(ref),))


def days_between(cal, a, b):
    return day_number(cal, b) - day_number(cal, a) + (hour(b) - hour(a)) / 24.0


def add_days(cal, ymd, days):
    """(y, m, d, h, mi, s) of ymd plus a (fractional) number of days; rounded to seconds."""
    secs = int(round(days * 86400)) + hour(ymd) * 3600
    dd, rem = divmod(secs, 86400)
    n = day_number(cal, ymd) + dd
    if cal == "noleap":
        y, doy = divmod(n, 365)
        m = max(i for i in range(12) if _NOLEAP[i] <= doy) + 1
        out = (y, m, doy - _NOLEAP[m - 1] + 1)
    elif cal == "360_day":
        y, doy = divmod(n, 360)
        out = (y, doy // 30 + 1, doy % 30 + 1)
    else:
        dt = datetime.date.fromordinal(n)
        out = (dt.year, dt.month, dt.day)
    return out + (rem // 3600, rem % 3600 // 60, rem % 60)


def fmt_date(fmt, t):
    for k, s in (("%Y", "%04d" % t[0]), ("%m", "%02d" % t[1]), ("%d", "%02d" % t[2]),
                 ("%H", "%02d" % t[3]), ("%M", "%02d" % t[4]), ("%S", "%02d" % t[5])):
        fmt = fmt.replace(k, s)
    return fmt


SECONDS = {"days": 86400.0, "hours": 3600.0, "minutes": 60.0, "seconds": 1.0}


def time_unit(per, ref, cal):
    return U(tref=(SECONDS[per], tuple(ref), cal))


class LA:
    """Labelled array: masked values, dimension names, unit, positive direction."""

    def __init__(self, data, dims, unit, pos=None, isint=False):
        self.data = np.ma.MaskedArray(data, copy=True)
        self.data = np.ma.MaskedArray(self.data.data, mask=np.ma.getmaskarray(self.data))
        self.dims, self.unit, self.pos, self.isint = tuple(dims), unit, pos, isint
        assert self.data.ndim == len(self.dims), (self.data.shape, dims)

    def but(self, **k):
        d = dict(data=self.data, dims=self.dims, unit=self.unit, pos=self.pos, isint=self.isint)
        d.update(k)
        return LA(**d)

    def expand(self, dims, sizes):
        """Data broadcast (by name) onto dims."""
        src = [d for d in dims if d in self.dims]
        x = self.data.transpose([self.dims.index(d) for d in src])
        shape = tuple(sizes[d] if d in self.dims else 1 for d in dims)
        return x.reshape(shape)


def parse_input(world, fname_order, name):
    """The labelled array of an input variable, as the first file holding it has it."""
    for fn in fname_order:
        f = world["inputs"][fn]
        if name in f["vars"]:
            v = f["vars"][name]
            return input_array(f, v)
    raise KeyError(name)


def input_array(f, v):
    shape = tuple(f["dims"][d][0] for d in v["dims"])
    if v["dtype"] == "S1":
        strs = v["data"]
        n = shape[-1]
        flat = np.array([list(s.ljust(n, "\0")) for s in strs], dtype="S1").reshape(shape)
        return LA(np.ma.masked_where(flat == b"", flat), v["dims"], None)
    flat = _flatten(v["data"])
    mask = np.array([x is None for x in flat], dtype=bool).reshape(shape)
    dt = np.dtype(v["dtype"])
    vals = np.array([0 if x is None else x for x in flat], dtype=dt).reshape(shape)
    isint = dt.kind in "iu"
    vals = vals.astype("f8" if dt.kind == "f" else "i8")
    a = v["attrs"]
    if "scale_factor" in a:
        vals, isint = vals * a["scale_factor"] + a["add_offset"], False
    if "tref" in v:
        unit = time_unit(*v["tref"])
    else:
        unit = U.named(a["units"]) if a.get("units", "blurbs") != "blurbs" else U()
    if any(isinstance(a.get(k), float) and math.isnan(a[k]) for k in ("_FillValue", "missing_value")):
        mask = mask | np.isnan(vals)
    return LA(np.ma.MaskedArray(vals, mask=mask), v["dims"], unit, a.get("positive", "").lower() or None, isint)


def _flatten(x):
    if isinstance(x, list):
        out = []
        for y in x:
            out.extend(_flatten(y))
        return out
    return [x]


def flip(x):
    return x.but(data=-x.data, pos={"up": "down", "down": "up"}[x.pos])


def toward(x, pos):
    """up()/down(): set the direction if there is none, flip if it is the other one."""
    if x.pos is None:
        return x.but(pos=pos)
    return x if x.pos == pos else flip(x)


def match(a, b):
    """Positive directions of two operands are brought together (towards the first)."""
    if a.pos == b.pos:
        return a, b
    if a.pos is None:
        return a.but(pos=b.pos), b
    if b.pos is None:
        return a, b.but(pos=a.pos)
    return a, flip(b)


class Eval:
    def __init__(self, world, order):
        self.world, self.order = world, order

    def __call__(self, ast):
        if isinstance(ast, (int, float)):
            return LA(np.array(ast), (), U(), None, isinstance(ast, int))
        k = ast[0]
        return getattr(self, "n_" + k)(*ast[1:])

    def n_var(self, name, index=None):
        x = self.resolve(name)
        if index:
            sl, dims = [], []
            for d, i in zip(x.dims, list(index) + [None] * (len(x.dims) - len(index))):
                if i is None:
                    sl.append(slice(None))
                    dims.append(d)
                elif isinstance(i, int):
                    sl.append(i)
                else:
                    sl.append(slice(*i))
                    dims.append(d)
            return x.but(data=x.data[tuple(sl)], dims=dims)
        return x

    def resolve(self, name):
        for f in self.world["inputs"].values():
            if name in f["vars"]:
                return parse_input(self.world, self.order, name)
        return self.data_node(name)

    def data_node(self, name):
        spec = self.world["spec"][name]
        u = spec["attributes"].get("units")
        dt = NC2NP[spec.get("datatype", "float")]
        if dt == "S1":
            return data_chars(spec)
        arr = np.array(spec["definition"], dtype=dt)
        arr = arr.astype("f8" if arr.dtype.kind == "f" else "i8")
        unit = U.named(u) if u else U()
        return LA(arr, spec["dimensions"], unit, None, arr.dtype.kind == "i")

    def bin(self, a, b):
        dims = a.dims + tuple(d for d in b.dims if d not in a.dims)
        sizes = {}
        for x in (a, b):
            for d, s in zip(x.dims, x.data.shape):
                assert sizes.get(d, s) == s, "generator made mismatched sizes"
                sizes[d] = s
        a, b = match(a, b)
        return a, b, a.expand(dims, sizes), b.expand(dims, sizes), dims

    def n_add(self, l, r):
        return self.addsub(l, r, 1)

    def n_sub(self, l, r):
        return self.addsub(l, r, -1)

    def addsub(self, l, r, s):
        a, b = self(l), self(r)
        # the second operand is converted to the units of the first
        b = b.but(data=b.unit.convert(b.data, a.unit), unit=a.unit)
        a, b, x, y, dims = self.bin(a, b)
        return LA(x + s * y, dims, a.unit, a.pos, a.isint and b.isint)

    def n_mul(self, l, r):
        a, b, x, y, dims = self.bin(self(l), self(r))
        return LA(x * y, dims, a.unit.mul(b.unit), a.pos, a.isint and b.isint)

    def n_div(self, l, r):
        a, b, x, y, dims = self.bin(self(l), self(r))
        den = np.ma.masked_where(np.ma.getdata(y) == 0, y)
        nan = (not_a_number(x) & ~np.ma.getmaskarray(den)) | (not_a_number(den) & ~np.ma.getmaskarray(x))
        return LA(with_nan(x / den, nan), dims, a.unit.mul(b.unit, -1), a.pos, False)

    def n_pow(self, l, n):
        a = self(l)
        return LA(with_nan(a.data ** n, not_a_number(a.data)), a.dims, a.unit.pow(n), None if n % 2 == 0 else a.pos, a.isint)

    def n_neg(self, l):
        a = self(l)
        return a.but(data=-a.data)

    def n_mean(self, l, *dims):
        a = self(l)
        ax = tuple(a.dims.index(d) for d in dims)
        return LA(with_nan(a.data.mean(axis=ax), not_a_number(a.data).any(axis=ax)), [d for d in a.dims if d not in dims], a.unit, a.pos)

    def n_sum(self, l, *dims):
        a = self(l)
        ax = tuple(a.dims.index(d) for d in dims)
        return LA(with_nan(a.data.sum(axis=ax), not_a_number(a.data).any(axis=ax)), [d for d in a.dims if d not in dims], a.unit, a.pos,
                  a.isint)

    def n_min(self, l, *dims):
        return self.extreme("min", l, dims)

    def n_max(self, l, *dims):
        return self.extreme("max", l, dims)

    def extreme(self, how, l, dims):
        a = self(l)
        ax = tuple(a.dims.index(d) for d in dims)
        return LA(with_nan(getattr(a.data, how)(axis=ax), not_a_number(a.data).any(axis=ax)),
                  [d for d in a.dims if d not in dims],
                  a.unit, a.pos, a.isint)

    def n_sqrt(self, l):
        a = self(l)
        d = np.ma.masked_where(np.ma.getdata(a.data) < 0, a.data)
        return LA(with_nan(np.ma.sqrt(d), not_a_number(a.data)), a.dims,
                  U(a.unit.scale ** 0.5, 0.0, {k: v // 2 for k, v in a.unit.exps.items()}), a.pos)

    def n_up(self, l):
        return toward(self(l), "up")

    def n_down(self, l):
        return toward(self(l), "down")

    def n_limit(self, l, below, above):
        a = self(l)
        d = a.data.copy()
        if above is not None:
            d = np.ma.MaskedArray(np.where(d.data > above, above, d.data), mask=d.mask)
        if below is not None:
            d = np.ma.MaskedArray(np.where(d.data < below, below, d.data), mask=d.mask)
        return a.but(data=d)

    def n_chunits(self, l, units):
        return self(l).but(unit=U.named(units))

    def n_tunits(self, l, per, ref, cal, how):
        return self(l).but(unit=time_unit(per, ref, cal))

    def n_rmunits(self, l):
        return self(l).but(unit=U())

    def n_chdims(self, l, *dims):
        a = self(l)
        nd = list(a.dims)
        nd[:len(dims)] = dims
        return a.but(dims=nd)

    def n_user(self, name, l):
        a = self(l)
        return a.but(data=a.data * 2)


def data_chars(spec):
    n = max(len(s) for s in spec["definition"])
    arr = np.array([list(s.ljust(n, "\0")) for s in spec["definition"]], dtype="S1")
    return LA(np.ma.masked_where(arr == b"", arr), spec["dimensions"], None)


def render(ast, style=None):
    """
    The definition string of an AST (the inverse of what pyconform parses)

    Without a style every operation is in parentheses; a style (any integer) chooses, reproducibly, between the
    ways in which the same definition can be written: as few parentheses as the precedence and associativity of the
    operators allow, spaces, quotes, the order of keywords, and spellings of constants.
    """
    return Renderer(style).top(ast)


class Renderer(object):
    """Renders an AST; the methods return a string and the precedence of its outermost operation."""
    SUM, PROD, NEG, POW, ATOM = range(1, 6)

    def __init__(self, style):
        self.r = None if style is None else random.Random(style)
        self.few = self.r is not None and self.r.random() < 0.7

    def coin(self, p=0.5):
        return self.r is not None and self.r.random() < p

    def top(self, ast):
        s, p = self.any(ast)
        if self.coin(0.1):
            s = " " + s
        return s

    def q(self, s):
        return ("'%s'" if self.coin(0.4) else '"%s"') % s

    def comma(self):
        return "," if self.coin(0.3) else ", "

    def arg(self, ast):
        s, p = self.any(ast)
        return "(%s)" % s if self.coin(0.1) else s

    def kwds(self, pairs):
        if self.coin(0.5):
            pairs = list(pairs)
            self.r.shuffle(pairs)
        return [k + (" = " if self.coin(0.2) else "=") + v for k, v in pairs]

    def one(self, name, ast, kw=()):
        """A call with the first argument by name now and then, the others by name."""
        if self.coin(0.06):
            return self.call(name, self.kwds([("data", self.arg(ast))] + list(kw)))
        return self.call(name, [self.arg(ast)] + self.kwds(kw))

    def call(self, name, args):
        return name + ("( " if self.coin(0.1) else "(") + self.comma().join(args) + ")", self.ATOM

    def at(self, ast, least):
        """Render as an operand that must bind at least this strongly."""
        s, p = self.any(ast)
        if p < least or (self.r is not None and not self.few and p < self.ATOM) or self.coin(0.08):
            return "(%s)" % s
        return s

    def number(self, c):
        if self.coin(0.75) or self.r is None or isinstance(c, bool):
            s = repr(c)
            return s, (self.NEG if s.startswith("-") else self.ATOM)
        opts = [("+" + repr(c), self.NEG)] if c >= 0 else []
        opts.append(("--" + repr(c) if c >= 0 else "-(%r)" % -c, self.NEG))
        if isinstance(c, int):
            k = self.r.randint(1, 3)
            opts += [("%d+%d" % (c - k, k), self.SUM), ("%d - %d" % (c + k, k), self.SUM)] if c >= k else []
            if c > 0:
                opts += [("%d*%d" % (c // 2, 2) if c % 2 == 0 else "1*%d" % c, self.PROD), ("%d**1" % c, self.POW)]
                if c in (4, 8):
                    opts.append(("2**%d" % (2 if c == 4 else 3), self.POW))
        else:
            if c > 0 and (c * 16) == int(c * 16) and c < 1e6:
                opts += [("%r/4" % (c * 4), self.PROD), ("%r*0.5" % (c * 2), self.PROD), ("%r-1.0" % (c + 1), self.SUM)]
            if c > 0:
                t = "%.17e" % c
                if float(t) == c:
                    opts.append((t, self.ATOM))
                if c == int(c) and c < 1e6:
                    opts += [("%d." % c, self.ATOM), ("%dE0" % c, self.ATOM)]
                if 0 < c < 1:
                    opts.append((repr(c).lstrip("0"), self.ATOM) if repr(c).startswith("0.") else (repr(c), self.ATOM))
        return self.r.choice(opts)

    def any(self, ast):
        if isinstance(ast, bool):
            raise TypeError
        if isinstance(ast, (int, float)):
            return self.number(ast)
        k = ast[0]
        if k == "var":
            if len(ast) > 2 and ast[2]:
                return "%s[%s]" % (ast[1], self.comma().join(self.index(i) for i in ast[2])), self.ATOM
            return ast[1], self.ATOM
        if k in ("add", "sub", "mul", "div"):
            op = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[k]
            own = self.SUM if k in ("add", "sub") else self.PROD
            sp = "" if self.coin(0.3) else " "
            s = self.at(ast[1], own) + sp + op + sp + self.at(ast[2], own + 1)
            return ("(%s)" % s, self.ATOM) if self.r is None else (s, own)
        if k == "pow":
            s = "%s**%s" % (self.at(ast[1], self.ATOM), self.at(ast[2], self.ATOM))
            return ("(%s)" % s, self.ATOM) if self.r is None else (s, self.POW)
        if k == "neg":
            s = "-" + self.at(ast[1], self.NEG)
            return ("(%s)" % s, self.ATOM) if self.r is None else (s, self.NEG)
        if k in ("mean", "sum", "min", "max", "chdims"):
            return self.call(k, [self.arg(ast[1])] + [self.q(d) for d in ast[2:]])
        if k == "limit":
            kw = [(n, self.arg(v)) for n, v in (("below", ast[2]), ("above", ast[3])) if v is not None]
            if ast[2] is not None and self.coin(0.2):  # in the order of the function's parameters
                return self.call(k, [self.arg(ast[1])] + [self.arg(v) for v in ast[2:] if v is not None])
            return self.one(k, ast[1], kw)
        if k == "tunits":
            u = "%s since %s" % (ast[2], refdate(ast[3]))
            if ast[5] == "node":
                kw = [("units", "time")]
            elif ast[5] == "str":
                kw = [("units", self.q(u)), ("calendar", self.q(ast[4]))]
            else:
                kw = [("units", self.q(ast[2])), ("refdate", self.q(u.split(" since ")[1])),
                      ("calendar", self.q(ast[4]))]
            return self.one("chunits", ast[1], kw)
        if k == "chunits":
            if self.coin(0.2):
                return self.call(k, [self.arg(ast[1]), self.q(ast[2])])
            return self.one(k, ast[1], [("units", self.q(ast[2]))])
        if k == "user":
            return self.call(ast[1], [self.arg(ast[2])])
        return self.one(k, ast[1])

    def index(self, i):
        if i is None:
            return ":"
        if isinstance(i, int):
            return self.number(i)[0]
        return ":".join([""if x is None else self.number(x)[0] for x in (i if i[2] is not None else i[:2])])


def variables(ast):
    if isinstance(ast, (int, float)) or ast is None or isinstance(ast, str):
        return set()
    if ast[0] == "var":
        return {ast[1]}
    out = {"time"} if ast[0] == "tunits" and ast[5] == "node" else set()
    for x in ast[1:]:
        if isinstance(x, list):
            out |= variables(x)
    return out


def has_op(ast, names):
    if not isinstance(ast, list):
        return False
    return ast[0] in names or any(has_op(x, names) for x in ast[1:] if isinstance(x, list))


# --------------------------------------------------------------- whole files
def dimension_map(spec, dims_of):
    """Which output dimension each input dimension becomes: variables with fewer dimensions settle it first (of those
    with as many, in the order of their names), dimensions that are not settled match in order."""
    i2o = {}
    for _, n in sorted((len(spec[n]["dimensions"]), n) for n in spec if isinstance(spec[n].get("definition"), str)):
        inp, out = list(dims_of(n)), spec[n]["dimensions"]
        o2i = {o: i for i, o in i2o.items()}
        new = [d for d in out if d not in o2i]
        old = [o2i[d] for d in out if d in o2i]
        left = [d for d in inp if d not in old]
        if len(new) != len(left):
            raise ValueError("cannot map %s to %s" % (inp, out))
        i2o.update(zip(left, new))
    return i2o


class Expect:
    """What a job must write, derived from a world (scenario) description."""

    def __init__(self, world):
        self.w = world
        self.spec = world["spec"]
        self.order = [f for f in world["infiles"]]
        self.ev = Eval(world, self.order)
        self.cache = {}
        self.map = None

    def files(self):
        return {v["file"]["filename"]: n for n, v in self.spec.items() if "file" in v}

    def members(self, owner):
        """Names of the variables that the file of this owner contains."""
        sp = self.spec
        names = [owner] + [m for m in sp[owner]["file"].get("metavars", []) if m != owner]
        fdims = set(d for n in names for d in sp[n]["dimensions"])
        for n, v in sp.items():
            if "file" not in v and n not in names:
                if v["dimensions"] and set(v["dimensions"]) <= fdims:
                    names.append(n)
        extra = []
        for n in names:
            a = sp[n].get("attributes", {})
            for ref in ([a["bounds"]] if "bounds" in a else []) + a.get("coordinates", "").split():
                extra.append(ref)
        for n in extra:
            if n not in names:
                names.append(n)
        return names

    def value(self, name):
        """Unvalidated value of an output variable on output dimension names/order."""
        if name in self.cache:
            return self.cache[name]
        sp = self.spec[name]
        d = sp["definition"]
        dmap = self.dimmap()
        if not isinstance(d, str):
            x = self.ev.data_node(name)
        else:
            x = self.ev(self.w["asts"][name])
            x = x.but(dims=[dmap.get(k, k) for k in x.dims])
        a = self.attrs(name)
        ot = NC2NP[sp.get("datatype", "float")]
        if ot != "S1":
            if name in self.w.get("tunits", {}):
                to = time_unit(*self.w["tunits"][name])
                x = x.but(data=x.unit.convert(x.data, to), unit=to)
            elif a.get("units"):
                to = U.named(a["units"])
                x = x.but(data=x.unit.convert(x.data, to), unit=to)
        x = x.but(data=x.data.transpose([x.dims.index(k) for k in sp["dimensions"]]),
                  dims=sp["dimensions"])
        pos = a.get("positive", "").lower() or None
        if pos is not None and x.pos is not None and x.pos != pos:
            x = flip(x)
        self.cache[name] = x
        return x

    def dimmap(self):
        if not self.w.get("nocoord"):  # every dimension has a variable of its own, of the same name
            return self.w["dimmap"]
        if self.map is None:
            self.map = dimension_map(self.spec, lambda n: self.ev(self.w["asts"][n]).dims)
        return self.map

    def attrs(self, name):
        """Attributes of an output variable, with those that it takes over from its input."""
        return dict(self.spec[name].get("attributes", {}), **self.w.get("inherited", {}).get(name, {}))

    def inverted(self, owner):
        """Dimensions of the file of this owner that are written in reverse."""
        out = set()
        for n in self.members(owner):
            sp = self.spec[n]
            a = sp.get("attributes", {})
            if len(sp["dimensions"]) == 1 and "axis" in a and "direction" in a and n[0] != "_":
                v = self.value(n).data
                inc = bool(np.all(np.diff(v) > 0))
                if inc != (a["direction"] == "increasing"):
                    out.add(sp["dimensions"][0])
        return out

    def beyond(self, name):
        """Where the unmasked values are outside of the validation limits."""
        data = self.value(name).data
        a = self.spec[name].get("attributes", {})
        out = np.zeros(data.shape, bool)
        if self.spec[name].get("datatype") == "char":
            return out
        raw = np.ma.getdata(data)
        if a.get("valid_min") is not None:
            out |= raw < a["valid_min"]
        if a.get("valid_max") is not None:
            out |= raw > a["valid_max"]
        return out & ~np.ma.getmaskarray(data)

    def mean_abs(self, name):
        """Mean magnitude of the values that are not missing (None if there are none)."""
        x = self.value(name).data
        x = np.ma.MaskedArray(x.data, mask=np.ma.getmaskarray(x) | self.beyond(name))
        m = np.ma.mean(np.ma.abs(x))
        return None if m is np.ma.masked or not np.isfinite(m) else float(m)

    def mean_off(self, name):
        """Does the mean magnitude violate its limits?"""
        a = self.spec[name].get("attributes", {})
        lo, hi = a.get("ok_min_mean_abs"), a.get("ok_max_mean_abs")
        m = self.mean_abs(name) if lo or hi else None
        return m is not None and bool(lo and m < lo or hi and m > hi)

    def array(self, owner, name):
        """(values, mask) as they must be stored."""
        x = self.value(name)
        inv = self.inverted(owner)
        data = x.data
        out = self.beyond(name)
        if out.any():
            data = np.ma.MaskedArray(data.data, mask=np.ma.getmaskarray(data) | out)
        sl = tuple(slice(None, None, -1) if d in inv else slice(None) for d in x.dims)
        data = data[sl]
        return np.ma.getdata(data), np.ma.getmaskarray(data)

    def visible(self, owner):
        """Members that are written (names starting with '_' are hidden)."""
        return [n for n in self.members(owner) if not n.startswith("_")]

    def offset_units(self, name):
        return "K" in self.value(name).unit.exps

    def dim(self, d):
        """(size, unlimited) of an output dimension."""
        out = None
        used = set(n for o in self.spec if "file" in self.spec[o] for n in self.members(o)) | set(
            n for n in self.spec if n[0] == "_")
        for v in [self.spec[n] for n in self.spec if n in used]:
            if d in v["dimensions"] and not isinstance(v["definition"], str):
                if v.get("datatype") == "char":
                    out = (data_chars(v).data.shape[v["dimensions"].index(d)], False)
                else:
                    out = (np.array(v["definition"]).shape[v["dimensions"].index(d)], False)
        strings = any(v.get("datatype") == "char" and v["dimensions"][-1:] == [d] for v in self.spec.values())
        mapped = any(d in self.spec[n]["dimensions"] and isinstance(self.spec[n].get("definition"), str)
                     for n in self.spec if n in used)
        for i, o in self.dimmap().items():
            if o == d and (mapped or out is None):
                for f in self.w["inputs"].values():
                    if i in f["dims"]:
                        size = tuple(f["dims"][i])
                        # strings may be shorter than others of the same dimension
                        return size if out is None or not strings or out[0] < size[0] else out
        if out is None:
            raise KeyError(d)
        return out

    def final_name(self, owner):
        """The published name: date templates are filled from the file's time coordinate."""
        name = self.spec[owner]["file"]["filename"]
        if "autoparse_time_variable" in self.spec[owner]["file"] and "{" in name:
            assert self.spec[owner]["file"]["autoparse_time_variable"] in self.members(owner)
        if "{" not in name:
            return name
        tv = self.spec[owner]["file"].get("autoparse_time_variable")
        if tv is None:
            # the coordinate in units of time since a date (which is never a scalar, and has no bounds dimension)
            tv = [m for m in self.members(owner) if m in self.w["tunits"] and self.spec[m]["dimensions"] == [m]]
            if not tv:
                return name
            tv, = tv
        x = self.value(tv)
        vals = np.ma.getdata(x.data)
        per, ref, cal = self.w["tunits"][tv]
        t = [add_days(cal, ref, float(v) * SECONDS[per] / 86400) for v in (vals[0], vals[-1])]
        while "{" in name:
            b = name.find("{")
            e = name.find("}", b)
            f1, f2 = name[b + 1:e].split("-")
            name = name[:b] + fmt_date(f1, t[0]) + "-" + fmt_date(f2, t[1]) + name[e + 1:]
        return name

    def used_inputs(self, owner):
        out = set()
        for n in self.members(owner):
            if n in self.w["asts"]:
                out |= variables(self.w["asts"][n])
        return out

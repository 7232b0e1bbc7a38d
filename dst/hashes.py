"""
The hashing seam: every process of a parallel job has its own PYTHONHASHSEED unless its user
sets one, so that each may iterate over the same set in a different order and get a different
hash() of the same string. Simulated processes are threads of one interpreter; this module
gives each its own order: set displays, set comprehensions, set(), frozenset() and hash() in
the code under test are bound to seeded ones (by names of the module and, for the syntax, by
a transformation of the syntax tree).
"""
import ast
import hashlib

_NAME = "__dst_set__"


class _Rewrite(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        new = ast.Call(ast.Name(_NAME, ast.Load()), [ast.Tuple(node.elts, ast.Load())], [])
        return ast.copy_location(new, node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        new = ast.Call(ast.Name(_NAME, ast.Load()), [ast.ListComp(node.elt, node.generators)], [])
        return ast.copy_location(new, node)


def parse(data, path):
    return ast.fix_missing_locations(_Rewrite().visit(ast.parse(data, path)))


def _key(seed, x):
    """A position for x: None if it has no representation that is the same in every run."""
    if isinstance(x, (str, bytes, int, float, type(None))):
        text = "%s:%r" % (type(x).__name__, x)
    elif isinstance(x, (tuple, frozenset)):
        parts = [_key(seed, y) for y in (sorted(x, key=repr) if isinstance(x, frozenset) else x)]
        if any(p is None for p in parts):
            return None
        text = "(%s)" % ",".join(map(str, parts))
    else:
        return None
    return int.from_bytes(hashlib.blake2b(("%s/%s" % (seed, text)).encode("utf8", "surrogatepass"),
                                          digest_size=7).digest(), "big")


class _Any(type):
    """isinstance(x, set) must hold for the ordinary sets, too."""

    def __instancecheck__(cls, x):
        return isinstance(x, cls.__mro__[2])


def _make(base, seed, reg):
    def wrap(x):
        return reg[base](x) if type(x) is base else x

    def method(name):
        f = getattr(base, name)

        def m(self, *a):
            return wrap(f(self, *a))
        m.__name__ = name
        return m

    class _S(base):
        __slots__ = ()

        def __iter__(self):
            items = list(base.__iter__(self))
            keys = [_key(seed, x) for x in items]
            if any(k is None for k in keys):
                return iter(items)
            return iter([x for _, x in sorted(zip(keys, items), key=lambda t: t[0])])

        def __repr__(self):
            return repr(base(base.__iter__(self)))

        def __reduce_ex__(self, protocol):
            return base, (list(base.__iter__(self)),)

        __hash__ = base.__hash__

    ns = {}
    for name in ("union", "intersection", "difference", "symmetric_difference", "copy",
                 "__and__", "__or__", "__sub__", "__xor__", "__rand__", "__ror__", "__rsub__", "__rxor__"):
        ns[name] = method(name)
    if base is set:
        def pop(self):
            if not self:
                raise KeyError("pop from an empty set")
            x = next(iter(self))
            self.remove(x)
            return x
        ns["pop"] = pop
    out = _Any(base.__name__, (_S,), dict(ns, __slots__=()))
    reg[base] = out
    return out


def bindings(seed):
    """Global names for the modules of one simulated process."""
    if seed is None:
        return {_NAME: set}
    reg = {}
    s, f = _make(set, seed, reg), _make(frozenset, seed, reg)
    plain = hash

    def seeded(x):
        k = _key(seed, x) if isinstance(x, (str, bytes, tuple)) else None
        return plain(x) if k is None else k

    return {_NAME: s, "set": s, "frozenset": f, "hash": seeded}

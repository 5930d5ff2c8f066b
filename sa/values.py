"""Abstract values other than terms."""
import numpy as np

from . import terms as T
from .terms import Term, const


class Incomplete(Exception):
    """The analysis met a construct it has no transfer function for."""


class AbsRaise(Exception):
    """The analysed program raises on this abstract path."""

    def __init__(self, cls, msg="", loc=None, obj=None):
        super().__init__(cls, msg)
        self.cls, self.msg, self.loc, self.obj = cls, msg, loc, obj

    def __str__(self):
        return f"{self.cls}: {self.msg} at {fmt(self.loc)}"


def fmt(loc):
    if loc is None:
        return "?"
    return f"{loc[0]}:{loc[1]} ({loc[2]})"


def oa(x):
    """ndarray of terms from ndarray/Term/scalar."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    if isinstance(x, Term):
        r = np.empty((), object)
        r[()] = x
        return r
    x = np.asarray(x)
    r = np.empty(x.shape, object)
    rf, xf = r.reshape(-1), x.reshape(-1)
    for i in range(rf.size):
        v = xf[i]
        rf[i] = v if isinstance(v, Term) else const(v.item() if hasattr(v, "item") else v)
    return r


class Arr:
    """Abstract array: terms, dtype, trace level and flavour."""

    __slots__ = ("d", "dt", "lvl", "kind", "weak")

    def __init__(self, d, dt="f", lvl=0, kind="jnp", weak=False):
        self.d = oa(d)
        self.dt = dt
        self.lvl = lvl
        self.kind = kind
        self.weak = weak

    @property
    def shape(self):
        return self.d.shape

    @property
    def ndim(self):
        return self.d.ndim

    def flat(self):
        return list(self.d.reshape(-1))

    def term(self):
        assert self.d.size == 1, self.d.shape
        return self.d.reshape(-1)[0]

    def __repr__(self):
        s = ", ".join(T.show(t, 3) for t in self.flat()[:3])
        return f"<{self.kind}{self.shape} {self.dt} L{self.lvl} {s}>"

    def isconst(self):
        return all(t.op == "const" for t in self.flat())


class PyKey:
    """Hashable stand-in for a symbolic Python scalar used as a dict key."""

    def __init__(self, arr):
        self.arr = arr

    def __hash__(self):
        return hash(("pykey", self.arr.term().id))

    def __eq__(self, o):
        return isinstance(o, PyKey) and o.arr.term() is self.arr.term()

    def __repr__(self):
        return f"PyKey({self.arr!r})"


class ObjKey:
    """Dictionary key for an object whose class defines equality."""

    def __init__(self, I, obj, h):
        self.I, self.obj, self.h = I, obj, h

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, ObjKey) and (o.obj is self.obj or self.I.truth_native(self.I.cmp("eq", self.obj, o.obj)))

    def __repr__(self):
        return f"ObjKey({self.obj!r})"


class DType:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"dtype({self.name})"

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name

    def __hash__(self):
        return hash(("dtype", self.name))


DTNAMES = {
    "float64": "f", "float_": "f", "double": "f", "float32": "f32", "float16": "f16", "bfloat16": "bf16", "single": "f32",
    "half": "f16",
    "int64": "i", "int_": "i", "int32": "i32", "int16": "i16", "int8": "i8", "uint8": "u8", "uint16": "u16",
    "uint32": "u32", "uint64": "u64", "bool_": "b", "bool": "b", "float": "f", "int": "i", "intp": "i",
    "inexact": "f", "floating": "f", "integer": "i", "number": "f",
}


class Env:
    __slots__ = ("vars", "parent", "globals_decl", "nonlocal_decl", "func", "module", "cls")

    def __init__(self, parent, module, func=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.cls = None


class AModule:
    def __init__(self, name, file):
        self.name, self.file = name, file
        self.ns = {"__name__": name, "__doc__": "", "__file__": file}


class Ext:
    """Reference into an external library, by canonical dotted path."""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"Ext({self.path})"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("ext", self.path))


class AClass:
    def __init__(self, name, bases, ns, module=None, node=None):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.pytree = None  # None | 'class' | (flatten, unflatten)
        self.exc = any(isinstance(b, AClass) and b.exc for b in bases)
        self.mro = [self]
        seqs = [list(b.mro) for b in bases if isinstance(b, AClass)] + [[b for b in bases if isinstance(b, AClass)]]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in r[1:] for r in seqs):
                    break
            else:
                raise Incomplete(f"inconsistent mro for {name}")
            self.mro.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
            seqs = [s for s in seqs if s]

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                v = c.ns[name]
                if isinstance(v, Unknown):
                    raise Incomplete(v.why)
                return v, c
        return None, None

    def __repr__(self):
        return f"<class {self.name}>"


class AObj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return f"<{self.cls.name} obj>"


class AFunc:
    def __init__(self, node, env, module, name, qualname, defaults, kwdefaults, owner=None):
        self.node, self.env, self.module, self.name, self.qualname = node, env, module, name, qualname
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.owner = owner
        self.attrs = {}
        self.isgen = False

    def __repr__(self):
        return f"<function {self.qualname}>"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class ClsM:
    def __init__(self, fn):
        self.fn = fn


class StatM:
    def __init__(self, fn):
        self.fn = fn


class NF:
    """Native (modelled) function."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<native {self.name}>"


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Jit:
    def __init__(self, fn, static_nums=(), static_names=()):
        self.fn, self.static_nums, self.static_names = fn, static_nums, static_names


class Vmap:
    def __init__(self, fn, in_axes=0, out_axes=0):
        self.fn, self.in_axes, self.out_axes = fn, in_axes, out_axes


class Summary:
    """A kernel replaced by its contract at callers."""

    def __init__(self, name, orig, fn):
        self.name, self.orig, self.fn = name, orig, fn


class Unknown:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Unknown({self.why})"


class SuperObj:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class AtIdx:
    def __init__(self, arr, idx=None):
        self.arr, self.idx = arr, idx

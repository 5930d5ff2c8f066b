"""Models of numpy / jax.numpy / jax.lax / jax.scipy entry points."""
import inspect
import math

import numpy as np

from . import terms as T
from .terms import Term, const, mk, matterm
from .values import *
from .values import fmt
from . import pylib
from .interp import NUM, _tname, _MISSING, _Iter
from . import models as M

ALIAS = {
    "jnp": "jax.numpy", "jax._src.numpy": "jax.numpy",
}


def canon(path):
    for a, b in (("jax.experimental.ode.", "jax.experimental.ode."),):
        if path.startswith(a):
            return b + path[len(a):]
    return path


CONST = {"pi": math.pi, "e": math.e, "inf": math.inf, "nan": math.nan, "euler_gamma": 0.5772156649015329, "tau": 2 * math.pi}


class _Newaxis:
    pass


def ext_constant(path):
    head, _, name = path.rpartition(".")
    if head in ("jax.numpy", "numpy", "math", "scipy.constants", "jax.scipy.constants"):
        if name in CONST:
            return CONST[name]
        if name in DTNAMES and head in ("jax.numpy", "numpy"):
            return DType(name)
    return None


NPF = {}   # name -> function(C, ...)
FULL = {}  # dotted path -> function(I, args, kw)


def npf(*names):
    def deco(f):
        for n in names:
            NPF[n] = f
        f._sig = inspect.signature(f)
        return f

    return deco


def full(*paths):
    def deco(f):
        for p in paths:
            FULL[p] = f
        return f

    return deco


class C:
    """Call context: interpreter, flavour and conversion helpers."""

    def __init__(self, I, fl, name):
        self.I, self.fl, self.name = I, fl, name
        self.ins = []

    def arr(self, v, seq=False):
        I = self.I
        if isinstance(v, (list, tuple)):
            if self.fl == "jnp" and not seq:
                I.raise_("TypeError", f"{self.name} requires ndarray or scalar arguments, got {type(v).__name__}")
            a = M.np_array(I, v, self.fl)
        elif isinstance(v, range):
            a = M.np_array(I, v, self.fl)
        else:
            if v is None or isinstance(v, (str, dict, AFunc)):
                I.raise_("TypeError", f"{self.name} requires ndarray or scalar arguments, got {_tname(v)}")
            a = I.arr(v)
        if self.fl == "np" and a.lvl > 0:
            I.sink("TracerArrayConversionError", f"host numpy.{self.name}")
        self.ins.append(a)
        return a

    def arrs(self, v, seq=False):
        return [self.arr(x, seq) for x in self.I.iterate(v)]

    def out(self, d, dt, weak=False):
        r = M.result(self.I, d, dt, self.ins, self.fl)
        r.weak = weak
        return r

    def int(self, v, what="argument"):
        return self.I.index_of(v, what)

    def axis(self, v):
        if v is None:
            return None
        if isinstance(v, (tuple, list)):
            return tuple(self.int(x, "axis") for x in v)
        return self.int(v, "axis")

    def shape(self, v):
        if isinstance(v, (tuple, list)):
            return tuple(self.int(x, "shape") for x in v)
        return (self.int(v, "shape"),)

    def fail(self, cls, msg):
        self.I.raise_(cls, msg)


def np_try(c, f, *a, **k):
    try:
        return f(*a, **k)
    except (ValueError, IndexError, TypeError, np.exceptions.AxisError) as e:
        if isinstance(e, TypeError) and ("truth value" in str(e)):
            raise Incomplete(f"{c.name}: {e} at {fmt(c.I.cur)}")
        c.fail("ValueError" if not isinstance(e, TypeError) else "TypeError", f"{c.name}: {e}")


def call(I, path, args, kw):
    if path in FULL:
        return FULL[path](I, args, kw)
    fl = name = None
    for pre, f in (("jax.numpy.", "jnp"), ("numpy.", "np")):
        if path.startswith(pre):
            fl, name = f, path[len(pre):]
    if path.startswith("jax.lax."):
        n = path[len("jax.lax."):]
        n = LAX.get(n, n)
        if n in NPF:
            fl, name = "jnp", n
    if path.startswith("jax.scipy."):
        n = path[len("jax.scipy."):]
        if "sp." + n in NPF:
            fl, name = "jnp", "sp." + n
    if path.startswith("scipy."):
        n = path[len("scipy."):]
        if "sp." + n in NPF:
            fl, name = "np", "sp." + n
    if path.startswith("math."):
        n = path[5:]
        return math_call(I, n, args, kw)
    if path.startswith("jax.nn."):
        n = path[len("jax.nn."):]
        if "nn." + n in NPF:
            fl, name = "jnp", "nn." + n
    if name is None or name not in NPF:
        f = I.prelude(path.replace(".", "_"))
        if f is not None:
            I.oplog.add(name or path)
            return I.call(f, args, kw)
    if name is None:
        raise Incomplete(f"no model for {path} at {fmt(I.cur)}")
    if name.startswith("ufunc"):
        raise Incomplete(name)
    I.oplog.add(name)
    c = C(I, fl, name)
    f = NPF.get(name)
    if f is None:
        return fallback(c, name, args, kw)
    try:
        f._sig.bind(c, *args, **kw)
    except TypeError as e:
        I.raise_("TypeError", f"{name}: {e}")
    return f(c, *args, **kw)


LAX = {
    "add": "add", "mul": "multiply", "sub": "subtract", "div": "divide", "neg": "negative", "pow": "power",
    "max": "maximum", "min": "minimum", "concatenate": "concatenate", "rsqrt": "lax.rsqrt", "integer_pow": "power",
    "select": "where", "stop_gradient": "lax.stop_gradient", "square": "square", "broadcast": "lax.broadcast",
    "convert_element_type": "astype", "rem": "fmod", "eq": "equal", "lt": "less", "le": "less_equal", "gt": "greater",
    "ge": "greater_equal", "ne": "not_equal", "expand_dims": "expand_dims", "reshape": "reshape", "clamp": "lax.clamp",
    "transpose": "transpose", "iota": "lax.iota", "cumsum": "cumsum", "dot": "dot", "rev": "flip", "bitwise_and": "logical_and",
    "full": "full", "full_like": "full_like", "zeros_like_array": "zeros_like", "erf": "sp.special.erf",
    "dynamic_index_in_dim": "lax.dynamic_index_in_dim", "argmin": "argmin", "argmax": "argmax", "squeeze": "squeeze",
    "exp": "exp", "log": "log", "sin": "sin", "cos": "cos", "tan": "tan", "tanh": "tanh", "sqrt": "sqrt", "abs": "abs",
    "sign": "sign", "floor": "floor", "ceil": "ceil", "log1p": "log1p", "expm1": "expm1", "lgamma": "sp.special.gammaln",
}


def fallback(c, name, args, kw):
    """numpy's own structural function applied to arrays of terms."""
    I = c.I
    f = getattr(np, name, None) if "." not in name else None
    if f is None or not callable(f) or isinstance(f, (type, np.ufunc)):
        raise Incomplete(f"no model for {c.fl} function {name} at {fmt(I.cur)}")

    dts = []

    def conv(v):
        if isinstance(v, Arr):
            a = c.arr(v)
            if a.isconst() and a.dt[0] in "iub":
                q = np.array([t.attr for t in a.flat()]).reshape(a.shape)
                if a.dt == "b":
                    q = q.astype(bool)
            dts.append(a.dt)
            return a.d
        if isinstance(v, (list, tuple)):
            return type(v)(conv(x) for x in v)
        return v

    a2 = [conv(x) for x in args]
    k2 = {k: conv(v) for k, v in kw.items()}
    def num(v):
        if isinstance(v, Arr):
            return np.array([t.attr for t in v.flat()], dtype=bool if v.dt == "b" else int if v.dt[0] in "iu" else float).reshape(v.shape)
        if isinstance(v, (list, tuple)):
            return type(v)(num(x) for x in v)
        return v

    try:
        r = f(*a2, **k2)
    except AbsRaise:
        raise
    except Exception as e:
        if not all(a.isconst() and a.lvl == 0 for a in c.ins):
            raise Incomplete(f"fallback {name}: {type(e).__name__} {e} at {fmt(I.cur)}")
        try:
            r = f(*[num(x) for x in args], **{k: num(v) for k, v in kw.items()})
        except Exception as e:
            raise Incomplete(f"fallback {name}: {type(e).__name__} {e} at {fmt(I.cur)}")

    dt = M.promote(*dts) if dts else "f"

    def back(r):
        if isinstance(r, (list, tuple)):
            return type(r)(back(x) for x in r)
        if isinstance(r, np.ndarray) and r.dtype == object:
            return c.out(r, dt)
        if isinstance(r, Term):
            return c.out(r, dt)
        if isinstance(r, (np.ndarray, np.number, np.bool_)):
            r = np.asarray(r)
            return c.out(oa(r), "b" if r.dtype == bool else ("i" if r.dtype.kind in "iu" else "f"))
        return r

    return back(r)


# ------------------------------------------------------------------ elementwise
UN = {
    "exp": "exp", "log": "log", "log10": "log10", "log2": "log2", "log1p": "log1p", "expm1": "expm1", "sqrt": "sqrt",
    "cbrt": "cbrt", "sin": "sin", "cos": "cos", "tan": "tan", "arcsin": "arcsin", "arccos": "arccos", "arctan": "arctan",
    "asin": "arcsin", "acos": "arccos", "atan": "arctan", "asinh": "arcsinh", "acosh": "arccosh", "atanh": "arctanh",
    "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "arcsinh": "arcsinh", "arccosh": "arccosh", "arctanh": "arctanh",
    "abs": "abs", "absolute": "abs", "fabs": "abs", "sign": "sign", "floor": "floor", "ceil": "ceil", "round": "round",
    "rint": "round", "trunc": "trunc", "fix": "trunc", "negative": "neg", "sinc": "sinc", "isnan": "isnan",
    "isfinite": "isfinite", "logical_not": "not", "sp.special.erf": "erf", "sp.special.erfc": "erfc",
    "sp.special.gammaln": "lgamma", "sp.special.gamma": "gamma", "lax.stop_gradient": "stop", "around": "round",
}
for _n, _op in UN.items():
    def _mkun(op):
        def f(c, x, *rest, **kw):
            a = c.arr(x)
            if op == "round" and (rest or kw.get("decimals") is not None):
                dec = int(c.I.native(rest[0] if rest else kw["decimals"]))
                if a.dt[0] in "iub" and dec >= 0:
                    return a
                s = oa(const(10.0 ** dec))
                return c.out(M.ew("div", 2, M.ew("round", 1, M.ew("mul", 2, a.d, s)), s), a.dt, weak=a.weak)
            if kw.get("dtype") is not None or rest or kw.get("where") is not None:
                raise Incomplete(f"{c.name} with options")
            if op == "abs" and a.dt[0] in "iu" and any(t.op != "const" for t in a.flat()):
                pass
            r = M.unary(c.I, op, a, c.fl)
            return r
        return f
    npf(_n)(_mkun(_op))

BIN = {
    "add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "power": "pow",
    "float_power": "fpow", "pow": "pow", "mod": "mod", "remainder": "mod", "floor_divide": "floordiv", "maximum": "max",
    "minimum": "min", "fmax": "max", "fmin": "min", "arctan2": "atan2", "atan2": "atan2", "copysign": "copysign", "hypot": "hypot",
    "logaddexp": "logaddexp",
}
for _n, _op in BIN.items():
    def _mkbin(op):
        def f(c, x, y, **kw):
            if any(v is not None for v in kw.values()):
                raise Incomplete(f"{c.name} with options")
            a, b = c.arr(x), c.arr(y)
            if op == "logaddexp":
                return c.out(M.ew("log", 1, M.ew("add", 2, M.ew("exp", 1, a.d), M.ew("exp", 1, b.d))), "f")
            if op in ("add", "sub", "mul", "div", "pow", "mod", "floordiv"):
                r = M.binop(c.I, op, _keep(a, c), _keep(b, c))
                return Arr(r.d, r.dt, max(r.lvl, c.I.jit_level if c.fl == "jnp" else 0), c.fl, r.weak)
            dt = M.promote_arrs(a, b)
            o = op
            if op == "fpow":
                o, dt = "pow", "f"
            if op in ("atan2", "hypot", "copysign") and not M.isfloat(dt):
                dt = "f"
            return c.out(M._ew(c.I, o, a, b), dt, weak=a.weak and b.weak)
        return f
    npf(_n)(_mkbin(_op))


def _keep(a, c):
    # integer ** negative int raises for arrays, works for Python ints
    return Arr(a.d, a.dt, a.lvl, c.fl, a.weak)


for _n, _op in {"less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge", "equal": "eq", "not_equal": "ne",
                "logical_and": "and", "logical_or": "or", "logical_xor": "ne", "bitwise_and": "and", "bitwise_or": "or"}.items():
    def _mkcmp(op, nm):
        def f(c, x, y):
            a, b = c.arr(x), c.arr(y)
            if op in ("and", "or") and nm.startswith("bitwise") and "b" not in (a.dt, b.dt):
                raise Incomplete(nm)
            return c.out(M._ew(c.I, op, a, b), "b")
        return f
    npf(_n)(_mkcmp(_op, _n))


@npf("square")
def _sq(c, x):
    a = c.arr(x)
    r = M.binop(c.I, "mul", a, a)
    return Arr(r.d, r.dt, max(r.lvl, c.I.jit_level if c.fl == "jnp" else 0), c.fl)


@npf("reciprocal")
def _recip(c, x):
    a = c.arr(x)
    if a.dt[0] in "iu":
        raise Incomplete("integer reciprocal")
    return c.out(M.ew("div", 2, oa(const(1)), a.d), "f")


@npf("lax.rsqrt")
def _rsq(c, x):
    a = c.arr(x)
    return c.out(M.ew("div", 2, oa(const(1)), M.ew("sqrt", 1, a.d)), "f")


@npf("exp2")
def _exp2(c, x):
    a = c.arr(x)
    return c.out(M.ew("pow", 2, oa(const(2)), a.d), "f")


@npf("deg2rad", "radians")
def _d2r(c, x):
    return c.out(M.ew("mul", 2, c.arr(x).d, oa(const(math.pi / 180))), "f")


@npf("rad2deg", "degrees")
def _r2d(c, x):
    return c.out(M.ew("mul", 2, c.arr(x).d, oa(const(180 / math.pi))), "f")


@npf("fmod")
def _fmod(c, x, y):
    a, b = c.arr(x), c.arr(y)
    raise Incomplete("fmod")


@npf("isinf")
def _isinf(c, x):
    a = c.arr(x)
    return c.out(M.ew("not", 1, M.ew("or", 2, M.ew("isfinite", 1, a.d), M.ew("isnan", 1, a.d))), "b")


@npf("nan_to_num")
def _n2n(c, x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = c.arr(x)
    return c.out(M.ew("select", 3, M.ew("isnan", 1, a.d), oa(const(c.I.native(nan))), a.d), a.dt)


@npf("where")
def _where(c, cond, x=_MISSING, y=_MISSING, size=None, fill_value=None):
    cc = c.arr(cond)
    if x is _MISSING or y is _MISSING:
        if cc.lvl > 0:
            c.I.sink("ConcretizationTypeError", "one-argument where")
        raise Incomplete("one-argument where")
    a, b = c.arr(x), c.arr(y)
    cd = cc.d if cc.dt == "b" else M.ew("ne", 2, cc.d, oa(const(0)))
    try:
        d = M.ew("select", 3, cd, a.d, b.d)
    except AbsRaise as e:
        c.fail("ValueError", e.msg)
    return c.out(d, M.promote_arrs(a, b), weak=a.weak and b.weak)


@npf("select")
def _select(c, condlist, choicelist, default=0):
    out = default
    for cd, ch in list(zip(c.I.iterate(condlist), c.I.iterate(choicelist)))[::-1]:
        out = _where(C(c.I, c.fl, "where"), cd, ch, out)
    return out


@npf("piecewise")
def _pw(c, x, condlist, funclist, *args, **kw):
    I = c.I
    cl, fl = I.iterate(condlist), I.iterate(funclist)
    out = 0.0
    if len(fl) == len(cl) + 1:
        d = fl[-1]
        out = I.call(d, [x]) if not isinstance(d, (int, float, Arr)) else d
    for cd, f in list(zip(cl, fl))[::-1]:
        v = I.call(f, [x]) if not isinstance(f, (int, float, Arr)) else f
        out = _where(C(I, c.fl, "where"), cd, v, out)
    return out


@npf("clip")
def _clip(c, a=None, a_min=None, a_max=None, min=None, max=None, arr=None, out=None, x=None):
    if a is None:
        a = arr if arr is not None else x
    A = c.arr(a)
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    d, dt = A.d, A.dt
    for b, op in ((lo, "max"), (hi, "min")):
        if b is not None:
            B = c.arr(b)
            dt = M.promote_arrs(Arr(d, dt, 0, "jnp", A.weak), B)
            d = M._ew(c.I, op, Arr(d), B)
    return c.out(d, dt, weak=A.weak)


@npf("lax.clamp")
def _clamp(c, lo, x, hi):
    return _clip(c, x, lo, hi)


@npf("heaviside")
def _hv(c, x, y):
    a, b = c.arr(x), c.arr(y)
    z = oa(const(0))
    return c.out(M.ew("select", 3, M.ew("eq", 2, a.d, z), b.d, M.ew("lt", 2, z, a.d)), "f")


# ------------------------------------------------------------------ creation
@npf("array", "asarray", "asanyarray", "ascontiguousarray", "copy")
def _array(c, object=None, dtype=None, copy=True, order=None, ndmin=0, a=None, **kw):
    v = object if object is not None else a
    r = M.np_array(c.I, v, c.fl, dtype, copy=(c.name in ("array", "copy") or c.fl == "jnp"))
    if isinstance(v, Arr) and v.kind == "py":
        r.weak = c.name == "asarray" and c.fl == "jnp"
    if ndmin:
        r = Arr(np.array(r.d, ndmin=ndmin, dtype=_O), r.dt, r.lvl, r.kind)
    return r


_O = np.dtype(object)


def _dt(dtype, default):
    if dtype is None:
        return default
    if isinstance(dtype, NF):
        return {"float": "f", "int": "i", "bool": "b"}[dtype.name]
    n = dtype.name if isinstance(dtype, DType) else (dtype.path.split(".")[-1] if isinstance(dtype, Ext) else dtype)
    if n in M.ORDER:
        return n
    return DTNAMES[n]


def _fill(c, shape, v, dt):
    d = np.empty(shape, object)
    d[...] = const(v) if not isinstance(v, Term) else v
    return c.out(d, dt)


@npf("zeros", "empty")
def _zeros(c, shape=(), dtype=None, **kw):
    return _fill(c, c.shape(shape), 0.0, _dt(dtype, "f"))


@npf("ones")
def _ones(c, shape=(), dtype=None, **kw):
    return _fill(c, c.shape(shape), 1.0, _dt(dtype, "f"))


@npf("full")
def _full(c, shape=(), fill_value=0.0, dtype=None, **kw):
    a = c.arr(fill_value)
    d = np_try(c, np.broadcast_to, a.d, c.shape(shape)).copy()
    r = c.out(d, a.dt)
    return M.astype(c.I, r, dtype) if dtype is not None else r


def _like(v):
    def f(c, a=None, dtype=None, shape=None, x=None, **kw):
        A = c.arr(a if a is not None else x)
        return _fill(c, A.shape if shape is None else c.shape(shape), v, _dt(dtype, A.dt))
    return f


npf("zeros_like", "empty_like")(_like(0.0))
npf("ones_like")(_like(1.0))


@npf("full_like")
def _full_like(c, a=None, fill_value=None, dtype=None, shape=None, **kw):
    A = c.arr(a)
    v = c.arr(fill_value)
    d = np.broadcast_to(v.d, A.shape if shape is None else c.shape(shape)).copy()
    r = c.out(d, v.dt)
    return M.astype(c.I, r, _dt(dtype, A.dt))


@npf("eye", "identity")
def _eye(c, N=None, M_=None, k=0, dtype=None, n=None, M=None):
    n = c.int(N if N is not None else n)
    m = M_ if M_ is not None else M
    return c.out(oa(np.eye(n, c.int(m) if m is not None else n, c.int(k))), _dt(dtype, "f"))


@npf("arange")
def _arange(c, start=0, stop=None, step=None, dtype=None, **kw):
    vals = []
    for v in (start, stop, step):
        if v is None:
            vals.append(None)
            continue
        a = c.arr(v)
        if a.lvl > 0:
            c.I.sink("ConcretizationTypeError", "arange bound")
        n = c.I.native(a)
        if n is None:
            raise Incomplete("symbolic arange at " + fmt(c.I.cur))
        vals.append(n)
    if vals[1] is None:
        r = np.arange(vals[0])
    elif vals[2] is None:
        r = np.arange(vals[0], vals[1])
    else:
        r = np.arange(*vals)
    if r.size > 5000:
        raise Incomplete("huge arange")
    dt = "i" if r.dtype.kind in "iu" else "f"
    out = c.out(oa(r), dt)
    return M.astype(c.I, out, dtype) if dtype is not None else out


@npf("lax.iota")
def _iota(c, dtype, n):
    return M.astype(c.I, _arange(c, n), dtype)


@npf("linspace")
def _linspace(c, start=None, stop=None, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    a, b = c.arr(start), c.arr(stop)
    n = c.int(num)
    if n > 5000:
        raise Incomplete("huge linspace")
    div = n - 1 if endpoint else n
    ad, bd = np.broadcast_arrays(a.d, b.d)
    d = np.empty((n,) + ad.shape, object)
    step = M.ew("sub", 2, bd, ad)
    for i in range(n):
        if i == 0:
            d[i] = ad if ad.ndim else ad[()]
        elif i == div:
            d[i] = bd if ad.ndim else bd[()]
        else:
            # written relative to both ends, as JAX does
            w = const(i / div)
            v = M.ew("add", 2, M.ew("mul", 2, ad, oa(const(1 - i / div))), M.ew("mul", 2, bd, oa(w)))
            d[i] = v if ad.ndim else v[()]
    if c.int(axis):
        d = np.moveaxis(d, 0, c.int(axis))
    r = c.out(d, "f")
    if dtype is not None:
        r = M.astype(c.I, r, dtype)
    if retstep:
        return (r, c.out(M.ew("div", 2, step, oa(const(div))), "f"))
    return r


@npf("logspace")
def _logspace(c, start=None, stop=None, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    x = _linspace(C(c.I, c.fl, "linspace"), start, stop, num, endpoint, False, None, axis)
    b = c.arr(base)
    c.ins.append(x)
    r = c.out(M.ew("pow", 2, b.d, x.d), "f")
    return M.astype(c.I, r, dtype) if dtype is not None else r


@npf("geomspace")
def _geomspace(c, start=None, stop=None, num=50, endpoint=True, dtype=None, axis=0):
    a, b = c.arr(start), c.arr(stop)
    la = c.out(M.ew("log", 1, a.d), "f")
    lb = c.out(M.ew("log", 1, b.d), "f")
    x = _linspace(C(c.I, c.fl, "linspace"), la, lb, num, endpoint, False, None, axis)
    d = M.ew("exp", 1, x.d)
    d[0] = a.d if a.ndim else a.term()
    if endpoint:
        d[-1] = b.d if b.ndim else b.term()
    return c.out(d, "f")


@npf("meshgrid")
def _meshgrid(c, *xs, indexing="xy", sparse=False, **kw):
    arrs = [c.arr(x) for x in xs]
    r = np.meshgrid(*[a.d for a in arrs], indexing=indexing, sparse=sparse)
    return [c.out(x.copy(), a.dt) for x, a in zip(r, arrs)]


# ------------------------------------------------------------------ structure
def _structural(name, nps=None, lists=False):
    f0 = getattr(np, nps or name)

    def f(c, a, *args, **kw):
        A = c.arr(a)
        conv = lambda v: (c.I.index_of(v) if isinstance(v, Arr) and v.d.size == 1 else
                          (tuple(conv(x) for x in v) if isinstance(v, (list, tuple)) else
                           (M.static_index(c.I, v)[0] if isinstance(v, Arr) else v)))
        args = [conv(x) for x in args]
        k2 = {k: conv(v) for k, v in kw.items() if v is not None or k == "axis"}
        r = np_try(c, f0, A.d, *args, **k2)
        if isinstance(r, list):
            return [c.out(x, A.dt) for x in r]
        return c.out(np.array(r, dtype=object, copy=True) if isinstance(r, np.ndarray) else r, A.dt, weak=A.weak)

    npf(name)(f)


for _n in ("transpose", "squeeze", "ravel", "swapaxes", "moveaxis", "rollaxis", "flip", "fliplr", "flipud", "roll", "tile", "repeat",
           "rot90", "diagonal", "array_split", "split", "hsplit", "vsplit", "delete"):
    _structural(_n)
_structural("permute_dims", "transpose")
_structural("matrix_transpose", "matrix_transpose") if hasattr(np, "matrix_transpose") else None


@npf("reshape")
def _reshape(c, a, shape=None, order="C", newshape=None, **kw):
    A = c.arr(a)
    s = shape if shape is not None else newshape
    return c.out(np_try(c, np.reshape, A.d, c.shape(s), order=order).copy(), A.dt)


@npf("expand_dims")
def _expand_dims(c, a, axis):
    A = c.arr(a)
    return c.out(np_try(c, np.expand_dims, A.d, c.axis(axis)), A.dt)


@npf("broadcast_to")
def _bt(c, a, shape):
    A = c.arr(a)
    return c.out(np_try(c, np.broadcast_to, A.d, c.shape(shape)).copy(), A.dt)


@npf("lax.broadcast")
def _lbt(c, a, sizes):
    A = c.arr(a)
    return c.out(np.broadcast_to(A.d, c.shape(sizes) + A.shape).copy(), A.dt)


@npf("broadcast_arrays")
def _bas(c, *xs):
    A = [c.arr(x) for x in xs]
    r = np_try(c, np.broadcast_arrays, *[a.d for a in A])
    return [c.out(x.copy(), a.dt) for x, a in zip(r, A)]


def _atleast(n):
    f0 = getattr(np, f"atleast_{n}d")

    def f(c, *xs):
        out = []
        for x in xs:
            cc = C(c.I, c.fl, c.name)
            A = cc.arr(x)
            out.append(cc.out(f0(A.d), A.dt, weak=A.weak and A.kind == "py"))
        return out[0] if len(out) == 1 else out
    npf(f"atleast_{n}d")(f)


for _n in (1, 2, 3):
    _atleast(_n)


def _joiner(name):
    f0 = getattr(np, name)

    def f(c, arrays, axis=None, dtype=None, out=None, **kw):
        if isinstance(arrays, Arr):
            if c.fl == "jnp" and name in ("concatenate", "stack"):
                pass
            arrays = c.I.iterate(arrays)
        if not isinstance(arrays, (list, tuple, _Iter)):
            c.fail("TypeError", f"{name} requires a sequence of arrays")
        arrs = [c.arr(x, seq=(c.fl == "np")) for x in c.I.iterate(arrays)]
        if not arrs:
            c.fail("ValueError", f"need at least one array to {name}")
        k = {} if axis is None else {"axis": c.axis(axis)}
        if axis is None and name == "concatenate":
            k = {}
        r = np_try(c, f0, [a.d for a in arrs], **k)
        o = c.out(r, M.promote(*[a.dt for a in arrs if not a.weak] or [a.dt for a in arrs]))
        if o.dt[0] in "iu" and any(M.isfloat(a.dt) for a in arrs):
            o.dt = "f"
        return M.astype(c.I, o, dtype) if dtype is not None else o
    npf(name)(f)


for _n in ("concatenate", "stack", "vstack", "hstack", "dstack", "column_stack"):
    _joiner(_n)
NPF["row_stack"] = NPF["vstack"]


@npf("concat")
def _concat(c, arrays, axis=0):
    return NPF["concatenate"](c, arrays, axis)


@npf("append")
def _append(c, arr, values, axis=None):
    a, b = c.arr(arr), c.arr(values)
    r = np_try(c, np.append, a.d, b.d, axis=c.axis(axis))
    return c.out(r, M.promote_arrs(a, b))


@npf("insert")
def _insert(c, arr, obj, values, axis=None):
    a, b = c.arr(arr), c.arr(values)
    r = np_try(c, np.insert, a.d, c.int(obj), b.d if b.ndim else b.term(), axis=c.axis(axis))
    return c.out(r, M.promote_arrs(a, b))


@npf("block")
def _block(c, arrays):
    def conv(v):
        if isinstance(v, (list, tuple)):
            return [conv(x) for x in v]
        return c.arr(v).d
    return c.out(np_try(c, np.block, conv(arrays)), "f")


@npf("pad")
def _pad(c, array, pad_width, mode="constant", constant_values=0, **kw):
    A = c.arr(array)
    if mode != "constant":
        r = np_try(c, np.pad, A.d, pad_width, mode=mode)
    else:
        cv = c.arr(constant_values).term()
        idx = np.pad(np.arange(A.d.size).reshape(A.shape), pad_width, constant_values=-1)
        fl = A.d.reshape(-1)
        r = np.empty(idx.shape, object)
        rf = r.reshape(-1)
        for i, j in enumerate(idx.reshape(-1)):
            rf[i] = cv if j < 0 else fl[j]
    return c.out(r, A.dt)


@npf("diag")
def _diag(c, v, k=0):
    A = c.arr(v)
    if A.ndim not in (1, 2):
        c.fail("ValueError", "diag input must be 1d or 2d")
    k = c.int(k)
    if A.ndim == 1:
        n = A.shape[0] + abs(k)
        d = np.empty((n, n), object)
        d[...] = const(0.0)
        for i in range(A.shape[0]):
            d[i + max(-k, 0), i + max(k, 0)] = A.d[i]
        return c.out(d, A.dt)
    return c.out(np.diag(A.d, k).copy(), A.dt)


@npf("tril", "triu")
def _tri(c, m, k=0):
    A = c.arr(m)
    mask = (np.tril if c.name == "tril" else np.triu)(np.ones(A.shape[-2:]), c.int(k))
    d = A.d.copy()
    d[..., mask == 0] = const(0.0)
    return c.out(d, A.dt)


def _idxf(name):
    f0 = getattr(np, name)

    def f(c, *args, **kw):
        r = f0(*[c.int(x) for x in args], **{k: c.int(v) for k, v in kw.items()})
        return tuple(c.out(oa(x), "i") for x in r)
    npf(name)(f)


for _n in ("triu_indices", "tril_indices", "diag_indices"):
    _idxf(_n)


@npf("take")
def _take(c, a, indices, axis=None, **kw):
    A = c.arr(a)
    ix = M.np_array(c.I, indices, c.fl)
    if axis is None:
        A = Arr(A.d.reshape(-1), A.dt, A.lvl, A.kind)
        return M.index(c.I, A, ix)
    ax = c.axis(axis) % A.ndim
    return M.index(c.I, A, tuple([slice(None)] * ax + [ix]))


@npf("lax.dynamic_index_in_dim")
def _dyn(c, a, index, axis=0, keepdims=True):
    r = _take(c, a, index, axis)
    return _expand_dims(C(c.I, c.fl, "expand_dims"), r, axis) if keepdims else r


@npf("take_along_axis")
def _taa(c, arr, indices, axis):
    A, ix = c.arr(arr), c.arr(indices)
    ax = c.axis(axis) % A.ndim
    d, k = np.moveaxis(A.d, ax, -1), np.moveaxis(ix.d, ax, -1)
    out = np.empty(k.shape, object)
    for pos in np.ndindex(*k.shape):
        out[pos] = mk("gather", k[pos], *d[pos[:-1]])
    return c.out(np.moveaxis(out, -1, ax), A.dt)


@npf("ndim")
def _ndim(c, a):
    return c.I.arr(a).ndim if not isinstance(a, (list, tuple)) else M.np_array(c.I, a, "np").ndim


@npf("shape")
def _shape(c, a):
    return c.I.arr(a).shape if not isinstance(a, (list, tuple)) else M.np_array(c.I, a, "np").shape


@npf("size")
def _size(c, a, axis=None):
    A = c.I.arr(a)
    return A.d.size if axis is None else A.shape[axis]


@npf("isscalar")
def _isscalar(c, a):
    return isinstance(a, (int, float, str)) or isinstance(a, Arr) and a.kind == "py"


@npf("astype")
def _astype(c, x, dtype=None, **kw):
    return M.astype(c.I, c.arr(x), dtype, c.fl)


@npf("result_type", "promote_types")
def _rt(c, *xs):
    return DType(M.promote(*[_dt(x, "f") if not isinstance(x, (Arr, int, float)) else c.I.arr(x).dt for x in xs]))


@npf("finfo", "iinfo")
def _finfo(c, dt):
    """Limits of a type; "f" stands for the working precision (double)."""
    try:
        n = _dt(dt, "f")
    except Exception:
        n = c.arr(dt).dt
    if c.name.endswith("iinfo"):
        n = n if n[0] in "iu" and n[1:] else "i32"
        i = np.iinfo({"i": "int", "u": "uint"}[n[0]] + n[1:])
        vals = dict(max=int(i.max), min=int(i.min), bits=int(i.bits))
    else:
        i = np.finfo({"f16": np.float16, "bf16": np.float16, "f32": np.float32}.get(n, np.float64))
        vals = dict(eps=float(i.eps), tiny=float(i.tiny), max=float(i.max), min=float(i.min), resolution=float(i.resolution),
                    smallest_normal=float(i.tiny), epsneg=float(i.epsneg), bits=int(i.bits))
    o = AObj(AClass("finfo", [], {}))
    o.attrs.update({k: c.arr(v) if isinstance(v, float) else v for k, v in vals.items()})
    return o


# ------------------------------------------------------------------ reductions
def _reduce(op2, name, init=None, boolean=False):
    def f(c, a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
        A = c.arr(a)
        if where is not None:
            w = c.arr(where)
            neutral = {"sum": 0.0, "prod": 1.0}.get(name)
            if neutral is None:
                raise Incomplete(name + " with where")
            A = Arr(M.ew("select", 3, w.d, A.d, oa(const(neutral))), A.dt, A.lvl, A.kind)
        ax = c.axis(axis)
        d = A.d
        if boolean and A.dt != "b":
            d = M.ew("ne", 2, d, oa(const(0)))
        if ax is None:
            ax = tuple(range(d.ndim))
        if isinstance(ax, int):
            ax = (ax,)
        for x in ax:
            if not -d.ndim <= x < d.ndim:
                c.fail("ValueError", f"axis {x} is out of bounds")
        ax = tuple(sorted(x % d.ndim for x in ax)) if d.ndim else ()
        rest = [i for i in range(d.ndim) if i not in ax]
        dd = np.transpose(d, list(ax) + rest)
        n = int(np.prod([d.shape[i] for i in ax])) if ax else 1
        rs = tuple(d.shape[i] for i in rest)
        dd = dd.reshape((n,) + rs)
        if n == 0:
            if init is None:
                c.fail("ValueError", f"zero-size reduction {name}")
            r = np.empty(rs, object)
            r[...] = const(init)
        else:
            r = oa(dd[0])
            for i in range(1, n):
                r = M.ew(op2, 2, r, oa(dd[i]))
        if initial is not None:
            r = M.ew(op2, 2, r, c.arr(initial).d)
        if keepdims:
            r = r.reshape(tuple(1 if i in ax else d.shape[i] for i in range(d.ndim)))
        dt = "b" if boolean else ("i" if A.dt == "b" and name in ("sum", "prod") else A.dt)
        o = c.out(r, dt)
        M.note_int(c.I, o)
        return M.astype(c.I, o, dtype) if dtype is not None else o
    npf(name)(f)
    return f


_sum = _reduce("add", "sum", 0.0)
_prod = _reduce("mul", "prod", 1.0)
_reduce("max", "max")
_reduce("min", "min")
_reduce("and", "all", 1.0, True)
_reduce("or", "any", 0.0, True)
NPF["amax"], NPF["amin"] = NPF["max"], NPF["min"]
NPF["nansum"] = NPF["sum"]


@npf("mean", "average")
def _mean(c, a, axis=None, dtype=None, out=None, keepdims=False, weights=None):
    A = c.arr(a)
    if weights is not None:
        w = c.arr(weights)
        num = NPF["sum"](C(c.I, c.fl, "sum"), M.binop(c.I, "mul", A, w), axis, keepdims=keepdims)
        den = NPF["sum"](C(c.I, c.fl, "sum"), w, axis if w.shape == A.shape else None, keepdims=keepdims)
        return M.binop(c.I, "div", num, den)
    s = NPF["sum"](C(c.I, c.fl, "sum"), A, axis, keepdims=keepdims)
    n = A.d.size / max(s.d.size, 1)
    return c.out(M.ew("div", 2, s.d, oa(const(n))), "f")


@npf("var", "std")
def _var(c, a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    A = c.arr(a)
    m = _mean(C(c.I, c.fl, "mean"), A, axis, keepdims=True)
    dv = M.binop(c.I, "sub", A, m)
    s = NPF["sum"](C(c.I, c.fl, "sum"), M.binop(c.I, "mul", dv, dv), axis, keepdims=keepdims)
    n = A.d.size / max(s.d.size, 1) - ddof
    d = M.ew("div", 2, s.d, oa(const(n)))
    if c.name == "std":
        d = M.ew("sqrt", 1, d)
    return c.out(d, "f")


@npf("ptp")
def _ptp(c, a, axis=None):
    return M.binop(c.I, "sub", NPF["max"](C(c.I, c.fl, "max"), a, axis), NPF["min"](C(c.I, c.fl, "min"), a, axis))


def _cum(op, name):
    def f(c, a, axis=None, dtype=None, out=None, reverse=False):
        A = c.arr(a)
        d = A.d
        if axis is None:
            d = d.reshape(-1)
            ax = 0
        else:
            ax = c.axis(axis)
        dd = np.moveaxis(d, ax, 0).copy()
        rng = range(1, dd.shape[0])
        if reverse:
            dd = dd[::-1].copy()
        for i in rng:
            v = M.ew(op, 2, oa(dd[i - 1]), oa(dd[i]))
            dd[i] = v if v.ndim else v[()]
        if reverse:
            dd = dd[::-1]
        return c.out(np.moveaxis(dd, 0, ax), "i" if A.dt == "b" else A.dt)
    npf(name)(f)


_cum("add", "cumsum")
_cum("mul", "cumprod")


@npf("diff")
def _diff(c, a, n=1, axis=-1, prepend=None, append=None):
    A = c.arr(a)
    if A.ndim == 0:
        c.fail("ValueError", "diff requires input that is at least one dimensional")
    d = A.d
    ax = c.axis(axis)
    parts = [d]
    if prepend is not None:
        p = c.arr(prepend).d
        parts.insert(0, np.broadcast_to(p, tuple(1 if i == ax % d.ndim else s for i, s in enumerate(d.shape))) if p.ndim == 0 else p)
    if append is not None:
        p = c.arr(append).d
        parts.append(np.broadcast_to(p, tuple(1 if i == ax % d.ndim else s for i, s in enumerate(d.shape))) if p.ndim == 0 else p)
    if len(parts) > 1:
        d = np.concatenate(parts, ax)
    for _ in range(c.int(n)):
        dd = np.moveaxis(d, ax, 0)
        d = np.moveaxis(M.ew("sub", 2, dd[1:], dd[:-1]), 0, ax)
    return c.out(d, A.dt)


NPF["ediff1d"] = lambda c, a: _diff(c, NPF["ravel"](C(c.I, c.fl, "ravel"), a))
NPF["ediff1d"]._sig = inspect.signature(NPF["ediff1d"])


@npf("gradient")
def _gradient(c, f, *varargs, axis=None, edge_order=None):
    A = c.arr(f)
    if A.ndim == 0:
        c.fail("ValueError", "gradient of a scalar")
    if edge_order is not None:
        raise Incomplete("gradient edge_order")
    axes = range(A.ndim) if axis is None else [c.axis(axis)]
    if len(axes) > 1 and len(varargs) > 1:
        raise Incomplete("gradient")
    outs = []
    for ax in axes:
        d = np.moveaxis(A.d, ax, 0)
        n = d.shape[0]
        if n < 2:
            c.fail("ValueError", "Shape of array too small to calculate a numerical gradient")
        h = oa(const(1.0))
        if varargs:
            h = c.arr(varargs[0])
            if h.ndim:
                raise Incomplete("gradient with coordinates")
            h = h.d
        o = np.empty(d.shape, object)
        two = oa(const(2.0))
        for i in range(n):
            lo, hi = max(i - 1, 0), min(i + 1, n - 1)
            v = M.ew("sub", 2, oa(d[hi]), oa(d[lo]))
            v = M.ew("div", 2, v, M.ew("mul", 2, two, h) if hi - lo == 2 else h)
            o[i] = v if v.ndim else v[()]
        outs.append(c.out(np.moveaxis(o, 0, ax), "f"))
    return outs[0] if len(outs) == 1 else outs


@npf("trapz", "trapezoid")
def _trapz(c, y, x=None, dx=1.0, axis=-1):
    Y = c.arr(y)
    d = np.moveaxis(Y.d, c.axis(axis), -1)
    s = M.ew("add", 2, d[..., 1:], d[..., :-1])
    if x is not None:
        X = c.arr(x)
        xd = X.d if X.ndim == 1 else np.moveaxis(X.d, c.axis(axis), -1)
        h = M.ew("sub", 2, xd[..., 1:], xd[..., :-1])
    else:
        h = c.arr(dx).d
    r = M.ew("mul", 2, M.ew("mul", 2, s, h), oa(const(0.5)))
    return NPF["sum"](C(c.I, c.fl, "sum"), c.out(r, "f"), -1)


def _argf(op):
    def f(c, a, axis=None, out=None, keepdims=None):
        A = c.arr(a)
        if A.d.size == 0:
            c.fail("ValueError", "attempt to get argmin of an empty sequence")
        if axis is None:
            return c.out(mk(op, *A.d.reshape(-1)) if A.d.size > 1 else const(0), "i")
        d = np.moveaxis(A.d, c.axis(axis), -1)
        o = np.empty(d.shape[:-1], object)
        for p in np.ndindex(*o.shape):
            o[p] = mk(op, *d[p]) if d.shape[-1] > 1 else const(0)
        return c.out(o, "i")
    npf(op)(f)


_argf("argmin")
_argf("argmax")


@npf("argsort", "sort")
def _argsort(c, a, axis=-1, kind=None, order=None, stable=True, descending=False):
    A = c.arr(a)
    op = "argsort" if c.name == "argsort" else "sortk"
    d = np.moveaxis(A.d, c.axis(axis) if axis is not None else -1, -1)
    o = np.empty(d.shape, object)
    n = d.shape[-1]
    for p in np.ndindex(*d.shape[:-1]):
        for k in range(n):
            o[p + (k,)] = T.mk(op, *d[p], attr=(n - 1 - k if descending else k)) if n > 1 else (const(0) if op == "argsort" else d[p + (0,)])
    return c.out(np.moveaxis(o, -1, c.axis(axis) if axis is not None else -1), "i" if op == "argsort" else A.dt)


@npf("searchsorted")
def _searchsorted(c, a, v, side="left", sorter=None, **kw):
    A, V = c.arr(a), c.arr(v)
    f = np.frompyfunc(lambda x: mk("searchsorted", x, *A.d, attr=side), 1, 1)
    return c.out(oa(f(V.d)), "i")


@npf("digitize")
def _digitize(c, x, bins, right=False, **kw):
    V, A = c.arr(x), c.arr(bins)
    side = "left" if right else "right"
    f = np.frompyfunc(lambda q: mk("digitize", q, *A.d, attr=side), 1, 1)
    return c.out(oa(f(V.d)), "i")


@npf("count_nonzero")
def _cnz(c, a, axis=None):
    A = c.arr(a)
    return NPF["sum"](C(c.I, c.fl, "sum"), c.out(M.ew("ne", 2, A.d, oa(const(0))), "i"), axis)


@npf("isclose")
def _isclose(c, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    A, B = c.arr(a), c.arr(b)
    d = M.ew("abs", 1, M._ew(c.I, "sub", A, B))
    lim = M.ew("add", 2, oa(const(atol)), M.ew("mul", 2, oa(const(rtol)), M.ew("abs", 1, B.d)))
    return c.out(M.ew("le", 2, d, lim), "b")


@npf("allclose")
def _allclose(c, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return NPF["all"](C(c.I, c.fl, "all"), _isclose(c, a, b, rtol, atol))


@npf("array_equal")
def _aeq(c, a, b):
    A, B = c.arr(a, True), c.arr(b, True)
    if A.shape != B.shape:
        return False
    return NPF["all"](C(c.I, c.fl, "all"), c.out(M.ew("eq", 2, A.d, B.d), "b"))


@npf("polyval")
def _polyval(c, p, x, **kw):
    P, X = c.arr(p), c.arr(x)
    r = oa(const(0.0))
    for k in range(P.shape[0]):
        r = M.ew("add", 2, M.ew("mul", 2, r, X.d), oa(P.d[k]))
    return c.out(r, "f")


# ------------------------------------------------------------------ linear algebra
def _matmul(c, A, B):
    a, b = A.d, B.d
    if a.ndim == 0 or b.ndim == 0:
        c.fail("ValueError", "matmul of a scalar")
    a2 = a[None, :] if a.ndim == 1 else a
    b2 = b[:, None] if b.ndim == 1 else b
    if a2.shape[-1] != b2.shape[-2]:
        c.fail("TypeError", f"matmul shapes {a.shape} {b.shape}")
    n = a2.shape[-1]
    r = None
    for k in range(n):
        t = M.ew("mul", 2, a2[..., :, k, None], b2[..., None, k, :])
        r = t if r is None else M.ew("add", 2, r, t)
    if a.ndim == 1:
        r = r[..., 0, :]
    if b.ndim == 1:
        r = r[..., 0]
    return oa(r)


def _mmdt(A, B):
    return M.promote_arrs(A, B)


@npf("matmul")
def _mm(c, a, b, **kw):
    A, B = c.arr(a), c.arr(b)
    return c.out(_matmul(c, A, B), _mmdt(A, B))


@npf("dot")
def _dot(c, a, b, **kw):
    A, B = c.arr(a), c.arr(b)
    if A.ndim == 0 or B.ndim == 0:
        return c.out(M._ew(c.I, "mul", A, B), _mmdt(A, B))
    if B.ndim <= 2:
        if A.shape[-1] != B.shape[0 if B.ndim == 1 else -2]:
            c.fail("TypeError", f"Incompatible shapes for dot: got {A.shape} and {B.shape}.")
        return c.out(_matmul(c, A, B), _mmdt(A, B))
    return c.out(np_try(c, np.tensordot, A.d, B.d, axes=(-1, -2)), _mmdt(A, B))


@npf("inner")
def _inner(c, a, b, **kw):
    A, B = c.arr(a), c.arr(b)
    if A.ndim == 0 or B.ndim == 0:
        return c.out(M._ew(c.I, "mul", A, B), _mmdt(A, B))
    return c.out(oa(np_try(c, np.tensordot, A.d, B.d, axes=(-1, -1))), _mmdt(A, B))


@npf("vdot")
def _vdot(c, a, b, **kw):
    A, B = c.arr(a), c.arr(b)
    return c.out(_matmul(c, Arr(A.d.reshape(-1)), Arr(B.d.reshape(-1))), _mmdt(A, B))


@npf("tensordot")
def _tensordot(c, a, b, axes=2, **kw):
    A, B = c.arr(a), c.arr(b)
    return c.out(oa(np_try(c, np.tensordot, A.d, B.d, axes=axes)), _mmdt(A, B))


@npf("outer")
def _outer(c, a, b, out=None):
    A, B = c.arr(a), c.arr(b)
    return c.out(M.ew("mul", 2, A.d.reshape(-1)[:, None], B.d.reshape(-1)[None, :]), _mmdt(A, B))


@npf("kron")
def _kron(c, a, b):
    A, B = c.arr(a), c.arr(b)
    return c.out(np_try(c, np.kron, A.d, B.d), _mmdt(A, B))


@npf("einsum")
def _einsum(c, sub, *ops, **kw):
    A = [c.arr(x) for x in ops]
    if not isinstance(sub, str):
        raise Incomplete("einsum form")
    sub = sub.replace(" ", "")
    ins, _, outp = sub.partition("->")
    ins = ins.split(",")
    if len(ins) != len(A) or "." in sub:
        return c.out(oa(np_try(c, np.einsum, sub, *[a.d for a in A])), M.promote_arrs(*A))
    if "->" not in sub:
        allc = "".join(ins)
        outp = "".join(sorted(ch for ch in set(allc) if allc.count(ch) == 1))
    dims = {}
    for s, a in zip(ins, A):
        if len(s) != a.ndim:
            c.fail("ValueError", "einsum rank mismatch")
        for ch, n in zip(s, a.shape):
            if dims.setdefault(ch, n) != n:
                if 1 in (dims[ch], n):
                    dims[ch] = max(dims[ch], n)
                else:
                    c.fail("ValueError", "einsum size mismatch")
    red = [ch for ch in dims if ch not in outp]
    o = np.empty(tuple(dims[ch] for ch in outp), object)
    for p in np.ndindex(*o.shape):
        env = dict(zip(outp, p))
        acc = None
        for q in np.ndindex(*[dims[ch] for ch in red]):
            env.update(zip(red, q))
            t = None
            for s, a in zip(ins, A):
                v = a.d[tuple(env[ch] if a.shape[i] > 1 else 0 for i, ch in enumerate(s))]
                t = v if t is None else t * v
            acc = t if acc is None else acc + t
        o[p] = acc
    return c.out(o, M.promote_arrs(*A))


@npf("trace")
def _trace(c, a, offset=0, axis1=0, axis2=1, **kw):
    A = c.arr(a)
    d = np.diagonal(A.d, offset, axis1, axis2)
    return NPF["sum"](C(c.I, c.fl, "sum"), c.out(d.copy(), A.dt), -1)


@npf("cross")
def _cross(c, *a, **k):
    raise Incomplete("cross")


def _batched(c, A, f):
    """Apply f to every matrix of a stack."""
    if A.ndim < 2 or A.shape[-1] != A.shape[-2]:
        c.fail("ValueError", f"Argument to {c.name} must have shape [..., n, n], got {A.shape}")
    lead = A.shape[:-2]
    flat = A.d.reshape((-1,) + A.shape[-2:])
    outs = [f(flat[i]) for i in range(flat.shape[0])]
    return lead, outs


def inv_terms(m):
    n = m.shape[0]
    o = np.empty((n, n), object)
    ts = list(m.reshape(-1))
    if n == 0:
        return o
    if n == 1:
        o[0, 0] = mk("div", const(1.0), ts[0])
        return o
    for i in range(n):
        for j in range(n):
            o[i, j] = matterm("inv", ts, n, i, j)
    return o


@npf("linalg.inv", "sp.linalg.inv")
def _inv(c, a, **kw):
    A = c.arr(a)
    lead, outs = _batched(c, A, inv_terms)
    d = np.stack(outs).reshape(lead + A.shape[-2:]) if outs else A.d
    return c.out(d, "f")


NPF["linalg.pinv"] = _inv


@npf("linalg.slogdet")
def _slogdet(c, a, **kw):
    A = c.arr(a)
    n = A.shape[-1] if A.ndim else 0
    lead, outs = _batched(c, A, lambda m: (matterm("detsign", m.reshape(-1), n), matterm("logdet", m.reshape(-1), n)))
    s = np.empty(len(outs), object)
    l = np.empty(len(outs), object)
    for i, (x, y) in enumerate(outs):
        s[i], l[i] = x, y
    return (c.out(s.reshape(lead), "f"), c.out(l.reshape(lead), "f"))


@npf("linalg.det", "sp.linalg.det")
def _det(c, a, **kw):
    A = c.arr(a)
    n = A.shape[-1] if A.ndim else 0
    lead, outs = _batched(c, A, lambda m: matterm("det", m.reshape(-1), n))
    o = np.empty(len(outs), object)
    for i, x in enumerate(outs):
        o[i] = x
    return c.out(o.reshape(lead), "f")


@npf("linalg.cholesky", "sp.linalg.cholesky")
def _cholesky(c, a, lower=None, **kw):
    A = c.arr(a)
    n = A.shape[-1]
    low = True if c.name == "linalg.cholesky" else bool(lower)

    def f(m):
        if not low:
            m = m.T
        o = np.empty((n, n), object)
        # only the lower triangle is read
        ms = m.copy()
        for i in range(n):
            for j in range(i + 1, n):
                ms[i, j] = m[j, i]
        for i in range(n):
            for j in range(n):
                o[i, j] = matterm("chol", ms.reshape(-1), n, i, j) if j <= i else const(0.0)
        return o if low else o.T
    lead, outs = _batched(c, A, f)
    return c.out(np.stack(outs).reshape(A.shape), "f")


def solve_terms(c, m, b):
    return _matmul(c, Arr(inv_terms(m)), Arr(b))


@npf("linalg.solve", "sp.linalg.solve")
def _solve(c, a, b, lower=False, overwrite_a=False, overwrite_b=False, debug=False, check_finite=True, assume_a="gen", sym_pos=False):
    A, B = c.arr(a), c.arr(b)
    m = A.d
    if A.ndim != 2 or A.shape[0] != A.shape[1] or B.ndim == 0 or B.shape[0] != A.shape[0]:
        if A.ndim > 2:
            raise Incomplete("batched solve")
        c.fail("ValueError", f"solve shapes {A.shape} {B.shape}")
    if assume_a == "pos" or sym_pos:
        m = sym_from(m, lower)
    return c.out(solve_terms(c, m, B.d), "f")


def sym_from(m, lower):
    n = m.shape[0]
    o = m.copy()
    for i in range(n):
        for j in range(i + 1, n):
            if lower:
                o[i, j] = m[j, i]
            else:
                o[j, i] = m[i, j]
    return o


class ChoFac:
    """cho_factor result: the symmetric matrix it represents."""

    def __init__(self, arr, lower):
        self.arr, self.lower = arr, lower


@npf("sp.linalg.cho_factor")
def _cho_factor(c, a, lower=False, overwrite_a=False, check_finite=True):
    A = c.arr(a)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        c.fail("ValueError", "cho_factor needs a square matrix")
    n = A.shape[0]
    s = sym_from(A.d, bool(lower))
    o = A.d.copy()
    for i in range(n):
        for j in range(n):
            if (j <= i) == bool(lower) or i == j:
                o[i, j] = matterm("chol", s.reshape(-1), n, max(i, j), min(i, j))
    return (c.out(o, "f"), bool(lower))


@npf("sp.linalg.cho_solve")
def _cho_solve(c, c_and_lower, b, overwrite_b=False, check_finite=True):
    it = c.I.iterate(c_and_lower)
    F, lower = it
    F = c.arr(F)
    lower = c.I.truth_native(lower)
    B = c.arr(b)
    n = F.shape[0]
    if B.ndim == 0 or B.shape[0] != n:
        c.fail("ValueError", "cho_solve shapes")
    # recognise a factor produced by cho_factor, else rebuild L L^T
    d = F.d
    diag = [d[i, i] for i in range(n)]
    src = diag[0].args if diag[0].op == "chol" else None
    ok = src is not None and all(
        d[i, j].op == "chol" and d[i, j].args == src and d[i, j].attr == (n, max(i, j), min(i, j))
        for i in range(n) for j in range(n) if ((j <= i) == lower or i == j))
    if ok:
        m = np.array(src, dtype=object).reshape(n, n)
    else:
        L = d.copy()
        for i in range(n):
            for j in range(n):
                if (j > i) if lower else (j < i):
                    L[i, j] = const(0.0)
        m = _matmul(c, Arr(L), Arr(L.T)) if lower else _matmul(c, Arr(L.T), Arr(L))
    return c.out(solve_terms(c, m, B.d), "f")


@npf("sp.linalg.solve_triangular")
def _solve_tri(c, a, b, trans=0, lower=False, unit_diagonal=False, **kw):
    A, B = c.arr(a), c.arr(b)
    n = A.shape[0]
    m = A.d.copy()
    for i in range(n):
        for j in range(n):
            if (j > i) if lower else (j < i):
                m[i, j] = const(0.0)
            if i == j and unit_diagonal:
                m[i, j] = const(1.0)
    if trans in (1, "T", 2, "C"):
        m = m.T
    return c.out(solve_terms(c, m, B.d), "f")


NPF["lax.linalg.triangular_solve"] = None
del NPF["lax.linalg.triangular_solve"]


@npf("linalg.norm")
def _norm(c, x, ord=None, axis=None, keepdims=False):
    A = c.arr(x)
    if ord not in (None, 2) or (ord == 2 and A.ndim != 1):
        raise Incomplete("norm order")
    s = NPF["sum"](C(c.I, c.fl, "sum"), M.binop(c.I, "mul", A, A), axis, keepdims=keepdims)
    return c.out(M.ew("sqrt", 1, s.d), "f")


@npf("sp.special.logsumexp", "nn.logsumexp")
def _lse(c, a, axis=None, b=None, keepdims=False, **kw):
    A = c.arr(a)
    e = M.ew("exp", 1, A.d)
    if b is not None:
        e = M.ew("mul", 2, e, c.arr(b).d)
    s = NPF["sum"](C(c.I, c.fl, "sum"), c.out(e, "f"), axis, keepdims=keepdims)
    return c.out(M.ew("log", 1, s.d), "f")


@npf("nn.relu")
def _relu(c, x):
    return c.out(M.ew("max", 2, c.arr(x).d, oa(const(0.0))), "f")


@npf("interp")
def _interp(c, x, xp, fp, left=None, right=None, period=None):
    X, XP, FP = c.arr(x), c.arr(xp), c.arr(fp)
    if left is not None or right is not None or period is not None:
        raise Incomplete("interp options")
    from .summaries import coarse_interp, full_interp
    f = coarse_interp if c.I.summaries else full_interp
    r = np.frompyfunc(lambda q: f(c.I, q, list(XP.d), list(FP.d), clampends=True), 1, 1)(X.d)
    return c.out(oa(r), "f")


@npf("vectorize")
def _vectorize(c, f, excluded=(), signature=None):
    if excluded or signature:
        raise Incomplete("vectorize options")

    def run(I, args, kw):
        arrs = [I.arr(a) for a in args]
        bs = np.broadcast_arrays(*[a.d for a in arrs])
        sh = bs[0].shape
        if sh == ():
            return I.call(f, args, kw)
        ins = [Arr(b.reshape(-1).copy(), a.dt, a.lvl, "jnp") for a, b in zip(arrs, bs)]
        r = M.call_vmap(I, Vmap(f), ins, kw)
        return Arr(r.d.reshape(sh + r.shape[1:]), r.dt, r.lvl, "jnp")
    return NF("vectorized", run)


# ------------------------------------------------------------------ math module
def math_call(I, n, args, kw):
    if n in ("prod", "fsum", "dist", "sumprod"):
        its = [list(I.iterate(a)) for a in args]
        if n == "prod":
            acc = kw.get("start", 1)
            for x in its[0]:
                acc = I.binop("mul", acc, x)
            return acc
        if n == "fsum":
            acc = 0.0
            for x in its[0]:
                acc = I.binop("add", acc, x)
            return acc
        acc = 0.0 if n == "dist" else 0
        for x, y in zip(*its):
            if n == "dist":
                x = y = I.binop("sub", x, y)
            acc = I.binop("add", acc, I.binop("mul", x, y))
        return math_call(I, "sqrt", [acc], {}) if n == "dist" else acc
    vals = [I.native(a) if isinstance(a, Arr) else a for a in args]
    for a in args:
        if isinstance(a, Arr):
            I.check_level(a)
            if a.lvl > 0:
                I.sink("ConcretizationTypeError", f"math.{n}")
            if a.d.size != 1:
                I.raise_("TypeError", "only length-1 arrays can be converted to Python scalars")
    if all(isinstance(v, (int, float)) for v in vals):
        f = getattr(math, n, None)
        if f is None:
            raise Incomplete(f"math.{n}")
        try:
            return f(*vals)
        except (ValueError, OverflowError) as e:
            I.raise_(type(e).__name__, str(e))
    op = {"pow": "pow", "fabs": "abs", "atan2": "atan2", "hypot": "hypot", "copysign": "copysign"}.get(n, UN.get(n))
    if op is None:
        raise Incomplete(f"math.{n} of an abstract value")
    arrs = [I.arr(a) for a in args]
    dt = "i" if n in ("floor", "ceil") else "f"
    return Arr(mk(op, *[a.term() for a in arrs]), dt, 0, "py", True)


# ------------------------------------------------------------------ jax.*
def _kwpos(I, name, params, args, kw):
    b = {}
    if len(args) > len(params):
        I.raise_("TypeError", f"{name}: too many arguments")
    for p, a in zip(params, args):
        b[p] = a
    for k, v in kw.items():
        b[k] = v
    return b


@full("jax.jit", "jax.pjit", "equinox.filter_jit")
def _jit(I, args, kw):
    if not args:
        return NF("jit-deco", lambda I2, a, k: _jit(I2, a, kw))
    sn = kw.get("static_argnums") or ()
    sa = kw.get("static_argnames") or ()
    sn = (sn,) if isinstance(sn, int) else tuple(sn)
    sa = (sa,) if isinstance(sa, str) else tuple(sa)
    return Jit(args[0], sn, sa)


@full("jax.vmap")
def _vmapm(I, args, kw):
    b = _kwpos(I, "vmap", ["fun", "in_axes", "out_axes"], args, kw)
    if "fun" not in b:
        return NF("vmap-deco", lambda I2, a, k: _vmapm(I2, a, kw))
    return Vmap(b["fun"], b.get("in_axes", 0), b.get("out_axes", 0))


@full("jax.pmap", "jax.grad", "jax.value_and_grad", "jax.jacfwd", "jax.jacrev", "jax.jacobian", "jax.hessian", "jax.jvp", "jax.vjp",
      "jax.linearize", "jax.pure_callback", "jax.experimental.host_callback.call", "jax.custom_gradient")
def _unsupported(I, args, kw):
    raise Incomplete("JAX transformation without a model at " + fmt(I.cur))


@full("jax.checkpoint", "jax.remat", "jax.block_until_ready", "jax.device_put", "jax.device_get", "jax.named_call", "functools.wraps_id",
      "abc.abstractmethod", "typing.no_type_check", "jax.lax.optimization_barrier")
def _ident(I, args, kw):
    return args[0] if args else None


class EvalCtx:
    """jax.ensure_compile_time_eval(): known values are computed here and now."""

    def enter(self, I):
        self.saved = I.jit_level
        I.jit_level = 0

    def leave(self, I):
        I.jit_level = self.saved


@full("jax.ensure_compile_time_eval", "jax.core.eval_context", "jax.core.ensure_compile_time_eval")
def _eval_ctx(I, args, kw):
    return EvalCtx()


@full("jax.named_scope", "jax.debug.print", "jax.profiler.annotate_function", "jax.default_device", "jax.config.update",
      "jax.disable_jit", "numpy.errstate", "warnings.warn", "logging.getLogger", "warnings.simplefilter", "warnings.filterwarnings",
      "warnings.catch_warnings", "jax.numpy.set_printoptions", "jax.debug.callback")
def _noop(I, args, kw):
    return None


@full("jax.lax.stop_gradient")
def _stopg(I, args, kw):
    ls, st = M.flatten(I, args[0])
    out = []
    for l in ls:
        a = I.arr(l)
        out.append(M.unary(I, "stop", a, None if a.kind == "py" and False else "jnp") if M.isfloat(a.dt) else l)
    return M.unflatten(I, st, out)


def _custom(I, args, kw):
    f = args[0]

    class _CustomFn:
        pass

    o = AObj(_custom_cls(I))
    o.attrs["fn"] = f
    o.attrs["nondiff"] = kw.get("nondiff_argnums", ())
    return o


_CC = {}


def _custom_cls(I):
    c = AClass("custom_derivative", [], {})

    def callit(I2, a, k):
        o, rest = a[0], a[1:]
        r = I2.call(o.attrs["fn"], rest, k)
        if not o.attrs.get("rule"):
            return r
        ls, st = M.flatten(I2, r)
        I2.event("custom-derivative", fn=getattr(o.attrs["fn"], "qualname", "?"))
        out = []
        for l in ls:
            A = I2.arr(l)
            out.append(Arr(M.ew("custom", 1, A.d), A.dt, A.lvl, A.kind))
        return M.unflatten(I2, st, out)

    def setrule(I2, a, k):
        I2.put(a[0].attrs, "rule", True)
        return a[1] if len(a) > 1 else None

    c.ns["__call__"] = NF("method:custom_call", callit)
    for n in ("defjvp", "defvjp", "defjvps"):
        c.ns[n] = NF("method:" + n, setrule)
    return c


FULL["jax.custom_jvp"] = FULL["jax.custom_vjp"] = _custom


@full("jax.tree_util.register_pytree_node_class")
def _regcls(I, args, kw):
    I.put(args[0].__dict__, "pytree", "class")
    return args[0]


@full("jax.tree_util.register_pytree_node", "jax.tree_util.register_pytree_with_keys")
def _regnode(I, args, kw):
    b = _kwpos(I, "register", ["nodetype", "flatten_func", "unflatten_func"], args, kw)
    I.put(b["nodetype"].__dict__, "pytree", (b["flatten_func"], b["unflatten_func"]))
    return None


def _leafcall(I, args, kw):
    f, t0, rest = args[0], args[1], args[2:]
    ls, st = M.flatten(I, t0)
    ot = [M.flatten(I, r)[0] for r in rest]
    return M.unflatten(I, st, [I.call(f, [l] + [o[i] for o in ot]) for i, l in enumerate(ls)])


for _p in ("jax.tree_util.tree_map", "jax.tree.map", "jax.tree_map"):
    FULL[_p] = _leafcall
for _p in ("jax.tree_util.tree_leaves", "jax.tree.leaves"):
    FULL[_p] = lambda I, a, k: M.flatten(I, a[0])[0]
for _p in ("jax.tree_util.tree_flatten", "jax.tree.flatten"):
    FULL[_p] = lambda I, a, k: M.flatten(I, a[0])
for _p in ("jax.tree_util.tree_unflatten", "jax.tree.unflatten"):
    FULL[_p] = lambda I, a, k: M.unflatten(I, a[0], list(I.iterate(a[1])))


@full("jax.lax.map")
def _lmap(I, args, kw):
    b = _kwpos(I, "map", ["f", "xs"], args, {k: v for k, v in kw.items() if k != "batch_size"})
    return M.lax_map(I, b["f"], b["xs"])


@full("jax.lax.scan")
def _lscan(I, args, kw):
    b = _kwpos(I, "scan", ["f", "init", "xs", "length", "reverse", "unroll"], args, kw)
    return M.lax_scan(I, b["f"], b["init"], b.get("xs"), b.get("length"), b.get("reverse", False))


@full("jax.lax.switch")
def _lswitch(I, args, kw):
    return M.lax_switch(I, *args, **kw)


@full("jax.lax.cond")
def _lcond(I, args, kw):
    b = dict(kw)
    names = ["pred", "true_fun", "false_fun"]
    a = list(args)
    for n in names[len(a):]:
        a.append(b.pop(n))
    return M.lax_cond(I, *a, **b)


@full("jax.lax.fori_loop")
def _fori(I, args, kw):
    b = _kwpos(I, "fori_loop", ["lower", "upper", "body_fun", "init_val"], args, kw)
    return M.fori_loop(I, b["lower"], b["upper"], b["body_fun"], b["init_val"])


@full("jax.lax.while_loop")
def _whl(I, args, kw):
    b = _kwpos(I, "while_loop", ["cond_fun", "body_fun", "init_val"], args, kw)
    return M.while_loop(I, b["cond_fun"], b["body_fun"], b["init_val"])


@full("functools.partial", "jax.tree_util.Partial")
def _partial(I, args, kw):
    return Partial(args[0], args[1:], kw)


@full("functools.wraps")
def _wraps(I, args, kw):
    return NF("wraps", lambda I2, a, k: a[0])


@full("functools.reduce")
def _reducef(I, args, kw):
    it = list(I.iterate(args[1]))
    if not it and len(args) < 3:
        I.raise_("TypeError", "reduce() of empty iterable with no initial value")
    acc = args[2] if len(args) > 2 else it.pop(0)
    for x in it:
        acc = I.call(args[0], [acc, x])
    return acc


def _lru(I, args, kw):
    if args and not isinstance(args[0], (int, type(None))):
        fn = args[0]
        cls = AClass("lru_cache_wrapper", [], {})
        o = AObj(cls)
        o.attrs["cache"] = {}

        def run(I2, a, k):
            self, rest = a[0], a[1:]
            key = (I2.key(tuple(rest)), tuple(sorted((n, I2.key(v)) for n, v in k.items())))
            cache = self.attrs["cache"]
            if key in cache:
                return cache[key]
            v = I2.call(fn, rest, k)
            I2.event("global-memo", fn=getattr(fn, "qualname", "?"))
            I2.put(cache, key, v)
            return v

        cls.ns["__call__"] = NF("method:lru", run)
        I.memo_caches = getattr(I, "memo_caches", [])
        I.memo_caches.append(o.attrs["cache"])
        return o
    return NF("lru", lambda I2, a, k: _lru(I2, a, {}))


FULL["functools.lru_cache"] = FULL["functools.cache"] = _lru
FULL["functools.cached_property"] = lambda I, a, k: _cached_prop(I, a[0])


def _cached_prop(I, f):
    p = Prop(None)

    def get(I2, a, k):
        o = a[0]
        nm = "__cached_" + f.name
        if nm not in o.attrs:
            I2.put(o.attrs, nm, I2.call(f, [o]))
        return o.attrs[nm]

    p.fget = NF("cached", get)
    return p


@full("itertools.product")
def _iprod(I, args, kw):
    import itertools
    return _Iter(I, [tuple(x) for x in itertools.product(*[I.iterate(a) for a in args], repeat=kw.get("repeat", 1))])


@full("itertools.combinations_with_replacement")
def _icwr(I, args, kw):
    import itertools
    return _Iter(I, [tuple(x) for x in itertools.combinations_with_replacement(I.iterate(args[0]), I.index_of(args[1]))])


@full("itertools.combinations")
def _icomb(I, args, kw):
    import itertools
    return _Iter(I, [tuple(x) for x in itertools.combinations(I.iterate(args[0]), I.index_of(args[1]))])


@full("itertools.permutations")
def _iperm(I, args, kw):
    import itertools
    return _Iter(I, [tuple(x) for x in itertools.permutations(I.iterate(args[0]), *args[1:])])








FULL["copy.copy"] = lambda I, a, k: _copy(I, a[0], False)
FULL["copy.deepcopy"] = lambda I, a, k: _copy(I, a[0], True)


def _copy(I, v, deep):
    if isinstance(v, pylib.NT):
        return pylib.NT([_copy(I, x, deep) if deep else x for x in v], v.cls)
    if isinstance(v, (list, tuple)):
        return type(v)(_copy(I, x, deep) if deep else x for x in v)
    if isinstance(v, pylib.DDict):
        d = pylib.DDict((k, _copy(I, x, deep) if deep else x) for k, x in v.items())
        d.__dict__.update(v.__dict__)
        return d
    if isinstance(v, dict):
        return {k: (_copy(I, x, deep) if deep else x) for k, x in v.items()}
    if isinstance(v, AObj):
        if hasattr(v.cls, "members"):
            return v
        for nm in ("__deepcopy__", "__copy__"):
            if v.cls.lookup(nm)[0] is not None and deep == (nm == "__deepcopy__"):
                return I.call(I.getattr(v, nm), [{}] if deep else [])
        if any(v.cls.lookup(nm)[0] is not None for nm in ("__getstate__", "__reduce__", "__setstate__", "__reduce_ex__")):
            raise Incomplete("copy protocol at " + fmt(I.cur))
        o = AObj(v.cls)
        o.attrs = {k: (_copy(I, x, deep) if deep else x) for k, x in v.attrs.items()}
        return o
    if isinstance(v, Arr):
        return Arr(v.d.copy(), v.dt, v.lvl, v.kind, v.weak)
    return v


class _Dist:
    pass


@full("pkg_resources.get_distribution", "importlib.metadata.version", "importlib.metadata.distribution")
def _gd(I, args, kw):
    o = AObj(AClass("Distribution", [], {}))
    o.attrs["version"] = "0.0"
    return o


FULL["importlib.metadata.version"] = lambda I, a, k: "0.0"
for _n, _op in {"add": "add", "mul": "mul", "sub": "sub", "truediv": "div", "matmul": "matmul", "pow": "pow"}.items():
    FULL["operator." + _n] = (lambda op: lambda I, a, k: I.binop(op, a[0], a[1]))(_op)
for _n, _op in {"floordiv": "floordiv", "mod": "mod", "and_": "and", "or_": "or", "xor": "xor", "concat": "add", "iadd": "add", "imul": "mul",
                "isub": "sub", "itruediv": "div"}.items():
    FULL["operator." + _n] = (lambda op: lambda I, a, k: I.binop(op, a[0], a[1]))(_op)
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    FULL["operator." + _n] = (lambda op: lambda I, a, k: I.cmp(op, a[0], a[1]))(_n)
FULL["operator.getitem"] = lambda I, a, k: I.getitem(a[0], a[1])
FULL["operator.setitem"] = lambda I, a, k: I.setitem(a[0], a[1], a[2])
FULL["operator.contains"] = lambda I, a, k: I.contains(a[0], a[1])
FULL["operator.is_"] = lambda I, a, k: I.is_(a[0], a[1])
FULL["operator.is_not"] = lambda I, a, k: not I.is_(a[0], a[1])
FULL["operator.abs"] = lambda I, a, k: I.call(I.builtins["abs"], a)
FULL["operator.pos"] = lambda I, a, k: a[0]
FULL["operator.truth"] = lambda I, a, k: I.call(I.builtins["bool"], a)
FULL["operator.index"] = lambda I, a, k: I.index_of(a[0])


def _op_not(I, a, k):
    t = I.truth(a[0])
    return Arr(mk("not", t), "b", 0, "py") if isinstance(t, Term) else not t


FULL["operator.not_"] = _op_not
FULL["operator.neg"] = lambda I, a, k: M.unary(I, "neg", a[0])
FULL["operator.itemgetter"] = lambda I, a, k: NF("itemgetter", lambda I2, b, kk: I2.getitem(b[0], a[0]) if len(a) == 1 else tuple(I2.getitem(b[0], q) for q in a))
FULL["operator.attrgetter"] = lambda I, a, k: NF("attrgetter", lambda I2, b, kk: _attrget(I2, b[0], a[0]) if len(a) == 1 else tuple(_attrget(I2, b[0], n) for n in a))
FULL["collections.OrderedDict"] = lambda I, a, k: dict(a[0]) if a and isinstance(a[0], dict) else {I.key(x): y for x, y in (I.iterate(a[0]) if a else [])} | k
FULL.update(pylib.FULL)
FULL["types.MappingProxyType"] = lambda I, a, k: a[0]
FULL["typing.cast"] = lambda I, a, k: a[1]
FULL["jax.experimental.ode.odeint"] = _unsupported


def _attrget(I, o, path):
    for n in path.split("."):
        o = I.getattr(o, n)
    return o


# ------------------------------------------------------------------ attributes of native values
def native_attr(I, o, name):
    if isinstance(o, Arr):
        return arr_attr(I, o, name)
    if isinstance(o, pylib.NT) or isinstance(o, pylib.MEMBERS):
        v = (pylib.nt_attr if isinstance(o, pylib.NT) else pylib.enum_attr)(I, o, name)
        if v is not None:
            return v
    if isinstance(o, (int, float)) and not isinstance(o, bool):
        if name in ("real",):
            return o
        if name in ("imag",):
            return 0
        if name == "__class__":
            return I.builtins[type(o).__name__]
        if hasattr(o, name) and callable(getattr(o, name)) and not name.startswith("__"):
            return NF(name, lambda I2, a, k: getattr(o, name)(*a))
        if name == "is_integer" and isinstance(o, float):
            return NF("is_integer", lambda I2, a, k: o.is_integer())
        I.raise_("AttributeError", f"'{type(o).__name__}' object has no attribute {name}")
    if isinstance(o, AtIdx):
        return NF("at." + name, lambda I2, a, k: M.at_op(I2, o, name, a[0], k) if name != "get" else M.index(I2, o.arr, o.idx))
    if isinstance(o, list):
        return NF("list." + name, lambda I2, a, k: list_method(I2, o, name, a, k))
    if isinstance(o, dict):
        return NF("dict." + name, lambda I2, a, k: dict_method(I2, o, name, a, k))
    if isinstance(o, tuple):
        if name == "index":
            return NF("tuple.index", lambda I2, a, k: seq_index(I2, o, a[0]))
        if name == "count":
            return NF("tuple.count", lambda I2, a, k: sum(1 for x in o if I2.truth_native(I2.cmp("eq", x, a[0]))))
        I.raise_("AttributeError", f"tuple has no attribute {name}")
    if isinstance(o, str):
        if not hasattr(o, name):
            I.raise_("AttributeError", f"str has no attribute {name}")

        def sm(I2, a, k):
            aa = [[I2.str_(y) if not isinstance(y, str) else y for y in I2.iterate(x)] if isinstance(x, (list, _Iter, dict, AObj)) else
                  (x if isinstance(x, (str, int, tuple)) or x is None else I2.str_(x)) for x in a]
            if name == "format":
                return format_(I2, o, a, k)
            try:
                return getattr(o, name)(*aa)
            except (ValueError, TypeError, IndexError) as e:
                I2.raise_(type(e).__name__, str(e))
        return NF("str." + name, sm)
    if isinstance(o, (set, frozenset)):
        return NF("set." + name, lambda I2, a, k: set_method(I2, o, name, a))
    if isinstance(o, (AFunc,)):
        if name in o.attrs:
            return o.attrs[name]
        if name == "__qualname__":
            return o.qualname
        if name == "__defaults__":
            return tuple(o.defaults) or None
        if name == "__kwdefaults__":
            return dict(o.kwdefaults) or None
        if name == "__dict__":
            return o.attrs
        if name == "__annotations__":
            a = o.node.args
            return {x.arg: None for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None}
        if name == "__get__":
            return NF("__get__", lambda I2, a, k: Bound(o, a[0]) if a[0] is not None else o)
        if name in ("__code__", "__globals__", "__closure__"):
            raise Incomplete(f"function attribute {name} at {fmt(I.cur)}")
        I.raise_("AttributeError", f"function has no attribute {name}")
    if isinstance(o, (Jit, Vmap)):
        if name in ("__wrapped__",):
            return o.fn
        if name in ("clear_cache", "lower"):
            return NF(name, lambda I2, a, k: None)
        return I.getattr(o.fn, name)
    if isinstance(o, Partial):
        if name == "func":
            return o.fn
        if name == "args":
            return tuple(o.args)
        if name == "keywords":
            return o.kw
        I.raise_("AttributeError", f"partial has no attribute {name}")
    if isinstance(o, Bound):
        if name == "__self__":
            return o.self_
        if name == "__func__":
            return o.fn
        return I.getattr(o.fn, name)
    if isinstance(o, Summary):
        return I.getattr(o.orig, name)
    if isinstance(o, NF):
        if name == "__name__":
            return o.name
        if o.name == "dict" and name == "fromkeys":
            return NF("fromkeys", lambda I2, a, k: {I2.key(x): (a[1] if len(a) > 1 else None) for x in I2.iterate(a[0])})
        I.raise_("AttributeError", f"{o.name} has no attribute {name}")
    if isinstance(o, Prop):
        if name == "setter":
            def setter(I2, a, k):
                return Prop(o.fget, a[0])
            return NF("setter", setter)
        if name == "fget":
            return o.fget
    if isinstance(o, DType):
        if name == "name":
            return o.name
        if name == "kind":
            n = DTNAMES.get(o.name, o.name)
            return "f" if M.isfloat(n) else ("b" if n == "b" else "i")
        if name == "type":
            return o
        if name == "itemsize":
            raise Incomplete("dtype itemsize")
    if isinstance(o, slice):
        return getattr(o, name)
    if isinstance(o, Unknown):
        raise Incomplete(o.why + " at " + fmt(I.cur))
    if o is None:
        I.raise_("AttributeError", f"NoneType has no attribute {name}")
    if name == "__class__":
        return I.builtins["type"]
    I.raise_("AttributeError", f"{_tname(o)} has no attribute {name}")


ARR_METHODS = {
    "sum", "prod", "max", "min", "mean", "std", "var", "any", "all", "cumsum", "cumprod", "argmin", "argmax", "argsort", "clip",
    "squeeze", "ravel", "dot", "swapaxes", "repeat", "diagonal", "take", "trace", "round", "sort", "searchsorted", "ptp",
}


def arr_attr(I, A, name):
    if A.kind == "py":
        if name in ("real",):
            return A
        if name == "is_integer":
            raise Incomplete("is_integer")
        I.raise_("AttributeError", f"'{'int' if A.dt == 'i' else 'float'}' object has no attribute {name}")
    fl = "np" if A.kind == "np" else "jnp"
    pre = "numpy." if fl == "np" else "jax.numpy."
    if name == "shape":
        return A.shape
    if name == "ndim":
        return A.ndim
    if name == "size":
        return int(A.d.size)
    if name == "dtype":
        return DType({v: k for k, v in reversed(list(DTNAMES.items()))}.get(A.dt, A.dt) if A.dt not in ("f", "i", "b") else
                     {"f": "float64", "i": "int64", "b": "bool"}[A.dt])
    if name in ("T", "mT"):
        return Arr(A.d.T if name == "T" else np.swapaxes(A.d, -1, -2), A.dt, A.lvl, A.kind, A.weak)
    if name == "real":
        return A
    if name == "at" and fl == "jnp":
        return AtIdx(A)
    if name == "weak_type":
        return A.weak
    if name == "aval":
        return A
    if name == "_trace" and fl == "jnp" and A.lvl > 0:
        return Ext(f"trace.{A.lvl}")
    if name == "flat":
        return [Arr(t, A.dt, A.lvl, A.kind) for t in A.flat()]
    if name == "astype":
        return NF("astype", lambda I2, a, k: M.astype(I2, A, a[0] if a else k.get("dtype")))
    if name == "reshape":
        def rs(I2, a, k):
            s = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else tuple(a)
            return call(I2, pre + "reshape", [A, s], k)
        return NF("reshape", rs)
    if name == "transpose":
        def tr(I2, a, k):
            s = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else (tuple(a) or None)
            return call(I2, pre + "transpose", [A] + ([s] if s else []), k)
        return NF("transpose", tr)
    if name in ("flatten",):
        return NF("flatten", lambda I2, a, k: Arr(A.d.reshape(-1).copy(), A.dt, max(A.lvl, I2.jit_level if fl == "jnp" else 0), A.kind))
    if name in ("copy", "block_until_ready", "conj", "conjugate", "__array__"):
        return NF(name, lambda I2, a, k: Arr(A.d.copy(), A.dt, A.lvl, A.kind, A.weak))
    if name in ("item", "tolist"):
        def item(I2, a, k):
            if A.lvl > 0:
                I2.sink("ConcretizationTypeError", f".{name}()")
            if name == "tolist":
                def tl(d):
                    if d.ndim == 0:
                        return Arr(d[()], A.dt, 0, "py", True)
                    return [tl(oa(x)) for x in d]
                return tl(A.d)
            if a:
                ix = [I2.index_of(x) for x in (a[0] if isinstance(a[0], tuple) else a)]
                t = A.flat()[ix[0]] if len(ix) == 1 else A.d[tuple(ix)]
                r = Arr(t, A.dt, 0, "py", True)
                n = I2.native(r)
                return n if n is not None else r
            if A.d.size != 1:
                I2.raise_("ValueError", "can only convert an array of size 1 to a Python scalar")
            r = Arr(A.term(), A.dt, 0, "py", True)
            n = I2.native(r)
            return n if n is not None else r
        return NF(name, item)
    if name == "fill" and fl == "np":
        def fill(I2, a, k):
            I2.setitem(A, slice(None), a[0])
        return NF("fill", fill)
    if name == "sort" and fl == "np":
        def srt(I2, a, k):
            r = call(I2, "numpy.sort", [A], {})
            I2.setitem(A, slice(None), r)
        return NF("sort", srt)
    if name in ARR_METHODS:
        return NF(name, lambda I2, a, k: call(I2, pre + name, [A] + a, k))
    if name.startswith("__") and name.strip("_") in ("add", "mul", "sub", "pow", "truediv", "matmul"):
        op = {"truediv": "div"}.get(name.strip("_"), name.strip("_"))
        return NF(name, lambda I2, a, k: I2.binop(op, A, a[0]))
    if name == "__len__":
        return NF("len", lambda I2, a, k: A.shape[0])
    if hasattr(np.ndarray, name):
        raise Incomplete(f"array attribute {name} at {fmt(I.cur)}")
    I.raise_("AttributeError", f"array has no attribute {name}")


def format_(I, o, a, k):
    """str.format on values; abstract numbers show as their terms."""
    def simple(x):
        return isinstance(x, (str, int, float, type(None))) or isinstance(x, (list, tuple)) and all(simple(y) for y in x)
    if all(simple(x) for x in a) and all(simple(x) for x in k.values()):
        try:
            return o.format(*a, **k)
        except (ValueError, KeyError, IndexError) as e:
            I.raise_(type(e).__name__, str(e))
    return "<formatted " + o + " " + ", ".join(I.str_(x) for x in a) + " " + ", ".join(n + "=" + I.str_(x) for n, x in k.items()) + ">"


def seq_index(I, seq, x):
    for i, y in enumerate(seq):
        if y is x or I.truth_native(I.cmp("eq", y, x)):
            return i
    I.raise_("ValueError", "value is not in list")


def list_method(I, o, name, a, k):
    if name == "append":
        I.mutate_list(o, list(o) + [a[0]])
    elif name == "extend":
        I.mutate_list(o, list(o) + list(I.iterate(a[0])))
    elif name == "insert":
        n = list(o)
        n.insert(I.index_of(a[0]), a[1])
        I.mutate_list(o, n)
    elif name == "pop":
        n = list(o)
        if not n:
            I.raise_("IndexError", "pop from empty list")
        try:
            v = n.pop(*[I.index_of(x) for x in a])
        except IndexError:
            I.raise_("IndexError", "pop index out of range")
        I.mutate_list(o, n)
        return v
    elif name == "remove":
        n = list(o)
        del n[seq_index(I, n, a[0])]
        I.mutate_list(o, n)
    elif name == "clear":
        I.mutate_list(o, [])
    elif name == "reverse":
        I.mutate_list(o, list(reversed(o)))
    elif name == "sort":
        I.mutate_list(o, I.call(I.builtins["sorted"], [list(o)], k))
    elif name == "copy":
        return list(o)
    elif name == "index":
        return seq_index(I, o, a[0])
    elif name == "count":
        return sum(1 for x in o if x is a[0] or I.truth_native(I.cmp("eq", x, a[0])))
    elif name == "__len__":
        return len(o)
    else:
        I.raise_("AttributeError", f"list has no attribute {name}")


def dict_method(I, o, name, a, k):
    if name == "keys":
        return [I.unkey(x) for x in o]
    if name == "values":
        return list(o.values())
    if name == "items":
        return [(I.unkey(x), y) for x, y in o.items()]
    if name == "get":
        return o.get(I.key(a[0]), a[1] if len(a) > 1 else k.get("default"))
    if name == "setdefault":
        kk = I.key(a[0])
        if kk not in o:
            I.put(o, kk, a[1] if len(a) > 1 else None)
        return o[kk]
    if name == "pop":
        kk = I.key(a[0])
        if kk in o:
            v = o[kk]
            I.del_(o, kk)
            return v
        if len(a) > 1:
            return a[1]
        I.raise_("KeyError", repr(kk))
    if name == "update":
        src = {}
        if a:
            src.update(a[0] if isinstance(a[0], dict) else {I.key(x): y for x, y in I.iterate(a[0])})
        src.update(k)
        for x, y in src.items():
            I.put(o, x, y)
        return None
    if name == "copy":
        return dict(o)
    if name == "clear":
        I.mutate_list(o, {})
        return None
    if name == "popitem":
        if not o:
            I.raise_("KeyError", "popitem(): dictionary is empty")
        kk = list(o)[0 if (k.get("last") is False or (a and a[0] is False)) else -1]
        v = o[kk]
        I.del_(o, kk)
        return (kk, v)
    if name == "__contains__":
        return I.key(a[0]) in o
    if name == "__getitem__":
        return I.getitem(o, a[0])
    if name == "__len__":
        return len(o)
    if name == "move_to_end":
        kk = I.key(a[0])
        if kk not in o:
            I.raise_("KeyError", repr(kk))
        v = o[kk]
        last = a[1] if len(a) > 1 else k.get("last", True)
        rest = {x: y for x, y in o.items() if x != kk}
        I.mutate_list(o, {**rest, kk: v} if last else {kk: v, **rest})
        return None
    if name == "most_common" and isinstance(o, pylib.DDict):
        it = sorted(o.items(), key=lambda p: -p[1])
        return [(I.unkey(x), y) for x, y in (it[:I.index_of(a[0])] if a else it)]
    if name == "elements" and isinstance(o, pylib.DDict):
        return [I.unkey(x) for x, y in o.items() for _ in range(y)]
    if name == "default_factory":
        return getattr(o, "factory", None)
    I.raise_("AttributeError", f"dict has no attribute {name}")


def set_method(I, o, name, a):
    if name == "add":
        I.mutate_list(o, set(o) | {I.key(a[0])})
        return None
    if name == "pop":
        if not o:
            I.raise_("KeyError", "pop from an empty set")
        v = sorted(o, key=repr)[0]
        I.mutate_list(o, set(o) - {v})
        return I.unkey(v)
    if name == "clear":
        I.mutate_list(o, set())
        return None
    if name in ("difference_update", "intersection_update", "symmetric_difference_update"):
        r = getattr(o, name[:-7])(*[set(I.key(y) for y in I.iterate(x)) for x in a])
        I.mutate_list(o, set(r))
        return None
    if name in ("union", "intersection", "difference", "issubset", "issuperset", "copy", "isdisjoint", "symmetric_difference"):
        return getattr(o, name)(*[set(I.key(y) for y in I.iterate(x)) for x in a])
    if name == "remove" and I.key(a[0]) not in o:
        I.raise_("KeyError", "")
    if name in ("discard", "remove"):
        I.mutate_list(o, set(o) - {I.key(a[0])})
        return None
    if name == "update":
        I.mutate_list(o, set(o) | {I.key(y) for x in a for y in I.iterate(x)})
        return None
    I.raise_("AttributeError", f"set has no attribute {name}")

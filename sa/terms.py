"""Value numbers: hash-consed scalar terms, their fingerprints and derivatives.

A term stands for the value of one array element as a function of the input
symbols.  Congruence is decided by identity of the hash-consed DAG, else by
random interpretation (fingerprints at random valuations, escalated to 50-digit
arithmetic before two terms are declared different).
"""
import hashlib
import math
import re
import sys

import numpy as np

np.seterr(all="ignore")
import mpmath as mp

from . import steer

sys.setrecursionlimit(100000)
mp.mp.dps = 50

COMM = {"add", "mul", "max", "min", "eq", "ne", "and", "or"}


class Term:
    __slots__ = ("op", "args", "attr", "id", "loc")

    def __repr__(self):
        return show(self)

    # operator overloads so that numpy's object-array kernels work on terms
    def __add__(s, o):
        return mk("add", s, o)

    def __radd__(s, o):
        return mk("add", o, s)

    def __sub__(s, o):
        return mk("sub", s, o)

    def __rsub__(s, o):
        return mk("sub", o, s)

    def __mul__(s, o):
        return mk("mul", s, o)

    def __rmul__(s, o):
        return mk("mul", o, s)

    def __truediv__(s, o):
        return mk("div", s, o)

    def __rtruediv__(s, o):
        return mk("div", o, s)

    def __neg__(s):
        return mk("neg", s)

    def __pow__(s, o):
        return mk("pow", s, o)

    def __rpow__(s, o):
        return mk("pow", o, s)

    def __abs__(s):
        return mk("abs", s)

    def __bool__(self):
        raise TypeError("truth value of an abstract term")

    def conjugate(self):
        return self


_table = {}
_terms = []
cur_loc = [None]  # set by the interpreter: (file, line, function)
NOFOLD = [False]  # keep 0*x and x/x shapes (degenerate-point analysis)


def reset():
    """Forget all terms (only between independent analyses)."""
    _table.clear()
    _terms.clear()


def _intern(op, args, attr):
    key = (op, attr) + tuple(a.id for a in args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.attr = attr
        t.id = len(_terms)
        t.loc = cur_loc[0]
        _terms.append(t)
        _table[key] = t
    return t


def const(v):
    if isinstance(v, Term):
        return v
    if isinstance(v, (bool, np.bool_)):
        v = int(v)
    if isinstance(v, (int, np.integer)):
        v = int(v)
        if abs(v) > 2**53:
            return _intern("const", (), v)
        return _intern("const", (), float(v))
    v = float(v)
    if math.isnan(v):
        return _intern("nan", (), None)
    if v == 0:
        v = 0.0
    return _intern("const", (), v)


def sym(name, lo=0.3, hi=1.7):
    t = _intern("sym", (), name)
    RANGES.setdefault(name, (lo, hi))
    return t


RANGES = {}


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.attr


def opaque(name, *args):
    return _intern("opaque", tuple(const(a) for a in args), name)


def _fold(op, vals):
    with np.errstate(all="ignore"):
        r = FLOAT[op](*[np.float64(v) for v in vals])
    r = float(r)
    return r


_FOLDABLE = {
    "add", "sub", "mul", "div", "neg", "pow", "exp", "log", "log10", "log2", "sqrt",
    "abs", "sign", "max", "min", "sin", "cos", "tan", "sinh", "cosh", "tanh", "floor",
    "ceil", "round", "trunc", "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "not", "mod",
    "floordiv", "copysign", "expm1", "log1p", "arctan", "arcsin", "arccos", "sinc", "cbrt",
}


def mk(op, *args, attr=None):
    args = tuple(a if isinstance(a, Term) else const(a) for a in args)
    if op in _FOLDABLE and all(a.op == "const" for a in args):
        try:
            v = _fold(op, [a.attr for a in args])
        except (OverflowError, ZeroDivisionError, ValueError):
            v = None
        if v is not None and not math.isnan(v) and not math.isinf(v):
            return const(v)
    if op == "add":
        a, b = args
        if a.op == "const" and a.attr == 0:
            return b
        if b.op == "const" and b.attr == 0:
            return a
        if a.id > b.id:
            args = (b, a)
    elif op == "sub":
        a, b = args
        if b.op == "const" and b.attr == 0:
            return a
        if a.op == "const" and a.attr == 0:
            return mk("neg", b)
    elif op == "mul":
        a, b = args
        if not NOFOLD[0]:
            if a.op == "const" and a.attr == 0 or b.op == "const" and b.attr == 0:
                return const(0.0)
        if a.op == "const" and a.attr == 1:
            return b
        if b.op == "const" and b.attr == 1:
            return a
        if a.op == "const" and a.attr == -1:
            return mk("neg", b)
        if b.op == "const" and b.attr == -1:
            return mk("neg", a)
        if a.id > b.id:
            args = (b, a)
    elif op == "div":
        a, b = args
        if b.op == "const" and b.attr == 1:
            return a
        if not NOFOLD[0] and a.op == "const" and a.attr == 0 and b.op != "const":
            return const(0.0)
    elif op == "pow":
        a, b = args
        if b.op == "const":
            if b.attr == 1:
                return a
            if b.attr == 2:
                return mk("mul", a, a)
            if b.attr == 0 and not NOFOLD[0]:
                return const(1.0)
    elif op == "neg":
        (a,) = args
        if a.op == "neg":
            return a.args[0]
    elif op in ("max", "min"):
        a, b = args
        if a is b:
            return a
        if a.id > b.id:
            args = (b, a)
    elif op in COMM:
        a, b = args
        if a.id > b.id:
            args = (b, a)
    elif op == "gt":
        op, args = "lt", (args[1], args[0])
    elif op == "ge":
        op, args = "le", (args[1], args[0])
    elif op in ("select", "lazysel"):
        c, a, b = args
        if a is b:
            return a
        if c.op == "const":
            return a if c.attr != 0 else b
    elif op in ("gather", "lgather"):
        i = args[0]
        items = args[1:]
        if all(x is items[0] for x in items):
            return items[0]
        if i.op == "const":
            n = len(items)
            k = int(i.attr)
            if k < 0 and op == "gather":
                k += n
            return items[min(max(k, 0), n - 1)]
    elif op in ("trunc", "floor", "ceil", "round"):
        if is_integral(args[0]):
            return args[0]
    elif op == "abs":
        if args[0].op in ("abs", "exp"):
            return args[0]
    elif op == "not":
        if args[0].op == "not":
            return args[0].args[0]
    elif op in ("argmin", "argmax", "argsort", "sortk", "searchsorted") and all(
        a.op == "const" for a in args
    ):
        v = [np.array([float(a.attr)]) for a in args]
        return const(float(FLOATN[op](attr, v)[0]))
    return _intern(op, args, attr)


_INTEGRAL = {"sign", "floor", "ceil", "round", "trunc", "argmin", "argmax", "argsort",
             "searchsorted", "lt", "le", "eq", "ne", "and", "or", "not", "floordiv", "isnan"}
_int_memo = {}


def is_integral(t):
    """True when the term's value is an integer for every valuation."""
    if t.op == "const":
        return float(t.attr).is_integer()
    if t.op == "sym":
        return RANGES.get(t.attr, (0, 0, 0))[2:] == ("int",)
    if t.op in _INTEGRAL:
        return True
    if t.op in ("add", "sub", "mul", "neg", "max", "min", "abs", "mod"):
        return all(is_integral(a) for a in t.args)
    if t.op in ("select", "lazysel", "gather", "lgather"):
        return all(is_integral(a) for a in t.args[1:])
    if t.op == "copysign":
        return is_integral(t.args[0])
    return False


def show(t, depth=5):
    if t.op == "const":
        v = t.attr
        return repr(int(v)) if float(v).is_integer() and abs(v) < 1e15 else repr(v)
    if t.op == "sym":
        return str(t.attr)
    if depth == 0:
        return "..."
    a = [show(x, depth - 1) for x in t.args[:8]]
    if len(t.args) > 8:
        a.append("...")
    inf = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "lt": "<", "le": "<=", "eq": "=="}
    if t.op in inf and len(a) == 2:
        return "(" + a[0] + inf[t.op] + a[1] + ")"
    name = t.op if t.attr is None else f"{t.op}[{t.attr}]"
    return f"{name}({', '.join(a)})"


# ---------------------------------------------------------------- evaluation

def _h(*key):
    return int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], "big")


def hrand(*key):
    """Deterministic pseudo-random number in (0,1)."""
    return (_h(*key) % (10**9)) / 1e9


def _ocoef(name, n):
    return [0.25 + 1.5 * hrand("oc", name, i) for i in range(n)], 6.28 * hrand("ob", name)


def _opaque_f(name, args):
    cs, b = _ocoef(name, len(args))
    u = b
    for c, x in zip(cs, args):
        u = u + c * np.arcsinh(x)
    return 1.3 + 0.7 * np.sin(u)


def _opaque_mp(name, args):
    cs, b = _ocoef(name, len(args))
    u = mp.mpf(b)
    for c, x in zip(cs, args):
        u = u + c * mp.asinh(x)
    return mp.mpf(1.3) + mp.mpf(0.7) * mp.sin(u)


def _erf(x):
    return np.vectorize(math.erf, otypes=[float])(x)


def _gammaf(x):
    return np.vectorize(lambda v: float(mp.gamma(v)), otypes=[float])(x)


def _lgam(x):
    return np.vectorize(lambda v: float(mp.loggamma(abs(v)).real), otypes=[float])(x)


def _pow(x, y):
    r = np.power(x, y)
    return r


FLOAT = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "div": lambda a, b: np.divide(a, b), "neg": lambda a: -a, "pow": _pow,
    "exp": np.exp, "log": np.log, "log10": np.log10, "log2": np.log2, "log1p": np.log1p, "expm1": np.expm1,
    "sqrt": np.sqrt, "cbrt": np.cbrt, "sin": np.sin, "cos": np.cos, "tan": np.tan,
    "arcsin": np.arcsin, "arccos": np.arccos, "arctan": np.arctan,
    "sinh": np.sinh, "cosh": np.cosh, "tanh": np.tanh,
    "arcsinh": np.arcsinh, "arccosh": np.arccosh, "arctanh": np.arctanh,
    "abs": np.abs, "sign": np.sign, "floor": np.floor, "ceil": np.ceil, "round": np.round, "trunc": np.trunc,
    "erf": _erf, "erfc": lambda x: 1 - _erf(x), "gamma": _gammaf, "lgamma": _lgam,
    "sinc": lambda x: np.sinc(x), "isnan": lambda x: np.isnan(x) * 1.0, "isfinite": lambda x: np.isfinite(x) * 1.0,
    "not": lambda x: (x == 0) * 1.0, "stop": lambda x: x, "custom": lambda x: x, "narrow": lambda x: x,
    "mod": np.mod, "floordiv": np.floor_divide, "max": np.maximum, "min": np.minimum,
    "atan2": np.arctan2, "copysign": np.copysign, "hypot": np.hypot,
    "lt": lambda a, b: (a < b) * 1.0, "le": lambda a, b: (a <= b) * 1.0,
    "gt": lambda a, b: (a > b) * 1.0, "ge": lambda a, b: (a >= b) * 1.0,
    "eq": lambda a, b: (a == b) * 1.0, "ne": lambda a, b: (a != b) * 1.0,
    "and": lambda a, b: ((a != 0) & (b != 0)) * 1.0, "or": lambda a, b: ((a != 0) | (b != 0)) * 1.0,
    "select": lambda c, a, b: np.where(c != 0, a, b), "lazysel": lambda c, a, b: np.where(c != 0, a, b),
}


def _ga(i, items, wrap):
    n = len(items)
    st = np.stack(items)
    k = np.nan_to_num(i).astype(int)
    if wrap:
        k = np.where(k < 0, k + n, k)
    k = np.clip(k, 0, n - 1)
    return np.take_along_axis(st, k[None, :], 0)[0]


def _mat(n, v):
    K = v[0].shape[0]
    return np.stack(v).reshape(n, n, K).transpose(2, 0, 1)


def _ss(side, v):
    x = v[0]
    st = np.stack(v[1:])
    if side == "left":
        return (st < x).sum(0) * 1.0
    return (st <= x).sum(0) * 1.0


def _ssrev(side, v):
    # digitize with decreasing bins
    x = v[0]
    st = np.stack(v[1:])
    if side == "left":
        return (st >= x).sum(0) * 1.0
    return (st > x).sum(0) * 1.0


FLOATN = {
    "gather": lambda attr, v: _ga(v[0], v[1:], True),
    "lgather": lambda attr, v: _ga(v[0], v[1:], False),
    "argmin": lambda attr, v: np.argmin(np.stack(v), 0) * 1.0,
    "argmax": lambda attr, v: np.argmax(np.stack(v), 0) * 1.0,
    "argsort": lambda attr, v: np.argsort(np.stack(v), 0, kind="stable")[attr] * 1.0,
    "sortk": lambda attr, v: np.sort(np.stack(v), 0)[attr],
    "searchsorted": lambda attr, v: _ss(attr, v),
    "digitize": lambda attr, v: np.where(v[1] <= v[-1], _ss(attr, v), _ssrev(attr, v)),
    "opaque": lambda attr, v: _opaque_f(attr, v),
}
_MATF = {
    "inv": lambda M: np.linalg.inv(M),
    "chol": lambda M: np.linalg.cholesky((np.tril(M) + np.tril(M, -1).transpose(0, 2, 1))),
    "logdet": lambda M: np.linalg.slogdet(M)[1][:, None, None],
    "detsign": lambda M: np.linalg.slogdet(M)[0][:, None, None],
    "det": lambda M: np.linalg.det(M)[:, None, None],
}
MATOPS = set(_MATF)


def matterm(op, terms, n, i=0, j=0):
    """Element (i,j) of a matrix function of the n*n row-major `terms`."""
    return _intern(op, tuple(terms), (n, i, j))


def topo(roots, stop=None):
    """Children-first order of the DAG under roots (iterative)."""
    seen = set()
    out = []
    for r in roots:
        if r.id in seen:
            continue
        stack = [(r, 0)]
        seen.add(r.id)
        while stack:
            t, k = stack[-1]
            if stop is not None and t.id in stop:
                stack.pop()
                continue
            if k < len(t.args):
                stack[-1] = (t, k + 1)
                a = t.args[k]
                if a.id not in seen:
                    seen.add(a.id)
                    stack.append((a, 0))
            else:
                out.append(t)
                stack.pop()
    return out


class Valuation:
    """K random valuations of all symbols; memoised fingerprints."""

    def __init__(self, seed=0, K=3, over=None, tag=""):
        self.seed, self.K, self.tag = seed, K, tag
        self.over = dict(over or {})  # name -> array(K) or scalar
        self.sampler = None
        self.explorer = None
        self.val = {}
        self.err = {}
        self.mat = {}
        self.mpv = [dict() for _ in range(K)]
        self.mpm = [dict() for _ in range(K)]

    def symval(self, name):
        if name in self.over:
            return np.zeros(self.K) + np.asarray(self.over[name], float)
        if self.sampler is not None:
            v = self.over[name] = self.sampler(name)
            return v
        r = RANGES[name]
        lo, hi = r[0], r[1]
        out = np.array([lo + (hi - lo) * hrand("v", self.seed, self.tag, name, k) for k in range(self.K)])
        if r[2:] == ("int",):
            out = np.round(out)
        return out

    def __call__(self, t):
        v = self.val.get(t.id)
        if v is not None:
            return v
        self.run([t])
        return self.val[t.id]

    def run(self, roots):
        val, err = self.val, self.err
        E = 2.3e-16
        with np.errstate(all="ignore"):
            for t in topo(roots, val):
                op = t.op
                a = [val[x.id] for x in t.args]
                e = [err[x.id] for x in t.args]
                if op == "const":
                    v = np.full(self.K, float(t.attr))
                    er = np.zeros(self.K) if float(t.attr).is_integer() else np.abs(v) * E
                elif op == "nan":
                    v = np.full(self.K, np.nan)
                    er = v
                elif op == "sym":
                    v = self.symval(t.attr)
                    er = np.zeros(self.K)
                elif op in MATOPS:
                    n, i, j = t.attr
                    key = (op, tuple(x.id for x in t.args))
                    if key not in self.mat:
                        M = _mat(n, a)
                        try:
                            self.mat[key] = _MATF[op](M)
                        except np.linalg.LinAlgError:
                            self.mat[key] = np.full((self.K, n, n), np.nan)
                    v = self.mat[key][:, i, j]
                    er = np.abs(v) * 1e-11 + 1e-13
                elif op in FLOATN:
                    v = FLOATN[op](t.attr, a)
                    if op in ("gather", "lgather"):
                        er = np.max(np.stack(e[1:]), 0)
                    elif op == "sortk":
                        er = np.max(np.stack(e), 0)
                    elif op == "opaque":
                        cs, _ = _ocoef(t.attr, len(a))
                        er = 3e-16 + sum((0.7 * c * ee / np.sqrt(1 + x * x) for c, ee, x in zip(cs, e, a)), 0.0)
                    else:
                        er = np.zeros(self.K)
                else:
                    v = np.asarray(FLOAT[op](*a), float)
                    if op in ("add", "sub"):
                        er = e[0] + e[1] + E * np.abs(v)
                    elif op == "mul":
                        er = np.abs(a[0]) * e[1] + np.abs(a[1]) * e[0] + E * np.abs(v)
                    elif op == "div":
                        er = e[0] / np.abs(a[1]) + np.abs(v / a[1]) * e[1] + E * np.abs(v)
                    elif op in ("select", "lazysel"):
                        er = np.where(a[0] != 0, e[1], e[2])
                    elif op in ("max", "min"):
                        er = np.maximum(e[0], e[1])
                    elif op in ("lt", "le", "eq", "ne", "and", "or", "not", "sign", "isnan", "isfinite"):
                        er = np.zeros(self.K)
                    else:
                        ps = partials(t, a, v)
                        er = E * np.abs(v) * 2
                        for p, ee in zip(ps, e):
                            er = er + np.where(ee == 0, 0, np.abs(p) * ee)
                val[t.id] = v
                err[t.id] = er

    # ---- multiprecision
    def mp(self, t, k):
        memo = self.mpv[k]
        if t.id in memo:
            return memo[t.id]
        for x in topo([t], memo):
            memo[x.id] = self._mp1(x, k, memo)
        return memo[t.id]

    def _mp1(self, t, k, memo):
        op = t.op
        a = [memo[x.id] for x in t.args]
        NAN = mp.nan
        if op == "const":
            return mp.mpf(t.attr)
        if op == "nan":
            return NAN
        if op == "sym":
            return mp.mpf(float(self.symval(t.attr)[k]))
        if op in MATOPS:
            n, i, j = t.attr
            key = (op, tuple(x.id for x in t.args))
            mm = self.mpm[k]
            if key not in mm:
                if any(mp.isnan(x) for x in a):
                    mm[key] = None
                else:
                    try:
                        M = mp.matrix(n, n)
                        for r in range(n):
                            for c in range(n):
                                M[r, c] = a[r * n + c]
                        if op == "inv":
                            mm[key] = M**-1
                        elif op == "chol":
                            for r in range(n):
                                for c in range(r + 1, n):
                                    M[r, c] = M[c, r]
                            mm[key] = mp.cholesky(M)
                        else:
                            d = mp.det(M)
                            z = mp.matrix(n, n)
                            z[0, 0] = d if op == "det" else (mp.log(abs(d)) if op == "logdet" else mp.sign(d))
                            mm[key] = z
                    except (ZeroDivisionError, ValueError):
                        mm[key] = None
            return NAN if mm[key] is None else mm[key][i, j]
        if op in ("gather", "lgather"):
            n = len(a) - 1
            if mp.isnan(a[0]):
                return NAN
            q = int(a[0])
            if q < 0 and op == "gather":
                q += n
            return a[1 + min(max(q, 0), n - 1)]
        if op == "opaque":
            return _opaque_mp(t.attr, a)
        if op in ("select", "lazysel"):
            return a[1] if a[0] != 0 else a[2]
        if op == "argmin":
            return mp.mpf(min(range(len(a)), key=lambda i: a[i]))
        if op == "argmax":
            return mp.mpf(max(range(len(a)), key=lambda i: a[i]))
        if op == "argsort":
            return mp.mpf(sorted(range(len(a)), key=lambda i: a[i])[t.attr])
        if op == "sortk":
            return sorted(a)[t.attr]
        if op == "searchsorted" or op == "digitize":
            x, st = a[0], a[1:]
            if op == "searchsorted" or st[0] <= st[-1]:
                return mp.mpf(sum(1 for s in st if (s < x if t.attr == "left" else s <= x)))
            return mp.mpf(sum(1 for s in st if (s >= x if t.attr == "left" else s > x)))
        if any(mp.isnan(x) for x in a):
            if op in ("lt", "le", "eq", "and", "or"):
                return mp.mpf(0)
            if op in ("isnan", "ne"):
                return mp.mpf(1)
            return NAN
        try:
            r = MPF[op](*a)
        except (ZeroDivisionError, ValueError, OverflowError):
            return NAN
        if isinstance(r, mp.mpc):
            return NAN
        return r if isinstance(r, mp.mpf) else mp.mpf(r)


def _mpdiv(a, b):
    if b == 0:
        return mp.nan if a == 0 else (mp.inf if a > 0 else -mp.inf)
    return a / b


def _mpsinc(x):
    return mp.mpf(1) if x == 0 else mp.sin(mp.pi * x) / (mp.pi * x)


def _mplog(x):
    return -mp.inf if x == 0 else mp.log(x)


def _mppow(x, y):
    if x == 0:
        return mp.mpf(1) if y == 0 else (mp.mpf(0) if y > 0 else mp.inf)
    return mp.power(x, y)


MPF = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": _mpdiv,
    "neg": lambda a: -a, "pow": _mppow, "exp": mp.exp, "log": _mplog,
    "log10": lambda x: _mplog(x) / mp.log(10), "log2": lambda x: _mplog(x) / mp.log(2),
    "log1p": lambda x: mp.log(1 + x), "expm1": mp.expm1, "sqrt": mp.sqrt, "cbrt": lambda x: mp.sign(x) * mp.cbrt(abs(x)),
    "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "arcsin": mp.asin, "arccos": mp.acos, "arctan": mp.atan,
    "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh, "arcsinh": mp.asinh, "arccosh": mp.acosh, "arctanh": mp.atanh,
    "abs": abs, "sign": mp.sign, "floor": mp.floor, "ceil": mp.ceil, "round": mp.nint,
    "trunc": lambda x: mp.sign(x) * mp.floor(abs(x)), "erf": mp.erf, "erfc": mp.erfc, "gamma": mp.gamma,
    "lgamma": lambda x: mp.log(abs(mp.gamma(x))), "sinc": _mpsinc, "isnan": lambda x: 0, "isfinite": lambda x: int(mp.isfinite(x)),
    "not": lambda x: int(x == 0), "stop": lambda x: x, "custom": lambda x: x, "narrow": lambda x: x,
    "mod": lambda a, b: a - b * mp.floor(a / b), "floordiv": lambda a, b: mp.floor(a / b), "max": max, "min": min,
    "atan2": mp.atan2, "copysign": lambda a, b: abs(a) * (1 if b >= 0 else -1), "hypot": mp.hypot,
    "lt": lambda a, b: int(a < b), "le": lambda a, b: int(a <= b), "eq": lambda a, b: int(a == b),
    "ne": lambda a, b: int(a != b), "and": lambda a, b: int(a != 0 and b != 0), "or": lambda a, b: int(a != 0 or b != 0),
}


def partials(t, a, v):
    """Partial derivatives of an elementary op, following JAX's rules."""
    op = t.op
    if op == "add":
        return [1.0, 1.0]
    if op == "sub":
        return [1.0, -1.0]
    if op == "mul":
        return [a[1], a[0]]
    if op == "div":
        return [1.0 / a[1], -a[0] / a[1] / a[1]]
    if op == "neg":
        return [-1.0]
    if op == "pow":
        x, y = a
        if t.args[1].op == "const" and float(t.args[1].attr).is_integer():
            return [y * np.power(x, y - 1), 0.0]
        dx = y * np.power(x, np.where(y == 0, 1.0, y - 1))
        dy = np.log(np.where(x == 0, 1.0, x)) * v
        if t.args[1].op == "const":
            dy = 0.0
        return [dx, dy]
    if op == "exp":
        return [v]
    if op == "log":
        return [1 / a[0]]
    if op == "log10":
        return [1 / a[0] / math.log(10)]
    if op == "log2":
        return [1 / a[0] / math.log(2)]
    if op == "log1p":
        return [1 / (1 + a[0])]
    if op == "expm1":
        return [v + 1]
    if op == "sqrt":
        return [0.5 / v]
    if op == "cbrt":
        return [v / a[0] / 3]
    if op == "sin":
        return [np.cos(a[0])]
    if op == "cos":
        return [-np.sin(a[0])]
    if op == "tan":
        return [1 + v * v]
    if op == "arcsin":
        return [1 / np.sqrt(1 - a[0] ** 2)]
    if op == "arccos":
        return [-1 / np.sqrt(1 - a[0] ** 2)]
    if op == "arctan":
        return [1 / (1 + a[0] ** 2)]
    if op == "sinh":
        return [np.cosh(a[0])]
    if op == "cosh":
        return [np.sinh(a[0])]
    if op == "tanh":
        return [1 - v * v]
    if op == "arcsinh":
        return [1 / np.sqrt(1 + a[0] ** 2)]
    if op == "arccosh":
        return [1 / np.sqrt(a[0] ** 2 - 1)]
    if op == "arctanh":
        return [1 / (1 - a[0] ** 2)]
    if op == "abs":
        return [np.sign(a[0])]
    if op == "erf":
        return [2 / math.sqrt(math.pi) * np.exp(-a[0] ** 2)]
    if op == "erfc":
        return [-2 / math.sqrt(math.pi) * np.exp(-a[0] ** 2)]
    if op == "sinc":
        x = a[0]
        xs = np.where(x == 0, 1.0, x)
        return [np.where(x == 0, 0.0, (np.cos(np.pi * xs) - np.sinc(xs)) / xs)]
    if op in ("max", "min"):
        x, y = a
        big = x > y if op == "max" else x < y
        eq = x == y
        p = np.where(eq, 0.5, np.where(big, 1.0, 0.0))
        return [p, 1 - p]
    if op in ("select", "lazysel"):
        m = (a[0] != 0) * 1.0
        return [0.0, m, 1 - m]
    if op in ("gather", "lgather"):
        n = len(a) - 1
        k = np.nan_to_num(np.asarray(a[0], float)).astype(int)
        if op == "gather":
            k = np.where(k < 0, k + n, k)
        k = np.clip(k, 0, n - 1)
        return [0.0] + [(k == i) * 1.0 for i in range(n)]
    if op == "opaque":
        cs, b = _ocoef(t.attr, len(a))
        u = b
        for c, x in zip(cs, a):
            u = u + c * np.arcsinh(x)
        co = 0.7 * np.cos(u)
        return [co * c / np.sqrt(1 + x * x) for c, x in zip(cs, a)]
    if op == "hypot":
        return [a[0] / v, a[1] / v]
    if op == "atan2":
        d = a[0] ** 2 + a[1] ** 2
        return [a[1] / d, -a[0] / d]
    if op == "mod":
        return [1.0, -np.floor(a[0] / a[1])]
    if op == "copysign":
        return [np.sign(a[0]) * np.where(a[1] < 0, -1.0, 1.0), 0.0]
    if op == "narrow":
        return [1.0]
    if op == "lgamma":
        return [np.vectorize(lambda q: float(mp.digamma(q)), otypes=[float])(a[0])]
    if op == "sortk":
        st = np.stack(a)
        idx = np.argsort(st, 0, kind="stable")[t.attr]
        return [(idx == i) * 1.0 for i in range(len(a))]
    # discrete ops, and ops with an intercepted derivative
    return [0.0] * len(a)


CUTS = {"stop", "trunc", "round", "floor", "ceil", "custom"}


def gradient(root, valn, asif=False):
    """Adjoints of all symbols, K lanes, by JAX's reverse-mode rules.

    asif: see through the cuts.  Lanes outside the taken branch of a lazy
    selection are dead: nothing is propagated there (an eager selection
    propagates zeros, which a singular branch turns into NaN).
    """
    valn(root)
    order = topo([root])
    K = valn.K
    adj = {root.id: (np.ones(K), np.ones(K, bool))}
    out = {}
    with np.errstate(all="ignore"):
        for t in reversed(order):
            gl = adj.pop(t.id, None)
            if gl is None:
                continue
            g, live = gl
            if t.op == "sym":
                out[t.attr] = g
                continue
            if not t.args:
                continue
            a = [valn.val[x.id] for x in t.args]
            v = valn.val[t.id]
            if t.op in MATOPS:
                ps = _matpartials(t, valn, v)
            elif t.op in CUTS:
                ps = [1.0 if asif else 0.0] + [0.0] * (len(a) - 1)
            else:
                ps = partials(t, a, v)
            for x, p in zip(t.args, ps):
                if np.isscalar(p) and p == 0.0:
                    continue
                q = g * p
                l = live
                if t.op in ("select", "lazysel", "gather", "lgather"):
                    q = np.where(p == 0, 0.0, q)
                    if t.op in ("lazysel", "lgather"):
                        l = live & (np.asarray(p) != 0)
                        if not l.any():
                            continue
                q = np.where(l, q, 0.0) + np.zeros(K)
                if x.id in adj:
                    g0, l0 = adj[x.id]
                    adj[x.id] = g0 + q, l0 | l
                else:
                    adj[x.id] = q, l
    return out


def _matpartials(t, valn, v):
    n, i, j = t.attr
    key = ("inv", tuple(x.id for x in t.args))
    if key not in valn.mat:
        M = _mat(n, [valn.val[x.id] for x in t.args])
        valn.mat[key] = np.linalg.inv(M)
    I = valn.mat[key]
    ps = []
    for k in range(n):
        for l in range(n):
            if t.op == "inv":
                ps.append(-I[:, i, k] * I[:, l, j])
            elif t.op == "logdet":
                ps.append(I[:, l, k])
            elif t.op == "det":
                ps.append(I[:, l, k] * v)
            elif t.op == "chol":
                ps.append(_dchol(t, valn, k, l, i, j))
            else:
                ps.append(0.0)
    return ps


def _dchol(t, valn, k, l, i, j):
    """dL[i,j]/dA[k,l] of the factor of the lower triangle of A."""
    key = ("dchol", tuple(x.id for x in t.args))
    if key not in valn.mat:
        n = t.attr[0]
        M = _mat(n, [valn.val[x.id] for x in t.args])
        L = _MATF["chol"](M)
        Li = np.linalg.inv(L)
        D = {}
        for r in range(n):
            for c in range(n):
                E = np.zeros_like(M)
                if r >= c:
                    E[:, r, c] = E[:, c, r] = 1.0
                P = Li @ E @ Li.transpose(0, 2, 1)
                P = np.tril(P)
                for q in range(n):
                    P[:, q, q] *= 0.5
                D[r, c] = L @ P
        valn.mat[key] = D
    return valn.mat[key][k, l][:, i, j]


def symbols(root, memo=None):
    """Names of all symbols the term depends on."""
    return {t.attr for t in topo([root]) if t.op == "sym"}


def symbols_many(roots):
    return {t.attr for t in topo(list(roots)) if t.op == "sym"}


# ---------------------------------------------------------------- congruence

class Stats:
    def __init__(self):
        self.identical = 0
        self.fingerprint = 0
        self.multiprec = 0
        self.different = 0
        self.undecided = 0

    def total(self):
        return self.identical + self.fingerprint + self.multiprec + self.different + self.undecided


STATS = Stats()


def congruent(a, b, valn, stats=None, rtol=1e-9, finite=False):
    """'same' | 'diff' (with witness) | 'undecided'; finite: only where b is finite."""
    stats = stats or STATS
    a, b = const(a), const(b)
    if a is b:
        stats.identical += 1
        return "same", None
    va, vb = valn(a), valn(b)
    ea, eb = valn.err[a.id], valn.err[b.id]
    ok = np.zeros(valn.K, bool)
    decided = np.zeros(valn.K, bool)
    usedmp = False
    for k in range(valn.K):
        x, y = va[k], vb[k]
        if finite and not np.isfinite(y):
            ok[k] = True
            continue
        if np.isnan(x) and np.isnan(y):
            ok[k] = True
            continue
        if x == y or (np.isfinite(x) and np.isfinite(y) and abs(x - y) <= rtol * max(abs(x), abs(y))):
            ok[k] = decided[k] = True
            continue
        usedmp = True
        X, Y = valn.mp(a, k), valn.mp(b, k)
        if mp.isnan(X) and mp.isnan(Y):
            ok[k] = True
            continue
        if mp.isnan(X) or mp.isnan(Y) or mp.isinf(X) or mp.isinf(Y):
            if mp.isinf(X) and X == Y:
                ok[k] = decided[k] = True
                continue
            stats.different += 1
            return "diff", (k, x, y)
        d, m = abs(X - Y), max(abs(X), abs(Y))
        e = 0.0
        for q in (ea[k], eb[k]):
            if np.isfinite(q):
                e += float(q)
        if d <= rtol * m or m <= 16 * e:
            ok[k] = decided[k] = True
        elif d <= 16 * e:
            ok[k] = True  # within the rounding of folded constants: no verdict on this lane
        else:
            stats.different += 1
            return "diff", (k, float(X), float(Y))
    if not decided.any():
        stats.undecided += 1
        return "undecided", None
    if usedmp:
        stats.multiprec += 1
    else:
        stats.fingerprint += 1
    return "same", None


# ------------------------------------------------------------------ exploring decisions
_WIDE_RULES = [  # (pattern of the base name, admissible range when it is larger than the sampled one)
    (r"(n_|ref)?Omega_c", 0.005, 1.2), (r"(n_|ref)?Omega_b", 0.002, 0.3), (r"(n_|ref)?h", 0.2, 1.6),
    (r"(n_|ref)?n_s", 0.2, 2.2), (r"(n_|ref)?sigma8", 0.05, 4.0), (r"(n_|ref)?Omega_k", -0.4, 0.4),
    (r"(n_|ref)?w0", -3.0, 0.1), (r"(n_|ref)?wa", -3.0, 2.0), (r"(n_)?gamma", 0.05, 2.0),
    (r"m|m\d+", -1.5, 1.5), (r"\w*shift", -0.4, 0.4), (r"\w*eta", -6.0, 6.0), (r"\w*zp", 0.01, 8.0),
    (r"(ia|i|g|h|b)?\d*A", -5.0, 5.0), (r"\w*sa", 0.3, 5.0), (r"\w*sb", 0.4, 4.0), (r"\w*sz0", 0.05, 3.0),
    (r"\w*kz\d+", 0.0, 4.0), (r"\w*kw\d+", 1e-4, 1e3), (r"d\d+dz0|dz0|\w*wz0", 0.02, 5.0),
    (r"(da|mu|d)\d+", -1e3, 1e3), (r"S\d+_\d+", -2.0, 4.0), (r"se\d*|s[01]|sf", 1e-3, 8.0), (r"kmin", 1e-8, 0.3), (r"kmax", 0.5, 1e6), (r"R|rad", 0.01, 300.0),
    (r"bw\w*", 1e-3, 3.0), (r"alpha", 0.05, 5.0),
    (r"quad\.delta", 0.001, 0.499),
    (r"a\d+|a|as|ah|aq\d+|ax\d+|a1x", 1e-3, 1.0), (r"z\d+|z|zs|zj|zq\d+|zo", 1e-3, 8.0),
    (r"k\d+|k|ks|kq\d+|k1x", 1e-5, 1e3), (r"(ell|ells|ellq|ellv|ellh|lk)\d*", 2.0, 1e5),
    (r"chi[a-z]*\d*", 0.1, 1e4), (r".*gals", 1e-3, 1e3), (r"fsky", 1e-3, 1.0),
]
_WIDE = {}


def wide(name):
    """Admissible range of a symbol, at least the sampled one."""
    if name not in _WIDE:
        lo, hi = RANGES[name][:2]
        base = name.split("[")[0]
        for pat, a, b in _WIDE_RULES:
            if re.fullmatch(pat, base):
                lo, hi = min(lo, a), max(hi, b)
                break
        _WIDE[name] = lo, hi
    return _WIDE[name]


_WIDE_LANES = 64
_LANES = 112  # the rest: the sampled inputs with a few of them moved within the wide range
_DISCRETE = {"round", "floor", "ceil", "trunc", "argmin", "argmax", "argsort", "searchsorted", "digitize", "sign"}


def _wide_sample(valn):
    def f(name):
        r = RANGES[name]
        lo, hi = r[0], r[1]
        wl, wh = wide(name)
        out = np.empty(_LANES)
        near = np.atleast_1d(valn.symval(name))
        for k in range(_LANES):
            u = hrand("x", valn.seed, valn.tag, name, k)
            if k >= _WIDE_LANES:
                x = near[k % len(near)]
                if hrand("n", valn.seed, valn.tag, name, k) < 0.2:
                    x = wl * (wh / wl) ** u if wl > 0 and wh / wl > 4 and k % 2 else wl + (wh - wl) * u
            elif k < 16:
                x = lo + (hi - lo) * u
            elif k < 48:
                if wl < 0 < wh and k % 2:
                    m = 10.0 ** (-1.0 - 9.0 * ((u * 2) % 1.0))
                    x = wh * m if u < 0.5 else wl * m
                elif wl > 0 and wh / wl > 4:
                    x = wl * (wh / wl) ** u
                else:
                    x = wl + (wh - wl) * u
            else:
                v = 1e-3 * ((2 * u) % 1.0)
                x = wl + (wh - wl) * (v if u < 0.5 else 1.0 - v)
            out[k] = x
        if r[2:] == ("int",):
            out = np.round(out)
        return out

    return f


def _outcome(t, val):
    """Lane-wise discrete outcome of a decision, or None."""
    op = t.op
    if op in ("lt", "le", "gt", "ge", "max", "min"):
        return np.sign(val[t.args[0].id] - val[t.args[1].id])
    if op in ("eq", "ne"):
        return (val[t.args[0].id] == val[t.args[1].id]) * 1.0
    if op == "abs":
        return np.sign(val[t.args[0].id])
    if op in _DISCRETE:
        return val[t.id]
    return None


HUNTS = dict(done=set(), left=400, found=0)


def _hunt(pairs, ts, valn, ex, limit=6):
    """Inputs at which a comparison that only the analysed side makes comes out the other way.

    Tolerance windows are too narrow for sampling: the margin of the comparison
    is driven towards zero along one input at a time, by repeated grid refinement.
    """
    theirs = {t.id for t in topo([const(b) for _, b in pairs], {})}
    found = []
    for t in ts:
        if HUNTS["left"] <= 0 or len(found) >= limit:
            break
        if t.id in theirs or t.op not in ("lt", "le", "gt", "ge", "max", "min") or t.id in HUNTS["done"]:
            continue
        outs = np.concatenate([x[~np.isnan(x)] for x in (_outcome(t, valn.val), _outcome(t, ex.val))])
        if len(set(outs > 0)) != 1 or not len(outs):
            continue
        side = outs[0] > 0
        HUNTS["done"].add(t.id)
        HUNTS["left"] -= 1
        syms = [x for x in topo(list(t.args), {}) if x.op == "sym" and x.attr not in valn.over and len(RANGES[x.attr]) == 2]
        for s in syms[:8]:
            base = {x.attr: ex.symval(x.attr)[0] for x in syms}
            hit = _zoom(t, s.attr, base, valn, side)
            if hit is not None:
                found.append((0, (s.attr, hit)))
                HUNTS["found"] += 1
                break
    return found


def _zoom(t, name, base, valn, side, rounds=9, n=33):
    lo, hi = wide(name)
    for r in range(rounds):
        if r == 0 and lo > 0 and hi / lo > 4:
            x = np.geomspace(lo, hi, n)
        else:
            x = np.linspace(lo, hi, n)
        v = Valuation(valn.seed, n, dict(base, **{name: x}), valn.tag)
        v.sampler = lambda q: np.full(n, hrand("x", valn.seed, valn.tag, q, 0))
        v.run(list(t.args))
        m = v.val[t.args[0].id] - v.val[t.args[1].id]
        ok = np.isfinite(m)
        if not ok.any():
            return None
        flip = ok & ((m > 0) != side)
        if flip.any():
            i = np.flatnonzero(flip)
            return float(x[i[len(i) // 2]])
        i = int(np.argmin(np.where(ok, np.abs(m), np.inf)))
        lo, hi = x[max(i - 1, 0)], x[min(i + 1, n - 1)]
        if not hi > lo:
            return None
    return None


def explore(pairs, valn, limit=10):
    """A valuation whose lanes show outcomes of decisions in the terms that valn does not show.

    Every comparison, selection, clip, rounding or search in the two sides is a
    decision.  Lanes are taken greedily from a wide sample of the admissible
    input ranges, together with exact hits of equality tests of an input.
    Returns (valuation or None, number of decisions, number shown with one outcome only).
    """
    roots = [const(t) for p in pairs for t in p]
    if all(a is b for a, b in zip(roots[::2], roots[1::2])):
        return None, 0, 0
    ts = [t for t in topo(roots, {}) if t.op in _DISCRETE or t.op in ("lt", "le", "gt", "ge", "max", "min", "eq", "ne", "abs")]
    if not ts:
        return None, 0, 0
    valn.run(roots)
    ex = valn.explorer
    if ex is None:
        ex = valn.explorer = Valuation(valn.seed, _LANES, valn.over, valn.tag)
        for n, x in list(ex.over.items()):
            if np.ndim(x):
                ex.over[n] = np.resize(np.asarray(x, float), _LANES)
        ex.sampler = _wide_sample(valn)
    ex.run(roots)
    new = {}
    one = 0
    exact = []
    fine = np.ones(_LANES, bool)
    for _, b in pairs:
        fine &= np.isfinite(ex.val[const(b).id])
    if steer.ON[0]:
        for t in ts:
            if t.op in ("lt", "le", "gt", "ge", "max", "min") and any(a.op == "const" and steer.small(a.attr) for a in t.args) and all(is_integral(a) for a in t.args):
                x, y = (float(np.max(np.concatenate([v.val[a.id][np.isfinite(v.val[a.id])] for v in (valn, ex)] + [[-1.0]]))) for a in t.args)
                steer.note(t.loc, t.op, x, y)
    for t in ts:
        o, x = _outcome(t, valn.val), _outcome(t, ex.val)
        have = set(o[~np.isnan(o)])
        many = len(have)
        for k in range(_LANES):
            if fine[k] and not np.isnan(x[k]) and x[k] not in have:
                new.setdefault((t.id, float(x[k])), set()).add(k)
                many += 1
        if many < 2:
            one += 1
        if t.op in ("eq", "ne", "lt", "le", "gt", "ge"):
            p, q = t.args
            if p.op == "const":
                p, q = q, p
            if p.op == "sym" and q.op == "const" and p.attr not in valn.over:
                lo, hi = wide(p.attr)
                if lo <= q.attr <= hi:
                    exact.append((p.attr, q.attr))
    hunted = _hunt(pairs, ts, valn, ex)
    lanes = []
    for mine in (lambda k: k < _WIDE_LANES, lambda k: k >= _WIDE_LANES):
        todo = {key for key in new if any(map(mine, new[key]))}
        n0 = len(lanes)
        while todo and len(lanes) - n0 < limit:
            cnt = {}
            for key in todo:
                for k in filter(mine, new[key]):
                    cnt[k] = cnt.get(k, 0) + 1
            k = max(sorted(cnt), key=lambda q: cnt[q])
            lanes.append((k, None))
            todo = {key for key in todo if k not in new[key]}
    for n, v in exact[:4]:
        lanes.append((0, (n, v)))
    lanes += hunted
    if not lanes:
        return None, len(ts), one
    sub = Valuation(valn.seed, len(lanes), {}, valn.tag)

    def pick(name):
        full = ex.symval(name)
        return np.array([h[1] if h is not None and h[0] == name else full[k] for k, h in lanes])

    sub.sampler = pick
    return sub, len(ts), one

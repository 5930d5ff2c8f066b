"""Transfer functions: arithmetic, indexing, JAX transformations, builtins."""
import itertools
import operator

import numpy as np

from . import terms as T
from .terms import Term, const, mk
from .values import *
from .values import fmt
from .pylib import NT
from . import steer
from .interp import (BUILTIN_EXC, PYOPS, NUM, isnum, _Iter, _tname, AnchorLost, _MISSING)

# ------------------------------------------------------------------ dtypes
ORDER = {"b": 0, "u8": 1, "i8": 1, "i16": 2, "u16": 2, "i32": 3, "u32": 3, "u64": 4, "i": 4, "f16": 5, "bf16": 5, "f32": 6, "f": 7}


def promote(*dts):
    best = dts[0]
    for d in dts[1:]:
        if ORDER[d] > ORDER[best]:
            best = d
    return best


def promote_arrs(*arrs):
    """dtype promotion where Python scalars are weak."""
    strong = [a.dt for a in arrs if not a.weak]
    weak = [a.dt for a in arrs if a.weak]
    if not strong:
        return promote(*weak)
    s = promote(*strong)
    for w in weak:
        if w[0] == "f" and s[0] != "f" and s[0] != "b":
            s = "f"
        elif w[0] == "f" and s == "b":
            s = "f"
        elif w[0] in "iu" and s == "b":
            s = "i"
    return s


def result(I, d, dt, ins, flavor=None, weak=False):
    """Arr with level and flavour inherited from the inputs."""
    lvl = 0
    kind = "py"
    for a in ins:
        if a.lvl > lvl:
            lvl = a.lvl
        if a.kind == "jnp":
            kind = "jnp"
        elif a.kind == "np" and kind == "py":
            kind = "np"
    if flavor is not None:
        kind = flavor
    if kind == "jnp" and I.jit_level > lvl:
        lvl = I.jit_level
    if kind == "py":
        weak = True
    elif ins and all(a.weak for a in ins):
        weak = True
    return Arr(d, dt, lvl, kind, weak)


def isfloat(dt):
    return dt[0] == "f" or dt == "bf16"


def note_int(I, r):
    """Remember integer arithmetic for the overflow analysis."""
    log = getattr(I, "int_ops", None)
    if log is not None and r.dt[0] in "iu":
        for t in r.flat():
            if t.op not in ("const", "sym"):
                log.append((t, I.cur, r.kind))


_fp = {}


def ew(op, n, *ds):
    """Elementwise term construction with broadcasting."""
    f = _fp.get((op, n))
    if f is None:
        f = _fp[(op, n)] = np.frompyfunc(lambda *a: mk(op, *a), n, 1)
    try:
        return oa(f(*ds))
    except ValueError as e:
        raise AbsRaise("TypeError", f"incompatible shapes: {e}")


def binop(I, op, a, b):
    A, B = I.arr(a), I.arr(b)
    if op == "matmul":
        return call(I, ("numpy" if A.kind == B.kind == "np" else "jax.numpy") + ".matmul", [A, B], {})
    dt = promote_arrs(A, B)
    if op in ("and", "or", "xor"):
        if dt != "b":
            if op in ("and", "or") and all(T.is_integral(t) for t in A.flat() + B.flat()):
                raise Incomplete("integer bit operation at " + fmt(I.cur))
            I.raise_("TypeError", "bit operation on floats")
        if op == "xor":
            op = "ne"
        return result(I, _ew(I, op, A, B), "b", (A, B))
    if op in ("lshift", "rshift"):
        raise Incomplete("shift at " + fmt(I.cur))
    if op == "div":
        dt = dt if isfloat(dt) else "f"
    if op in ("add", "sub", "mul") and dt == "b":
        if op == "sub":
            I.raise_("TypeError", "boolean subtract")
        r = result(I, _ew(I, "or" if op == "add" else "and", A, B), "b", (A, B))
        return r
    if op == "pow" and not isfloat(dt):
        dt = "i" if dt == "b" else dt
        for t in B.flat():
            if t.op == "const" and t.attr < 0:
                if A.kind == B.kind == "py":
                    dt = "f"
                else:
                    I.raise_("TypeError", "Integers cannot be raised to negative powers")
            elif t.op != "const" and A.kind != "py":
                raise Incomplete("integer power with abstract exponent at " + fmt(I.cur))
    r = result(I, _ew(I, op, A, B), dt, (A, B))
    if op in ("add", "sub", "mul", "pow"):
        note_int(I, r)
    return r


SIZE_OPS = {"lt", "le", "gt", "ge", "eq", "ne", "min", "max", "mod", "floordiv"}


def note_slice(I, n, k):
    for x in (k.start, k.stop, k.step):
        if isinstance(x, int) and x > 1:
            steer.note(I.cur, "slice", n, x)
        elif isinstance(x, int) and x < -1:
            steer.note(I.cur, "slice", n, -x)


def _ew(I, op, *arrs):
    if steer.ON[0] and op in SIZE_OPS:
        steer.note_terms(I.cur, op, arrs[0].d, arrs[1].d)
    try:
        return ew(op, len(arrs), *[a.d for a in arrs])
    except AbsRaise as e:
        I.raise_(e.cls, e.msg)


def compare(I, op, a, b):
    A, B = I.arr(a), I.arr(b)
    return result(I, _ew(I, op, A, B), "b", (A, B))


INT_KEEP = {"neg", "abs", "sign", "floor", "ceil", "round", "trunc", "stop"}
BOOL_OUT = {"not", "isnan", "isfinite"}


def unary(I, op, v, flavor=None):
    A = I.arr(v)
    if op in BOOL_OUT:
        dt = "b"
    elif op in INT_KEEP:
        dt = A.dt
    else:
        dt = A.dt if isfloat(A.dt) else "f"
    return result(I, _ew(I, op, A), dt, (A,), flavor)


def astype(I, A, dt, flavor=None):
    if isinstance(dt, NF):
        dt = {"float": "f", "int": "i", "bool": "b"}[dt.name]
    if isinstance(dt, DType):
        dt = dt.name
    if isinstance(dt, Ext):
        dt = dt.path.split(".")[-1]
    if dt in DTNAMES and dt not in ("b",):
        dt = DTNAMES[dt]
    if dt is None:
        return A
    if dt not in ORDER:
        raise Incomplete(f"dtype {dt}")
    d = A.d
    src = A.dt
    if isfloat(src) and not isfloat(dt) and dt != "b":
        bad = [t for t in A.flat() if not T.is_integral(t)]
        if bad:
            I.event("int-cast", terms=bad, to=dt)
        d = ew("trunc", 1, d)
    elif dt == "b" and src != "b":
        d = ew("ne", 2, d, oa(const(0)))
    elif dt in ("i8", "u8", "i16", "u16", "f16", "bf16", "f32") and ORDER[dt] < ORDER[src]:
        bad = [t for t in A.flat() if not _small_const(t)]
        if bad:
            if isfloat(dt):
                I.event("narrow", terms=bad, to=dt, src=src)
                d = ew("narrow", 1, d)
            elif not all(_smallint(t) for t in bad):
                I.event("narrow-int", terms=bad, to=dt, src=src)
    kind = flavor or ("np" if A.kind == "np" else "jnp")
    lvl = max(A.lvl, I.jit_level) if kind == "jnp" else A.lvl
    return Arr(d.copy(), dt, lvl, kind)


def _small_const(t):
    return t.op == "const" and float(t.attr).is_integer() and abs(t.attr) < 100


def _smallint(t):
    return t.op in ("sign", "lt", "le", "eq", "ne", "and", "or", "not", "const") or (
        t.op in ("neg", "select", "abs", "trunc") and all(_smallint(x) for x in t.args[-2:]))


# ------------------------------------------------------------------ arrays from Python data
def np_array(I, v, flavor, dtype=None, copy=True):
    if isinstance(v, Arr):
        if flavor == "np" and v.lvl > 0:
            I.sink("TracerArrayConversionError", "host numpy conversion")
        I.check_level(v)
        lvl = max(v.lvl, I.jit_level) if flavor == "jnp" else v.lvl
        r = Arr(v.d.copy() if (copy or flavor != v.kind) else v.d, v.dt, lvl, flavor, v.weak and flavor == "jnp" and False)
        return astype(I, r, dtype, flavor) if dtype is not None else r
    if isinstance(v, (bool, int, float)):
        r = I.arr(v)
        r = Arr(r.d, r.dt, I.jit_level if flavor == "jnp" else 0, flavor)
        return astype(I, r, dtype, flavor) if dtype is not None else r
    if isinstance(v, (list, tuple, range)):
        parts = [np_array(I, x, flavor) for x in v]
        if not parts:
            r = Arr(np.empty((0,), object), "f", I.jit_level if flavor == "jnp" else 0, flavor)
            return astype(I, r, dtype, flavor) if dtype is not None else r
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            I.raise_("ValueError", "inhomogeneous array")
        d = np.stack([p.d for p in parts], 0) if sh else _stack0([p.d for p in parts])
        r = result(I, d, promote(*[p.dt for p in parts]), parts, flavor)
        r.weak = False
        return astype(I, r, dtype, flavor) if dtype is not None else r
    if isinstance(v, Unknown):
        raise Incomplete(v.why)
    I.raise_("TypeError", f"cannot convert {_tname(v)} to an array")


def _stack0(ds):
    r = np.empty((len(ds),), object)
    for i, d in enumerate(ds):
        r[i] = d[()]
    return r


# ------------------------------------------------------------------ indexing
def static_index(I, k):
    """Index expression with all-concrete components (numpy form)."""
    ks = k if isinstance(k, tuple) else (k,)
    out = []
    for x in ks:
        if isinstance(x, Arr):
            if not x.isconst():
                raise Incomplete("symbolic index at " + fmt(I.cur))
            if x.dt == "b":
                out.append(np.array([bool(t.attr) for t in x.flat()]).reshape(x.shape))
            elif x.dt[0] in "iu":
                q = np.array([int(t.attr) for t in x.flat()], int).reshape(x.shape)
                out.append(int(q) if q.ndim == 0 else q)
            else:
                I.raise_("TypeError", "float array used as index")
        elif isinstance(x, float):
            I.raise_("TypeError", "float used as index")
        elif isinstance(x, list):
            out.append(np.array([I.index_of(y) for y in x], int))
        elif x is None or x is Ellipsis or isinstance(x, (int, slice)):
            out.append(x)
        elif isinstance(x, Unknown):
            raise Incomplete(x.why)
        else:
            I.raise_("TypeError", f"bad index {_tname(x)}")
    return tuple(out)


def _expand(I, ks, nd):
    n = sum(1 for x in ks if x is not None and x is not Ellipsis
            and not (isinstance(x, np.ndarray) and x.dtype == bool and x.ndim > 1))
    out = []
    for x in ks:
        if x is Ellipsis:
            out.extend([slice(None)] * (nd - n))
        else:
            out.append(x)
    if Ellipsis not in [x for x in ks if not isinstance(x, (Arr, np.ndarray))]:
        out.extend([slice(None)] * (nd - n))
    return out


def index(I, A, k):
    I.arr(A)
    ks = k if isinstance(k, tuple) else (k,)
    lvl = A.lvl
    symb = []
    for i, x in enumerate(ks):
        if isinstance(x, Arr):
            I.check_level(x)
            lvl = max(lvl, x.lvl)
            if A.kind == "np" and x.lvl > 0:
                I.sink("TracerArrayConversionError", "index of a host array")
            if x.dt == "b" and x.lvl > 0:
                I.sink("ConcretizationTypeError", "boolean mask index")
            if not x.isconst():
                if x.dt == "b":
                    raise Incomplete("symbolic boolean mask at " + fmt(I.cur))
                if x.dt[0] not in "iu":
                    I.raise_("TypeError", "float array used as index")
                symb.append(i)
    if A.kind == "jnp":
        lvl = max(lvl, I.jit_level)
    nd = A.ndim
    if sum(1 for x in ks if x is not None and x is not Ellipsis) > nd:
        I.raise_("IndexError", "too many indices")
    if not symb:
        kk = static_index(I, ks)
        kk = tuple(_expand(I, kk, nd))
        if A.kind == "jnp":  # JAX clamps out-of-bounds accesses
            ax = 0
            fixed = []
            for x in kk:
                if x is None:
                    fixed.append(x)
                    continue
                n = A.shape[ax]
                if isinstance(x, int) and not isinstance(x, bool):
                    if not -n <= x < n:
                        x = min(max(x, 0), n - 1)
                elif isinstance(x, np.ndarray) and x.dtype != bool:
                    x = np.where(x < 0, x + n, x)
                    x = np.clip(x, 0, n - 1)
                fixed.append(x)
                ax += 1
            kk = tuple(fixed)
        if steer.ON[0]:
            for x, n in zip([x for x in kk if x is not None], A.shape):
                if isinstance(x, slice):
                    note_slice(I, n, x)
        try:
            d = A.d[kk]
        except IndexError as e:
            I.raise_("IndexError", str(e))
        return Arr(d, A.dt, lvl, A.kind, A.weak)
    if len(symb) > 1:
        raise Incomplete("several symbolic indices at " + fmt(I.cur))
    p = symb[0]
    full = _expand(I, ks, nd)
    pos = [i for i, x in enumerate(full) if x is ks[p]][0]
    pre = [slice(None) if x is ks[p] else x for x in full]
    pre = list(static_index(I, tuple(pre)))
    if any(isinstance(x, np.ndarray) for x in pre):
        raise Incomplete("mixed advanced index at " + fmt(I.cur))
    d = oa(A.d[tuple(pre)])
    ax = sum(1 for x in pre[:pos] if not isinstance(x, int))
    idx = ks[p]
    d = np.moveaxis(d, ax, 0)
    n = d.shape[0]
    if n == 0:
        I.raise_("IndexError", "index into empty axis")
    rest = d.shape[1:]
    out = np.empty(idx.shape + rest, object)
    dd = d.reshape(n, -1)
    of = out.reshape(idx.d.size, -1) if out.size else out
    for a, it in enumerate(idx.flat()):
        for b in range(dd.shape[1]):
            of[a, b] = mk("gather", it, *dd[:, b])
    out = of.reshape(idx.shape + rest)
    # move index axes back in place
    ni = idx.d.ndim
    out = np.moveaxis(out, list(range(ni)), list(range(ax, ax + ni))) if ni else out
    return Arr(out, A.dt, lvl, A.kind, A.weak)


def at_op(I, at, opname, v, kw):
    A = at.arr
    V = I.arr(v)
    lvl = max(A.lvl, V.lvl, I.jit_level)
    k = at.idx
    ks = k if isinstance(k, tuple) else (k,)
    dt = A.dt
    vd = V.d
    if not isfloat(dt) and isfloat(V.dt):
        vd = astype(I, V, dt).d
    comb = {"set": lambda o, n: n, "add": lambda o, n: o + n, "multiply": lambda o, n: o * n, "mul": lambda o, n: o * n,
            "divide": lambda o, n: o / n, "min": lambda o, n: mk("min", o, n), "max": lambda o, n: mk("max", o, n),
            "subtract": lambda o, n: o - n, "power": lambda o, n: o ** n}.get(opname)
    if comb is None:
        raise Incomplete(f".at[].{opname}")
    d = A.d.copy()
    sy = [x for x in ks if isinstance(x, Arr) and not x.isconst()]
    if sy:
        if len(ks) != 1 or sy[0].ndim != 0:
            raise Incomplete("symbolic scatter")
        it = sy[0].term()
        for i in range(d.shape[0]):
            sub = np.broadcast_to(vd, d.shape[1:]) if d.ndim > 1 else vd
            c = mk("eq", it, const(i))
            if d.ndim == 1:
                d[i] = mk("select", c, comb(d[i], sub[()] if sub.ndim == 0 else sub.reshape(-1)[0]), d[i])
            else:
                d[i] = np.frompyfunc(lambda o, n: mk("select", c, comb(o, n), o), 2, 1)(d[i], sub)
        return Arr(d, dt, max(lvl, sy[0].lvl), "jnp")
    for x in ks:
        if isinstance(x, Arr):
            lvl = max(lvl, x.lvl)
    kk = static_index(I, ks)
    pos = np.arange(d.size).reshape(d.shape)[kk]
    vb = np.broadcast_to(vd, np.shape(pos)).reshape(-1)
    df = d.reshape(-1)
    for p, nv in zip(np.reshape(pos, -1), vb):
        df[p] = comb(df[p], nv)
    return Arr(df.reshape(d.shape), dt, lvl, "jnp")


# ------------------------------------------------------------------ pytrees
class Leaf:
    pass


LEAF = Leaf()


def is_node(v):
    return isinstance(v, (list, tuple, dict)) or v is None or (isinstance(v, AObj) and v.cls.pytree is not None)


def flatten(I, v):
    """(leaves, structure) of a pytree, running the analysed tree_flatten."""
    if v is None:
        return [], ("none",)
    if isinstance(v, (list, tuple)):
        ls, ss = [], []
        for x in v:
            l, s = flatten(I, x)
            ls += l
            ss.append(s)
        if isinstance(v, NT):
            return ls, ("nt", tuple(ss), v.cls)
        return ls, ("list" if isinstance(v, list) else "tuple", tuple(ss))
    if isinstance(v, dict):
        ks = sorted(v, key=repr)
        ls, ss = [], []
        for k in ks:
            l, s = flatten(I, v[k])
            ls += l
            ss.append(s)
        return ls, ("dict", tuple(ks), tuple(ss))
    if isinstance(v, AObj) and v.cls.pytree is not None:
        if v.cls.pytree == "class":
            r = I.call(I.getattr(v, "tree_flatten"), [])
        else:
            r = I.call(v.cls.pytree[0], [v])
        if not (isinstance(r, tuple) and len(r) == 2):
            I.raise_("TypeError", "tree_flatten must return a pair")
        ch, aux = r
        ls, ss = [], []
        for x in I.iterate(ch):
            l, s = flatten(I, x)
            ls += l
            ss.append(s)
        return ls, ("obj", v.cls, aux, tuple(ss))
    return [v], LEAF


def unflatten(I, struct, leaves):
    it = iter(leaves)

    def go(s):
        if s is LEAF:
            return next(it)
        k = s[0]
        if k == "none":
            return None
        if k == "list":
            return [go(x) for x in s[1]]
        if k == "tuple":
            return tuple(go(x) for x in s[1])
        if k == "nt":
            return NT([go(x) for x in s[1]], s[2])
        if k == "dict":
            return {kk: go(x) for kk, x in zip(s[1], s[2])}
        cls, aux, ss = s[1], s[2], s[3]
        ch = tuple(go(x) for x in ss)
        if cls.pytree == "class":
            return I.call(I.getattr(cls, "tree_unflatten"), [aux, ch])
        return I.call(cls.pytree[1], [aux, ch])

    return go(struct)


def valid_leaf(v):
    return isinstance(v, NUM) or isinstance(v, Arr)


def stage(I, v, lvl):
    a = I.arr(v)
    return Arr(a.d, a.dt, lvl, "jnp", a.weak)


class Frame:
    def __init__(self, level):
        self.level = level


def maxlvl(vals):
    m = 0
    for v in vals:
        if isinstance(v, Arr) and v.lvl > m:
            m = v.lvl
    return m


def check_aux(I, struct):
    """jit needs hashable/comparable static data."""
    if struct is LEAF or struct[0] == "none":
        return
    if struct[0] in ("list", "tuple", "nt"):
        for s in struct[1]:
            check_aux(I, s)
    elif struct[0] == "dict":
        for s in struct[2]:
            check_aux(I, s)
    else:
        for s in struct[3]:
            check_aux(I, s)


class Staged:
    """Context of a function body traced to a jaxpr."""

    def __init__(self, I, inputs):
        self.I, self.inputs = I, inputs

    def __enter__(self):
        I = self.I
        self.saved = (I.jit_level, I.ctx_level)
        self.lvl = I.ctx_level + 1
        self.outer = max(I.jit_level, maxlvl(self.inputs))
        I.jit_level = I.ctx_level = self.lvl
        I.frames.append([self.lvl, 0])
        return self

    def __exit__(self, *a):
        I = self.I
        I.jit_level, I.ctx_level = self.saved
        lvl, touched = I.frames.pop()
        self.outer = max(self.outer, touched)
        if I.frames and touched < I.frames[-1][0] and touched > I.frames[-1][1]:
            I.frames[-1][1] = touched

    def out(self, v):
        I = self.I
        ls, st = flatten(I, v)
        new = []
        for l in ls:
            if not valid_leaf(l):
                I.raise_("TypeError", f"traced function returned {_tname(l)}, not a JAX type")
            a = I.arr(l) if not isinstance(l, Arr) else l
            new.append(Arr(a.d, a.dt, self.outer, "jnp", a.weak))
        return unflatten(I, st, new)


def call_jit(I, f, args, kw):
    fn = f.fn
    nums = set(f.static_nums)
    names = set(f.static_names)
    if nums or names:
        g = fn
        while isinstance(g, (Jit, Partial, Vmap)):
            g = g.fn
        if isinstance(g, AFunc):
            an = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
            nums |= {i for i, n in enumerate(an) if n in names}
            names |= {an[i] for i in nums if i < len(an)}
            nums = {i if i >= 0 else i + len(args) for i in nums}
    dyn = [(i, a) for i, a in enumerate(args) if i not in nums]
    dynk = {k: v for k, v in kw.items() if k not in names}
    for i, a in enumerate(args):
        if i in nums:
            I.key(a)
    leaves, st = flatten(I, ([a for _, a in dyn], dynk))
    for l in leaves:
        if not valid_leaf(l):
            I.raise_("TypeError", f"jit argument leaf of type {_tname(l)} is not a valid JAX type")
        I.arr(l)
    with Staged(I, leaves) as S:
        new = [stage(I, l, S.lvl) for l in leaves]
        da, dk = unflatten(I, st, new)
        full = list(args)
        for (i, _), v in zip(dyn, da):
            full[i] = v
        fk = dict(kw)
        fk.update(dk)
        r = I.call(fn, full, fk)
    return S.out(r)


def _axes_tree(I, ax, arg):
    """Per-leaf axes for one vmapped argument."""
    leaves, st = flatten(I, arg)
    if ax is None or isinstance(ax, int):
        return leaves, st, [ax] * len(leaves)
    al = []

    def go(a, v):
        if a is None or isinstance(a, int):
            al.extend([a] * len(flatten(I, v)[0]))
        elif isinstance(a, (list, tuple)) and isinstance(v, (list, tuple)):
            for x, y in zip(a, v):
                go(x, y)
        elif isinstance(a, dict):
            for k in sorted(v, key=repr):
                go(a[k], v[k])
        else:
            raise Incomplete("vmap in_axes")

    go(ax, arg)
    return leaves, st, al


def call_vmap(I, f, args, kw):
    ia = f.in_axes
    if isinstance(ia, list):
        ia = tuple(ia)
    if not isinstance(ia, tuple):
        ia = (ia,) * len(args)
    if len(ia) != len(args):
        I.raise_("ValueError", "vmap in_axes must match the arguments")
    trees = [_axes_tree(I, x, a) for x, a in zip(ia, args)]
    kwt = {k: _axes_tree(I, 0, v) for k, v in kw.items()}
    n = None
    allleaves = []
    for leaves, st, al in list(trees) + list(kwt.values()):
        for l, x in zip(leaves, al):
            if x is None:
                if isinstance(l, Arr):
                    I.check_level(l)
                continue
            if not valid_leaf(l):
                I.raise_("TypeError", f"vmap over {_tname(l)}")
            a = I.arr(l)
            allleaves.append(a)
            if a.ndim == 0:
                I.raise_("ValueError", "vmap was requested to map its argument along axis 0, but its rank is 0")
            if not -a.ndim <= x < a.ndim:
                I.raise_("ValueError", "vmap axis out of range")
            if n is None:
                n = a.shape[x]
            elif n != a.shape[x]:
                I.raise_("ValueError", "vmap got inconsistent sizes for array axes to be mapped")
    if n is None:
        I.raise_("ValueError", "vmap must have at least one mapped argument")
    outer_ctx = I.ctx_level
    lvl = outer_ctx + 1
    I.ctx_level = lvl
    outs = []
    I.frames.append([lvl, 0])
    try:
        for k in range(n):
            def lane(tree):
                leaves, st, al = tree
                new = []
                for l, x in zip(leaves, al):
                    if x is None:
                        new.append(l)
                    else:
                        a = I.arr(l)
                        new.append(Arr(oa(np.take(a.d, k, axis=x)), a.dt, lvl, "jnp"))
                return unflatten(I, st, new)

            la = [lane(t) if any(x is not None for x in t[2]) else a for t, a in zip(trees, args)]
            lk = {kk: lane(t) for kk, t in kwt.items()}
            outs.append(flatten(I, I.call(f.fn, la, lk)))
    finally:
        I.ctx_level = outer_ctx
        _, touched = I.frames.pop()
        if I.frames and touched < I.frames[-1][0] and touched > I.frames[-1][1]:
            I.frames[-1][1] = touched
    return _stack_outs(I, outs, f.out_axes, max([I.jit_level, maxlvl(allleaves), touched]))


def _stack_outs(I, outs, oax, lvl):
    st0 = outs[0][1]
    res = []
    nleaf = len(outs[0][0])
    axes = [oax] * nleaf
    if isinstance(oax, (tuple, list)):
        if len(oax) == nleaf:
            axes = list(oax)
        else:
            raise Incomplete("vmap out_axes")
    for j in range(nleaf):
        parts = []
        for ls, st in outs:
            if not valid_leaf(ls[j]):
                I.raise_("TypeError", f"mapped function returned {_tname(ls[j])}")
            a = ls[j] if isinstance(ls[j], Arr) else I.arr(ls[j])
            parts.append(a)
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise Incomplete("lane shapes differ")
        if axes[j] is None:
            d = parts[0].d
        else:
            d = np.stack([p.d for p in parts], axes[j]) if sh else _stack0([p.d for p in parts])
        res.append(Arr(d, promote(*[p.dt for p in parts]), lvl, "jnp"))
    return unflatten(I, st0, res)


def lax_map(I, f, xs):
    leaves, st = flatten(I, xs)
    arrs = [I.arr(l) for l in leaves]
    if any(a.ndim == 0 for a in arrs):
        I.raise_("ValueError", "scan got value with no leading axis")
    n = arrs[0].shape[0]
    if any(a.shape[0] != n for a in arrs):
        I.raise_("ValueError", "scan got values with different leading axis sizes")
    if n == 0:
        raise Incomplete("empty map")
    outs = []
    with Staged(I, arrs) as S:
        for k in range(n):
            la = [Arr(oa(a.d[k]), a.dt, S.lvl, "jnp") for a in arrs]
            outs.append(flatten(I, I.call(f, [unflatten(I, st, la)])))
    return _stack_outs(I, outs, 0, S.outer)


def lax_scan(I, f, init, xs=None, length=None, reverse=False, unroll=1):
    leaves, st = flatten(I, xs)
    arrs = [I.arr(l) for l in leaves]
    n = arrs[0].shape[0] if arrs else I.index_of(length)
    if any(a.ndim == 0 or a.shape[0] != n for a in arrs):
        I.raise_("ValueError", "scan axis mismatch")
    cl, cst = flatten(I, init)
    carr = [I.arr(l) for l in cl]
    outs = []
    order = range(n - 1, -1, -1) if reverse else range(n)
    with Staged(I, arrs + carr) as S:
        carry = [Arr(a.d, a.dt, S.lvl, "jnp", a.weak) for a in carr]
        for k in order:
            x = unflatten(I, st, [Arr(oa(a.d[k]), a.dt, S.lvl, "jnp") for a in arrs]) if arrs else None
            r = I.call(f, [unflatten(I, cst, carry), x])
            if not (isinstance(r, tuple) and len(r) == 2):
                I.raise_("TypeError", "scan body must return a pair")
            ncl, ncst = flatten(I, r[0])
            nca = [I.arr(l) for l in ncl]
            if [a.shape for a in nca] != [a.shape for a in carry]:
                I.raise_("TypeError", "scan carry type changed")
            carry = [Arr(a.d, a.dt, S.lvl, "jnp") for a in nca]
            outs.append(flatten(I, r[1]))
    fin = unflatten(I, cst, [Arr(a.d, a.dt, S.outer, "jnp") for a in carry])
    if reverse:
        outs.reverse()
    ys = None
    if outs:
        ys = _stack_outs(I, outs, 0, S.outer)
    return (fin, ys)


def lax_switch(I, idx, branches, *ops, operand=_MISSING):
    if operand is not _MISSING:
        ops = ops + (operand,)
    A = I.arr(idx)
    if A.dt[0] not in "iu":
        I.raise_("TypeError", "switch index must be an integer")
    t = A.term()
    leaves, st = flatten(I, tuple(ops))
    arrs = [I.arr(l) for l in leaves]
    branches = list(I.iterate(branches))
    if len(branches) == 0:
        I.raise_("ValueError", "empty branch sequence")
    if t.op == "const" and A.lvl == 0:
        k = min(max(int(t.attr), 0), len(branches) - 1)
        branches = [branches[k]]
    outs = []
    with Staged(I, arrs + [A]) as S:
        for b in branches:
            la = unflatten(I, st, [Arr(a.d, a.dt, S.lvl, "jnp") for a in arrs])
            outs.append(flatten(I, I.call(b, list(la))))
    n = len(outs[0][0])
    res = []
    for j in range(n):
        parts = [I.arr(ls[j]) if not isinstance(ls[j], Arr) else ls[j] for ls, _ in outs]
        if any(p.shape != parts[0].shape for p in parts):
            I.raise_("TypeError", "switch branches must have equal types")
        if len(parts) == 1:
            d = parts[0].d
        else:
            d = oa(np.frompyfunc(lambda *a: mk("lgather", t, *a), len(parts), 1)(*[p.d for p in parts]))
        res.append(Arr(d, promote(*[p.dt for p in parts]), S.outer, "jnp"))
    return unflatten(I, outs[0][1], res)


def lax_cond(I, pred, tf, ff, *ops, operand=_MISSING):
    if operand is not _MISSING:
        ops = ops + (operand,)
    P = I.arr(pred)
    t = P.term()
    if P.dt != "b":
        t = mk("ne", t, const(0))
    leaves, st = flatten(I, tuple(ops))
    arrs = [I.arr(l) for l in leaves]
    outs = []
    with Staged(I, arrs + [P]) as S:
        for b in (tf, ff):
            la = unflatten(I, st, [Arr(a.d, a.dt, S.lvl, "jnp") for a in arrs])
            outs.append(flatten(I, I.call(b, list(la))))
    res = []
    for x, y in zip(outs[0][0], outs[1][0]):
        X, Y = (x if isinstance(x, Arr) else I.arr(x)), (y if isinstance(y, Arr) else I.arr(y))
        if X.shape != Y.shape:
            I.raise_("TypeError", "cond branches must have equal types")
        d = oa(np.frompyfunc(lambda a, b: mk("lazysel", t, a, b), 2, 1)(X.d, Y.d))
        res.append(Arr(d, promote(X.dt, Y.dt), S.outer, "jnp"))
    return unflatten(I, outs[0][1], res)


def fori_loop(I, lo, hi, body, init, unroll=None):
    lo, hi = I.arr(lo), I.arr(hi)
    if lo.term().op != "const" or hi.term().op != "const":
        raise Incomplete("fori_loop with abstract bounds")
    a, b = int(lo.term().attr), int(hi.term().attr)
    if b - a > 3000:
        raise Incomplete("fori_loop bound")
    cl, cst = flatten(I, init)
    carr = [I.arr(l) for l in cl]
    if (lo.lvl or hi.lvl) and any(isfloat(x.dt) for x in carr):
        I.event("no-reverse-mode", what="fori_loop with traced bounds")
    with Staged(I, carr + [lo, hi]) as S:
        carry = [Arr(x.d, x.dt, S.lvl, "jnp") for x in carr]
        for k in range(a, b):
            r = I.call(body, [Arr(const(k), "i", S.lvl, "jnp"), unflatten(I, cst, carry)])
            carry = [Arr(q.d, q.dt, S.lvl, "jnp") for q in (I.arr(l) for l in flatten(I, r)[0])]
    return unflatten(I, cst, [Arr(x.d, x.dt, S.outer, "jnp") for x in carry])


def while_loop(I, cond, body, init):
    cl, cst = flatten(I, init)
    carr = [I.arr(l) for l in cl]
    if any(isfloat(x.dt) for x in carr):
        I.event("no-reverse-mode", what="while_loop")
    with Staged(I, carr) as S:
        carry = [Arr(x.d, x.dt, S.lvl, "jnp") for x in carr]
        for n in range(5000):
            c = I.arr(I.call(cond, [unflatten(I, cst, carry)])).term()
            if c.op != "const":
                raise Incomplete("while_loop with abstract condition")
            if not c.attr:
                break
            r = I.call(body, [unflatten(I, cst, carry)])
            carry = [Arr(q.d, q.dt, S.lvl, "jnp") for q in (I.arr(l) for l in flatten(I, r)[0])]
        else:
            raise Incomplete("while_loop bound")
    return unflatten(I, cst, [Arr(x.d, x.dt, S.outer, "jnp") for x in carry])


from .npmodels import call, canon, ext_constant, native_attr, NPF  # noqa: E402
from .pybuiltins import make_builtins  # noqa: E402
from .summaries import install_summaries  # noqa: E402

"""Python builtins on abstract values."""
import builtins as _b

from . import terms as T
from .terms import Term, const, mk
from .values import *
from .values import fmt
from . import pylib, steer
from .interp import NUM, BUILTIN_EXC, JAX_EXC, _Iter, _tname, _MISSING, isnum


def _conc(I, v, what):
    """Argument of float()/int()/bool(): concrete number or symbolic py scalar."""
    if isinstance(v, AObj):
        for nm in ("__float__", "__int__", "__bool__"):
            if nm[2:-2] == what and v.cls.lookup(nm)[0] is not None:
                return I.call(I.getattr(v, nm), [])
        I.raise_("TypeError", f"{what}() argument")
    a = I.arr(v)
    I.check_level(a)
    if a.lvl > 0:
        I.sink("ConcretizationTypeError", f"{what}()")
    if a.d.size != 1:
        I.raise_("TypeError", "only length-1 arrays can be converted")
    return a


def p_float(I, a, k):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            I.raise_("ValueError", "could not convert string to float")
    if isinstance(v, NUM):
        return float(v)
    r = _conc(I, v, "float")
    if not isinstance(r, Arr):
        return r
    n = I.native(r)
    if n is not None:
        return float(n)
    return Arr(r.term(), "f", 0, "py", True)


def p_int(I, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            I.raise_("ValueError", "invalid literal for int()")
    if isinstance(v, NUM):
        return int(v)
    r = _conc(I, v, "int")
    if not isinstance(r, Arr):
        return r
    n = I.native(r)
    if n is not None:
        return int(n)
    t = r.term()
    if r.dt[0] == "f":
        I.event("int-cast", value=t)
        t = mk("trunc", t)
    return Arr(t, "i", 0, "py", True)


def p_bool(I, a, k):
    if not a:
        return False
    t = I.truth(a[0])
    if isinstance(t, Term):
        return Arr(t, "b", 0, "py")
    return t


def p_len(I, a, k):
    v = a[0]
    if isinstance(v, (list, tuple, dict, set, frozenset, str, range)):
        return len(v)
    if isinstance(v, AClass) and hasattr(v, "members"):
        return len(v.members)
    if isinstance(v, Arr):
        if v.ndim == 0:
            I.raise_("TypeError", "len() of unsized object")
        return v.shape[0]
    if isinstance(v, AObj) and v.cls.lookup("__len__")[0] is not None:
        return I.index_of(I.call(I.getattr(v, "__len__"), []))
    I.raise_("TypeError", f"object of type {_tname(v)} has no len()")


def p_sum(I, a, k):
    acc = a[1] if len(a) > 1 else k.get("start", 0)
    for x in I.lazy(a[0]):
        acc = I.binop("add", acc, x)
    return acc


def _mm(which):
    op = "gt" if which == "max" else "lt"

    def f(I, a, k):
        key = k.get("key")
        items = list(I.iterate(a[0])) if len(a) == 1 else list(a)
        if not items:
            if "default" in k:
                return k["default"]
            I.raise_("ValueError", f"{which}() arg is an empty sequence")
        best = items[0]
        kb = I.call(key, [best]) if key is not None else best
        for x in items[1:]:
            kx = I.call(key, [x]) if key is not None else x
            t = I.truth(I.cmp(op, kx, kb))
            if t is True:
                best, kb = x, kx
            elif isinstance(t, Term):
                if key is None and isnum(x) and isnum(best):
                    X, B = I.arr(x), I.arr(best)
                    d = mk("max" if which == "max" else "min", B.term(), X.term())
                    kind = "jnp" if "jnp" in (X.kind, B.kind) else "np" if "np" in (X.kind, B.kind) else "py"
                    best = kb = Arr(d, I.models.promote(X.dt, B.dt), 0, kind)
                else:
                    best, kb = I.merge(t, x, best), I.merge(t, kx, kb)
        return best

    return f


def p_abs(I, a, k):
    v = a[0]
    if isinstance(v, NUM):
        return abs(v)
    if isinstance(v, AObj):
        return I.call(I.getattr(v, "__abs__"), [])
    return I.models.unary(I, "abs", v)


def p_range(I, a, k):
    xs = [I.index_of(x, "range()") for x in a]
    r = range(*xs)
    if steer.ON[0] and abs(r.step) > 1:
        steer.note(I.cur, "step", abs(r.stop - r.start), abs(r.step))
    return r


def p_enumerate(I, a, k):
    st = a[1] if len(a) > 1 else k.get("start", 0)
    return _Iter(I, ((i + st, x) for i, x in enumerate(I.lazy(a[0]))))


def p_zip(I, a, k):
    if k.get("strict"):
        its = [I.iterate(x) for x in a]
        if len({len(x) for x in its}) > 1:
            I.raise_("ValueError", "zip() arguments have different lengths")
        return _Iter(I, zip(*its))
    return _Iter(I, zip(*[I.lazy(x) for x in a]))


_PYT = {"float": "f", "int": "iu", "bool": "b"}


def isinstance_(I, v, c):
    if isinstance(c, (tuple, list)):
        return any(isinstance_(I, v, x) for x in c)
    if isinstance(c, AClass):
        if isinstance(v, (AObj, pylib.NT, *pylib.MEMBERS)):
            return c in v.cls.mro or c is I.builtins["object"]
        if c.name == "object" and c is I.builtins["object"]:
            return True
        return False
    if isinstance(c, NF):
        n = c.name
        if n in _PYT:
            if isinstance(v, Arr):
                if v.kind == "py":
                    return v.dt[0] in _PYT[n]
                if v.kind == "np" and v.ndim == 0 and n == "float":
                    return v.dt == "f" and getattr(v, "lvl", 0) == 0 and False
                return False
            t = {"float": float, "int": int, "bool": bool}[n]
            return isinstance(v, t)
        t = {"str": str, "list": list, "tuple": tuple, "dict": dict, "set": set, "frozenset": frozenset, "range": range, "slice": slice}.get(n)
        if t is not None:
            return isinstance(v, t)
        if n == "type":
            return isinstance(v, AClass)
        if n == "object":
            return True
        raise Incomplete(f"isinstance with {n}")
    if isinstance(c, Ext):
        p = c.path
        tail = p.split(".")[-1]
        if tail in ("Tracer", "DynamicJaxprTracer", "JVPTracer", "BatchTracer", "JaxprTracer"):
            return isinstance(v, Arr) and v.lvl > 0
        if tail in ("ndarray", "Array", "ArrayImpl", "DeviceArray"):
            if not isinstance(v, Arr):
                return False
            if p.startswith("numpy"):
                return v.kind == "np"
            return v.kind == "jnp"
        if tail in ("Number", "Real", "Complex", "Rational", "Integral") and p.startswith("numbers"):
            if isinstance(v, Arr):
                if v.kind == "jnp":
                    return False
                return v.kind == "py" and (tail not in ("Integral", "Rational") or v.dt[0] in "iub")
            if tail in ("Integral", "Rational"):
                return isinstance(v, int)
            return isinstance(v, NUM)
        if tail in ("Iterable", "Sequence", "Mapping", "Callable", "Hashable", "Sized", "Collection", "MutableMapping"):
            if tail == "Callable":
                return callable_(I, v)
            if tail in ("Mapping", "MutableMapping"):
                return isinstance(v, dict)
            if tail == "Sequence":
                return isinstance(v, (list, tuple, str, range))
            if isinstance(v, Arr):
                return v.kind != "py"
            return isinstance(v, (list, tuple, dict, set, frozenset, str, range))
        if p.startswith("numpy") and tail in ("floating", "integer", "number", "generic", "float64", "int64", "bool_", "inexact"):
            return False
        raise Incomplete(f"isinstance with {p} at {fmt(I.cur)}")
    if isinstance(c, DType):
        return False
    if c is None:
        I.raise_("TypeError", "isinstance() arg 2 must be a type")
    raise Incomplete(f"isinstance with {c!r} at {fmt(I.cur)}")


def p_isinstance(I, a, k):
    return isinstance_(I, a[0], a[1])


def p_issubclass(I, a, k):
    c, p = a
    ps = p if isinstance(p, tuple) else (p,)
    ps = sum([tuple(q) if isinstance(q, tuple) else (q,) for q in ps], ())
    if isinstance(c, AClass):
        return any(x in c.mro or x is I.builtins["object"] for x in ps)
    ps = sum([q if isinstance(q, tuple) else (q,) for q in ps], ())
    if isinstance(c, NF) and c.name == "bool" and any(isinstance(x, NF) and x.name == "int" for x in ps):
        return True
    return any(c is x or x is I.builtins["object"] for x in ps)


def callable_(I, v):
    if isinstance(v, (AFunc, NF, Bound, AClass, Jit, Vmap, Partial, Summary, DType)):
        return True
    if isinstance(v, Ext):
        return True
    if isinstance(v, AObj):
        return v.cls.lookup("__call__")[0] is not None
    return False


def p_list(I, a, k):
    return list(I.iterate(a[0])) if a else []


def p_tuple(I, a, k):
    return tuple(I.iterate(a[0])) if a else ()


def p_dict(I, a, k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for it in I.iterate(a[0]):
                kk, v = I.iterate(it)
                d[I.key(kk)] = v
    d.update(k)
    return d


def p_set(I, a, k):
    return {I.key(x) for x in I.iterate(a[0])} if a else set()


def p_frozenset(I, a, k):
    return frozenset(p_set(I, a, k))


def p_sorted(I, a, k):
    items = list(I.iterate(a[0]))
    key = k.get("key")
    keys = [I.call(key, [x]) for x in items] if key is not None else items

    class K:
        __slots__ = ("v",)

        def __init__(s, v):
            s.v = v

        def __lt__(s, o):
            return I.truth_native(I.cmp("lt", s.v, o.v))

    order = sorted(range(len(items)), key=lambda i: K(keys[i]), reverse=bool(k.get("reverse", False)))
    return [items[i] for i in order]


def p_reversed(I, a, k):
    if isinstance(a[0], AObj) and a[0].cls.lookup("__reversed__")[0] is not None:
        return I.call(I.getattr(a[0], "__reversed__"), [])
    if isinstance(a[0], _Iter):
        I.raise_("TypeError", "object is not reversible")
    return _Iter(I, reversed(I.iterate(a[0])))


def p_anyall(isall):
    def f(I, a, k):
        conds = []
        for x in I.lazy(a[0]):
            t = I.truth(x)
            if isinstance(t, Term):
                conds.append(t)
            elif t != isall:
                return t
        if not conds:
            return isall
        c = conds[0]
        for x in conds[1:]:
            c = mk("and" if isall else "or", c, x)
        return Arr(c, "b", 0, "py")

    return f


def p_map(I, a, k):
    return _Iter(I, (I.call(a[0], list(x)) for x in zip(*[I.lazy(x) for x in a[1:]])), effects=True)


def p_filter(I, a, k):
    return _Iter(I, (x for x in I.lazy(a[1]) if I.truth_native(x if a[0] is None else I.call(a[0], [x]))), effects=True)


def p_str(I, a, k):
    return I.str_(a[0]) if a else ""


def p_repr(I, a, k):
    v = a[0]
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, AObj) and v.cls.lookup("__repr__")[0] is not None:
        return I.call(I.getattr(v, "__repr__"), [])
    return I.str_(v)


def p_getattr(I, a, k):
    if len(a) > 2:
        return I.getattr(a[0], a[1], a[2], True)
    return I.getattr(a[0], a[1])


def p_setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


def p_hasattr(I, a, k):
    try:
        I._getattr(a[0], a[1])
        return True
    except AbsRaise as e:
        if e.cls == "AttributeError":
            return False
        raise


def p_delattr(I, a, k):
    I.del_(a[0].attrs, a[1])


def p_type(I, a, k):
    v = a[0]
    if len(a) == 3:
        ns = dict(a[2])
        return I.make_class(a[0], list(a[1]), ns, {}, None, None)
    if isinstance(v, (AObj, pylib.NT, *pylib.MEMBERS)):
        return v.cls
    for t, n in ((bool, "bool"), (int, "int"), (float, "float"), (str, "str"), (list, "list"), (tuple, "tuple"), (dict, "dict"), (set, "set")):
        if type(v) is t:
            return I.builtins[n]
    if isinstance(v, Arr):
        if v.kind == "py":
            return I.builtins[{"f": "float", "b": "bool"}.get(v.dt[0], "int")]
        if v.kind == "np":
            return Ext("numpy.ndarray")
        return Ext("jax.core.Tracer" if v.lvl else "jax.Array")
    if v is None:
        return Ext("types.NoneType")
    if isinstance(v, AClass):
        return I.builtins["type"]
    if isinstance(v, (AFunc, Bound, NF)):
        return Ext("types.FunctionType")
    raise Incomplete(f"type() of {v!r}")


def p_callable(I, a, k):
    return callable_(I, a[0])


def p_super(I, a, k):
    if len(a) == 2:
        return SuperObj(a[0], a[1])
    raise Incomplete("super()")


def p_property(I, a, k):
    return Prop(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))


def p_round(I, a, k):
    v = a[0]
    if isinstance(v, NUM):
        if len(a) > 1 and a[1] is not None:
            return round(v, I.index_of(a[1]))
        return round(v)
    r = I.arr(v)
    if r.kind == "py":
        return Arr(mk("round", r.term()), "i" if len(a) < 2 else "f", 0, "py", True) if len(a) < 2 else Arr(T.opaque("round", r.term()), "f", 0, "py")
    return I.models.call(I, ("jax.numpy" if r.kind == "jnp" else "numpy") + ".round", list(a), k)


def p_pow(I, a, k):
    if len(a) == 3:
        return pow(*[I.index_of(x) for x in a])
    return I.binop("pow", a[0], a[1])


def p_divmod(I, a, k):
    return (I.binop("floordiv", *a), I.binop("mod", *a))


def p_id(I, a, k):
    v = a[0]
    return id(v.d) if isinstance(v, Arr) else id(v)


def p_hash(I, a, k):
    v = a[0]
    kk = I.key(v)
    return hash(kk) if not isinstance(kk, (AObj,)) else id(kk)


def p_iter(I, a, k):
    if isinstance(a[0], _Iter):
        return a[0]
    if len(a) == 2:
        def until():
            while True:
                v = I.call(a[0], [])
                if I.truth_native(I.cmp("eq", v, a[1])):
                    return
                yield v
        return _Iter(I, until(), effects=True)
    if isinstance(a[0], AObj) and a[0].cls.lookup("__iter__")[0] is not None:
        r = I.call(I.getattr(a[0], "__iter__"), [])
        return r if isinstance(r, AObj) else p_iter(I, [r], {})
    return _Iter(I, I.lazy(a[0]))


def p_next(I, a, k):
    it = a[0]
    if isinstance(it, AObj):
        try:
            return I.call(I.getattr(it, "__next__"), [])
        except AbsRaise as e:
            if e.cls == "StopIteration" and len(a) > 1:
                return a[1]
            raise
    if not isinstance(it, _Iter):
        I.raise_("TypeError", "not an iterator")
    v, ok = it.next(I)
    if not ok:
        if len(a) > 1:
            return a[1]
        I.raise_("StopIteration", "")
    return v


def p_slice(I, a, k):
    return slice(*[I.index_of(x) for x in a])


def p_vars(I, a, k):
    v = a[0]
    return v.attrs if isinstance(v, AObj) else v.ns


def _host(name):
    fn = getattr(_b, name)

    def f(I, a, k):
        vals = [I.native(x) if isinstance(x, Arr) else x for x in a]
        if any(v is None or not isinstance(v, (str, int, float, bytes)) for v in vals):
            raise Incomplete(f"{name}() of an abstract value at " + fmt(I.cur))
        try:
            return fn(*vals)
        except (TypeError, ValueError) as e:
            I.raise_(type(e).__name__, str(e))
    return f


def p_dir(I, a, k):
    v = a[0]
    if isinstance(v, AModule):
        return sorted(v.ns)
    if isinstance(v, AObj):
        return sorted(set(v.attrs) | {n for c in v.cls.mro for n in c.ns})
    if isinstance(v, AClass):
        return sorted({n for c in v.mro for n in c.ns})
    raise Incomplete("dir() at " + fmt(I.cur))


def p_format(I, a, k):
    from .npmodels import format_
    return format_(I, "{:" + (a[1] if len(a) > 1 else "") + "}", [a[0]], {})


def p_print(I, a, k):
    for x in a:
        I.str_(x)


def p_staticm(I, a, k):
    return StatM(a[0])


def p_classm(I, a, k):
    return ClsM(a[0])


def p_open(I, a, k):
    I.event("io", what="open")
    raise Incomplete("file access at " + fmt(I.cur))


def p_fromkeys(I, a, k):
    return {I.key(x): (a[1] if len(a) > 1 else None) for x in I.iterate(a[0])}


def make_builtins(I):
    d = {}

    def nf(name, f):
        d[name] = NF(name, f)

    for n, f in dict(
        len=p_len, range=p_range, enumerate=p_enumerate, zip=p_zip, sum=p_sum, max=_mm("max"), min=_mm("min"),
        abs=p_abs, isinstance=p_isinstance, issubclass=p_issubclass, list=p_list, tuple=p_tuple, dict=p_dict,
        set=p_set, frozenset=p_frozenset, sorted=p_sorted, reversed=p_reversed, any=p_anyall(False),
        all=p_anyall(True), map=p_map, filter=p_filter, int=p_int, float=p_float, bool=p_bool, str=p_str,
        repr=p_repr, format=p_format, print=p_print, getattr=p_getattr, setattr=p_setattr, hasattr=p_hasattr,
        delattr=p_delattr, type=p_type, callable=p_callable, super=p_super, property=p_property,
        classmethod=p_classm, staticmethod=p_staticm, round=p_round, pow=p_pow, id=p_id, next=p_next,
        iter=p_iter, slice=p_slice, divmod=p_divmod, hash=p_hash, vars=p_vars, open=p_open,
        locals=p_vars, globals=p_vars, chr=_host("chr"), ord=_host("ord"), bin=_host("bin"), hex=_host("hex"), oct=_host("oct"),
        ascii=_host("ascii"), dir=p_dir,
    ).items():
        nf(n, f)
    d["object"] = AClass("object", [], {})
    for n, e in BUILTIN_EXC.items():
        d[n] = None

    def exc(e):
        n = e.__name__
        if isinstance(d.get(n), AClass):
            return d[n]
        bases = [exc(b) for b in e.__bases__ if issubclass(b, BaseException)]
        c = AClass(n, bases, {})
        c.exc = True
        d[n] = c
        return c

    seen = {}
    for n, e in list(BUILTIN_EXC.items()):
        if e not in seen:
            seen[e] = exc(e)
        d[n] = seen[e]
    d["NotImplemented"] = Ext("builtins.NotImplemented")
    d["Ellipsis"] = Ellipsis
    d["__debug__"] = True
    d["__name__"] = "jax_cosmo"
    return d

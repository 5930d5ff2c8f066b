"""Named tuples, enumerations, dataclasses and context managers on abstract values."""
import ast

from . import terms as T
from .terms import const
from .values import *
from .values import fmt


class NT(tuple):
    """Named tuple instance: a tuple that knows its class."""

    def __new__(cls, items, acls):
        o = tuple.__new__(cls, items)
        o.cls = acls
        return o


class EInt(int):
    """Member of an integer enumeration."""


class EStr(str):
    """Member of a string enumeration."""


class EFloat(float):
    pass


class DDict(dict):
    """collections.defaultdict"""
    factory = None


MEMBERS = (EInt, EStr, EFloat)
ENUMS = {"Enum", "IntEnum", "StrEnum", "Flag", "IntFlag"}


class _Auto:
    pass


# ------------------------------------------------------------------ named tuples
def make_namedtuple(I, name, fields, defaults, extra=(), bases=(), node=None, module=None):
    ns = dict(extra)
    c = AClass(name, list(bases), ns, module, node)
    c.nt = tuple(fields)
    ns["_fields"] = tuple(fields)
    ns["_field_defaults"] = dict(defaults)

    def make(I2, a, k):
        cls, a = a[0], list(a[1:])
        if len(a) > len(fields):
            I2.raise_("TypeError", f"{name}() takes {len(fields)} arguments")
        vals = dict(zip(fields, a))
        for n, v in k.items():
            if n not in fields or n in vals:
                I2.raise_("TypeError", f"{name}() got an unexpected or repeated argument {n}")
            vals[n] = v
        for n in fields:
            if n not in vals:
                if n not in defaults:
                    I2.raise_("TypeError", f"{name}() missing argument {n}")
                vals[n] = defaults[n]
        return NT([vals[n] for n in fields], cls)

    ns["__new__"] = StatM(NF("namedtuple.__new__", make))
    ns["_make"] = ClsM(NF("_make", lambda I2, a, k: NT(I2.iterate(a[1]), a[0])))
    return c


def nt_attr(I, o, name):
    c = o.cls
    fields = c.lookup("_fields")[0]
    if name in fields:
        return tuple.__getitem__(o, fields.index(name))
    if name == "_replace":
        def rep(I2, a, k):
            for n in k:
                if n not in fields:
                    I2.raise_("ValueError", f"unexpected field {n}")
            return NT([k.get(n, v) for n, v in zip(fields, o)], c)
        return NF("_replace", rep)
    if name == "_asdict":
        return NF("_asdict", lambda I2, a, k: dict(zip(fields, o)))
    if name == "__class__":
        return c
    cv, _ = c.lookup(name)
    if cv is None:
        return None
    if isinstance(cv, Prop):
        return I.call(cv.fget, [o])
    return I.bind(cv, o, c)


def f_namedtuple(I, args, kw):
    name, fields = args[0], args[1]
    if isinstance(fields, str):
        fields = fields.replace(",", " ").split()
    else:
        fields = [x for x in I.iterate(fields)]
    d = kw.get("defaults") or ()
    d = list(I.iterate(d))
    return make_namedtuple(I, name, fields, dict(zip(fields[len(fields) - len(d):], d)))


def typing_namedtuple(I, args, kw):
    return make_namedtuple(I, args[0], [I.iterate(x)[0] for x in I.iterate(args[1])] if len(args) > 1 else list(kw), {})


# ------------------------------------------------------------------ enumerations
def enum_base(name):
    """Stand-in class for enum.Enum and friends."""
    c = AClass(name, [], {})
    c.enum = name
    return c


def is_enum(c):
    return any(getattr(b, "enum", None) for b in c.mro)


def finish_enum(I, c, mixin):
    """Replace the plain class attributes by members."""
    kind = next(b.enum for b in c.mro if getattr(b, "enum", None))
    if kind in ("IntEnum", "IntFlag"):
        mixin = "int"
    if kind == "StrEnum":
        mixin = "str"
    members = {}
    last = 0
    for n, v in list(c.ns.items()):
        if n.startswith("_") or isinstance(v, (AFunc, Prop, ClsM, StatM, AClass)):
            continue
        if isinstance(v, _Auto):
            v = (1 << len(members)) if "Flag" in kind else n.lower() if kind == "StrEnum" else last + 1
        if isinstance(v, int):
            last = int(v)
        same = [m for m in members.values() if member_value(m) == v and type(member_value(m)) is type(v)] if isinstance(v, (int, str, float, tuple)) else []
        if same:
            c.ns[n] = same[0]
            continue
        if mixin == "int" and isinstance(v, int):
            m = EInt(v)
        elif mixin == "str" and isinstance(v, str):
            m = EStr(v)
        elif mixin == "float" and isinstance(v, float):
            m = EFloat(v)
        elif mixin:
            raise Incomplete(f"enumeration over {mixin}")
        else:
            m = AObj(c)
        if isinstance(m, AObj):
            m.attrs.update(name=n, value=v, _name_=n, _value_=v)
            init, _ = c.lookup("__init__")
            if init is not None:
                I.call(Bound(init, m), list(v) if isinstance(v, tuple) else [v])
        else:
            m.cls, m.name, m.value = c, n, v
        members[n] = m
        c.ns[n] = m
    c.members = members
    c.ns["__members__"] = dict(members)


def member_value(m):
    return m.attrs["value"] if isinstance(m, AObj) else m.value


def enum_attr(I, o, name):
    if name in ("name", "_name_"):
        return o.name
    if name in ("value", "_value_"):
        return o.value
    if name == "__class__":
        return o.cls
    cv, _ = o.cls.lookup(name)
    if cv is None:
        return None
    if isinstance(cv, Prop):
        return I.call(cv.fget, [o])
    return I.bind(cv, o, o.cls)


def enum_call(I, c, args):
    v = args[0]
    for m in c.members.values():
        if m is v:
            return m
    for m in c.members.values():
        if I.truth_native(I.cmp("eq", member_value(m), v)):
            return m
    I.raise_("ValueError", f"not a valid {c.name}")


# ------------------------------------------------------------------ dataclasses
_MISSING = object()


class Field:
    def __init__(self, default=_MISSING, factory=_MISSING, init=True, repr=True, compare=True, kw_only=False, metadata=None):
        self.default, self.factory, self.init, self.compare, self.kw_only, self.metadata = default, factory, init, compare, kw_only, metadata or {}
        self.name = None


def f_field(I, args, kw):
    return Field(kw.get("default", _MISSING), kw.get("default_factory", _MISSING), kw.get("init", True), kw.get("repr", True),
                 kw.get("compare", True), kw.get("kw_only", False), kw.get("metadata"))


def f_dataclass(I, args, kw):
    if args:
        return make_dataclass(I, args[0], kw)
    return NF("dataclass", lambda I2, a, k: make_dataclass(I2, a[0], kw))


def make_dataclass(I, c, opts):
    if not isinstance(c, AClass):
        raise Incomplete("dataclass of a non-class")
    fields = {}
    for b in reversed(c.mro[1:]):
        fields.update(getattr(b, "dcfields", {}))
    kwonly = bool(opts.get("kw_only", False))
    for n, ann in c.ns.get("__annotations__", {}).items():
        if "ClassVar" in str(ann):
            continue
        if "InitVar" in str(ann):
            raise Incomplete("dataclass InitVar")
        if "KW_ONLY" in str(ann):
            kwonly = True
            continue
        d = c.ns.get(n, _MISSING)
        f = d if isinstance(d, Field) else Field(d)
        if isinstance(d, Field):
            if d.default is _MISSING:
                c.ns.pop(n, None)
            else:
                c.ns[n] = d.default
        elif isinstance(d, (list, dict, set)):
            I.raise_("ValueError", "mutable default in a dataclass")
        f.name = n
        f.kw_only = f.kw_only or kwonly
        fields[n] = f
    c.dcfields = fields
    frozen = bool(opts.get("frozen", False))

    def init(I2, a, k):
        o, a = a[0], list(a[1:])
        pos = [f for f in fields.values() if f.init and not f.kw_only]
        if len(a) > len(pos):
            I2.raise_("TypeError", f"{c.name}() takes {len(pos)} arguments but {len(a)} were given")
        vals = {f.name: v for f, v in zip(pos, a)}
        for n, v in k.items():
            if n in vals or n not in fields or not fields[n].init:
                I2.raise_("TypeError", f"{c.name}() got an unexpected or repeated argument {n}")
            vals[n] = v
        for n, f in fields.items():
            if n not in vals:
                if f.default is not _MISSING:
                    vals[n] = f.default
                elif f.factory is not _MISSING:
                    vals[n] = I2.call(f.factory, [])
                elif f.init:
                    I2.raise_("TypeError", f"{c.name}() missing argument {n}")
                else:
                    continue
            if frozen:
                I2.put(o.attrs, n, vals[n])
            else:
                I2.setattr(o, n, vals[n])
        if o.cls.lookup("__post_init__")[0] is not None:
            I2.call(I2.getattr(o, "__post_init__"), [])

    def tup(o):
        return tuple(o.attrs[n] for n, f in fields.items() if f.compare)

    def eq(I2, a, k):
        x, y = a
        if not (isinstance(y, AObj) and y.cls is x.cls):
            return False
        return I2.cmp("eq", tup(x), tup(y))

    def nf(name, f):
        return NF("method:" + name, f)

    if opts.get("init", True) and "__init__" not in c.ns:
        c.ns["__init__"] = nf("dataclass.__init__", init)
    if opts.get("eq", True) and "__eq__" not in c.ns:
        c.ns["__eq__"] = nf("dataclass.__eq__", eq)
        if frozen or opts.get("unsafe_hash"):
            c.ns["__hash__"] = nf("dataclass.__hash__", lambda I2, a, k: hash(I2.key(tup(a[0]))))
    if opts.get("order"):
        for op in ("lt", "le", "gt", "ge"):
            c.ns[f"__{op}__"] = nf("dataclass.order", (lambda op: lambda I2, a, k: I2.cmp(op, tup(a[0]), tup(a[1])))(op))
    if frozen:
        def deny(I2, a, k):
            e = I2.construct(I2.prelude("dataclasses_FrozenInstanceError"), [f"cannot assign to field {a[1]}"], {})
            raise AbsRaise("FrozenInstanceError", f"cannot assign to field {a[1]}", I2.cur, e)
        c.ns["__setattr__"] = nf("dataclass.__setattr__", deny)
    c.ns["__match_args__"] = tuple(n for n, f in fields.items() if f.init and not f.kw_only)
    c.ns["__dataclass_fields__"] = {n: _field_obj(f) for n, f in fields.items()}
    return c


def _field_obj(f):
    o = AObj(AClass("Field", [], {}))
    o.attrs.update(name=f.name, metadata=f.metadata, init=f.init)
    if f.default is not _MISSING:
        o.attrs["default"] = f.default
    return o


def _dc(I, o):
    c = o.cls if isinstance(o, AObj) else o
    for b in getattr(c, "mro", []):
        if hasattr(b, "dcfields"):
            return b.dcfields
    I.raise_("TypeError", "must be called with a dataclass type or instance")


def f_replace(I, args, kw):
    o = args[0]
    if isinstance(o, NT):
        return I.call(nt_attr(I, o, "_replace"), [], kw)
    d = {n: o.attrs[n] for n, f in _dc(I, o).items() if f.init}
    d.update(kw)
    return I.construct(o.cls, [], d)


def f_fields(I, args, kw):
    return tuple(_field_obj(f) for f in _dc(I, args[0]).values())


def f_asdict(I, args, kw):
    def go(v):
        if isinstance(v, AObj) and any(hasattr(b, "dcfields") for b in v.cls.mro):
            return {n: go(v.attrs[n]) for n in _dc(I, v)}
        if isinstance(v, (list, tuple)) and not isinstance(v, NT):
            return type(v)(go(x) for x in v)
        if isinstance(v, dict):
            return {k: go(x) for k, x in v.items()}
        return v
    return go(args[0])


def f_astuple(I, args, kw):
    return tuple(args[0].attrs[n] for n in _dc(I, args[0]))


def f_is_dataclass(I, args, kw):
    c = args[0].cls if isinstance(args[0], AObj) else args[0]
    return any(hasattr(b, "dcfields") for b in getattr(c, "mro", []))


def f_register_dataclass(I, args, kw):
    c = args[0] if args else kw["nodetype"]
    data = args[1] if len(args) > 1 else kw.get("data_fields")
    meta = args[2] if len(args) > 2 else kw.get("meta_fields")
    if data is None:
        raise Incomplete("register_dataclass without field names")
    data, meta = list(I.iterate(data)), list(I.iterate(meta or []))

    def flat(I2, a, k):
        return (tuple(I2.getattr(a[0], n) for n in data), tuple(I2.getattr(a[0], n) for n in meta))

    def unflat(I2, a, k):
        aux, ch = a
        o = AObj(c)
        for n, v in list(zip(data, ch)) + list(zip(meta, aux)):
            I2.put(o.attrs, n, v)
        return o
    c.pytree = (NF("flatten", flat), NF("unflatten", unflat))
    return c


# ------------------------------------------------------------------ context managers
class GenCtx:
    """Result of a function decorated with contextlib.contextmanager."""

    def __init__(self, it):
        self.it = it

    def enter(self, I):
        v, ok = self.it.next(I)
        if not ok:
            I.raise_("RuntimeError", "generator didn't yield")
        return v

    def exit(self, I, exc):
        g = self.it.it
        if exc is None:
            _, ok = self.it.next(I)
            if ok:
                I.raise_("RuntimeError", "generator didn't stop")
            return False
        try:
            g.throw(exc)
        except StopIteration:
            return True
        except AbsRaise as e:
            if e is exc:
                return False
            raise
        I.raise_("RuntimeError", "generator didn't stop after throw()")


def f_contextmanager(I, args, kw):
    fn = args[0]
    return NF("method:contextmanager", lambda I2, a, k: GenCtx(I2.call(fn, a, k)))


# ------------------------------------------------------------------ defaultdict, Counter
def f_defaultdict(I, args, kw):
    d = DDict()
    d.factory = args[0] if args else None
    if len(args) > 1:
        d.update(I.call(I.builtins["dict"], [args[1]]))
    d.update(kw)
    return d


def f_counter(I, args, kw):
    d = DDict()
    d.factory = NF("zero", lambda I2, a, k: 0)
    d.peek = True
    if args:
        if isinstance(args[0], dict):
            d.update(args[0])
        else:
            for x in I.iterate(args[0]):
                x = I.key(x)
                d[x] = d.get(x, 0) + 1
    d.update(kw)
    return d


# ------------------------------------------------------------------ match statement
def simple_pattern(p):
    if isinstance(p, (ast.MatchValue, ast.MatchSingleton)):
        return True
    if isinstance(p, ast.MatchAs):
        return p.pattern is None and p.name is None
    if isinstance(p, ast.MatchOr):
        return all(simple_pattern(q) for q in p.patterns)
    return False


def lower_match(s, name):
    """if-chain of a match statement over plain values."""
    def test(p):
        v = ast.Name(name, ast.Load())
        if isinstance(p, ast.MatchValue):
            return ast.Compare(v, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(v, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchAs):
            return ast.Constant(True)
        return ast.BoolOp(ast.Or(), [test(q) for q in p.patterns])

    out = []
    for c in reversed(s.cases):
        t = test(c.pattern)
        if c.guard is not None:
            t = ast.BoolOp(ast.And(), [t, c.guard])
        n = ast.If(t, c.body, out)
        ast.copy_location(n, s)
        ast.fix_missing_locations(n)
        out = [n]
    return out


def match_pattern(I, p, v, env, out):
    """Does v match? Captures go to out."""
    if isinstance(p, ast.MatchValue):
        return I.truth_native(I.cmp("eq", v, I.eval(p.value, env)))
    if isinstance(p, ast.MatchSingleton):
        return v is p.value
    if isinstance(p, ast.MatchAs):
        if p.pattern is not None and not match_pattern(I, p.pattern, v, env, out):
            return False
        if p.name:
            out[p.name] = v
        return True
    if isinstance(p, ast.MatchOr):
        return any(match_pattern(I, q, v, env, out) for q in p.patterns)
    if isinstance(p, ast.MatchSequence):
        if not isinstance(v, (list, tuple, range)):
            return False
        v = list(v)
        star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
        n = len(p.patterns)
        if not star:
            return len(v) == n and all(match_pattern(I, q, x, env, out) for q, x in zip(p.patterns, v))
        i = star[0]
        if len(v) < n - 1:
            return False
        after = n - 1 - i
        if not all(match_pattern(I, q, x, env, out) for q, x in zip(p.patterns[:i], v[:i])):
            return False
        if p.patterns[i].name:
            out[p.patterns[i].name] = v[i:len(v) - after]
        return all(match_pattern(I, q, x, env, out) for q, x in zip(p.patterns[i + 1:], v[len(v) - after:]))
    if isinstance(p, ast.MatchMapping):
        if not isinstance(v, dict):
            return False
        seen = set()
        for k, q in zip(p.keys, p.patterns):
            kk = I.key(I.eval(k, env))
            if kk not in v or not match_pattern(I, q, v[kk], env, out):
                return False
            seen.add(kk)
        if p.rest:
            out[p.rest] = {k: x for k, x in v.items() if k not in seen}
        return True
    if isinstance(p, ast.MatchClass):
        from .pybuiltins import isinstance_
        c = I.eval(p.cls, env)
        if not isinstance_(I, v, c):
            return False
        if p.patterns:
            if isinstance(c, NF):
                if len(p.patterns) != 1:
                    I.raise_("TypeError", "sub-patterns")
                if not match_pattern(I, p.patterns[0], v, env, out):
                    return False
            else:
                names = c.lookup("__match_args__")[0] or getattr(c, "nt", None)
                if names is None or len(p.patterns) > len(names):
                    I.raise_("TypeError", "too many positional sub-patterns")
                for n, q in zip(names, p.patterns):
                    if not match_pattern(I, q, I.getattr(v, n), env, out):
                        return False
        for n, q in zip(p.kwd_attrs, p.kwd_patterns):
            x = I.getattr(v, n, T, True)
            if x is T or not match_pattern(I, q, x, env, out):
                return False
        return True
    raise Incomplete(f"pattern {type(p).__name__}")


FULL = {
    "collections.namedtuple": f_namedtuple, "dataclasses.dataclass": f_dataclass, "dataclasses.field": f_field,
    "dataclasses.replace": f_replace, "copy.replace": f_replace, "dataclasses.fields": f_fields, "dataclasses.asdict": f_asdict,
    "dataclasses.astuple": f_astuple, "dataclasses.is_dataclass": f_is_dataclass, "contextlib.contextmanager": f_contextmanager,
    "collections.defaultdict": f_defaultdict, "collections.Counter": f_counter, "jax.tree_util.register_dataclass": f_register_dataclass,
    "enum.auto": lambda I, a, k: _Auto(), "enum.unique": lambda I, a, k: a[0], "typing.NamedTuple": typing_namedtuple,
    "typing.final": lambda I, a, k: a[0], "typing.overload": lambda I, a, k: a[0], "typing.runtime_checkable": lambda I, a, k: a[0],
    "typing.TypeVar": lambda I, a, k: None, "typing.NewType": lambda I, a, k: NF("NewType", lambda I2, b, kk: b[0]),
    "abc.abstractproperty": lambda I, a, k: Prop(a[0]),
}

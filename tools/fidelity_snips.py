"""Snippets run both by Python/JAX and by the analyser: f(x, m) with x a vector of 4, m a 3x3 matrix."""
import collections
import contextlib
import dataclasses
import enum
import functools
import itertools
import math
import operator
import typing
from abc import ABC, abstractmethod
from collections import defaultdict, namedtuple
from dataclasses import dataclass, field
from functools import partial, reduce, singledispatch
from typing import NamedTuple

import jax
import jax.numpy as np
import numpy as onp
from jax import lax, vmap, jit


class Sign(enum.IntEnum):
    NEG = -1
    ZERO = 0
    POS = 1


class Kind(enum.Enum):
    A = "a"
    B = "b"


class Word(str, enum.Enum):
    ONE = "one"
    TWO = "two"


class Pt(NamedTuple):
    a: float
    b: float = 2.0

    def total(self):
        return self.a + self.b


P2 = namedtuple("P2", ["u", "v"])
P3 = namedtuple("P3", "u v w", defaults=[7.0])


@dataclass
class DC:
    a: float
    b: float = 3.0
    c: list = field(default_factory=list)

    def tot(self):
        return self.a * self.b


@dataclass(frozen=True)
class DF:
    n: int = 4
    label: str = "q"

    def __post_init__(self):
        assert self.n > 0


class Base(ABC):
    registry = {}

    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        Base.registry[cls.__name__] = cls

    @abstractmethod
    def f(self, x):
        ...

    def __call__(self, x):
        return self.f(x)


class Dbl(Base):
    def f(self, x):
        return 2 * x


class Tpl(Base):
    def f(self, x):
        return 3 * x


class Mixin:
    scale = 2.0

    @classmethod
    def make(cls, *a, **k):
        return cls(*a, **k)

    @staticmethod
    def half(x):
        return x / 2

    @property
    def val(self):
        return self._v * self.scale

    @val.setter
    def val(self, v):
        self._v = v

    def __getitem__(self, i):
        return self._v + i

    def __len__(self):
        return 5

    def __iter__(self):
        yield from (1.0, 2.0, 3.0)

    def __contains__(self, q):
        return q == 7

    def __add__(self, o):
        return self._v + o

    def __radd__(self, o):
        return self._v - o

    def __eq__(self, o):
        return self._v is o

    def __bool__(self):
        return False

    def __enter__(self):
        self.val = 10.0
        return self

    def __exit__(self, *a):
        return False


class Lazy:
    def __init__(self, x):
        self.x = x
        self.n = 0

    @functools.cached_property
    def big(self):
        self.n += 1
        return self.x * 100


class Slots:
    __slots__ = ("p", "q")

    def __init__(self, p, q):
        self.p, self.q = p, q


class Desc:
    def __set_name__(self, owner, name):
        self.name = "_" + name

    def __get__(self, obj, owner=None):
        return getattr(obj, self.name)

    def __set__(self, obj, v):
        setattr(obj, self.name, v * 2)


class HasDesc:
    q = Desc()

    def __init__(self, v):
        self.q = v


@contextlib.contextmanager
def ctx(v):
    yield v * 2


@singledispatch
def sd(x):
    return 1.0


@sd.register(tuple)
def _(x):
    return 2.0


@sd.register(list)
def _(x):
    return 3.0


def t_enum(x, m):
    return [float(Sign.POS), Sign(-1) + 1, Sign.ZERO == 0, Kind("a") is Kind.A, Kind.B.value, Kind.A.name, [k.value for k in Kind], Word("one") == "one", Word.TWO.value, Sign["NEG"].value, len(Kind)]


def t_ntuple(x, m):
    p = Pt(1.5)
    a, b = p
    q = p._replace(a=x[0])
    return [p.a, p[1], a + b, p.total(), q.a, q.b, list(p._asdict().values()), Pt._fields[1], P2(1, v=2).v, P3(1, 2).w, len(p), P2(*[3, 4]) == (3, 4), isinstance(p, tuple), isinstance(p, Pt)]


def t_ntuple_tree(x, m):
    p = jax.tree_util.tree_map(lambda v: v * 2, P2(x, m))
    return [p.u, p.v, jit(lambda q: q.u.sum() * q.v)(P2(x, m)), lax.scan(lambda c, t: (P2(c.u + t, c.v * t), c.u), P2(1.0, 1.0), x)]


def t_dataclass(x, m):
    d = DC(2.0)
    d.c.append(1)
    e = DC(2.0, b=4.0)
    f = DF()
    g = dataclasses.replace(e, a=5.0)
    try:
        f.n = 3
        ok = 0
    except dataclasses.FrozenInstanceError:
        ok = 1
    except AttributeError:
        ok = 1
    return [d.tot(), len(e.c), d.c, f.n, f.label, g.a, g.b, ok, DC(1.0) == DC(1.0), DF(2) == DF(2), dataclasses.asdict(DF())["n"], hash(DF(1)) == hash(DF(1)), [q.name for q in dataclasses.fields(DF)]]


def t_registry(x, m):
    return [Base.registry["Dbl"]()(x), sorted(Base.registry)[-1], [c().f(1.0) for c in Base.registry.values()], issubclass(Dbl, Base)]


def t_dunder(x, m):
    o = Mixin.make()
    o.val = 4.0
    with o as z:
        w = z.val
    return [o.val, w, Mixin.half(3.0), o.half(5.0), o[2], len(o), list(o), 7 in o, 8 in o, o + 1, 1 + o, bool(o), 1 if o else 2, [*o], max(o)]


def t_lazy(x, m):
    l = Lazy(2.0)
    a = l.big + l.big
    return [a, l.n]


def t_slots(x, m):
    s = Slots(1.0, x)
    return [s.p, s.q]


def t_desc(x, m):
    h = HasDesc(3.0)
    return [h.q, h._q]


def t_ctx(x, m):
    with ctx(x) as y:
        z = y + 1
    with contextlib.suppress(KeyError):
        {}["a"]
    with contextlib.nullcontext(5) as five:
        pass
    return [z, five]


def t_singledispatch(x, m):
    return [sd(1), sd((1,)), sd([1])]


def t_match(x, m):
    def f(v):
        match v:
            case 0:
                return "zero"
            case int() | float() if v > 10:
                return "big"
            case (a, b):
                return a + b
            case {"k": q}:
                return q
            case [a, *rest]:
                return len(rest)
            case None:
                return "none"
            case "s" | "t":
                return "str"
            case Slots(p=1.0):
                return "slots"
            case Kind.A:
                return "A"
            case _:
                return "other"
    return [f(0), f(11), f((1, 2)), f({"k": 5, "z": 1}), f([1, 2, 3]), f(None), f("t"), f(3), f(Slots(1.0, 2.0)), f(Kind.A)]


def t_walrus(x, m):
    if (n := len(x)) > 2:
        y = [k for v in range(5) if (k := v * 2) > 3]
    return [n, y]


def t_gen(x, m):
    def g(n):
        for i in range(n):
            got = yield i * 2
    it = g(4)
    a = next(it)
    b = list(it)
    c = list(it)
    z = zip([1, 2, 3], [4, 5])
    z1 = list(z)
    z2 = list(z)
    e = (i for i in range(3))
    s1, s2 = sum(e), sum(e)
    mm = map(lambda q: q + 1, [1, 2])
    m1, m2 = list(mm), list(mm)
    f = filter(None, [0, 1, 2])
    f1, f2 = list(f), list(f)
    r = reversed([1, 2])
    en = enumerate([5, 6], 1)
    n1 = next(en)
    return [a, b, c, z1, z2, s1, s2, m1, m2, f1, f2, list(r), n1, list(en), next(iter([9])), next(iter([]), "dflt")]


def t_geninf(x, m):
    def count():
        n = 0
        while True:
            yield n
            n += 1
    a = list(itertools.islice(count(), 3))
    b = [v for v, _ in zip(count(), range(4))]
    c = next(v for v in itertools.count(3) if v % 4 == 0)
    d = list(itertools.takewhile(lambda q: q < 3, count()))
    return [a, b, c, d]


def t_iter(x, m):
    return [list(itertools.accumulate([1, 2, 3])), list(itertools.chain([1], [2, 3])), list(itertools.product([1, 2], repeat=2)),
            list(itertools.combinations([1, 2, 3], 2)), list(itertools.pairwise([1, 2, 3])), list(itertools.zip_longest([1], [2, 3], fillvalue=0)),
            [(k, list(v)) for k, v in itertools.groupby([1, 1, 2])], list(itertools.starmap(operator.mul, [(2, 3)])), list(itertools.compress([1, 2, 3], [1, 0, 1])),
            list(itertools.islice([1, 2, 3, 4], 1, None, 2)), list(itertools.repeat(4, 2)), list(itertools.dropwhile(lambda q: q < 2, [1, 2, 1])), list(itertools.filterfalse(lambda q: q < 2, [1, 2, 1]))]


def t_collections(x, m):
    d = defaultdict(list)
    for k, v in [("a", 1), ("b", 2), ("a", 3)]:
        d[k].append(v)
    c = collections.Counter("abca")
    o = collections.OrderedDict([("z", 1), ("y", 2)])
    q = collections.deque([1, 2, 3])
    q.appendleft(0)
    q.rotate(1)
    ch = collections.ChainMap({"a": 1}, {"a": 2, "b": 3})
    return [d["a"], len(d), c["a"], list(o), list(q), ch["a"], ch["b"], q.popleft(), d.get("zz")]


def t_dict(x, m):
    d = {"a": 1, "b": 2}
    e = d | {"c": 3}
    d.setdefault("q", []).append(4)
    f = dict(zip("xy", (1, 2)), z=3)
    p = d.pop("a", None)
    k = {v: k for k, v in f.items()}
    g = dict.fromkeys(["s", "t"], 0)
    h = {**f, "x": 9}
    del h["y"]
    e |= {"d": 5}
    d.update(w=1)
    return [sorted(e), d["q"], list(f.values()), p, k[2], g["t"], h["x"], len(h), "y" in h, list(e.items())[0], d["w"], e.popitem(), list(reversed(f)), f.copy() == f]


def t_list(x, m):
    l = [3, 1, 2]
    l.sort(reverse=True)
    l.insert(0, 9)
    l.extend((7, 8))
    l += [5]
    l[1:3] = [0]
    del l[-1]
    s = sorted([(2, "b"), (1, "a")], key=operator.itemgetter(0))
    a, *b, c = l
    l2 = l[::-1] * 2
    l.remove(7)
    return [l, s[0][1], a, b, c, l2, l.index(0), l.count(9), l.pop(), any(l), all([]), min(l, default=3), max([], default=4), sum([[1], [2]], []), list(range(5, 0, -2)), [*l, 1], l.copy(), (1, 2) + (3,), (1,) * 3, [1, 2] < [1, 3], not l]


def t_str(x, m):
    s = "abc_def"
    return [s.split("_")[1], s.upper(), s.replace("a", "z"), f"{3.14159:.2f}", "{} {k}".format(1, k=2), "%s-%d" % ("a", 3), s.startswith("abc"), ",".join(["1", "2"]), s[::-1], s.partition("_")[2], "b" in s, s.find("d"), s.title(), s.strip("af"), s.zfill(9), "a".ljust(3) + "|", s.isalpha(), len(s), s.endswith(("x", "ef")), str(1.5), repr("q"), f"{s!r:>10}", f"{2}{'x'}", ord("a"), chr(98), int("12"), float("1e3"), s.removeprefix("abc"), s.splitlines(), s.count("_"), s.casefold() == s]


def t_num(x, m):
    return [7 // 2, -7 // 2, 7 % 3, -7 % 3, 2**10, 1 << 4, 5 & 3, 5 | 3, 5 ^ 3, ~5, divmod(7, 3), round(2.5), round(3.14159, 2), abs(-3), pow(2, 5), pow(2, 5, 7), int(3.9), float(2), bool(0), complex(1, 2).imag, 3 if 2 > 1 else 4, 1 < 2 < 3, 1 < 3 < 2, min(1, 2), max([1, 5, 2]), sum([1, 2], 10), (3).bit_length(), (2.0).is_integer(), math.sqrt(2), math.pi, math.isclose(1, 1 + 1e-12), math.prod([2, 3]), math.comb(5, 2), math.hypot(3, 4), math.floor(-1.5), math.ceil(1.2), math.inf > 1, math.isnan(math.nan), math.log(8, 2), math.factorial(5), math.gcd(12, 18), 1e3 == 1000, 10 ** -2, 0.1 + 0.2 == 0.3, isinstance(True, int), 5 .__class__.__name__, type(5) is int, type(5.0) == float, math.copysign(1, -2), math.trunc(2.7), math.fsum([0.1] * 3), math.exp(1.0), math.dist([0, 0], [3, 4])]


def t_func(x, m):
    def f(a, /, b, *c, d=4, **e):
        return a + b + sum(c) + d + sum(e.values())

    def outer():
        n = 0

        def inc():
            nonlocal n
            n += 1
            return n
        inc()
        return inc()
    g = partial(f, 1, d=0)
    h = lambda *a, **k: (len(a), len(k))
    fs = [lambda i=i: i for i in range(3)]
    gs = [lambda: i for i in range(3)]
    return [f(1, 2), f(1, 2, 3, d=5, z=6), g(2), outer(), h(1, 2, q=3), [q() for q in fs], [q() for q in gs], reduce(operator.add, [1, 2, 3]), (lambda: 5)(), f(*[1, 2], **{"d": 0}), callable(f), f.__name__, operator.attrgetter("u")(P2(1, 2)), operator.methodcaller("upper")("a"), (lambda a, b=2: a * b)(b=3, a=4), f.__defaults__ is None]


def t_except(x, m):
    out = []
    try:
        raise ValueError("q")
    except (KeyError, ValueError) as e:
        out.append(str(e))
    else:
        out.append("no")
    finally:
        out.append("fin")

    def f():
        try:
            return 1
        finally:
            out.append("f")
    out.append(f())

    class E(Exception):
        def __init__(self, v):
            super().__init__(v)
            self.v = v
    try:
        try:
            {}["k"]
        except KeyError as e:
            raise E(5) from e
    except E as e:
        out.append(e.v)
    try:
        [][1]
    except LookupError:
        out.append("look")
    try:
        (1).foo
    except AttributeError:
        out.append("attr")
    try:
        int("x")
    except Exception as e:
        out.append(type(e).__name__)
    try:
        assert False, "m"
    except AssertionError as e:
        out.append(e.args[0])
    try:
        1 / 0
    except ArithmeticError:
        out.append("arith")
    for i in range(3):
        try:
            if i == 1:
                continue
            if i == 2:
                break
        finally:
            out.append(i)
    else:
        out.append("else")
    return out


def t_loop(x, m):
    out = []
    for i, (a, b) in enumerate(zip([1, 2], "ab"), start=1):
        out.append((i, a, b))
    else:
        out.append("done")
    n = 5
    while n:
        n -= 2
        if n < 0:
            break
    else:
        out.append("never")
    for q in "xy":
        pass
    out.append(q)
    for k, v in {"a": 1}.items():
        out.append(k * v)
    it = iter([1, 2, 3])
    for a in it:
        b = next(it, None)
        out.append((a, b))
    return out + [n]


def t_set(x, m):
    s = {1, 2} | {3}
    s.add(4)
    s.discard(1)
    return [sorted(s), len(s & {2, 3}), {1} <= {1, 2}, sorted({1, 2} ^ {2, 3}), frozenset([1]) == {1}, 2 in s, sorted(s - {2}), sorted(set("abca")), s.isdisjoint({9}), s.issuperset({2})]


def t_attr(x, m):
    class Q:
        k = 1
    q = Q()
    setattr(q, "z", 5)
    q.k += 1
    Q.k = 10
    return [getattr(q, "z"), getattr(q, "no", 3), hasattr(q, "z"), q.k, Q().k, vars(q)["z"], q.__dict__["k"], Q.__name__, type(q).__name__, isinstance(q, Q), q.__class__ is Q, type(q)().k]


def t_metafun(x, m):
    C = type("C", (), {"f": lambda self: 5, "g": 3})
    return [C().f(), C.g]


def t_inplace(x, m):
    a = onp.zeros(3)
    a[1] += 2.0
    a[:] = a + 1
    b = a
    b += 1
    c = onp.array([1.0, 2.0])
    c *= 2
    y = x
    y += 1
    return [a, c, x, y, a is b]


def t_np_basic(x, m):
    return [np.sum(x), m.sum(0), m @ m, m.T[0], x[None, :] * x[:, None], np.where(x > 0.5, x, -x), np.clip(x, 0.2, 0.8), x[::-1], x[-1], m[1, :2], m[..., 0], np.stack([x, x]).shape, np.concatenate([x, x[:1]]), x.reshape(2, 2).ravel(), np.cumsum(x), np.diff(x), np.outer(x, x)[0], np.mean(x), np.std(x), np.var(x), np.max(x), np.argmax(x), np.sort(x), np.argsort(-x), np.prod(x), np.dot(x, x), np.einsum("ij,ij->i", m, m), np.trapezoid(x, dx=0.5), np.interp(0.3, np.array([0.0, 1.0]), np.array([2.0, 4.0])), np.arange(3), np.linspace(0, 1, 5), np.logspace(0, 2, 3), np.geomspace(1, 100, 3), np.eye(2), np.diag(x)[1], np.diag(m), np.tril(m), np.triu(m, 1), np.trace(m), np.isfinite(x), np.sign(-x), np.floor(x), np.abs(-x)]


def t_np_more(x, m):
    return [np.hypot(x, x), np.exp2(x), np.expm1(x), np.log1p(x), np.arctan2(x, 1.0), np.square(x), np.cbrt(x), np.reciprocal(x), np.sinc(x), np.nan_to_num(np.array([np.nan, 1.0])), np.fmax(x, 0.5), np.maximum(x, 0.5), np.minimum(x, 0.5), np.heaviside(x - 0.5, 1.0), np.power(x, 2), np.float_power(x, 2), np.remainder(x, 0.3), np.mod(x, 0.3), np.true_divide(x, 2), np.floor_divide(x, 0.3), np.select([x > 0.8, x > 0.4], [x, 2 * x], 0.0), np.piecewise(x, [x < 0.5], [lambda v: v * 2, lambda v: v]), np.roll(x, 1), np.flip(x), np.tile(x, 2), np.repeat(x, 2), np.pad(x, 1), np.append(x, 1.0), np.take(x, np.array([0, 2])), np.unravel_index(5, (2, 3)), np.meshgrid(x, x)[0], np.broadcast_to(x, (2, 4)), np.expand_dims(x, 0), np.squeeze(x[None]), np.swapaxes(m, 0, 1), np.moveaxis(m, 0, 1), np.transpose(m), np.vstack([x, x]), np.hstack([x, x]), np.column_stack([x, x]), np.dstack([x, x]), np.split(x, 2), np.array_split(x, 3), np.atleast_2d(x), np.full((2,), 3.0), np.zeros_like(x), np.ones((2, 2)), np.full_like(x, 2), np.asarray([1, 2.0]), np.gradient(x), np.cross(x[:3], x[1:]), np.kron(x[:2], x[:2]), np.vdot(x, x), np.inner(x, x), np.tensordot(m, m, 1), np.matmul(m, m), np.count_nonzero(x > 0.5), np.any(x > 0.5), np.all(x > 0), np.allclose(x, x), np.median(x), np.percentile(x, 50), np.quantile(x, 0.5), np.average(x, weights=x), np.ptp(x), np.cumprod(x), np.searchsorted(np.sort(x), 0.5), np.digitize(x, np.array([0.2, 0.6])), np.polyval(np.array([1.0, 2.0]), x), np.round(x, 1), np.rint(x), np.trunc(x), np.fix(x), np.deg2rad(x), np.degrees(x), np.isclose(x, x), np.array_equal(x, x), np.block([[m, m]])[0], np.r_[x, 1.0], np.c_[x, x], np.ix_(np.array([0, 1]), np.array([1, 2]))[0], np.tri(3), np.vander(x[:2], 3), np.nansum(x), np.nanmax(x), np.logaddexp(x, x), np.convolve(x[:2], x[:2]), np.unique(np.array([1, 2, 1])), np.flatnonzero(onp.array([0, 1, 1])), np.apply_along_axis(lambda r: r.sum(), 1, m), np.vectorize(lambda v: v * 2)(x), np.bincount(np.array([0, 1, 1])), np.ravel(m), np.size(m), np.ndim(m), np.shape(m), np.result_type(1.0, 2), np.issubdtype(x.dtype, np.floating), np.finfo(x.dtype).eps > 0, np.iscomplexobj(x), np.positive(x), np.negative(x), np.i0(x[:1]), np.copysign(x, -1.0), np.correlate(x[:2], x[:2]), np.rot90(m), np.diagonal(m), np.diagflat(x[:2]), np.fill_diagonal(m, 0.0, inplace=False), np.tril_indices(3), np.triu_indices(3, 1), np.trim_zeros(np.array([0.0, 1.0, 0.0])), np.delete(x, 1), np.insert(x, 1, 5.0), np.lexsort((x, -x)), np.nonzero(onp.array([0, 1])), np.argwhere(onp.array([0, 1])), np.extract(onp.array([True, False, True, False]), x), np.compress(onp.array([True, False, True, False]), x), np.choose(np.array([0, 1, 0, 1]), [x, -x]), np.ediff1d(x), np.cov(m), np.corrcoef(m)]


def t_lax(x, m):
    return [lax.cond(True, lambda v: v, lambda v: -v, x), lax.switch(1, [lambda v: v, lambda v: 2 * v], x), lax.fori_loop(0, 3, lambda i, v: v + i, x), lax.scan(lambda c, v: (c + v, c), 0.0, x), lax.map(lambda v: v * 2, x), lax.select(x > 0.5, x, -x), lax.dynamic_slice(x, (1,), (2,)), lax.dynamic_update_slice(x, x[:1], (2,)), lax.while_loop(lambda c: c < 3, lambda c: c + 1, 0), lax.rsqrt(x), lax.stop_gradient(x), lax.dot(x, x), lax.cumsum(x), lax.associative_scan(np.add, x), lax.clamp(0.2, x, 0.8), lax.square(x), lax.integer_pow(x, 3), lax.top_k(x, 2)[0], lax.sort(x), lax.rev(x, (0,)), lax.expand_dims(x, (0,)), lax.full((2,), 1.0), lax.iota(int, 3), lax.concatenate([x, x], 0), lax.broadcast(x, (2,)), lax.reduce_max(x, (0,)), lax.dynamic_index_in_dim(x, 1, keepdims=False), lax.erf(x), lax.lgamma(x), lax.sign(x), lax.add(x, x), lax.pow(x, x), lax.fori_loop(0, 2, lambda i, v: v.at[i].set(v[i + 1]), x), lax.scan(lambda c, _: (c * 2, None), 1.0, None, length=3)[0], lax.scan(lambda c, v: (c, c + v), 0.0, x, reverse=True)[1], lax.map(lambda t: t[0] + t[1], (x, x)), lax.reduce_window(x, 0.0, lax.add, (2,), (1,), "VALID"), lax.linalg.cholesky(m @ m.T)]


def t_vmap(x, m):
    f = lambda a, b: a * b.sum()
    return [vmap(f, (0, None))(x, m), vmap(f, in_axes=(None, 0))(x, m), vmap(lambda a: (a, a * 2))(x), vmap(lambda r: r[::-1], in_axes=1, out_axes=1)(m), vmap(vmap(lambda a: a + 1))(m), vmap(lambda d: d["a"] + d["b"])({"a": x, "b": x}), vmap(lambda a, b: a + b, (0, None), 0)(x, 1.0), vmap(partial(f, b=m))(x), vmap(lambda a, *, k: a * k)(x, k=x), jit(f, static_argnums=())(x, m), jax.jit(lambda a, n: a ** n, static_argnums=1)(x, 3), jax.jit(partial(lambda n, a: a * n, 2))(x), vmap(lambda i: x[i])(np.arange(2)), vmap(lambda v, i: v[i], (None, 0))(m, np.array([0, 2]))]


def t_tree(x, m):
    t = {"a": x, "b": (m, 1.0)}
    l, td = jax.tree_util.tree_flatten(t)
    return [len(l), jax.tree_util.tree_unflatten(td, l)["b"][1], jax.tree.map(lambda v: v * 2, t)["a"], jax.tree_util.tree_leaves(t)[0], jax.tree_util.tree_map(lambda a, b: a + b, (x, x), (x, x))[1], jax.tree_util.tree_reduce(lambda a, b: a + np.sum(b), t, 0.0), jax.tree.structure(t) == td, jax.tree_util.tree_all({"a": True})]


def t_at(x, m):
    return [x.at[0].set(5.0), x.at[1:].add(1.0), x.at[-1].multiply(2.0), m.at[0, 1].set(9.0), m.at[:, 0].set(x[:3]), x.at[np.array([0, 2])].add(1.0), x.at[0].min(0.0), x.at[1].get(), x.at[0].divide(2.0), x.at[0].power(2.0), x.at[x > 0.5].set(0.0)]


def t_linalg(x, m):
    s = m @ m.T + np.eye(3)
    return [np.linalg.inv(s), np.linalg.solve(s, x[:3]), np.linalg.det(s), np.linalg.slogdet(s), np.linalg.cholesky(s), np.linalg.norm(x), np.linalg.norm(m, axis=0), np.linalg.multi_dot([m, m, m]), np.linalg.matrix_power(m, 2), jax.scipy.linalg.cho_solve(jax.scipy.linalg.cho_factor(s), x[:3]), jax.scipy.linalg.solve_triangular(np.linalg.cholesky(s), x[:3], lower=True), jax.scipy.linalg.solve(s, x[:3]), np.linalg.eigvalsh(s).sum(), np.linalg.pinv(s), np.linalg.matrix_rank(s) > 0, jax.scipy.linalg.block_diag(m, m)[0], np.linalg.outer(x, x)[0], np.linalg.trace(m), np.linalg.vecdot(x, x)]


def t_special(x, m):
    sp = jax.scipy.special
    return [sp.erf(x), sp.gammaln(x), sp.logsumexp(x), sp.expit(x), sp.xlogy(x, x), jax.nn.softmax(x), jax.nn.relu(x - 0.5), jax.nn.sigmoid(x), jax.scipy.stats.norm.pdf(x), jax.scipy.stats.norm.logpdf(x, 0.1, 2.0), jax.scipy.stats.multivariate_normal.logpdf(x[:3], m[0], np.eye(3)), jax.nn.softplus(x), jax.nn.logsumexp(x), sp.log_ndtr(x), sp.gamma(x)]


def t_methods(x, m):
    return [x.sum(), m.mean(axis=1), x.max(), x.min(), x.prod(), x.dot(x), x.clip(0.1, 0.4), x.astype(int), x.reshape(-1, 1), x.flatten(), m.transpose(), x.squeeze(), x.cumsum(), x.std(), x.argmax(), x.repeat(2), m.swapaxes(0, 1), m.diagonal(), m.trace(), x.round(1), x.copy(), x.size, x.ndim, x.shape, x.T, x.item(0) if False else float(x[0]), x.tolist() if False else [float(v) for v in x], m.ravel(), x.take(1), x.any(), x.all(), x.sort(), x.argsort(), x.var(), x.at[0].set(1.0), len(x), m.sum(axis=(0, 1), keepdims=True), [v for v in x], x.nbytes > 0, x.conj(), x.real, x.ptp() if False else 0, x.searchsorted(0.5) if False else 0]


def t_hostnp(x, m):
    h = onp.array([0.3, 0.1, 0.9])
    return [h.sum(), onp.sqrt(h), onp.where(h > 0.2, h, 0), h[h > 0.2], onp.argsort(h), float(h[0]), h.tolist(), onp.sum(h) * x, onp.pi * x, int(onp.argmax(h)), onp.asarray([1, 2]).dtype.kind, h.dtype == onp.float64, isinstance(h, onp.ndarray), isinstance(x, np.ndarray), onp.isscalar(1.0), onp.ndim(h), onp.array([[1, 2]]).shape, list(onp.ndindex(2, 2)), [i for i in onp.arange(3)], onp.sort(h)[::-1], onp.unique(onp.array([1, 1, 2])), onp.nonzero(h > 0.2)[0], onp.add.reduce(h), onp.multiply.outer(h, h)[0], onp.add.accumulate(h), h.item(1), h.mean(), onp.cumsum(h), onp.all(h > 0)]


def t_shape(x, m):
    a, b = m.shape
    return [a * b, x.shape[0], m.reshape((a * b,)), m[np.newaxis].shape, x[:, None].shape, m.reshape(3, -1).shape, np.broadcast_shapes((2, 1), (1, 3)), np.broadcast_arrays(x[:, None], x)[1].shape, m[:, [0, 2]], m[[0, 1], [1, 2]], m[np.array([0, 1]), 1], m[1:][:, ::-1], x[np.array([True, False, True, False])] if False else 0, x[slice(1, 3)], m[(0, 1)], m[0][1], x[..., None].shape, x.reshape(2, 2, order="C"), np.reshape(x, (2, 2)), np.shape(x)[0]]


def t_grad(x, m):
    f = lambda v: np.sum(v**2)
    return [jax.grad(f)(x), jax.value_and_grad(f)(x), jax.jacobian(lambda v: v * 2)(x), jax.jvp(f, (x,), (x,)), jax.hessian(f)(x)[0], jax.vjp(f, x)[1](1.0)[0], jax.grad(lambda a, b: a * b, argnums=1)(2.0, 3.0), jax.linearize(f, x)[0]]


@jax.tree_util.register_pytree_node_class
@dataclass
class Tree:
    a: typing.Any
    b: typing.Any

    def tree_flatten(self):
        return (self.a,), (self.b,)

    @classmethod
    def tree_unflatten(cls, aux, ch):
        return cls(*ch, *aux)


def t_pytree(x, m):
    t = jit(lambda t: Tree(t.a * 2, t.b))(Tree(x, 3))
    return [t.a, t.b, jax.tree.leaves(t)[0]]


@jax.custom_jvp
def cj(x):
    return x * 2


@cj.defjvp
def _cj(p, t):
    return cj(p[0]), t[0] * 2


def t_custom(x, m):
    return [cj(x)]


def kwonly(a, *, b=1, c: float = 2.0) -> float:
    """doc"""
    return a + b + c


def t_misc(x, m):
    global _G
    _G = 5
    r = [_G, kwonly(1, c=3), kwonly.__doc__]
    a = b = 2
    a, b = b, a + 1
    (c, d), e = (1, 2), 3
    r += [a, b, c, d, e, x if False else 1, None is None, Ellipsis is ..., not None]
    r.append([[i * j for j in range(2)] for i in range(2)])
    r.append({i: i**2 for i in range(2)}[1])
    r.append(print is not None)
    r.append(sum(v for v in (1, 2)))
    r.append(isinstance(x, jax.Array))
    r.append(isinstance(1.0, (int, float)))
    r.append(all(isinstance(q, int) for q in [1, 2]))
    r.append(id(r) == id(r))
    r.append(sorted([3, 1, 2], key=lambda q: -q))
    r.append(list(map(max, [1, 5], [4, 2])))
    r.append(eval("1") if False else 1)
    r.append(0 or "x")
    r.append([] and 1)
    r.append("a" "b")
    r.append(1_000)
    r.append(b"ab"[0])
    r.append(-(-3) ** 2)
    r.append(2 ** -1)
    r.append(slice(1, 2).stop)
    r.append(x[-1:].shape)
    r.append(any(q > 2 for q in [1, 3]))
    r.append(list(zip(*[(1, 2), (3, 4)])))
    r.append(tuple(i for i in range(2)))
    r.append(dict(a=1) == {"a": 1})
    r.append([1, 2, 3][1:][0])
    r.append((1, 2, 3)[-1])
    r.append(list(range(3))[::-1])
    r.append("x" * 3)
    r.append([0] * 2)
    return r

"""Catalogue of the public objects, their parameters and their observable quantities."""
import math
from ..lib import *
from .c14 import opaque_fn


class Obj:
    """One configuration of a public class.

    make(R, p) builds it from p(name, lo, hi) scalars; params are the numeric
    inputs it is built from, in no particular order.
    """

    def __init__(self, name, kind, make):
        self.name, self.kind, self._make = name, kind, make

    def make(self, R, tag="", mk_=None):
        mk_ = mk_ or P
        self.params = []

        def p(n, lo=0.3, hi=1.7):
            v = mk_(tag + n, lo, hi)
            self.params += v.flat() if isinstance(v, Arr) else []
            return v

        def vec(n, lo, hi, k):
            v = V(tag + n, lo, hi, k)
            self.params += v.flat()
            return v

        p.vec = vec
        return self._make(R, p)


def null(n, lo=0.3, hi=1.7):
    """Parameters at the value that switches their effect off, as Python numbers."""
    n = n.split("_")[-1] if n.startswith("n_") else n
    if n == "w0":
        return -1.0
    if n in ("gamma", "Omega_k", "wa", "m", "m0", "m1", "shift", "A", "eta", "gals") or n.endswith(("A", "eta", "gals", "shift")) or n[-2:-1] == "m":
        return 0.0
    return P(n, lo, hi)


def whole(n, lo=0.3, hi=1.7):
    """Parameters at whole numbers, given as Python ints."""
    if math.ceil(lo) > hi or n in ("Omega_c", "Omega_b", "h"):
        return P(n, lo, hi)
    return int(math.ceil(lo))


def _cosmo(gamma, over):
    def f(R, p):
        d = {n: (over[n] if n in over else p(n, lo, hi)) for n, (lo, hi) in COSMO.items()}
        if gamma:
            d["gamma"] = p("gamma", *GAMMA)
        return R("Cosmology", **d)
    return f


def smail(R, p, t="", **k):
    return R("redshift.smail_nz", p(t + "sa", 1.0, 2.5), p(t + "sb", 0.8, 2.0), p(t + "sz0", 0.3, 0.9), **k)


def smailg(R, p, t="", **k):
    return smail(R, p, t, gals_per_arcmin2=p(t + "gals", 2.0, 30.0), **k)


def kde(R, p, t="", **k):
    return R("redshift.kde_nz", p.vec(t + "kz", 0.2, 1.8, 3), p.vec(t + "kw", 0.2, 1.0, 3), bw=0.3517, **k)


def shift(R, p, t="", **k):
    return R("redshift.systematic_shift", smail(R, p, t + "par"), p(t + "shift", -0.05, 0.08), **k)


def delta(R, p, t="", **k):
    return R("redshift.delta_nz", p(t + "dz0", 0.8, 1.2), **k)


def cb(R, p, t=""):
    return R("bias.constant_linear_bias", p(t + "b", 0.5, 2.0))


def ig(R, p, t=""):
    return R("bias.inverse_growth_linear_bias", p(t + "b", 0.5, 2.0))


def ia(R, p, t=""):
    return R("bias.des_y1_ia_bias", p(t + "A", 0.2, 1.5), p(t + "eta", -1.5, 1.5), p(t + "zp", 0.3, 0.9))


def spline(k, endpoints):
    def f(R, p):
        n = 5
        x, y = p.vec("x", 0.2, 2.0, n), p.vec("y", -1.0, 1.0, n)
        kw = {} if endpoints is None else dict(endpoints=endpoints)
        return R("scipy.interpolate.InterpolatedUnivariateSpline", x, y, k=k, **kw)
    return f


WL = "probes.WeakLensing"
NC = "probes.NumberCounts"


def objects(thorough=False):
    out = []

    def add(n, kind, f):
        out.append(Obj(n, kind, f))

    add("Cosmology", "cosmo", _cosmo(False, {}))
    add("Cosmology with gamma", "cosmo", _cosmo(True, {}))
    for n, f in (("smail_nz", smail), ("kde_nz", kde), ("systematic_shift", shift), ("delta_nz", delta)):
        add(n, "nz", f)
        add(n + " with density", "nz", lambda R, p, f=f: f(R, p, gals_per_arcmin2=p("gals", 2.0, 30.0)))
        if f is not delta:
            add(n + " with zmax", "nz", lambda R, p, f=f: f(R, p, zmax=2.9371))
            add(n + " with zmax and density", "nz", lambda R, p, f=f: f(R, p, gals_per_arcmin2=p("gals", 2.0, 30.0), zmax=2.1379))
        else:
            add(n + " with zmax", "nz", lambda R, p, f=f: f(R, p, zmax=3.8713, gals_per_arcmin2=p("gals", 2.0, 30.0)))
    add("systematic_shift of kde_nz", "nz", lambda R, p: R("redshift.systematic_shift", kde(R, p, gals_per_arcmin2=p("pg", 2.0, 9.0), zmax=3.8713), p("shift", -0.05, 0.08), gals_per_arcmin2=p("gals", 2.0, 30.0), zmax=2.9371))
    add("constant_linear_bias", "bias", cb)
    add("inverse_growth_linear_bias", "bias", ig)
    add("des_y1_ia_bias", "bias", ia)
    two = lambda R, p: [smailg(R, p, "u", zmax=3.8713), smailg(R, p, "v", zmax=2.9371)]
    mix = lambda R, p: [R("redshift.delta_nz", p("wz0", 0.8, 1.2), gals_per_arcmin2=p("wg", 2.0, 30.0)), smailg(R, p, "v", zmax=2.9371)]
    add("WeakLensing", "probe", lambda R, p: R(WL, two(R, p)))
    add("WeakLensing with one bin", "probe", lambda R, p: R(WL, [kde(R, p, zmax=2.9371)], multiplicative_bias=p("m", -.1, .1), sigma_e=0.3129))
    add("WeakLensing with mixed bins", "probe", lambda R, p: R(WL, mix(R, p), multiplicative_bias=p("m", -.1, .1)))
    add("WeakLensing with bias per bin", "probe", lambda R, p: R(WL, two(R, p), multiplicative_bias=[p("m0", -.1, .1), p("m1", -.1, .1)]))
    add("WeakLensing with alignment", "probe", lambda R, p: R(WL, two(R, p), ia_bias=ia(R, p), multiplicative_bias=p("m", -.1, .1)))
    add("WeakLensing with alignment only", "probe", lambda R, p: R(WL, two(R, p), ia(R, p)))
    add("WeakLensing with alignment per bin", "probe", lambda R, p: R(WL, two(R, p), ia_bias=[ia(R, p, "i0"), cb(R, p, "i1")], multiplicative_bias=[p("m0", -.1, .1), p("m1", -.1, .1)], sigma_e=[0.2137, 0.3371]))
    add("WeakLensing with shape noise per bin", "probe", lambda R, p: R(WL, two(R, p), sigma_e=[0.2137, 0.3371]))
    add("WeakLensing with alignment, shape noise", "probe", lambda R, p: R(WL, two(R, p), ia_bias=cb(R, p), sigma_e=0.3137))
    add("NumberCounts", "probe", lambda R, p: R(NC, two(R, p), cb(R, p)))
    add("NumberCounts with inverse growth bias", "probe", lambda R, p: R(NC, two(R, p), ig(R, p)))
    add("NumberCounts with bias per bin", "probe", lambda R, p: R(NC, two(R, p), [cb(R, p, "b0"), ia(R, p, "b1")]))
    add("NumberCounts with has_rsd", "probe", lambda R, p: R(NC, [smail(R, p, zmax=2.9371)], cb(R, p), has_rsd=True))
    for k in (1, 2, 3):
        for e in ((None, "not-a-knot", "natural") if k == 3 else (None,)):
            add(f"spline k={k} {e or 'default'}", "spline", spline(k, e))
    return out


def sized(n):
    """Objects with n entries: catalogue galaxies, bins, options per bin, knots."""
    some = lambda R, p, d=True: [delta(R, p, f"t{i}", gals_per_arcmin2=p(f"g{i}", 2.0, 30.0)) if d and i % 3 == 1 else smail(R, p, f"t{i}", zmax=1.7 + 0.0173 * i, gals_per_arcmin2=p(f"g{i}", 2.0, 30.0)) for i in range(n)]
    bias = lambda R, p: [(cb, ia)[i % 2](R, p, f"b{i}") for i in range(n)]
    ms = lambda R, p: [p(f"m{i}", -0.1, 0.1) for i in range(n)]
    return [
        Obj(f"kde_nz of {n} galaxies", "nz", lambda R, p: R("redshift.kde_nz", p.vec("kz", 0.2, 1.8, n), p.vec("kw", 0.2, 1.0, n), bw=0.3517, zmax=2.9371, gals_per_arcmin2=p("gals", 2.0, 30.0))),
        Obj(f"WeakLensing of {n} bins", "probe", lambda R, p: R(WL, some(R, p), multiplicative_bias=ms(R, p), sigma_e=[0.2 + 0.0137 * i for i in range(n)])),
        Obj(f"WeakLensing of {n} aligned bins", "probe", lambda R, p: R(WL, some(R, p, False), ia_bias=bias(R, p), multiplicative_bias=ms(R, p))),
        Obj(f"NumberCounts of {n} bins", "probe", lambda R, p: R(NC, some(R, p, False), bias(R, p))),
        Obj(f"spline of {n + 1} knots", "spline", lambda R, p: R("scipy.interpolate.InterpolatedUnivariateSpline", p.vec("x", 0.2, 2.0, n + 1), p.vec("y", -1.0, 1.0, n + 1), k=1)),
    ]


SIZED_UPTO = [600, 24, 24, 24, 300]


CL_UPTO = {"noise_cl": 1100, "gaussian_cl_covariance(sparse=True)": 1100, "gaussian_cl_covariance(sparse=False)": 40}


def scale_objects(ck, fn, sizes=(1, 2, 3, 5)):
    """fn(object) for the sized objects, at sizes steered by decisions in the code."""
    for i, upto in enumerate(SIZED_UPTO):
        ck.steer(sized(2)[i].name.replace(" 2 ", " n ").replace(" 3 ", " n + 1 "), lambda n: fn(sized(n)[i]), sizes, upto)


def scale_calls(ck, fn, sizes=(1, 2, 3, 5), skip=()):
    """fn(name, n) for every catalogue call with arrays of n points."""
    R = Run(ck)
    for c in catalogue(R, Num()):
        N = Num()
        if c.group in skip or c.name.endswith("scalar"):
            continue
        if any(isinstance(a, Arr) and a.shape == ((3,) if c.group == "cl" else (2,)) for a in c.args):
            ck.steer(c.name, lambda n: fn(c.name, n), sizes if "covariance" not in c.name else sizes[1:], CL_UPTO.get(c.name, 260) if c.group == "cl" else 1100)


def call_named(R, name, N):
    return {c.name: c for c in catalogue(R, N)}[name]


Z = lambda: V("zq", 0.25, 1.4, 2)
A = lambda: V("aq", 0.4, 0.9, 2)
K = lambda: V("kq", 0.05, 2.0, 2)

COSMO_PROPS = ["Omega", "Omega_b", "Omega_c", "Omega_m", "Omega_de", "Omega_k", "k", "sqrtk", "h", "w0", "wa", "n_s", "sigma8", "gamma"]
BG = ["w", "f_de", "Esqr", "H", "Omega_m_a", "Omega_de_a", "radial_comoving_distance", "dchioverda",
      "transverse_comoving_distance", "angular_diameter_distance", "growth_factor", "growth_rate"]


def quantities(R, kind, o, cosmo=None, heavy=True):
    """[(name, thunk)] of everything observable through the public interface."""
    q = []
    z, a, k = Z(), A(), K()
    if kind == "cosmo":
        for n in COSMO_PROPS:
            q.append((n, lambda n=n: R.attr(o, n)))
        for n in BG:
            q.append(("background." + n, lambda n=n: R("background." + n, o, a)))
        q.append(("background.a_of_chi", lambda: R("background.a_of_chi", o, V("chiq", 500.0, 3000.0, 2))))
        q.append(("transfer.Eisenstein_Hu", lambda: R("transfer.Eisenstein_Hu", o, k)))
        q.append(("transfer.Eisenstein_Hu(eisenhu)", lambda: R("transfer.Eisenstein_Hu", o, k, type="eisenhu")))
        q.append(("power.primordial_matter_power", lambda: R("power.primordial_matter_power", o, k)))
        q.append(("power.linear_matter_power", lambda: R("power.linear_matter_power", o, k, a)))
        if heavy:
            q.append(("power.nonlinear_matter_power", lambda: R("power.nonlinear_matter_power", o, k, a)))
    elif kind == "nz":
        q.append(("n(z)", lambda: R.I.call(o, [z], {})))
        q.append(("pz_fn", lambda: R.meth(o, "pz_fn", z)))
        for n in ("zmax", "gals_per_arcmin2", "gals_per_steradian"):
            q.append((n, lambda n=n: R.attr(o, n)))
    elif kind == "bias":
        q.append(("b(z)", lambda: R.I.call(o, [cosmo, z], {})))
    elif kind == "probe":
        q.append(("n_tracers", lambda: R.attr(o, "n_tracers")))
        q.append(("zmax", lambda: R.attr(o, "zmax")))
        q.append(("kernel", lambda: R.meth(o, "kernel", cosmo, z, P("ellq", 20.0, 900.0))))
        q.append(("noise", lambda: R.meth(o, "noise")))
        if heavy:
            nl = opaque_pk()
            ell = V("ellv", 50.0, 800.0, 2)
            q.append(("angular_cl", lambda: R("angular_cl.angular_cl", cosmo, ell, [o], nonlinear_fn=nl)))
            q.append(("noise_cl", lambda: R("angular_cl.noise_cl", ell, [o])))
    elif kind == "spline":
        x = V("xq", 0.1, 2.2, 2)
        q.append(("call", lambda: R.I.call(o, [x], {})))
        for n in (0, 1):
            q.append((f"derivative {n}", lambda n=n: R.meth(o, "derivative", x, n)))
        q.append(("antiderivative", lambda: R.meth(o, "antiderivative", x)))
        q.append(("integral", lambda: R.meth(o, "integral", P("ia", 0.3, 0.8), P("ib", 1.0, 1.9))))
        q.append(("k", lambda: R.attr(o, "k")))
    return q


def opaque_pk(log=None):
    """Uninterpreted nonlinear spectrum nl(cosmo, k, a, transfer_fn)."""

    def f(I, a, k):
        kk = I.arr(a[1] if len(a) > 1 else k["k"])
        aa = I.arr(a[2] if len(a) > 2 else k["a"])
        if log is not None:
            log.append(dict(args=list(a), kw=dict(k)))
        d = np.frompyfunc(lambda x, y: mk("exp", opaque("Pk", x, y)), 2, 1)(*np.broadcast_arrays(kk.d, aa.d))
        return M.result(I, oa(d), "f", [kk, aa], "jnp")

    return NF("nonlinear", f)


def pk(k, a):
    return mk("exp", opaque("Pk", const(k), const(a)))


def values(R, kind, o, cosmo=None, heavy=True):
    return {n: t() for n, t in quantities(R, kind, o, cosmo, heavy)}


def walk(v, seen=None, path=""):
    """All (path, leaf) reachable from an abstract value."""
    seen = {} if seen is None else seen
    if isinstance(v, (list, tuple, dict, AObj)):
        if id(v) in seen:
            return
        seen[id(v)] = v
    if isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from walk(x, seen, f"{path}[{i}]")
    elif isinstance(v, (set, frozenset)):
        for x in v:
            yield from walk(x, seen, path + "{}")
    elif isinstance(v, dict):
        for k, x in v.items():
            if isinstance(k, PyKey) or isinstance(k, tuple):
                yield from walk(k.arr if isinstance(k, PyKey) else k, seen, f"{path}<key>")
            yield from walk(x, seen, f"{path}[{k!r}]")
    elif isinstance(v, AObj):
        for k, x in v.attrs.items():
            yield from walk(x, seen, f"{path}.{k}")
    elif isinstance(v, Bound):
        yield from walk(v.self_, seen, path + ".__self__")
    elif isinstance(v, Partial):
        yield from walk([v.fn, list(v.args), v.kw], seen, path)
    elif isinstance(v, AFunc):
        if id(v) in seen:
            return
        seen[id(v)] = v
        e = v.env
        while e is not None and e.func is not None:
            yield from walk({k: x for k, x in e.vars.items()}, seen, path + ".<closure>")
            e = e.parent
        yield from walk(list(v.defaults or []), seen, path + ".<defaults>")
        yield from walk({k: x for k, x in (v.kwdefaults or {}).items()}, seen, path + ".<defaults>")
    else:
        yield path, v


# ------------------------------------------------------------------ public calls
class Num:
    """Factory of numeric inputs in one flavour."""

    def __init__(self, scalar="py", vec="jnp", tag="", dt="f", size=None):
        self.scalar, self.vec, self.tag, self.dt = scalar, vec, tag, dt
        self.size, self.vectors = size, 0
        self.made = []

    def __call__(self, n, lo=0.3, hi=1.7):
        t = sym(self.tag + n, lo, hi)
        r = Arr(t, "f", 0, self.scalar, self.scalar == "py")
        self.made.append(r)
        return r

    def v(self, n, lo=0.3, hi=1.7, k=None):
        sized = k is None and self.size is not None
        if k is None:
            k = self.size or 2
            self.vectors += 1
        r = V(self.tag + n, lo, hi, k, kind=self.vec)
        if sized:
            step = next(s for s in range(k // 3 + 1, 2 * k + 2) if math.gcd(s, k) == 1)
            r.d = r.d[[i * step % k for i in range(k)]]
        self.made.append(r)
        return r

    vec_ = None

    def mat(self, n, *a, **k):
        r = mat(self.tag + n, *a, **k)
        r = Arr(r.d, "f", 0, self.vec)
        self.made.append(r)
        return r


class _NP:
    """Parameter factory of the object builders on top of a Num."""

    def __init__(self, N, tag=""):
        self.N, self.tag = N, tag

    def __call__(self, n, lo=0.3, hi=1.7):
        return self.N(self.tag + n, lo, hi)

    def vec(self, n, lo, hi, k):
        return self.N.v(self.tag + n, lo, hi, k)


class Call:
    def __init__(self, name, fn, args, kw=None, group="", static=()):
        self.name, self.fn, self.args, self.kw, self.group, self.static = name, fn, args, kw or {}, group, static

    def run(self, R, args=None):
        return self.fn(R, *(self.args if args is None else args), **self.kw)


def catalogue(R, N, thorough=False):
    """Every public numeric function, applied to numeric inputs from N."""
    p = _NP(N)
    out = []
    F = lambda path: (lambda R, *a, **k: R(path, *a, **k))

    def add(name, fn, args, kw=None, group=""):
        out.append(Call(name, F(fn) if isinstance(fn, str) else fn, args, kw, group))

    def cosmo(gamma=False):
        d = {n: N(n, lo, hi) for n, (lo, hi) in COSMO.items()}
        if gamma:
            d["gamma"] = N("gamma", *GAMMA)
        return R("Cosmology", **d)

    for g in (False, True):
        t = ", gamma" if g else ""
        for n in BG:
            if g and not n.startswith("growth"):
                continue
            add(f"{n}{t}", "background." + n, [cosmo(g), N.v("a", 0.4, 0.9)], group="background")
            add(f"{n}{t}, scalar", "background." + n, [cosmo(g), N("as", 0.3, 0.95)], group="background")
        add(f"linear_matter_power{t}", "power.linear_matter_power", [cosmo(g), N.v("k", 0.05, 2.0), N.v("a", 0.4, 0.9)], group="power")
        add(f"nonlinear_matter_power{t}", "power.nonlinear_matter_power", [cosmo(g), N.v("k", 0.05, 2.0), N.v("a", 0.4, 0.9)], group="power")
    add("radial_comoving_distance, options", "background.radial_comoving_distance", [cosmo(), N.v("a", 0.4, 0.9)], dict(log10_amin=-2, steps=64), "background")
    add("a_of_chi", "background.a_of_chi", [cosmo(), N.v("chi", 500., 3000.)], group="background")
    add("a_of_chi, scalar", "background.a_of_chi", [cosmo(), N("chis", 500., 3000.)], group="background")
    for ty in ("eisenhu", "eisenhu_osc"):
        add(f"Eisenstein_Hu({ty})", "transfer.Eisenstein_Hu", [cosmo(), N.v("k", 0.05, 2.0)], dict(type=ty), "power")
        add(f"Eisenstein_Hu({ty}), scalar", "transfer.Eisenstein_Hu", [cosmo(), N("ks", 0.05, 2.0)], dict(type=ty), "power")
    add("primordial_matter_power", "power.primordial_matter_power", [cosmo(), N.v("k", 0.05, 2.0)], group="power")
    add("linear_matter_power, scalar", "power.linear_matter_power", [cosmo(), N("ks", 0.05, 2.0), N("as", 0.3, 0.95)], group="power")
    add("linear_matter_power, today", "power.linear_matter_power", [cosmo(), N.v("k", 0.05, 2.0)], dict(type="eisenhu"), group="power")
    add("linear", lambda R, c, k, a: R("power.linear", c, k, a, R.get("transfer.Eisenstein_Hu")), [cosmo(), N.v("k", 0.05, 2.0), N.v("a", 0.4, 0.9)], group="power")
    add("sigmasqr", lambda R, c, r: R("power.sigmasqr", c, r, R.get("transfer.Eisenstein_Hu")), [cosmo(), N("R", 1.0, 20.0)], group="power")
    add("sigmasqr, limits", lambda R, c, r, k0, k1: R("power.sigmasqr", c, r, R.get("transfer.Eisenstein_Hu"), kmin=k0, kmax=k1), [cosmo(), N("R", 1.0, 20.0), N("kmin", 1e-4, 1e-3), N("kmax", 1.0, 9.0)], group="power")
    for pr in ("smith2003", "takahashi2012"):
        add(f"halofit({pr})", lambda R, c, k, a, pr=pr: R("power.halofit", c, k, a, R.get("transfer.Eisenstein_Hu"), prescription=pr), [cosmo(), N.v("k", 0.05, 2.0), N.v("a", 0.4, 0.9)], group="power")
    add("nonlinear_matter_power, scalar a", "power.nonlinear_matter_power", [cosmo(), N.v("k", 0.05, 2.0), N("as", 0.3, 0.95)], group="power")
    add("z2a", "utils.z2a", [N.v("z", 0.2, 1.5)], group="utils")
    add("a2z", "utils.a2z", [N.v("a", 0.2, 0.9)], group="utils")
    # redshift distributions
    nzs = [("smail_nz", smail), ("kde_nz", kde), ("systematic_shift", shift), ("delta_nz", delta)]
    for n, f in nzs:
        z = N.v("z", 0.25, 1.4)
        add(n, lambda R, q, z: R.I.call(q, [z], {}), [f(R, p), z], group="redshift")
        add(n + ", scalar", lambda R, q, z: R.I.call(q, [z], {}), [f(R, p), N("zs", 0.3, 1.4)], group="redshift")
        add(n + ".pz_fn", lambda R, q, z: R.meth(q, "pz_fn", z), [f(R, p), z], group="redshift")
        add(n + ".gals_per_steradian", lambda R, q: R.attr(q, "gals_per_steradian"), [f(R, p, gals_per_arcmin2=N("gals", 1., 9.))], group="redshift")
    for n, f in (("constant_linear_bias", cb), ("inverse_growth_linear_bias", ig), ("des_y1_ia_bias", ia)):
        add(n, lambda R, b, c, z: R.I.call(b, [c, z], {}), [f(R, p), cosmo(), N.v("z", 0.25, 1.4)], group="bias")
        add(n + ", scalar", lambda R, b, c, z: R.I.call(b, [c, z], {}), [f(R, p), cosmo(), N("zs", 0.25, 1.4)], group="bias")
    # probes
    ell = lambda: N("ell", 20.0, 900.0)
    two = lambda: [smailg(R, p, "u", zmax=3.8713), kde(R, p, "v", zmax=2.9371, gals_per_arcmin2=N("vg", 2., 30.))]
    mix = lambda: [R("redshift.delta_nz", N("wz0", 0.8, 1.2), gals_per_arcmin2=N("wg", 2.0, 30.0)), smailg(R, p, "v", zmax=2.9371)]
    probes = [
        ("WeakLensing", lambda: R(WL, two(), multiplicative_bias=N("m", -.1, .1))),
        ("WeakLensing, mixed bins", lambda: R(WL, mix(), multiplicative_bias=[N("m0", -.1, .1), N("m1", -.1, .1)])),
        ("WeakLensing, alignment", lambda: R(WL, two(), ia_bias=ia(R, p), multiplicative_bias=[N("m0", -.1, .1), N("m1", -.1, .1)], sigma_e=[0.2137, 0.3371])),
        ("WeakLensing, alignment per bin", lambda: R(WL, two(), ia_bias=[ia(R, p, "i"), cb(R, p, "j")])),
        ("NumberCounts", lambda: R(NC, two(), cb(R, p, "g"))),
        ("NumberCounts, bias per bin", lambda: R(NC, two(), [ig(R, p, "g"), cb(R, p, "h")])),
    ]
    for n, f in probes:
        add(n + ".kernel", lambda R, q, c, z, l: R.meth(q, "kernel", c, z, l), [f(), cosmo(), N.v("z", 0.25, 1.4), ell()], group="probes")
        add(n + ".noise", lambda R, q: R.meth(q, "noise"), [f()], group="probes")
    add("weak_lensing_kernel", "probes.weak_lensing_kernel", [cosmo(), mix(), N.v("z", 0.25, 1.4), ell()], group="probes")
    add("density_kernel", "probes.density_kernel", [cosmo(), two(), [cb(R, p, "g"), ig(R, p, "h")], N.v("z", 0.25, 1.4), ell()], group="probes")
    add("nla_kernel", "probes.nla_kernel", [cosmo(), two(), ia(R, p, "g"), N.v("z", 0.25, 1.4), ell()], group="probes")
    both = lambda: [R(WL, [smailg(R, p, "u", zmax=3.8713), R("redshift.delta_nz", N("wz0", 0.8, 1.2), gals_per_arcmin2=N("wg", 2.0, 30.0))], multiplicative_bias=N("m", -.1, .1)), R(NC, [smailg(R, p, "v", zmax=2.9371)], cb(R, p, "g"))]
    nl = opaque_pk()
    one = lambda: [R(NC, [smailg(R, p, "v", zmax=2.9371)], cb(R, p, "g"))]
    L = lambda k=3: N.v("ells", 20.0, 900.0, None if N.size else k)
    add("angular_cl", lambda R, c, l, q: R("angular_cl.angular_cl", c, l, q, nonlinear_fn=nl), [cosmo(), L(2), both()], group="cl")
    add("angular_cl, default spectrum", "angular_cl.angular_cl", [cosmo(), L(2), one()], group="cl")
    add("noise_cl", "angular_cl.noise_cl", [L(), both()], group="cl")
    S = lambda n: N.mat(n, 6, N.size or 3, 0.5, 2.0)
    for sp in (True, False):
        add(f"gaussian_cl_covariance(sparse={sp})", "angular_cl.gaussian_cl_covariance", [L(), both(), S("S"), S("N")], dict(sparse=sp), "cl")
        add(f"gaussian_cl_covariance_and_mean(sparse={sp})", lambda R, c, l, q, sp=sp: R("angular_cl.gaussian_cl_covariance_and_mean", c, l, q, nonlinear_fn=nl, sparse=sp, f_sky=0.3179), [cosmo(), L(2), one()], group="cl")
    # likelihood
    d = lambda n, k=4: N.v(n, -1.0, 1.0, k)
    C = lambda: N.mat("C", 4, spd=True)
    SP = lambda n="B", a=2, b=2, q=2: Arr(N.mat(n, a * b, q, 0.5, 2.0).d.reshape(a, b, q) + spd3(a, b, q), "f", 0, N.vec)
    for m in ("inverse", "cholesky"):
        for ld in (True, False):
            add(f"gaussian_log_likelihood({m}, logdet={ld})", "likelihood.gaussian_log_likelihood", [d("d"), d("mu"), C()], dict(inverse_method=m, include_logdet=ld), "likelihood")
    add("gaussian_log_likelihood, sparse", "likelihood.gaussian_log_likelihood", [d("d"), d("mu"), SP()], group="likelihood")
    # sparse
    v, D = lambda n, k: N.v(n, -1.0, 1.0, k), lambda n, i, j: N.mat(n, i, j)
    Bm = lambda n, a, b, q: Arr(N.mat(n, a * b, q, 0.5, 2.0).d.reshape(a, b, q), "f", 0, N.vec)
    for n, fn, args in [
        ("to_dense", "to_dense", lambda: [Bm("B", 2, 3, 2)]),
        ("dot(sparse, vec)", "dot", lambda: [Bm("B", 2, 3, 2), v("x", 6)]),
        ("dot(vec, sparse)", "dot", lambda: [v("x", 4), Bm("B", 2, 3, 2)]),
        ("dot(sparse, dense)", "dot", lambda: [Bm("B", 2, 3, 2), D("D", 6, 2)]),
        ("dot(dense, sparse)", "dot", lambda: [D("D", 2, 4), Bm("B", 2, 3, 2)]),
        ("dot(sparse, sparse)", "dot", lambda: [Bm("B", 2, 3, 2), Bm("E", 3, 1, 2)]),
        ("dot(dense, sparse, dense)", "dot", lambda: [D("D", 2, 4), Bm("B", 2, 3, 2), D("G", 6, 2)]),
        ("sparse_dot_vec", "sparse_dot_vec", lambda: [Bm("B", 2, 3, 2), v("x", 6)]),
        ("vec_dot_sparse", "vec_dot_sparse", lambda: [v("x", 4), Bm("B", 2, 3, 2)]),
        ("sparse_dot_dense", "sparse_dot_dense", lambda: [Bm("B", 2, 3, 2), D("D", 6, 2)]),
        ("dense_dot_sparse", "dense_dot_sparse", lambda: [D("D", 2, 4), Bm("B", 2, 3, 2)]),
        ("sparse_dot_sparse", "sparse_dot_sparse", lambda: [Bm("B", 2, 3, 2), Bm("E", 3, 1, 2)]),
        ("dense_dot_sparse_dot_dense", "dense_dot_sparse_dot_dense", lambda: [D("D", 2, 4), Bm("B", 2, 3, 2), D("G", 6, 2)]),
        ("inv", "inv", lambda: [SP()]), ("slogdet", "slogdet", lambda: [SP("B", 3, 3, 2)]), ("det", "det", lambda: [SP()]),
    ]:
        add("sparse." + n, "sparse." + fn, args(), group="sparse")
    # numerical kernels
    q = lambda c0: NF("f", lambda I, a, k: I.binop("mul", a[0], I.binop("add", a[0], c0)))
    add("simps", lambda R, a, b, c: R("scipy.integrate.simps", q(c), a, b, 8), [N("ia", 0.1, 0.5), N("ib", 1., 2.), N("ic", 1., 2.)], group="kernels")
    add("romb", lambda R, a, b, c: R("scipy.integrate.romb", q(c), a, b, divmax=4), [N("ia", 0.1, 0.5), N("ib", 1., 2.), N("ic", 1., 2.)], group="kernels")
    add("odeint", lambda R, y, t, c: R("scipy.ode.odeint", NF("rhs", lambda I, a, k: I.binop("mul", a[0], c)), y, t), [N("y0", 0.1, 0.5), N.v("t", 0.1, 1.0, 4), N("oc", 1., 2.)], group="kernels")
    add("interp", "scipy.interpolate.interp", [N.v("x", 0.2, 0.9, 2), N.v("xp", 0.1, 1.0, 4), N.v("fp", -1., 1., 4)], group="kernels")
    sx = lambda: [N.v("sx", 0.2, 2.0, 5), N.v("sy", -1., 1., 5)]
    for k, e in ((1, "not-a-knot"), (2, "not-a-knot"), (3, "not-a-knot"), (3, "natural")):
        mk_s = lambda R, x, y, k=k, e=e: R("scipy.interpolate.InterpolatedUnivariateSpline", x, y, k=k, endpoints=e)
        add(f"spline({k},{e})", lambda R, x, y, t, f=mk_s: R.I.call(f(R, x, y), [t], {}), sx() + [N.v("st", 0.3, 1.9)], group="spline")
        add(f"spline({k},{e}), scalar", lambda R, x, y, t, f=mk_s: R.I.call(f(R, x, y), [t], {}), sx() + [N("sts", 0.3, 1.9)], group="spline")
        add(f"spline({k},{e}).derivative", lambda R, x, y, t, f=mk_s: R.meth(f(R, x, y), "derivative", t, 1), sx() + [N.v("st", 0.3, 1.9)], group="spline")
        add(f"spline({k},{e}).antiderivative", lambda R, x, y, t, f=mk_s: R.meth(f(R, x, y), "antiderivative", t), sx() + [N.v("st", 0.3, 1.9)], group="spline")
        add(f"spline({k},{e}).integral", lambda R, x, y, a, b, f=mk_s: R.meth(f(R, x, y), "integral", a, b), sx() + [N("sa", 0.3, 0.9), N("sb", 1.0, 1.9)], group="spline")
    return out


def spd3(a, b, q):
    d = np.empty((a, b, q), object)
    for i in np.ndindex(a, b, q):
        d[i] = const(6.0 if i[0] == i[1] else 0.0)
    return d

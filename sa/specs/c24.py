"""Redshift distributions are normalised and carry their own density."""
from ..lib import *
from .oracle import *

ARC = (180.0 * 60.0 / PI) ** 2


# ------------------------------------------------------- oracles, also used by C25
class Smail:
    def __init__(self, tag, zmax=10.0, z0=(0.3, 0.9)):
        self.a, self.b, self.z0 = sym(tag + "sa", 1.0, 2.5), sym(tag + "sb", 0.8, 2.0), sym(tag + "sz0", *z0)
        self.tag, self.zmax = tag, zmax

    def make(self, R, **kw):
        return R("redshift.smail_nz", P(self.tag + "sa"), P(self.tag + "sb"), P(self.tag + "sz0"), **kw)

    def pz(self, z):
        return pow_(z, self.a) * exp(-1.0 * pow_(z / self.z0, self.b))

    def __call__(self, z):
        return self.pz(T_(z)) / quad(self.pz, 0.0, self.zmax)


class Kde(Smail):
    def __init__(self, tag, zmax=10.0, bw=0.3517, n=3, weights=(0.2, 1.0)):
        self.z = V(tag + "kz", 0.2, 1.8, n)
        self.w = V(tag + "kw", *weights, n)
        self.bw, self.zmax, self.tag = bw, zmax, tag

    def make(self, R, **kw):
        return R("redshift.kde_nz", self.z, self.w, bw=self.bw, **kw)

    def pz(self, z):
        num = den = None
        for a, w in zip(self.z.flat(), self.w.flat()):
            g = w * exp(-0.5 * (z - a) * (z - a) / (self.bw * self.bw)) / (self.bw * math.sqrt(2 * PI))
            num = g if num is None else num + g
            den = w if den is None else den + w
        return num / den


class Shift(Smail):
    def __init__(self, tag, parent, zmax=10.0):
        self.parent, self.db = parent, sym(tag + "shift", -0.05, 0.08)
        self.zmax, self.tag = zmax, tag

    def make(self, R, parent_kw=None, **kw):
        return R("redshift.systematic_shift", self.parent.make(R, **(parent_kw or {})), P(self.tag + "shift"), **kw)

    def pz(self, z):
        return self.parent.pz(max_(z - self.db, const(0.0)))


class Delta:
    def __init__(self, tag, lo=0.8, hi=1.2):
        self.z0, self.tag = sym(tag + "dz0", lo, hi), tag

    def make(self, R, **kw):
        return R("redshift.delta_nz", P(self.tag + "dz0"), **kw)


def kinds(zmax):
    if zmax > 20.0:
        yield "smail, deep", Smail("sd", zmax, (3.0, 9.0))
        yield "shift(smail, deep)", Shift("hd", Smail("pd", 10.0, (3.0, 9.0)), zmax)
        yield "kde", Kde("k", zmax)
        return
    yield "smail", Smail("s", zmax)
    yield "kde", Kde("k", zmax)
    yield "kde, small weights", Kde("kl", zmax, weights=(1e-5, 1e-3))
    yield "kde, large weights", Kde("kh", zmax, weights=(20.0, 3e4))
    yield "shift(smail)", Shift("h", Smail("p"), zmax)
    yield "shift(kde)", Shift("g", Kde("q"), zmax)
    yield "shift(shift)", Shift("f", Shift("e", Smail("r")), zmax)


def run(ck):
    z = V("z", 0.15, 1.9, 3)
    for zmax in (None, 3.8713, 2.5173, 0.8371, 43.7193):
        for name, o in kinds(10.0 if zmax is None else zmax):
            sub = f"{name}, zmax={zmax or 'default'}"
            R = Run(ck)
            with ck.case("normalised shape", sub):
                kw = {} if zmax is None else dict(zmax=zmax)
                nz = o.make(R, **kw)
                v = ck.valn(sub)
                ck.eq("parametric shape", sub, R.meth(nz, "pz_fn", z), arr([o.pz(x) for x in z.flat()]), v)
                ck.eq("normalised shape", sub, R.I.call(nz, [z], {}), arr([o(x) for x in z.flat()]), v)
                ck.eq("maximum redshift", sub, R.a(R.attr(nz, "zmax")), arr(10.0 if zmax is None else zmax), v)
                ck.eq("normalised shape", sub + ", second call", R.I.call(nz, [z], {}), arr([o(x) for x in z.flat()]), v)
                for e in R.I.sum_log:
                    if e["kind"] == "simps":
                        ck.ok("normalisation resolution", sub, e["n"] >= 128, f"{e['n']} panels")
            with ck.case("normalised shape", sub + ", traced"):
                R = Run(ck)
                kw = {} if zmax is None else dict(zmax=zmax)
                nz = o.make(R, **kw)
                r = R.traced(lambda q, x: R.I.call(q, [x], {}), [nz, z])
                ck.eq("normalised shape", sub + ", traced", r, arr([o(x) for x in z.flat()]), ck.valn(sub))
    def galaxies(n):
        R = Run(ck)
        sub = f"catalogue of {n} galaxies"
        with ck.case("normalised shape", sub):
            o = Kde(f"c{n}_", 2.9371, n=n)
            nz = o.make(R, zmax=2.9371)
            z2 = V("z", 0.15, 1.9, 2)
            ck.eq("parametric shape", sub, R.meth(nz, "pz_fn", z2), arr([o.pz(x) for x in z2.flat()]), ck.valn(sub))
            ck.eq("normalised shape", sub, R.I.call(nz, [z2], {}), arr([o(x) for x in z2.flat()]), ck.valn(sub))

    def queries(n):
        for name, o in kinds(3.8713):
            R = Run(ck)
            sub = f"{name} at {n} redshifts"
            with ck.case("normalised shape", sub):
                nz = o.make(R, zmax=3.8713)
                zn = V(f"z{n}_", 0.15, 1.9, n)
                ck.eq("parametric shape", sub, R.meth(nz, "pz_fn", zn), arr([o.pz(x) for x in zn.flat()]), ck.valn(sub))
                ck.eq("normalised shape", sub, R.I.call(nz, [zn], {}), arr([o(x) for x in zn.flat()]), ck.valn(sub))

    ck.steer("galaxies", galaxies, (4, 6, 9), 1100)
    ck.steer("redshifts", queries, (4, 6, 9), 600)
    # negative argument after the shift is clipped to zero redshift
    R = Run(ck)
    with ck.case("parametric shape", "shift below zero"):
        o = Shift("n", Kde("kn"))
        nz = R("redshift.systematic_shift", o.parent.make(R), P("bigshift", 0.5, 0.9))
        o.db = sym("bigshift", 0.5, 0.9)
        zz = V("zl", 0.1, 0.4, 2)
        ck.eq("parametric shape", "shift below zero", R.meth(nz, "pz_fn", zz), arr([o.pz(x) for x in zz.flat()]), ck.valn("neg"))
    # delta distributions
    for form in ("float", "array"):
        R = Run(ck)
        with ck.case("delta distribution", form):
            z0 = P("z0", 0.5, 1.0) if form == "float" else J("z0", 0.5, 1.0)
            nz = R("redshift.delta_nz", z0)
            v = ck.valn("d")
            for nm, f in (("pz_fn", lambda x: R.meth(nz, "pz_fn", x)), ("call", lambda x: R.I.call(nz, [x], {}))):
                at = R.a(f(Arr(np.array([sym("z0"), sym("zo", 0.1, 0.4), sym("zp", 1.1, 2.0)], object), "f", 0, "jnp")))
                ck.eq("delta distribution", f"{nm}, {form}", at, arr([1.0, 0.0, 0.0]), v)
                near = [sym("z0") * const(1.0 + d) for d in (5e-6, -5e-6, 2e-4, -2e-4, 5e-3, -5e-3, 0.04, -0.04)]
                at = R.a(f(Arr(np.array(near, object), "f", 0, "jnp")))
                ck.eq("delta distribution", f"{nm}, {form}, nearby redshifts", at, arr([0.0] * len(near)), v)
    # densities
    for name, o in list(kinds(10.0)) + [("delta", Delta("d"))]:
        with ck.case("density", name):
            R = Run(ck)
            v = ck.valn("dens")
            g = P("gals", 1.0, 30.0)
            nz = o.make(R, gals_per_arcmin2=g)
            ck.eq("density", name + ": gals_per_arcmin2", R.a(R.attr(nz, "gals_per_arcmin2")), arr(g.term()), v)
            ck.eq("density", name + ": gals_per_steradian", R.a(R.attr(nz, "gals_per_steradian")), arr(g.term() * ARC), v)
            nz2 = o.make(R)
            ck.eq("density", name + ": default", R.a(R.attr(nz2, "gals_per_arcmin2")), arr(1.0), v)
            R.I.call(nz, [z], {})
            ck.eq("density", name + ": after evaluation", R.a(R.attr(nz, "gals_per_steradian")), arr(g.term() * ARC), v)
    with ck.case("density", "scalar redshift"):
        for name, o in kinds(10.0):
            R = Run(ck)
            nz = o.make(R)
            s = P("zs", 0.3, 1.5)
            r = R.a(R.I.call(nz, [s], {}))
            ck.eq("normalised shape", name + ", scalar redshift", arr(r.d.reshape(-1)), arr([o(s.term())]), ck.valn("s"))

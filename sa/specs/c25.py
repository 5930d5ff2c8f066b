"""Probe kernels follow their definition, bin by bin."""
import itertools

from ..lib import *
from .oracle import *
from .c24 import Smail, Kde, Shift, Delta
from .c12 import last

RHOC1 = 5e-14 * 2.775e11


class Tab:
    """chi(z), D(z) of the oracle with the observed table sizes."""

    def __init__(self, R, c, o):
        R("background.radial_comoving_distance", c, 1.0)
        self.nchi = last(R, "interp")["n"]
        R("background.growth_factor", c, 1.0)
        self.ng = last(R, "odeint")["n"]
        self.o = o
        self.memo = {}

    def chi(self, z):
        k = ("c", z.id)
        if k not in self.memo:
            self.memo[k] = self.o.chi(1.0 / (1.0 + z), -3.0, self.nchi)
        return self.memo[k]

    def D(self, z):
        return self.o.growth(1.0 / (1.0 + z), self.ng)

    def H(self, z):
        return 100.0 * self.o.E(1.0 / (1.0 + z))


def spin2(l):
    return sqrt((l - 1.0) * l * (l + 1.0) * (l + 2.0)) / ((l + 0.5) * (l + 0.5))


def lensing(t, bin_, z, ell, zmax):
    chi = t.chi(z)
    if isinstance(bin_, Delta):
        cs = t.chi(bin_.z0)
        g = max_(cs - chi, const(0.0)) / max_(cs, const(1.0))
    else:
        def f(zp):
            cp = t.chi(zp)
            return bin_(zp) * max_(cp - chi, const(0.0)) / max_(cp, const(1.0))
        g = quad(f, z, zmax)
    return 1.5 * 1e4 * t.o.Omega_m / C_KMS * spin2(ell) * (1.0 + z) * chi * g


def nla(t, bin_, bias, z, ell):
    return bin_(z) * bias(z) * t.H(z) * (-1.0 * RHOC1 * t.o.Omega_m / t.D(z)) * spin2(ell)


def clustering(t, bin_, bias, z):
    return bin_(z) * bias(z) * t.H(z)


class CB:
    def __init__(self, tag):
        self.t = tag

    def make(self, R):
        return R("bias.constant_linear_bias", P(self.t + "b", 0.5, 2.0))

    def __call__(self, z):
        return sym(self.t + "b")


class IA:
    def __init__(self, tag):
        self.t = tag

    def make(self, R):
        return R("bias.des_y1_ia_bias", P(self.t + "A", 0.2, 1.5), P(self.t + "eta", -1.5, 1.5), P(self.t + "zp", 0.3, 0.9))

    def __call__(self, z):
        return sym(self.t + "A") * pow_((1.0 + z) / (1.0 + sym(self.t + "zp")), sym(self.t + "eta"))


class IG:
    """b / D(z)"""

    def __init__(self, tag, tab=None):
        self.t, self.tab = tag, tab

    def make(self, R):
        return R("bias.inverse_growth_linear_bias", P(self.t + "b", 0.5, 2.0))

    def __call__(self, z):
        return sym(self.t + "b", 0.5, 2.0) / self.tab.D(z)


def run(ck):
    z = V("z", 0.25, 1.4, 2)
    ell = P("ell", 20.0, 900.0)
    l = ell.term()
    zm = {"a": 4.0, "b": 3.0, "c": 3.5}

    def bins(spec):
        out = []
        for i, s in enumerate(spec):
            if s == "D":
                out.append((Delta(f"d{i}", 1.6, 2.2), {}))
            elif s == "d":
                out.append((Delta(f"dl{i}", 0.1, 0.2), {}))
            elif s == "S":
                out.append((Smail(f"s{i}", 3.8713), dict(zmax=3.8713)))
            elif s == "s":
                out.append((Smail(f"t{i}", 2.9371), dict(zmax=2.9371)))
            elif s == "X":
                out.append((Smail(f"x{i}", 37.1931, (3.0, 9.0)), dict(zmax=37.1931)))
            elif s == "y":
                out.append((Smail(f"y{i}", 0.7371), dict(zmax=0.7371)))
            elif s == "K":
                out.append((Kde(f"k{i}", 3.4619), dict(zmax=3.4619)))
            elif s == "H":
                out.append((Shift(f"h{i}", Smail(f"hp{i}", 10.0), 3.2237), dict(zmax=3.2237)))
        return out

    def zmax_of(bs):
        return max(b.zmax if not isinstance(b, Delta) else 10.0 for b, _ in bs)

    specs = ["S", "Ss", "sSK", "D", "DD", "SD", "DS", "DSDs", "dSD", "H", "HSD", "SDs", "SsD", "X", "sX", "y", "yD"]
    if ck.thorough:
        specs += ["".join(p) for p in itertools.product("SDsK", repeat=3)]
    for spec in specs:
        for gamma in ((False, True) if spec in ("Ss", "SD") or ck.thorough else (False,)):
            R = Run(ck)
            sub = f"shear {spec}" + (" gamma" if gamma else "")
            with ck.case("shear kernel", sub):
                c, o = R.cosmo(gamma), Cos(gamma=gamma)
                bs = bins(spec)
                pzs = [b.make(R, **kw) for b, kw in bs]
                tab = Tab(R, c, o)
                v = ck.valn(sub)
                zmx = zmax_of(bs)
                lens = [[lensing(tab, b, x, l, zmx) for x in z.flat()] for b, _ in bs]
                wl = R("probes.WeakLensing", pzs)
                ck.eq("shear kernel", sub + ", plain", R.meth(wl, "kernel", c, z, ell), arr(lens), v)
                ck.ok("tracer count", sub, R.attr(wl, "n_tracers") == len(spec), f"{R.attr(wl, 'n_tracers')}")
                ck.eq("maximum redshift", sub, R.a(R.attr(wl, "zmax")), arr(zmx), v)
                m = P("m", -0.1, 0.1)
                wl = R("probes.WeakLensing", pzs, multiplicative_bias=m)
                ck.eq("shear kernel", sub + ", common m", R.meth(wl, "kernel", c, z, ell), arr([[q * (1.0 + m.term()) for q in r] for r in lens]), v)
                ms = [P(f"m{i}", -0.1, 0.1) for i in range(len(spec))]
                wl = R("probes.WeakLensing", pzs, multiplicative_bias=list(ms))
                ck.eq("shear kernel", sub + ", m per bin", R.meth(wl, "kernel", c, z, ell), arr([[q * (1.0 + mi.term()) for q in r] for r, mi in zip(lens, ms)]), v)
                for e in R.I.sum_log:
                    if e["kind"] == "simps" and "lensing" in (e["caller"] or ""):
                        ck.ok("lensing efficiency resolution", sub, e["n"] >= 128, f"{e['n']} panels")
                if "D" not in spec.upper():
                    ia = IA("ia")
                    al = [[nla(tab, b, ia, x, l) for x in z.flat()] for b, _ in bs]
                    wl = R("probes.WeakLensing", pzs, ia_bias=ia.make(R), multiplicative_bias=list(ms))
                    want = [[(q + w) * (1.0 + mi.term()) for q, w in zip(r, s)] for r, s, mi in zip(lens, al, ms)]
                    ck.eq("shear kernel", sub + ", aligned, m per bin", R.meth(wl, "kernel", c, z, ell), arr(want), v)
                    ias = [IA(f"ia{i}") if i % 2 == 0 else CB(f"ia{i}") for i in range(len(spec))]
                    al = [[nla(tab, b, q, x, l) for x in z.flat()] for (b, _), q in zip(bs, ias)]
                    wl = R("probes.WeakLensing", pzs, ia_bias=[q.make(R) for q in ias])
                    want = [[q + w for q, w in zip(r, s)] for r, s in zip(lens, al)]
                    ck.eq("shear kernel", sub + ", alignment per bin", R.meth(wl, "kernel", c, z, ell), arr(want), v)
                    b1 = CB("gb")
                    nc = R("probes.NumberCounts", pzs, b1.make(R))
                    want = [[clustering(tab, b, b1, x) for x in z.flat()] for b, _ in bs]
                    ck.eq("clustering kernel", sub + ", one bias", R.meth(nc, "kernel", c, z, ell), arr(want), v)
                    bb = [CB(f"gb{i}") if i % 2 else IG(f"gb{i}", tab) for i in range(len(spec))]
                    nc = R("probes.NumberCounts", pzs, [q.make(R) for q in bb])
                    want = [[clustering(tab, b, q, x) for x in z.flat()] for (b, _), q in zip(bs, bb)]
                    ck.eq("clustering kernel", sub + ", bias per bin", R.meth(nc, "kernel", c, z, ell), arr(want), v)
                    ck.ok("tracer count", sub + " clustering", R.attr(nc, "n_tracers") == len(spec), f"{R.attr(nc, 'n_tracers')}")
                    ck.eq("maximum redshift", sub + " clustering", R.a(R.attr(nc, "zmax")), arr(zmx), v)
    # many bins, many redshifts
    def many(n, nz):
        R = Run(ck)
        sub = f"{n} bins at {nz} redshifts"
        with ck.case("scaled kernels", sub):
            c, o = R.cosmo(), Cos()
            tab = Tab(R, c, o)
            v = ck.valn(sub)
            zz = V(f"z{nz}_", 0.25, 1.4, nz)
            zs = zz.flat()
            mix = [(Delta(f"md{i}", 1.0, 2.2), {}) if i % 3 == 1 else (Smail(f"ms{i}", 2.1 + 0.0371 * i), dict(zmax=2.1 + 0.0371 * i)) for i in range(n)]
            ext = [(Smail(f"me{i}", 2.1 + 0.0371 * i), dict(zmax=2.1 + 0.0371 * i)) for i in range(n)]
            ms = [P(f"m{i}", -0.1, 0.1) for i in range(n)]
            zm = zmax_of(mix)
            wl = R("probes.WeakLensing", [b.make(R, **k) for b, k in mix], multiplicative_bias=list(ms))
            ck.eq("scaled kernels", sub + ", shear", R.meth(wl, "kernel", c, zz, ell), arr([[lensing(tab, b, x, l, zm) * (1.0 + m.term()) for x in zs] for (b, _), m in zip(mix, ms)]), v)
            ias = [IA(f"ia{i}") if i % 2 == 0 else CB(f"ia{i}") for i in range(n)]
            wl = R("probes.WeakLensing", [b.make(R, **k) for b, k in ext], ia_bias=[q.make(R) for q in ias])
            zm = zmax_of(ext)
            ck.eq("scaled kernels", sub + ", aligned shear", R.meth(wl, "kernel", c, zz, ell), arr([[lensing(tab, b, x, l, zm) + nla(tab, b, q, x, l) for x in zs] for (b, _), q in zip(ext, ias)]), v)
            bb = [CB(f"gb{i}") if i % 2 else IG(f"gb{i}", tab) for i in range(n)]
            nc = R("probes.NumberCounts", [b.make(R, **k) for b, k in ext], [q.make(R) for q in bb])
            ck.eq("scaled kernels", sub + ", clustering", R.meth(nc, "kernel", c, zz, ell), arr([[clustering(tab, b, q, x) for x in zs] for (b, _), q in zip(ext, bb)]), v)
            for p, q in ((wl, n), (nc, n)):
                ck.ok("tracer count", sub, R.attr(p, "n_tracers") == q, f"{R.attr(p, 'n_tracers')}")
                ck.eq("maximum redshift", sub, R.a(R.attr(p, "zmax")), arr(zm), v)

    ck.steer("bins", lambda n: many(n, 1), (3, 4, 6), 24)
    ck.steer("redshifts", lambda n: many(1, n), (3, 4, 6), 150)
    # one and the same object in several places
    for spec in ("Ss", "sS", "SD", "H", "K"):
        for order in ([0, 0], [0, 0, 1], [1, 0, 0], [0, 1, 0], [0, 1, 1, 0]):
            if max(order) >= len(spec):
                continue
            R = Run(ck)
            sub = f"bins {order} of {spec}"
            with ck.case("same object twice", sub):
                c, o = R.cosmo(), Cos()
                tab = Tab(R, c, o)
                v = ck.valn(sub)
                bs = bins(spec)
                made = [b.make(R, **kw) for b, kw in bs]
                pzs, bs = [made[i] for i in order], [bs[i] for i in order]
                zmx = zmax_of(bs)
                ms = [P("m0", -0.1, 0.1), P("m1", -0.1, 0.1)]
                mm = [ms[i] for i in order]
                lens = [[lensing(tab, b, x, l, zmx) for x in z.flat()] for b, _ in bs]
                w = R("probes.WeakLensing", list(pzs), multiplicative_bias=mm)
                ck.eq("same object twice", sub + ", shear", R.meth(w, "kernel", c, z, ell), arr([[q * (1.0 + m.term()) for q in r] for r, m in zip(lens, mm)]), v)
                ck.ok("tracer count", sub, R.attr(w, "n_tracers") == len(order), f"{R.attr(w, 'n_tracers')}")
                if "D" in spec:
                    continue
                for bo in (order, [0] * len(order), [1] + [0] * (len(order) - 1), [1, 0] + [0] * (len(order) - 2)):
                    qs = [IA("q0"), CB("q1")]
                    mk2 = [q.make(R) for q in qs]
                    use = [qs[i] for i in bo]
                    s2 = f"{sub}, biases {bo}"
                    w = R("probes.WeakLensing", list(pzs), ia_bias=[mk2[i] for i in bo])
                    want = [[q + nla(tab, b, u, x, l) for q, x in zip(r, z.flat())] for r, (b, _), u in zip(lens, bs, use)]
                    ck.eq("same object twice", s2 + ", aligned shear", R.meth(w, "kernel", c, z, ell), arr(want), v)
                    w = R("probes.NumberCounts", list(pzs), [mk2[i] for i in bo])
                    want = [[clustering(tab, b, u, x) for x in z.flat()] for (b, _), u in zip(bs, use)]
                    ck.eq("same object twice", s2 + ", clustering", R.meth(w, "kernel", c, z, ell), arr(want), v)
    # low multipoles and module-level kernels
    R = Run(ck)
    with ck.case("shear kernel", "module functions"):
        c, o = R.cosmo(), Cos()
        bs = bins("Ss")
        pzs = [b.make(R, **kw) for b, kw in bs]
        tab = Tab(R, c, o)
        v = ck.valn("mf")
        l2 = P("ell2", 2.0, 6.0)
        zmx = zmax_of(bs)
        ck.eq("shear kernel", "weak_lensing_kernel", R("probes.weak_lensing_kernel", c, pzs, z, l2), arr([[lensing(tab, b, x, l2.term(), zmx) for x in z.flat()] for b, _ in bs]), v)
        ia = IA("ia")
        ck.eq("shear kernel", "nla_kernel", R("probes.nla_kernel", c, pzs, ia.make(R), z, l2), arr([[nla(tab, b, ia, x, l2.term()) for x in z.flat()] for b, _ in bs]), v)
        cb = CB("gb")
        ck.eq("clustering kernel", "density_kernel", R("probes.density_kernel", c, pzs, cb.make(R), z, l2), arr([[clustering(tab, b, cb, x) for x in z.flat()] for b, _ in bs]), v)

"""Angular spectra are Limber integrals of tracer kernel pairs."""
from .common import *
from .oracle import *
from .c25 import Tab, lensing, clustering, nla, CB, IA, C_KMS
from .c24 import Smail, Delta


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i, n)]


def a_nodes(zmax):
    """The scale factors of the two-node quadrature from the deepest redshift to today."""
    a0 = 1.0 / (1.0 + const(zmax))
    w = 1.0 - a0
    return w, [a0 + x * w for x in xis()]


def limber(tab, kern, ell, zmax, P_):
    """C_ij(ell) from kern(t, z, ell), the kernel of tracer t, and P_(k, a)."""
    def f(i, j, l):
        w, nodes = a_nodes(zmax)
        s = []
        for a in nodes:
            z = 1.0 / a - 1.0
            chi = tab.o.chi(a, -3.0, tab.nchi)
            k = (l + 0.5) / max_(chi, const(1.0))
            s.append(kern(i, z, l) * kern(j, z, l) * P_(k, a) * tab.o.dchida(a) / max_(chi * chi, const(1.0)))
        return w * (0.5 * (s[0] + s[1])) / (C_KMS * C_KMS)
    return f


class Tracer:
    """One tracer: how the code builds it and what its kernel is."""

    def __init__(self, bin_, kw, kind, m=0.0, bias=None, ia=None):
        self.bin, self.kw, self.kind, self.m, self.bias, self.ia = bin_, kw, kind, m, bias, ia


def wl(bins, m=None, ia=None):
    return ("wl", bins, m, ia)


def nc(bins, bias):
    return ("nc", bins, bias, None)


def S_(i, zmax, **k):
    return (Smail(f"s{i}", zmax), dict(zmax=zmax, **k))


def D_(i, lo=1.0, hi=1.6, **k):
    return (Delta(f"d{i}", lo, hi), dict(k))


def build_probe(R, p):
    kind, bins, x, ia = p
    pzs = [b.make(R, **kw) for b, kw in bins]
    if kind == "wl":
        kw = {}
        if x is not None:
            kw["multiplicative_bias"] = x
        if ia is not None:
            kw["ia_bias"] = ia.make(R)
        return R(WL, pzs, **kw)
    return R(NC, pzs, x.make(R) if not isinstance(x, list) else [y.make(R) for y in x])


def zmax_of(p):
    return max(10.0 if isinstance(b, Delta) else b.zmax for b, _ in p[1])


def kernels(tab, probes):
    """[kernel(z, ell)] of every tracer, in probe-then-bin order."""
    out = []
    for kind, bins, x, ia in probes:
        zm = zmax_of((kind, bins))
        for i, (b, _) in enumerate(bins):
            if kind == "wl":
                m = 0.0 if x is None else (x[i] if isinstance(x, list) else x).term()

                def f(z, l, b=b, zm=zm, m=m, ia=ia):
                    r = lensing(tab, b, z, l, zm)
                    if ia is not None:
                        r = r + nla(tab, b, ia, z, l)
                    return r * (1.0 + m)
            else:
                def f(z, l, b=b, q=(x[i] if isinstance(x, list) else x)):
                    return clustering(tab, b, q, z)
            out.append(f)
    return out


def configs(thorough):
    m, ms = P("m", -.1, .1), [P("m0", -.1, .1), P("m1", -.1, .1)]
    out = [
        ("one delta shear bin", [wl([D_(0)])]),
        ("one deep clustering bin", [nc([(Smail("sx", 37.1931, (3.0, 9.0)), dict(zmax=37.1931))], CB("bx"))]),
        ("one shallow clustering bin", [nc([(Smail("sy", 0.3371, (0.1, 0.2)), dict(zmax=0.3371))], CB("by"))]),
        ("deep shear bin", [wl([(Smail("sx", 37.1931, (3.0, 9.0)), dict(zmax=37.1931))]), nc([S_(2, 2.1379)], CB("b"))]),
        ("two delta shear bins", [wl([D_(0), D_(1, 0.6, 0.9)], ms)]),
        ("clustering, two bins", [nc([S_(0, 2.9371), S_(1, 2.1379)], [CB("ba"), CB("bb")])]),
        ("shear bins", [wl([S_(0, 3.8713), S_(1, 2.1379)], m, IA("ia"))]),
        ("shear, clustering, deep first", [wl([S_(0, 3.8713), D_(1)], m), nc([S_(2, 2.1379)], CB("b"))]),
        ("clustering, shear, deep last", [nc([S_(0, 2.1379)], CB("b")), wl([S_(1, 3.4619)])]),
        ("clustering twice, shear", [nc([S_(0, 2.9371), S_(1, 2.5173)], CB("b0")), nc([S_(2, 4.8391)], CB("b1")), wl([D_(3)], m)]),
    ]
    if thorough:
        out += [
            ("three shear bins, two clustering bins", [wl([S_(0, 3.8713), D_(1), S_(2, 2.9371)], m), nc([S_(3, 2.9371), S_(4, 2.5173)], CB("b"))]),
            ("four probes", [nc([S_(0, 1.6127)], CB("b0")), wl([D_(1)]), nc([S_(2, 2.5173)], CB("b1")), wl([S_(3, 2.9371)], m, IA("i"))]),
            ("same bins in both probes", [nc([S_(0, 2.9371), S_(1, 3.4619)], CB("b0")), wl([S_(0, 2.9371), S_(1, 3.4619)], ms)]),
        ]
    return out


def run(ck):
    ell = V("ell", 20.0, 900.0, 3)
    ls = ell.flat()
    for name, probes in configs(ck.thorough):
        for gamma in ((False, True) if ck.thorough or name == "shear bins" else (False,)):
            R = Run(ck)
            sub = name + (" gamma" if gamma else "")
            with ck.case("Limber spectra", sub):
                c, o = R.cosmo(gamma), Cos(gamma=gamma)
                tab = Tab(R, c, o)
                v = ck.valn(sub)
                ps = [build_probe(R, p) for p in probes]
                kern = kernels(tab, probes)
                memo = {}

                def kf(t, z, l):
                    k = (t, z.id, l.id)
                    if k not in memo:
                        memo[k] = kern[t](z, l)
                    return memo[k]

                f = limber(tab, kf, ell, max(zmax_of(p) for p in probes), pk)
                n0 = len(R.I.sum_log)
                got = R("angular_cl.angular_cl", c, ell, ps, nonlinear_fn=opaque_pk())
                want = [[f(i, j, l) for l in ls] for i, j in pairs(len(kern))]
                ck.ok("one row per pair", sub, shape(got) == (len(want), len(ls)), f"shape {shape(got)} for {len(kern)} tracers and {len(ls)} multipoles")
                ck.eq("Limber spectra", sub, got, arr(want), v)
                lim = [e for e in R.I.sum_log[n0:] if e["kind"] == "simps" and "angular_cl" in str(e["caller"])]
                for e in R.I.sum_log[n0:]:
                    if e["kind"] == "simps" and "pz" not in str(e["caller"]):
                        ck.ok("resolution", f"{sub}, {e['caller']}", e["n"] >= 128, f"{e['n']} panels")
    def many(n, nl):
        R = Run(ck)
        sub = f"{n} bins, {nl} multipoles"
        with ck.case("Limber spectra", sub):
            c, o = R.cosmo(), Cos()
            tab = Tab(R, c, o)
            probes = [nc([S_(i, 1.6 + 0.0971 * i) for i in range(n)], [CB(f"b{i}") for i in range(n)])]
            kern = kernels(tab, probes)
            l2 = V("ell", 20.0, 900.0, nl)
            memo = {}

            def kf(t, z, l):
                if (t, z.id) not in memo:
                    memo[t, z.id] = kern[t](z, l)
                return memo[t, z.id]

            f = limber(tab, kf, l2, zmax_of(probes[0]), pk)
            got = R("angular_cl.angular_cl", c, l2, [build_probe(R, p) for p in probes], nonlinear_fn=opaque_pk())
            ck.eq("Limber spectra", sub, got, arr([[f(i, j, l) for l in l2.flat()] for i, j in pairs(n)]), ck.valn(sub))

    def probes(n):
        R = Run(ck)
        sub = f"{n} probes"
        with ck.case("Limber spectra", sub):
            c, o = R.cosmo(), Cos()
            tab = Tab(R, c, o)
            ps = [nc([S_(i, 1.6 + 0.0971 * i)], CB(f"b{i}")) if i % 3 != 1 else wl([S_(i, 1.6 + 0.0971 * i)], P(f"m{i}", -.1, .1)) for i in range(n)]
            kern = kernels(tab, ps)
            l2 = V("ell", 20.0, 900.0, 1)
            memo = {}

            def kf(t, z, l):
                if (t, z.id) not in memo:
                    memo[t, z.id] = kern[t](z, l)
                return memo[t, z.id]

            f = limber(tab, kf, l2, max(zmax_of(p) for p in ps), pk)
            got = R("angular_cl.angular_cl", c, l2, [build_probe(R, p) for p in ps], nonlinear_fn=opaque_pk())
            ck.eq("Limber spectra", sub, got, arr([[f(i, j, l) for l in l2.flat()] for i, j in pairs(n)]), ck.valn(sub))

    ck.steer("probes", probes, (1, 2, 4, 5), 12)
    ck.steer("bins", lambda n: many(n, 2), (3, 4, 6), 14)
    ck.steer("multipoles", lambda n: many(1, n), (3, 5, 8), 150)
    # one and the same probe or redshift distribution in several places
    A_, B_ = nc([S_(0, 2.9371)], CB("b0")), wl([D_(1)], P("m", -.1, .1))
    b0, b1 = S_(2, 2.9371), S_(3, 2.1379)
    for name, order, shared in (("A A", [0, 0], None), ("A B A", [0, 1, 0], None), ("B B A", [1, 1, 0], None), ("A A B B", [0, 0, 1, 1], None),
                                ("bins p p q", None, [0, 0, 1]), ("bins p q p", None, [0, 1, 0]), ("bins q, p p", None, [1, 0, 0])):
        R = Run(ck)
        with ck.case("same object twice", name):
            c, o = R.cosmo(), Cos()
            tab = Tab(R, c, o)
            if order is not None:
                made = [build_probe(R, p) for p in (A_, B_)]
                ps, spec = [made[i] for i in order], [(A_, B_)[i] for i in order]
            else:
                made = [b.make(R, **kw) for b, kw in (b0, b1)]
                bb = [(b0, b1)[i] for i in shared]
                ms = [P(f"m{i}", -.1, .1) for i in range(3)]
                spec = [nc(bb, CB("b0")), wl(bb, ms)]
                ps = [R(NC, [made[i] for i in shared], spec[0][2].make(R)), R(WL, [made[i] for i in shared], multiplicative_bias=list(ms))]
            kern = kernels(tab, spec)
            l2 = V("ell", 20.0, 900.0, 2)
            f = limber(tab, lambda t, z, l: kern[t](z, l), l2, max(zmax_of(p) for p in spec), pk)
            want = [[f(i, j, l) for l in l2.flat()] for i, j in pairs(len(kern))]
            ck.eq("same object twice", name, R("angular_cl.angular_cl", c, l2, ps, nonlinear_fn=opaque_pk()), arr(want), ck.valn(name))
            mean, _ = R("angular_cl.gaussian_cl_covariance_and_mean", c, l2, ps, nonlinear_fn=opaque_pk())
            ck.eq("same object twice", name + ", companion mean", mean, arr([x for r in want for x in r]), ck.valn(name))
    # the power spectrum that is integrated: default and chosen functions
    for name, kw in (("default", {}), ("chosen transfer", dict(transfer_fn="T")), ("chosen nonlinear", dict(nonlinear_fn="smith")),
                     ("linear", dict(nonlinear_fn="linear")), ("linear, chosen transfer", dict(nonlinear_fn="linear", transfer_fn="T"))):
        R = Run(ck)
        with ck.case("chosen power spectrum", name):
            c, o = R.cosmo(), Cos()
            tab = Tab(R, c, o)
            v = ck.valn(name)
            probes = [nc([S_(0, 2.9371)], CB("b0"))]
            ps = [build_probe(R, p) for p in probes]
            kern = kernels(tab, probes)
            k2 = {}
            tf = R.get("transfer.Eisenstein_Hu")
            if "transfer_fn" in kw:
                tf = k2["transfer_fn"] = opaque_fn("T")
            nl = R.get("power.halofit")
            if kw.get("nonlinear_fn") == "smith":
                nl = k2["nonlinear_fn"] = NF("smith", lambda I, a, k: I.call(R.get("power.halofit"), a, dict(k, prescription="smith2003")))
            elif kw.get("nonlinear_fn") == "linear":
                nl = k2["nonlinear_fn"] = R.get("power.linear")

            def pk_(k, a):
                return R.a(R.I.call(nl, [c, Arr(oa([k]), "f", 0, "jnp"), Arr(oa([a]), "f", 0, "jnp"), tf], {})).flat()[0]

            f = limber(tab, lambda t, z, l: kern[t](z, l), ell, 2.9371, pk_)
            l2 = V("ell", 20.0, 900.0, 1)
            ck.eq("chosen power spectrum", name, R("angular_cl.angular_cl", c, l2, ps, **k2), arr([[f(0, 0, l2.flat()[0])]]), v)
            k2.setdefault("nonlinear_fn", nl)
            mean, _ = R("angular_cl.gaussian_cl_covariance_and_mean", c, ell, ps, **k2)
            ck.eq("chosen power spectrum", name + ", companion mean", mean, arr([f(0, 0, l) for l in ls]), v)

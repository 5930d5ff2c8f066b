"""The linear power spectrum is normalised to sigma8."""
from ..lib import *
from .oracle import *
from .c11 import build
from .c12 import last


def opaque_fn(name, log=None, positive=True):
    """Uninterpreted transfer function of (cosmo, k, **options)."""

    def f(I, a, k):
        cosmo, kk = a[0], I.arr(a[1] if len(a) > 1 else k["k"])
        opts = [v for n, v in sorted(k.items()) if n != "k"]
        ts = [I.arr(v).term() if not isinstance(v, str) else const(float(sum(map(ord, v)))) for v in opts] + [I.arr(x).term() for x in a[2:]]
        if log is not None:
            log.append((kk, dict(k), list(a[2:])))
        d = np.frompyfunc(lambda t: mk("exp", opaque(name, t, *ts)), 1, 1)(kk.d)
        return M.result(I, oa(d), "f", [kk], "jnp")

    return NF(name, f)


def opaque_T(name, *opts):
    return lambda k: mk("exp", opaque(name, k, *opts))


def sigma2(o, Tf, R, kmin=1e-4, kmax=1e3):
    def f(x):
        k = exp(x)
        w = tophat(k * R)
        t = Tf(k)
        return k * k * k * pow_(k, o.n_s) * t * t * w * w
    return quad(f, log(T_(kmin)), log(T_(kmax))) / (2.0 * PI * PI)


def linear(o, Tf, k, a, ng, kmin=1e-4, kmax=1e3):
    D = o.growth(a, ng)
    t = Tf(k)
    return o.sigma8 * o.sigma8 / sigma2(o, Tf, T_(8.0), kmin, kmax) * pow_(k, o.n_s) * t * t * D * D


def ngrow(R, c):
    R("background.growth_factor", c, 1.0)
    return last(R, "odeint")["n"]


def run(ck):
    vs = (("general", {}, False), ("gamma", {}, True), ("flat", dict(Omega_k=0.0), False), ("LCDM", dict(w0=-1.0, wa=0.0), False))
    k = V("k", 0.003, 4.0, 3)
    a = V("a", 0.1, 0.95, 3)
    for name, over, gamma in vs:
        for tf in ("default", "nowiggle", "opaque", "opaque+options"):
            R = Run(ck)
            sub = f"{name}, {tf} transfer"
            with ck.case("linear power", sub):
                c, o = build(R, over, gamma)
                v = ck.valn(sub)
                ng = ngrow(R, c)
                kw = {}
                if tf == "default":
                    Tf = o.eh
                elif tf == "nowiggle":
                    Tf = lambda q: o.eh(q, False)
                    kw = dict(type="eisenhu")
                elif tf == "opaque":
                    kw = dict(transfer_fn=opaque_fn("T"))
                    Tf = opaque_T("T")
                else:
                    kw = dict(transfer_fn=opaque_fn("T"), alpha=P("alpha", 0.5, 1.5))
                    Tf = opaque_T("T", sym("alpha", 0.5, 1.5))
                fn = "power.linear_matter_power"
                want = [linear(o, Tf, x, y, ng) for x, y in zip(k.flat(), a.flat())]
                ck.eq("linear power", sub, R(fn, c, k, a, **kw), arr(want), v)
                ck.eq("linear power", sub + ", scalar a", R(fn, c, k, P("a1x", 0.2, 0.9), **kw), arr([linear(o, Tf, x, sym("a1x"), ng) for x in k.flat()]), v)
                ck.eq("linear power", sub + ", today", R(fn, c, k, **kw), arr([linear(o, Tf, x, T_(1.0), ng) for x in k.flat()]), v)
                ck.eq("linear power", sub + ", scalar k", R(fn, c, P("k1x", 0.01, 1.0), a, **kw), arr([linear(o, Tf, sym("k1x"), x, ng) for x in a.flat()]), v)
                for e in R.I.sum_log:
                    if e["kind"] == "romb":
                        ck.ok("variance resolution", sub, e["n"] >= 64, f"{e['n']} panels")
        R = Run(ck)
        with ck.case("variance", name):
            c, o = build(R, over, gamma)
            v = ck.valn(name)
            rad = P("R", 0.5, 30.0)
            fn = "power.sigmasqr"
            ck.eq("variance", name + ", default limits", R.a(R(fn, c, rad, opaque_fn("T"))).flat()[0], sigma2(o, opaque_T("T"), rad.term()), v)
            k0, k1 = P("kmin", 1e-4, 1e-2), P("kmax", 1.0, 50.0)
            ck.eq("variance", name + ", limits", R.a(R(fn, c, rad, opaque_fn("T"), kmin=k0, kmax=k1)).flat()[0], sigma2(o, opaque_T("T"), rad.term(), k0.term(), k1.term()), v)
            ck.eq("variance", name + ", options", R.a(R(fn, c, rad, opaque_fn("T"), kmin=k0, kmax=k1, alpha=P("alpha"))).flat()[0],
                  sigma2(o, opaque_T("T", sym("alpha")), rad.term(), k0.term(), k1.term()), v)
            ck.eq("variance", name + ", transfer option", R.a(R(fn, c, rad, R.get("transfer.Eisenstein_Hu"), type="eisenhu")).flat()[0],
                  sigma2(o, lambda q: o.eh(q, False), rad.term()), v)
            ck.eq("primordial spectrum", name, R("power.primordial_matter_power", c, k), arr([pow_(x, o.n_s) for x in k.flat()]), v)
    R = Run(ck)
    with ck.case("linear power", "traced"):
        d = cosmo_args()
        names = list(d)

        def body(kk, aa, *vals):
            c = R("Cosmology", **dict(zip(names, vals)))
            return R("power.linear_matter_power", c, kk, aa)

        r = R.traced(body, [k, a] + list(d.values()))
        o = Cos()
        ng = last(R, "odeint")["n"]
        ck.eq("linear power", "traced", r, arr([linear(o, o.eh, x, y, ng) for x, y in zip(k.flat(), a.flat())]), ck.valn("t"))

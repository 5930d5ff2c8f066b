"""Options chosen by the caller reach the computation they name."""
from .common import *
from .common import _NP
from .oracle import *
from .c14 import opaque_T, sigma2, linear as lin, ngrow
from .c11 import build
from .c20 import knox, dense


def run(ck):
    k, a = V("k", 0.05, 2.0, 2), V("a", 0.3, 0.9, 2)
    ell = V("ell", 20.0, 900.0, 3)

    # ------------------------------------------------ defaults are the documented ones, everywhere the same
    def default(sub, f, short, **full):
        R = Run(ck)
        with ck.case("default", sub):
            g = f(R)
            full_ = {n: (x(R) if callable(x) else x) for n, x in full.items()}
            w = {n: (x(R) if callable(x) else x) for n, x in short.items()}
            ck.same("default", sub, g(**w), g(**dict(full_, **w)), ck.valn(sub))

    eh = lambda R: R.get("transfer.Eisenstein_Hu")
    hf = lambda R: R.get("power.halofit")
    C = lambda R: R.cosmo()
    pl = lambda: _NP(Num())
    two = lambda R: [R(WL, [smailg(R, pl(), "u", zmax=3.8713)], multiplicative_bias=P("m", -.1, .1)), R(NC, [smailg(R, pl(), "v", zmax=2.9371)], cb(R, pl()))]
    one = lambda R: [R(NC, [smailg(R, pl(), "v", zmax=2.9371)], cb(R, pl()))]
    S, N = mat("S", 3, 3, 0.5, 2.0), mat("N", 3, 3, 0.1, 0.4)

    def fn(path, *mk_):
        return lambda R: (lambda args=[m(R) if callable(m) else m for m in mk_]: (lambda **kw: R(path, *args, **kw)))()

    default("radial_comoving_distance", fn("background.radial_comoving_distance", C, a), {}, log10_amin=-3, steps=256)
    default("Eisenstein_Hu", fn("transfer.Eisenstein_Hu", C, k), {}, type="eisenhu_osc")
    default("linear_matter_power", fn("power.linear_matter_power", C, k), {}, a=1.0, transfer_fn=eh)
    default("linear_matter_power, options", fn("power.linear_matter_power", C, k), {}, a=1.0, transfer_fn=eh, type="eisenhu_osc")
    default("linear_matter_power, smooth", fn("power.linear_matter_power", C, k, a), dict(type="eisenhu"), transfer_fn=eh)
    default("sigmasqr", fn("power.sigmasqr", C, P("R", 1.0, 20.0), eh), {}, kmin=0.0001, kmax=1000.0)
    default("halofit", fn("power.halofit", C, k, a, eh), {}, prescription="takahashi2012")
    default("nonlinear_matter_power", fn("power.nonlinear_matter_power", C, k), {}, a=1.0, transfer_fn=eh, nonlinear_fn=hf)
    default("nonlinear_matter_power, linear", fn("power.nonlinear_matter_power", C, k, a), dict(nonlinear_fn=lambda R: R.get("power.linear")), transfer_fn=eh)
    default("angular_cl", fn("angular_cl.angular_cl", C, V("ell", 20.0, 900.0, 1), one), {}, transfer_fn=eh, nonlinear_fn=hf)
    default("gaussian_cl_covariance", fn("angular_cl.gaussian_cl_covariance", ell, two, S, N), {}, f_sky=0.25, sparse=True)
    default("gaussian_cl_covariance, dense", fn("angular_cl.gaussian_cl_covariance", ell, two, S, N), dict(sparse=False), f_sky=0.25)
    default("gaussian_cl_covariance_and_mean", fn("angular_cl.gaussian_cl_covariance_and_mean", C, V("ell", 20.0, 900.0, 2), one), {}, transfer_fn=eh, nonlinear_fn=hf, f_sky=0.25, sparse=False)
    default("gaussian_cl_covariance_and_mean, sparse", fn("angular_cl.gaussian_cl_covariance_and_mean", C, V("ell", 20.0, 900.0, 2), one), dict(nonlinear_fn=opaque_pk(), sparse=True), transfer_fn=eh, f_sky=0.25)
    lk = fn("likelihood.gaussian_log_likelihood", V("d", -1., 1., 3), V("mu", -1., 1., 3), mat("C", 3, spd=True))
    default("gaussian_log_likelihood", lk, {}, include_logdet=True, inverse_method="inverse")
    default("gaussian_log_likelihood, no determinant", lk, dict(include_logdet=False), inverse_method="inverse")
    default("gaussian_log_likelihood, cholesky", lk, dict(inverse_method="cholesky"), include_logdet=True)
    sp = fn("scipy.interpolate.InterpolatedUnivariateSpline", V("x", 0.2, 2., 6), V("y", -1., 1., 6))
    for q in (1, 2, 3):
        default(f"spline of order {q}", sp, dict(k=q), endpoints="not-a-knot")
    default("spline", sp, {}, k=3, endpoints="not-a-knot")
    default("natural spline", sp, dict(endpoints="natural"), k=3)
    fx = NF("f", lambda I, x, kw: mkf(I, x))
    K = Run(ck, summaries=False)

    def kernel(sub, x, y):
        with ck.case("default", sub):
            ck.same("default", sub, x(), y(), ck.valn(sub))

    lo, hi = P("lo", 0., .4), P("hi", 1., 2.)
    kernel("simps", lambda: K("scipy.integrate.simps", fx, lo, hi), lambda: K("scipy.integrate.simps", fx, lo, hi, N=128))
    kernel("romb", lambda: K("scipy.integrate.romb", fx, lo, hi), lambda: K("scipy.integrate.romb", fx, lo, hi, args=(), divmax=6, return_error=False))
    wlb = lambda R: [smailg(R, pl(), "u", zmax=3.8713), smailg(R, pl(), "v", zmax=2.9371)]
    z = Z()

    def probe(cls, *mk_):
        def f(R):
            args = [m(R) for m in mk_]
            c = R.cosmo()

            def g(**kw):
                q = R(cls, *args, **kw)
                return [R.meth(q, "kernel", c, z, P("ellq", 20., 900.)), R.meth(q, "noise"), R.attr(q, "n_tracers"), R.attr(q, "zmax")]
            return g
        return f

    default("WeakLensing", probe(WL, wlb), {}, ia_bias=None, multiplicative_bias=0.0, sigma_e=0.26)
    default("WeakLensing, alignment", probe(WL, wlb), dict(ia_bias=lambda R: cb(R, pl())), multiplicative_bias=0.0, sigma_e=0.26)
    default("NumberCounts", probe(NC, wlb, lambda R: cb(R, pl())), {}, has_rsd=False)
    for n, mk_ in (("smail_nz", lambda R, **kw: smail(R, pl(), **kw)), ("delta_nz", lambda R, **kw: delta(R, pl(), **kw)), ("kde_nz", lambda R, **kw: kde(R, pl(), **kw)),
                   ("systematic_shift", lambda R, **kw: shift(R, pl(), **kw))):
        def f(R, mk_=mk_):
            def g(**kw):
                q = mk_(R, **kw)
                return [R.I.call(q, [z], {}), R.attr(q, "gals_per_arcmin2"), R.a(R.attr(q, "gals_per_steradian")), R.attr(q, "zmax")]
            return g
        default(n, f, {}, gals_per_arcmin2=1.0, zmax=10.0)
        default(n + " with density", f, dict(gals_per_arcmin2=P("g", 2., 9.)), zmax=10.0)
        default(n + " with zmax", f, dict(zmax=3.4619), gals_per_arcmin2=1.0)

    # ------------------------------------------------ positional and keyword choices mean the same
    def posit(sub, f, names, vals, base=()):
        R = Run(ck)
        with ck.case("position", sub):
            g = R.get(f) if isinstance(f, str) else f(R)
            b = [x(R) if callable(x) and not isinstance(x, NF) else x for x in base]
            v = [x(R) if callable(x) and not isinstance(x, NF) else x for x in vals]
            kw = R.I.call(g, list(b), dict(zip(names, v)))
            for i in range(1, len(v) + 1):
                ck.same("position", f"{sub}, {i} positional", R.I.call(g, list(b) + v[:i], dict(zip(names[i:], v[i:]))), kw, ck.valn(sub))

    T = opaque_fn("T")
    NL = opaque_pk()
    posit("radial_comoving_distance", "background.radial_comoving_distance", ["log10_amin", "steps"], [-2, 64], [C, a])
    posit("linear_matter_power", "power.linear_matter_power", ["a", "transfer_fn"], [a, T], [C, k])
    posit("sigmasqr", "power.sigmasqr", ["transfer_fn", "kmin", "kmax"], [T, P("k0", 1e-4, 1e-3), P("k1", 1., 9.)], [C, P("R", 1., 20.)])
    posit("halofit", "power.halofit", ["transfer_fn", "prescription"], [T, "smith2003"], [C, k, a])
    posit("nonlinear_matter_power", "power.nonlinear_matter_power", ["a", "transfer_fn", "nonlinear_fn"], [a, T, NL], [C, k])
    posit("angular_cl", "angular_cl.angular_cl", ["transfer_fn", "nonlinear_fn"], [T, NL], [C, ell, two])
    posit("gaussian_cl_covariance", "angular_cl.gaussian_cl_covariance", ["f_sky", "sparse"], [P("fsky", .1, .9), False], [ell, two, S, N])
    posit("gaussian_cl_covariance_and_mean", "angular_cl.gaussian_cl_covariance_and_mean", ["transfer_fn", "nonlinear_fn", "f_sky", "sparse"], [T, NL, P("fsky", .1, .9), True], [C, ell, one])
    posit("gaussian_log_likelihood", "likelihood.gaussian_log_likelihood", ["include_logdet", "inverse_method"], [False, "cholesky"], [V("d", -1., 1., 3), V("mu", -1., 1., 3), mat("C", 3, spd=True)])
    posit("gaussian_log_likelihood, determinant", "likelihood.gaussian_log_likelihood", ["include_logdet", "inverse_method"], [True, "cholesky"], [V("d", -1., 1., 3), V("mu", -1., 1., 3), mat("C", 3, spd=True)])

    # ------------------------------------------------ wrappers hand the choice on
    def has(e, name, i, want):
        x = e["kw"].get(name, e["args"][i] if i < len(e["args"]) else None)
        return x is want

    for scalar in (False, True):
        R = Run(ck)
        with ck.case("forwarding", "nonlinear_matter_power"):
            log = []
            nl = opaque_pk(log)
            c = R.cosmo()
            aa = P("as", 0.3, 0.9) if scalar else a
            r = R("power.nonlinear_matter_power", c, k, aa, T, nl)
            s = f", scalar a" if scalar else ""
            ck.eq("forwarding", "nonlinear_matter_power" + s, r, arr([pk(x, y) for x, y in zip(k.flat(), terms(aa) * 2)]), ck.valn("nl"))
            ck.ok("forwarding", "nonlinear_matter_power hands on cosmology and transfer function" + s, bool(log) and all(e["args"] and ck.diff(e["args"][0], c, ck.valn(), "") is None and has(e, "transfer_fn", 3, T) for e in log), f"{len(log)} calls")
    probes = {"clustering": one, "shear and clustering": two}
    for name, mkp in probes.items():
        for w in ("angular_cl", "gaussian_cl_covariance_and_mean"):
            for how in ("chosen", "default transfer"):
                R = Run(ck)
                sub = f"{w} of {name}, {how}"
                with ck.case("forwarding", sub):
                    log = []
                    c = R.cosmo()
                    kw = dict(nonlinear_fn=opaque_pk(log))
                    tf = R.get("transfer.Eisenstein_Hu")
                    if how == "chosen":
                        tf = kw["transfer_fn"] = T
                    R("angular_cl." + w, c, ell, mkp(R), **kw)
                    ck.ok("forwarding", sub, bool(log) and all(has(e, "transfer_fn", 3, tf) for e in log), f"{len(log)} calls of the chosen spectrum, not all with the chosen transfer function")
    # the companion covariance is the covariance with the chosen options
    for sparse in (None, True, False):
        for fs in (None, "symbol"):
            R = Run(ck)
            sub = f"covariance and mean, sparse={sparse}, f_sky={fs}"
            with ck.case("forwarding", sub):
                c, ps = R.cosmo(), one(R)
                kw = {}
                if sparse is not None:
                    kw["sparse"] = sparse
                if fs:
                    kw["f_sky"] = P("fsky", 0.1, 0.9)
                mean, cov = R("angular_cl.gaussian_cl_covariance_and_mean", c, ell, ps, T, NL, **kw)
                cl = R("angular_cl.angular_cl", c, ell, ps, T, NL)
                nz = R("angular_cl.noise_cl", ell, ps)
                v = ck.valn(sub)
                ck.eq("forwarding", sub + ": mean", mean, arr(R.a(cl).flat()), v)
                w = knox(1, R.a(cl), R.a(nz), ell, sym("fsky", 0.1, 0.9) if fs else 0.25)
                ck.eq("forwarding", sub + ": covariance", cov, arr(w if sparse else dense(w)), v)
    # transfer function and options reach both the spectrum and its normalisation
    for name, over, gamma in (("general", {}, False), ("gamma", {}, True)):
        R = Run(ck)
        with ck.case("forwarding", "transfer options, " + name):
            c, o = build(R, over, gamma)
            ng = ngrow(R, c)
            for kw in ({}, dict(alpha=P("alpha", 0.5, 1.5)), dict(alpha=P("alpha", 0.5, 1.5), beta=P("beta", 0.5, 1.5)), dict(mode="fast")):
                log = []
                tf = opaque_fn("T", log)
                vals = [x.term() if isinstance(x, Arr) else const(float(sum(map(ord, x)))) for n, x in sorted(kw.items())]
                Tf = opaque_T("T", *vals)
                s = f"transfer options {sorted(kw)}, {name}"
                ck.eq("forwarding", s, R("power.linear_matter_power", c, k, a, transfer_fn=tf, **kw), arr([lin(o, Tf, x, y, ng) for x, y in zip(k.flat(), a.flat())]), ck.valn(s))
                ck.ok("forwarding", s + " in every call", len(log) > 0 and all(set(e[1]) - {"k"} == set(kw) for e in log), f"{len(log)} calls")
            for kn, kk in (("vector k", k), ("scalar k", P("ks", 0.05, 2.0)), ("array scalar k", J("ks", 0.05, 2.0)), ("one-element k", V("ks", 0.05, 2.0, 1))):
                for an, aa in (("vector a", a), ("scalar a", P("as", 0.3, 0.9)), ("array scalar a", J("as", 0.3, 0.9)), ("one-element a", V("as", 0.3, 0.9, 1)), ("today", 1.0)):
                    s = f"{name}, {kn}, {an}"
                    with ck.case("forwarding", "linear, " + s):
                        want = arr([lin(o, opaque_T("T"), x, y, ng) for x, y in zip(*(np.broadcast_arrays(*(oa(np.array(terms(q), object)) for q in (kk, aa)))))])
                        ck.eq("forwarding", "linear, " + s, arr(terms(R("power.linear", c, kk, aa, T))), want, ck.valn("linear"))
                        ck.eq("forwarding", "linear_matter_power, " + s, arr(terms(R("power.linear_matter_power", c, kk, aa, T))), want, ck.valn("linear"))
                        ck.eq("forwarding", "nonlinear_matter_power, linear, " + s, arr(terms(R("power.nonlinear_matter_power", c, kk, aa, T, R.get("power.linear")))), want, ck.valn("linear"))
    # at every number of wave numbers, scale factors, multipoles and bins
    def kwargs_at(n, what):
        R = Run(ck)
        with ck.case("forwarding", f"{n} {what}"):
            c, o = build(R, {}, False)
            ng = ngrow(R, c)
            log = []
            tf = opaque_fn("T", log)
            al = P("alpha", 0.5, 1.5)
            kn = V("kn", 0.05, 2.0, n if what == "wave numbers" else 1)
            an = V("an", 0.3, 0.9, n if what == "scale factors" else 1)
            got = R("power.linear_matter_power", c, kn, an, transfer_fn=tf, alpha=al)
            q = max(n, 1)
            ks, as_ = (kn.flat() * q)[:q], (an.flat() * q)[:q]
            ck.eq("forwarding", f"transfer options, {n} {what}", arr(terms(got)), arr([lin(o, opaque_T("T", al.term()), x, y, ng) for x, y in zip(ks, as_)]), ck.valn(what))
            for nm, f in (("linear", lambda: R("power.linear", c, kn, an, tf)), ("linear_matter_power", lambda: R("power.linear_matter_power", c, kn, an, tf))):
                ck.eq("forwarding", f"{nm}, {n} {what}", arr(terms(f())), arr([lin(o, opaque_T("T"), x, y, ng) for x, y in zip(ks, as_)]), ck.valn(what))
            nlog = []
            nl = opaque_pk(nlog)
            r = R("power.nonlinear_matter_power", c, kn, an, tf, nl)
            ck.eq("forwarding", f"nonlinear_matter_power, {n} {what}", arr(terms(r)), arr([pk(x, y) for x, y in zip(ks, as_)]), ck.valn(what))
            ck.ok("forwarding", f"nonlinear_matter_power hands on the transfer function, {n} {what}", bool(nlog) and all(has(e, "transfer_fn", 3, tf) for e in nlog), f"{len(nlog)} calls")
            if n <= 64:
                R.I.functions_seen.clear()
                R("power.nonlinear_matter_power", c, kn, an, tf)
                used = sorted({m for _, m in R.I.functions_seen if "Eisenstein" in m})
                ck.ok("forwarding", f"halofit with a chosen transfer function, {n} {what}", not used, f"{used} used although another transfer function was chosen")

    ck.steer("wave numbers", lambda n: kwargs_at(n, "wave numbers"), (1, 2, 3, 5), 600)
    ck.steer("scale factors", lambda n: kwargs_at(n, "scale factors"), (1, 2, 3, 5), 600)

    def spectra_at(nb, nl_):
        for w in ("angular_cl", "gaussian_cl_covariance_and_mean"):
            R = Run(ck)
            sub = f"{w}, {nb} bins, {nl_} multipoles"
            with ck.case("forwarding", sub):
                log = []
                bins = [smailg(R, pl(), f"f{i}_", zmax=2.1379) for i in range(nb)]
                l_ = V("elln", 20.0, 900.0, nl_)
                kw = dict(f_sky=P("fsky", 0.1, 0.9), sparse=True) if w != "angular_cl" else {}
                ps = [R(NC, bins, cb(R, pl()))]
                c = R.cosmo()
                r = R("angular_cl." + w, c, l_, ps, transfer_fn=T, nonlinear_fn=opaque_pk(log), **kw)
                ck.ok("forwarding", sub, bool(log) and all(has(e, "transfer_fn", 3, T) for e in log), f"{len(log)} calls of the chosen spectrum, not all with the chosen transfer function")
                if kw:
                    cl = R("angular_cl.angular_cl", c, l_, ps, T, NL)
                    ck.eq("forwarding", sub + ": mean", r[0], arr(R.a(cl).flat()), ck.valn(sub))
                    want = knox(nb, R.a(cl), R.a(R("angular_cl.noise_cl", l_, ps)), l_, sym("fsky", 0.1, 0.9))
                    ck.eq("forwarding", sub + ": covariance", r[1], arr(want), ck.valn(sub))

    ck.steer("multipoles", lambda n: spectra_at(1, n), (2, 3, 5), 300)
    ck.steer("bins", lambda n: spectra_at(n, 2), (1, 2, 3), 14)
    # every linear spectrum behind a nonlinear one uses the chosen transfer function
    ways = [(f"{w}, {n}", w, n) for w in ("nonlinear_matter_power", "angular_cl", "gaussian_cl_covariance_and_mean") for n in ("default spectrum", "halofit", "linear", "smith2003", "smooth")]
    for how, w, spectrum in [("halofit", None, None), ("smith2003", None, None)] + ways:
        R = Run(ck)
        with ck.case("forwarding", f"{how} with a chosen transfer function"):
            c = R.cosmo()
            eh_ = R.get("transfer.Eisenstein_Hu")
            log = []
            tf = opaque_fn("T", log)
            R.I.functions_seen.clear()
            if w is not None:
                smith = NF("smith", lambda I, a, k: I.call(R.get("power.halofit"), a, dict(k, prescription="smith2003")))
                smooth = NF("smooth", lambda I, a, k: I.call(R.get("power.linear"), a, k))
                kw = {"default spectrum": {}, "halofit": dict(nonlinear_fn=R.get("power.halofit")), "linear": dict(nonlinear_fn=R.get("power.linear")), "smith2003": dict(nonlinear_fn=smith), "smooth": dict(nonlinear_fn=smooth)}[spectrum]
                if w == "nonlinear_matter_power":
                    r = R("power." + w, c, k, a, tf, **kw)
                else:
                    r = R("angular_cl." + w, c, V("ell", 20.0, 900.0, 2), [R(NC, [smail(R, pl(), zmax=2.1379)], cb(R, pl()))], transfer_fn=tf, **kw)
                    r = r if w == "angular_cl" else list(r)
            else:
                r = R("power.halofit", c, k, a, tf, **({} if how == "halofit" else dict(prescription=how)))
            used = sorted({n for _, n in R.I.functions_seen if "Eisenstein" in n})
            ck.ok("forwarding", f"{how} with a chosen transfer function", len(log) > 0 and not used, f"{used} used although another transfer function was chosen")
            for i, x in enumerate(r if isinstance(r, list) else [r]):
                ck.ok("forwarding", f"{how} depends on the chosen transfer function" + (f", result {i}" if i else ""), depends(x, "T"), "no dependence")

    # ------------------------------------------------ table range and steps
    for amin, steps in ((-3, 256), (-2, 64), (-4, 300), (-2.5, 33)):
        R = Run(ck)
        sub = f"log10_amin={amin}, steps={steps}"
        with ck.case("table", sub):
            c = R.cosmo()
            n0 = len(R.I.sum_log)
            R("background.radial_comoving_distance", c, a, amin, steps)
            es = [e for e in R.I.sum_log[n0:] if e["kind"] in ("odeint", "interp")]
            for e in es:
                ck.ok("table", f"{sub}: {e['kind']} nodes", e["n"] == steps, f"{e['n']} nodes instead of {steps}")
            it = [e for e in es if e["kind"] == "interp"]
            ck.ok("table", sub + ": looked up", bool(it), "no table lookup")
            for e in it:
                ends = sorted(float(ck.valn()(T_(x))[0]) for x in (e["xp"][0], e["xp"][-1]))
                ok = any(abs(ends[0] - q) < 1e-9 * abs(q) + 1e-12 for q in (10.0 ** amin, amin, amin * math.log(10.0))) and any(abs(ends[1] - q) < 1e-12 for q in (1.0, 0.0))
                ck.ok("table", sub + ": range", ok, f"table from {ends[0]} to {ends[1]}")

    # ------------------------------------------------ integration limits and panels
    R = Run(ck)
    with ck.case("limits", "sigmasqr"):
        c, o = build(R, {}, False)
        k0, k1, rad = P("kmin", 1e-4, 1e-2), P("kmax", 1.0, 50.0), P("R", 0.5, 30.0)
        for n, kw, (x, y) in (("default", {}, (1e-4, 1e3)), ("kmin", dict(kmin=k0), (k0.term(), 1e3)), ("kmax", dict(kmax=k1), (1e-4, k1.term())), ("both", dict(kmin=k0, kmax=k1), (k0.term(), k1.term()))):
            ck.eq("limits", "sigmasqr, " + n, R.a(R("power.sigmasqr", c, rad, T, **kw)).flat()[0], sigma2(o, opaque_T("T"), rad.term(), x, y), ck.valn(n))
    for n in (2, 4, 10, 64):
        seen = []
        f = NF("f", lambda I, x, kw: (seen.append(I.arr(x[0]).d.size), mkf(I, x))[1])
        with ck.case("panels", f"simps, N={n}"):
            K("scipy.integrate.simps", f, lo, hi, n)
            ck.ok("panels", f"simps, N={n}", sum(seen) == n + 1, f"{sum(seen)} nodes for {n} panels")
    for n in (1, 2, 4, 6):
        seen = []
        f = NF("f", lambda I, x, kw: (seen.append(tuple(I.arr(x[0]).shape)), mkf(I, x))[1])
        with ck.case("panels", f"romb, divmax={n}"):
            r = K("scipy.integrate.romb", f, lo, hi, divmax=n)
            nodes = sum(int(np.prod(s)) for s in seen)
            ck.ok("panels", f"romb, divmax={n}", nodes == 2 ** n + 1, f"{nodes} nodes for {2 ** n} panels")
            e = K("scipy.integrate.romb", f, lo, hi, divmax=n, return_error=True)
            ck.ok("panels", f"romb, divmax={n}, return_error", isinstance(e, tuple) and len(e) == 2, f"{e!r}")
            if isinstance(e, tuple):
                ck.same("panels", f"romb, divmax={n}, value with error", e[0], r)
    with ck.case("panels", "romb, extra arguments"):
        g = NF("g", lambda I, x, kw: I.binop("mul", mkf(I, x[:1]), I.binop("add", x[1], I.binop("mul", 2.0, x[2]))))
        p, q = P("p"), P("q")
        h = NF("h", lambda I, x, kw: I.binop("mul", mkf(I, x[:1]), I.binop("add", p, I.binop("mul", 2.0, q))))
        ck.same("panels", "romb, extra arguments", K("scipy.integrate.romb", g, lo, hi, (p, q), 3), K("scipy.integrate.romb", h, lo, hi, divmax=3))

    # ------------------------------------------------ shape noise, density, zmax of distributions and probes
    R = Run(ck)
    with ck.case("survey options", "noise"):
        AM = 180.0 * 60.0 / math.pi
        v = ck.valn("noise")
        gu, gv = P("gu", 2., 30.), P("gv", 2., 30.)
        mkb = lambda: [smail(R, pl(), "u", gals_per_arcmin2=gu), kde(R, pl(), "v", gals_per_arcmin2=gv), delta(R, pl(), "w")]
        ns = [g * (AM * AM) for g in (gu.term(), gv.term(), T_(1.0))]
        e1 = [P(f"se{i}", 0.2, 0.4) for i in range(4)]
        for n, kw, sg in (("one number", dict(sigma_e=e1[0]), [e1[0].term()] * 3), ("any per bin", dict(sigma_e=e1[1:]), [e.term() for e in e1[1:]]), ("default", {}, [0.26] * 3), ("one", dict(sigma_e=0.4), [0.4] * 3), ("per bin", dict(sigma_e=[0.2, 0.3, 0.5]), [0.2, 0.3, 0.5])):
            ck.eq("survey options", f"shape noise, {n}", R.meth(R(WL, mkb(), **kw), "noise"), arr([T_(s * s) / x for s, x in zip(sg, ns)]), ck.valn(n), )
        ck.eq("survey options", "shot noise", R.meth(R(NC, mkb(), cb(R, pl())), "noise"), arr([1.0 / x for x in ns]), v)
    for n, mk_ in (("smail_nz", smail), ("kde_nz", kde), ("systematic_shift", shift)):
        for zm in (None, 0.5, 2.0, 5.5, 41.0):
            R = Run(ck)
            sub = f"{n}, zmax={zm}"
            with ck.case("survey options", sub):
                q = mk_(R, pl(), **({} if zm is None else dict(zmax=zm)))
                zx = 10.0 if zm is None else zm
                n0 = len(R.I.sum_log)
                R.I.call(q, [z], {})
                es = [e for e in R.I.sum_log[n0:] if e["kind"] in ("simps", "romb")]
                ck.ok("survey options", sub + ": normalised by an integral", bool(es), "no integral")
                for e in es:
                    ck.eq("survey options", sub + ": lower limit", e["a"].flat()[0], T_(0.0))
                    ck.eq("survey options", sub + ": upper limit", e["b"].flat()[0], T_(zx))
                ck.ok("survey options", sub + ": zmax", R.attr(q, "zmax") == zx, f"{R.attr(q, 'zmax')!r}")
                for pn, pr in (("WeakLensing", R(WL, [mk_(R, pl(), "o", zmax=1.6127), q])), ("NumberCounts", R(NC, [q, mk_(R, pl(), "o", zmax=1.6127)], cb(R, pl())))):
                    ck.ok("survey options", f"{sub}: {pn}.zmax", R.attr(pr, "zmax") == max(zx, 1.6127), f"{R.attr(pr, 'zmax')!r}")
    with ck.case("survey options", "extra configuration"):
        R = Run(ck)
        for n, q in (("WeakLensing", R(WL, wlb(R), tag="x")), ("NumberCounts", R(NC, wlb(R), cb(R, pl()), tag="x")), ("smail_nz", smail(R, pl(), tag="x"))):
            ck.ok("survey options", f"extra configuration of {n}", R.I.arr(R.meth(q, "noise")).shape == (2,) if n != "smail_nz" else True, "")

    # ------------------------------------------------ options are not inert
    def matters(sub, f, short, long):
        R = Run(ck)
        with ck.case("effect", sub):
            g = f(R)
            x, y = ({n: (q(R) if callable(q) and not isinstance(q, NF) else q) for n, q in d.items()} for d in (short, long))
            v = ck.valn(sub)
            ck.ok("effect", sub, ck.diff(g(**x), g(**y), v, "") is not None, "the option changes nothing")

    matters("transfer type", fn("transfer.Eisenstein_Hu", C, k), {}, dict(type="eisenhu"))
    matters("transfer type of the linear spectrum", fn("power.linear_matter_power", C, k), {}, dict(type="eisenhu"))
    matters("prescription", fn("power.halofit", C, k, a, eh), {}, dict(prescription="smith2003"))
    matters("nonlinear function", fn("power.nonlinear_matter_power", C, k, a), {}, dict(nonlinear_fn=lambda R: R.get("power.linear")))
    matters("scale factor", fn("power.nonlinear_matter_power", C, k), {}, dict(a=P("as", 0.3, 0.8)))
    matters("sky fraction", fn("angular_cl.gaussian_cl_covariance", ell, two, S, N), {}, dict(f_sky=0.5))
    matters("determinant", lk, {}, dict(include_logdet=False))
    matters("endpoints", sp, {}, dict(endpoints="natural"))


def mkf(I, x):
    y = I.arr(x[0])
    return M.result(I, oa(np.frompyfunc(lambda t: opaque("integrand", 9.0 * sin(700.0 * t)), 1, 1)(y.d)), "f", [y], "jnp")


def depends(v, name):
    seen, st = set(), [const(t) for t in terms(v)]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "opaque" and t.attr == name:
            return True
        st += t.args
    return False

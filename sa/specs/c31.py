"""Computations keep the working precision; integer inputs act like the equal floats."""
from .common import *
from .c05 import norm

INT32 = 2.0 ** 31


def isym(name, lo, hi):
    t = sym(name, lo, hi)
    T.RANGES[name] = (lo, hi, "int")
    return t


class Maker:
    """The same numbers as integers or as floats."""

    def __init__(self, dt, scal="py", vec="jnp"):
        self.dt, self.scal, self.vec = dt, scal, vec

    def s(self, v):
        t = const(v) if not isinstance(v, Term) else v
        return Arr(t, self.dt, 0, self.scal, self.scal == "py")

    def a(self, vs):
        return Arr(oa(np.array([v if isinstance(v, Term) else const(v) for v in vs] + [None], object)[:-1]), self.dt, 0, self.vec)

    def n(self, n, name, lo, hi):
        return self.a([isym(f"{name}{i}", int(lo + (hi - lo) * i / n), int(lo + (hi - lo) * (i + 0.9) / n)) for i in range(n)])

    def m(self, rows):
        return Arr(oa(np.array([[const(x) if not isinstance(x, Term) else x for x in r] for r in rows], object)), self.dt, 0, self.vec)


class Frac(Maker):
    """Fractional numbers: what they meet must not pull them to its integer type."""

    def s(self, v):
        return super().s(v if isinstance(v, Term) else v + 0.3127)

    def a(self, vs):
        return super().a([v if isinstance(v, Term) else v + 0.3127 for v in vs])


class One(Maker):
    """The i-th argument whole (an integer or the equal float), fractions elsewhere."""

    def __init__(self, i, dt, scal="jnp", vec="jnp"):
        self.i, self.given, self.count = i, dt, 0
        super().__init__("f", scal, vec)

    def turn(self):
        self.count += 1
        whole = self.count - 1 == self.i
        self.dt = self.given if whole else "f"
        return whole

    def s(self, v):
        whole = self.turn()
        return super().s(v if whole or isinstance(v, Term) else v - 0.3127)

    def a(self, vs):
        whole = self.turn()
        return super().a([v if whole or isinstance(v, Term) else v - 0.3127 for v in vs])

    def m(self, rows):
        self.turn()
        return super().m(rows)


def cases(thorough=False):
    """(name, f(R, maker)): everything that takes numbers a user would write as integers."""
    out = []

    def add(name, f):
        out.append((name, f))

    num = lambda: (lambda n, lo=0.3, hi=1.7: P(n, lo, hi))
    flt = num()
    flt.vec = lambda n, lo, hi, k: V(n, lo, hi, k)
    cos = lambda R, m, **k: R.cosmo(**k)
    ints = lambda R, m: R.cosmo(Omega_k=m.s(0), w0=m.s(-1), wa=m.s(0), n_s=m.s(1), h=m.s(1), sigma8=m.s(1))
    gam = lambda R, m: R.cosmo(gamma=m.s(1))
    K = lambda: V("kq", 0.05, 2.0, 2)
    for n in BG:
        add(f"{n} at a=1", lambda R, m, n=n: R("background." + n, cos(R, m), m.s(1)))
        add(f"{n} at [1, 1]", lambda R, m, n=n: R("background." + n, cos(R, m), m.a([1, 1])))
        add(f"{n}, whole-number parameters", lambda R, m, n=n: R("background." + n, ints(R, m), A()))
        if n.startswith("growth"):
            add(f"{n}, gamma=1", lambda R, m, n=n: R("background." + n, gam(R, m), A()))
    add("a_of_chi", lambda R, m: R("background.a_of_chi", cos(R, m), m.n(2, "ichi", 500, 3000)))
    add("a_of_chi scalar", lambda R, m: R("background.a_of_chi", cos(R, m), m.s(isym("ichis", 500, 3000))))
    for acc in ("Omega_m", "Omega_de", "k", "sqrtk", "Omega"):
        add(f"{acc}, whole-number parameters", lambda R, m, acc=acc: R.attr(ints(R, m), acc))
    for ty in ("eisenhu", "eisenhu_osc"):
        add(f"Eisenstein_Hu({ty})", lambda R, m, ty=ty: R("transfer.Eisenstein_Hu", cos(R, m), m.n(3, "ik", 1, 9), type=ty))
        add(f"Eisenstein_Hu({ty}), whole-number parameters", lambda R, m, ty=ty: R("transfer.Eisenstein_Hu", ints(R, m), K(), type=ty))
    add("primordial_matter_power", lambda R, m: R("power.primordial_matter_power", cos(R, m), m.n(3, "ik", 1, 9)))
    add("primordial_matter_power, n_s=1", lambda R, m: R("power.primordial_matter_power", ints(R, m), K()))
    add("linear_matter_power", lambda R, m: R("power.linear_matter_power", cos(R, m), m.n(3, "ik", 1, 9), m.s(1)))
    add("linear_matter_power, whole-number parameters", lambda R, m: R("power.linear_matter_power", ints(R, m), K(), A()))
    add("nonlinear_matter_power", lambda R, m: R("power.nonlinear_matter_power", cos(R, m), m.n(3, "ik", 1, 9), m.s(1)))
    add("nonlinear_matter_power, whole-number parameters", lambda R, m: R("power.nonlinear_matter_power", ints(R, m), K(), A()))
    add("sigmasqr", lambda R, m: R("power.sigmasqr", cos(R, m), m.s(8), R.get("transfer.Eisenstein_Hu"), kmin=1e-4, kmax=m.s(1000)))
    # distributions
    nzs = [
        ("smail_nz", lambda R, m, **k: R("redshift.smail_nz", m.s(1), m.s(2), m.s(1), **k)),
        ("kde_nz", lambda R, m, **k: R("redshift.kde_nz", m.a([1, 2, 3]), m.a([1, 2, 1]), bw=m.s(1), **k)),
        ("delta_nz", lambda R, m, **k: R("redshift.delta_nz", m.s(1), **k)),
        ("systematic_shift", lambda R, m, **k: R("redshift.systematic_shift", smail(R, flt, "par"), m.s(1), **k)),
    ]
    add("kde_nz of whole redshifts", lambda R, m: R.I.call(R("redshift.kde_nz", m.a([1, 2, 3]), V("kwf", .2, 1., 3), bw=.3517), [Z()], {}))
    add("kde_nz of whole weights", lambda R, m: R.I.call(R("redshift.kde_nz", V("kzf", .2, 1.8, 3), m.a([1, 2, 1]), bw=.3517), [Z()], {}))
    Zi = lambda m: m.n(3, "iz", 0, 4)
    F = Frac("f")
    for n, f in nzs:
        add(f"{n}, whole-number parameters", lambda R, m, f=f: R.I.call(f(R, m), [Z()], {}))
        add(f"{n} at whole z", lambda R, m, f=f: R.I.call(f(R, F), [Zi(m)], {}))
        add(f"{n} at whole scalar z", lambda R, m, f=f: R.I.call(f(R, F), [m.s(isym("izs", 1, 3))], {}))
        add(f"{n}, density and zmax", lambda R, m, f=f: [R.attr(f(R, m, gals_per_arcmin2=m.s(3), zmax=m.s(4)), q) for q in ("gals_per_arcmin2", "gals_per_steradian", "zmax")] + [R.I.call(f(R, m, gals_per_arcmin2=m.s(3), zmax=m.s(4)), [Z()], {})])
    bs = [("constant_linear_bias", lambda R, m: R("bias.constant_linear_bias", m.s(2))),
          ("inverse_growth_linear_bias", lambda R, m: R("bias.inverse_growth_linear_bias", m.s(2))),
          ("des_y1_ia_bias", lambda R, m: R("bias.des_y1_ia_bias", m.s(1), m.s(-2), m.s(1)))]
    for n, f in bs:
        add(f"{n}, whole-number parameters", lambda R, m, f=f: R.I.call(f(R, m), [cos(R, m), Z()], {}))
        add(f"{n} at whole z", lambda R, m, f=f: R.I.call(f(R, F), [cos(R, m), Zi(m)], {}))
        add(f"{n} at whole scalar z", lambda R, m, f=f: R.I.call(f(R, F), [cos(R, m), m.s(isym("izs", 1, 3))], {}))
    # probes
    two = lambda R: [smailg(R, flt, "u", zmax=3.8713), delta(R, flt, "v", gals_per_arcmin2=P("vg", 2.0, 30.0))]
    ext = lambda R: [smailg(R, flt, "u", zmax=3.8713), smailg(R, flt, "v", zmax=2.9371)]
    pr = [
        ("WeakLensing", lambda R, m: R(WL, two(R), multiplicative_bias=m.s(0), sigma_e=m.s(1))),
        ("WeakLensing with alignment", lambda R, m: R(WL, ext(R), ia_bias=bs[2][1](R, m), multiplicative_bias=[m.s(0), m.s(1)], sigma_e=[m.s(1), m.s(2)])),
        ("NumberCounts", lambda R, m: R(NC, ext(R), bs[0][1](R, m))),
        ("NumberCounts with bias per bin", lambda R, m: R(NC, ext(R), [bs[0][1](R, m), bs[1][1](R, m)])),
    ]
    L = lambda m, n=3: m.n(n, "il", 2, 9000)
    nl = opaque_pk()
    for n, f in pr:
        add(f"{n}.kernel, whole-number parameters", lambda R, m, f=f: R.meth(f(R, m), "kernel", cos(R, m), Z(), P("ellq", 20., 900.)))
        add(f"{n}.kernel at whole ell", lambda R, m, f=f: R.meth(f(R, F), "kernel", cos(R, m), Z(), m.s(isym("ils", 2, 9000))))
        add(f"{n}.kernel at whole z", lambda R, m, f=f: R.meth(f(R, F), "kernel", cos(R, m), Zi(m), P("ellq", 20., 900.)))
        add(f"{n}.noise, whole-number parameters", lambda R, m, f=f: R.meth(f(R, m), "noise"))
        add(f"{n}, angular_cl at whole ell", lambda R, m, f=f: R("angular_cl.angular_cl", cos(R, m), L(m), [f(R, F)], nonlinear_fn=nl))
        add(f"{n}, noise_cl at whole ell", lambda R, m, f=f: R("angular_cl.noise_cl", L(m), [f(R, F)]))
        for sp in (True, False):
            add(f"{n}, covariance (sparse={sp}) at whole ell", lambda R, m, f=f, sp=sp: R("angular_cl.gaussian_cl_covariance", L(m), [f(R, F)], mat("S", 3, 3, .5, 2.), mat("N", 3, 3, .5, 2.), f_sky=m.s(1), sparse=sp))
            add(f"{n}, covariance (sparse={sp}) of whole spectra", lambda R, m, f=f, sp=sp: R("angular_cl.gaussian_cl_covariance", V("ells", 20., 900., 3), [f(R, F)], m.m([[1, 2, 3]] * 3), m.m([[3, 2, 1]] * 3), sparse=sp))
        add(f"{n}, covariance and mean at whole ell", lambda R, m, f=f: R("angular_cl.gaussian_cl_covariance_and_mean", cos(R, m), L(m), [f(R, F)], nonlinear_fn=nl))
    add("angular_cl, halofit, at whole ell", lambda R, m: R("angular_cl.angular_cl", cos(R, m), L(m, 2), [R(NC, [smail(R, flt, "y", zmax=m.s(3))], cb(R, flt))]))
    # likelihood and matrices
    d = lambda n, k=3: (lambda m: m.n(k, n, -3, 9))
    C = [[5, 1, 2], [1, 7, 1], [2, 1, 6]]
    for me in ("inverse", "cholesky"):
        add(f"likelihood({me}) of whole numbers", lambda R, m, me=me: R("likelihood.gaussian_log_likelihood", m.a([1, 2, 4]), m.a([3, 1, 1]), m.m(C), inverse_method=me))
        add(f"likelihood({me}) of whole data", lambda R, m, me=me: R("likelihood.gaussian_log_likelihood", m.a([1, 2, 4]), V("mu", -1., 1., 3), mat("C", 3, spd=True), inverse_method=me))
        add(f"likelihood({me}) of whole covariance", lambda R, m, me=me: R("likelihood.gaussian_log_likelihood", V("da", -1., 1., 3), V("mu", -1., 1., 3), m.m(C), inverse_method=me))
    B = lambda m: Arr(m.m([[5, 6, 1, 1], [1, 2, 7, 5]]).d.reshape(2, 2, 2), m.dt, 0, m.vec)
    B3 = lambda m: Arr(m.m([[5, 6, 1, 1, 3, 2], [1, 2, 7, 5, 4, 4]]).d.reshape(2, 3, 2), m.dt, 0, m.vec)
    D = lambda m: m.m([[1, 2], [3, 4], [5, 6], [7, 9]])
    sp = lambda n, *fs: add(f"sparse.{n} of whole numbers", lambda R, m, n=n: R("sparse." + n, *[f(m) for f in fs]))
    sp("to_dense", B), sp("inv", B), sp("slogdet", B), sp("det", B)
    sp("dot", B, lambda m: m.a([1, 2, 3, 4])), sp("dot", lambda m: m.a([1, 2, 3, 4]), B), sp("dot", B, D), sp("dot", B, B3)
    sp("dense_dot_sparse_dot_dense", lambda m: m.m([[1, 2, 3, 4]]), B, D)
    add("likelihood of whole sparse covariance", lambda R, m: R("likelihood.gaussian_log_likelihood", V("da", -1., 1., 4), V("mu", -1., 1., 4), B(m)))
    # numerical tools
    q = NF("f", lambda I, a, k: I.binop("mul", a[0], a[0]))
    add("interp", lambda R, m: R("scipy.interpolate.interp", m.a([2, 5]), m.a([1, 3, 4, 8]), m.a([2, 7, 1, 3])))
    add("interp, whole query", lambda R, m: R("scipy.interpolate.interp", m.a([2, 5]), V("xp", 1., 8., 4), V("fp", -1., 1., 4)))
    add("interp, whole values", lambda R, m: R("scipy.interpolate.interp", V("xq", 2., 7., 2), V("xp", 1., 8., 4), m.a([2, 7, 1, 3])))
    add("simps", lambda R, m: R("scipy.integrate.simps", q, m.s(1), m.s(3), 8))
    add("romb", lambda R, m: R("scipy.integrate.romb", q, m.s(1), m.s(3), divmax=4))
    for k in (1, 2, 3):
        s = lambda R, m, k=k: R("scipy.interpolate.InterpolatedUnivariateSpline", m.a([1, 3, 4, 8, 9]), m.a([2, 7, 1, 3, 4]), k=k)
        for mn, x, y in (("abscissae", lambda m: m.a([1, 3, 4, 8, 9]), lambda m: V("yf", -1., 1., 5)), ("ordinates", lambda m: Arr(V("xf", .2, 9., 5).d, "f", 0, "jnp"), lambda m: m.a([2, 7, 1, 3, 4]))):
            s2 = lambda R, m, k=k, x=x, y=y: R("scipy.interpolate.InterpolatedUnivariateSpline", x(m), y(m), k=k)
            add(f"spline({k}) of whole {mn}", lambda R, m, s2=s2: [R.I.call(s2(R, m), [V("xq", 2., 7., 2)], {}), R.meth(s2(R, m), "integral", 2.5, 7.5)])
        add(f"spline({k}) of whole numbers", lambda R, m, s=s: [R.I.call(s(R, m), [V("xq", 2., 7., 2)], {}), R.meth(s(R, m), "integral", 2.5, 7.5)])
        add(f"spline({k}) at whole numbers", lambda R, m, s=s: [R.I.call(s(R, F), [m.a([2, 5])], {}), R.meth(s(R, F), "integral", m.s(2), m.s(8)), R.meth(s(R, F), "derivative", m.a([2, 5])), R.meth(s(R, F), "antiderivative", m.a([2, 5]))])
    return out


def precision(ck, R, sub, n0, r):
    ev = [e for e in R.I.events[n0:] if e["kind"] in ("int-cast", "narrow", "narrow-int")]
    ck.ok("no narrowing", sub, not ev, ev and f"{ev[0]['kind']} to {ev[0].get('to', 'int')}", ev[0]["loc"] if ev else None)
    ls, _ = M.flatten(R.I, r)
    low = [R.a(l).dt for l in ls if isinstance(l, Arr) and M.isfloat(R.a(l).dt) and R.a(l).dt != "f"]
    ck.ok("working precision", sub, not low, f"result of type {low}")
    cut = [t for l in ls if isinstance(l, Arr) for t in T.topo(R.a(l).flat()) if t.op == "narrow"]
    ck.ok("no narrowing", sub + ", result", not cut, "the result depends on a narrowed value", cut[0].loc if cut else None)


def floats(R, v):
    """Numeric leaves of a result, and whether they are real numbers."""
    ls, _ = M.flatten(R.I, v)
    return [R.a(l) for l in ls if isinstance(l, (Arr, int, float))]


def run(ck):
    # floating-point inputs
    for kern in (False, True):
        for scal, vec in (("jnp", "jnp"), ("py", "np")):
            R = Run(ck, summaries=not kern)
            for c in catalogue(R, Num(scal, vec), ck.thorough):
                if kern != (c.group in ("kernels", "spline")):
                    continue
                sub = f"{c.name}, {scal}/{vec}"
                with ck.case("no narrowing", sub):
                    n = len(R.I.events)
                    precision(ck, R, sub, n, c.run(R))
                if (scal, vec) == ("jnp", "jnp"):
                    with ck.case("no narrowing", sub + ", traced"):
                        n = len(R.I.events)
                        precision(ck, R, sub + ", traced", n, R.traced(lambda *a, c=c: c.fn(R, *a, **c.kw), c.args))
    for ob in objects(ck.thorough):
        R = Run(ck)
        with ck.case("no narrowing", ob.name):
            n = len(R.I.events)
            c0 = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
            o = ob.make(R)
            for q, t in quantities(R, ob.kind, o, c0):
                with ck.case("no narrowing", f"{ob.name}, {q}"):
                    precision(ck, R, f"{ob.name}, {q}", n, t())
    def at(name, n):
        R = Run(ck, summaries=not name.startswith(("simps", "romb", "interp", "odeint", "spline")))
        with ck.case("no narrowing", f"{name}, {n} points"):
            c = call_named(R, name, Num("jnp", size=n))
            m = len(R.I.events)
            precision(ck, R, f"{name}, {n} points", m, c.run(R))

    scale_calls(ck, at)

    def of(ob):
        R = Run(ck)
        with ck.case("no narrowing", ob.name):
            m = len(R.I.events)
            c0, o = R.cosmo(tag="ref"), ob.make(R)
            for q, t in quantities(R, ob.kind, o, c0):
                precision(ck, R, f"{ob.name}, {q}", m, t())

    scale_objects(ck, of)
    # one integer among fractions
    v = ck.valn("c31")
    for name, f in cases(ck.thorough):
        kern = name.startswith(("simps", "romb", "interp", "spline"))
        i, total = 0, 2
        while i < total:
            sub = f"{name}, argument {i}"
            with ck.case("one integer among floats", sub):
                R0, R = Run(ck, summaries=not kern), Run(ck, summaries=not kern)
                m = One(i, "f")
                i += 1
                try:
                    want = floats(R0, f(R0, m))
                except AbsRaise:
                    want = None
                total = m.count if m.count > 1 else 0
                if want is None or not total:
                    continue
                got = floats(R, f(R, One(i - 1, "i")))
                if ck.ok("one integer among floats", sub + ", outputs", len(got) == len(want), f"{len(got)} outputs instead of {len(want)}"):
                    for j, (g, w) in enumerate(zip(got, want)):
                        ck.eq("one integer among floats", f"{sub}, output {j}", Arr(g.d, "f", 0, "jnp"), Arr(w.d, "f", 0, "jnp"), v)
    # whole numbers given as integers
    v = ck.valn("c31")
    hi = ck.valn("c31", over={n: r[1] for n, r in T.RANGES.items() if r[2:] == ("int",)})
    for name, f in cases(ck.thorough):
        for scal, vec in (("py", "jnp"), ("jnp", "jnp"), ("np", "np")):
            for traced in (False, True):
                if traced and (scal, vec) != ("jnp", "jnp"):
                    continue
                sub = f"{name}, {scal}/{vec}{', traced' if traced else ''}"
                kern = name.startswith(("simps", "romb", "interp", "spline"))
                want = None
                with ck.case("floats accepted", sub):
                    R0 = Run(ck, summaries=not kern)
                    want = floats(R0, f(R0, Maker("f", scal, vec)))
                if want is None:
                    continue
                R = Run(ck, summaries=not kern)
                R.I.int_ops = []
                with ck.case("integers act like floats", sub):
                    n = len(R.I.events)
                    if traced:
                        r = R.traced(lambda: f(R, Maker("i", scal, vec)))
                    else:
                        r = f(R, Maker("i", scal, vec))
                    got = floats(R, r)
                    if not ck.ok("integers act like floats", sub + ", outputs", len(got) == len(want), f"{len(got)} outputs instead of {len(want)}"):
                        continue
                    for i, (g, w) in enumerate(zip(got, want)):
                        ck.eq("integers act like floats", f"{sub}, output {i}", Arr(g.d, "f", 0, "jnp"), Arr(w.d, "f", 0, "jnp"), v)
                    ev = [e for e in R.I.events[n:] if e["kind"] in ("int-cast", "narrow", "narrow-int")]
                    ck.ok("no narrowing", sub, not ev, ev and f"{ev[0]['kind']} to {ev[0].get('to', 'int')}", ev[0]["loc"] if ev else None)
                    big = None
                    for t, loc, kind in R.I.int_ops:
                        if kind == "py":
                            continue
                        syms = {s: T.RANGES[s][1] for s in T.symbols(t) if T.RANGES[s][2:] == ("int",)}
                        x = T.Valuation(seed=1, K=1, over=syms)(t)[0]
                        if abs(x) >= (INT32 if kind == "jnp" else INT32 ** 2):
                            big = big or (t, loc, x)
                    ck.ok("no integer overflow", sub, big is None, big and f"integer intermediate reaches {big[2]:.3g}", big[1] if big else None)

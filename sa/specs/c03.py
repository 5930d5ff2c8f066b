"""Results never depend on what was computed before."""
from .common import *

LIMITS = [(-2, 256), (-3, 128), (-4, 512), (-2, 64)]
FINE = [(-2.5, 256), (-2, 256), (-2.25, 256), (-2, 1000), (-2, 600), (-3, 700), (-2, 257), (-2, 5), (-2.21, 256), (-2.24, 256), (-2.26, 256), (-2.2504, 256), (-2.25003, 256), (-2, 601), (-2, 1001)]


def histories(R, kind, o, c, z):
    """Public calls that may leave something behind, with unusual options."""
    h = []
    a0 = P("ah", 0.3, 0.95)
    if kind == "cosmo":
        for n in BG:
            h.append((n, lambda n=n: R("background." + n, o, a0)))
        h.append(("a_of_chi", lambda: R("background.a_of_chi", o, P("chih", 500.0, 3000.0))))
        for l, s in LIMITS:
            h.append((f"radial_comoving_distance({l},{s})", lambda l=l, s=s: R("background.radial_comoving_distance", o, a0, log10_amin=l, steps=s)))
        h.append(("radial_comoving_distance(-2.0, steps=256)", lambda: R("background.radial_comoving_distance", o, a0, -2.0)))
        h.append(("linear_matter_power", lambda: R("power.linear_matter_power", o, K(), a0, type="eisenhu")))
        h.append(("linear_matter_power(opaque transfer)", lambda: R("power.linear_matter_power", o, K(), a0, transfer_fn=opaque_fn("Th"))))
        h.append(("nonlinear_matter_power", lambda: R("power.nonlinear_matter_power", o, K(), a0)))
        h.append(("halofit(smith2003)", lambda: R("power.halofit", o, K(), A(), R.get("transfer.Eisenstein_Hu"), prescription="smith2003")))
        h.append(("sigmasqr", lambda: R("power.sigmasqr", o, P("rad", 1.0, 20.0), R.get("transfer.Eisenstein_Hu"), kmin=1e-3, kmax=10.0)))
        h.append(("Eisenstein_Hu(eisenhu)", lambda: R("transfer.Eisenstein_Hu", o, K(), "eisenhu")))
        h.append(("str", lambda: R.I.call(R.get("core.Cosmology").lookup("__str__")[0], [o], {}) and None))
        h.append(("use in a kernel", lambda: R("probes.density_kernel", o, [smail(R, Plain(), "hh", zmax=2.9371)], cb(R, Plain(), "hh"), Z(), P("ellh", 10.0, 50.0))))
        h.append(("use in a spectrum", lambda: R("angular_cl.angular_cl", o, V("ellh", 50.0, 800.0, 2), [R(NC, [smail(R, Plain(), "hh", zmax=2.9371)], cb(R, Plain(), "hh"))], nonlinear_fn=opaque_pk())))
    else:
        h.append(("evaluation at a scalar", lambda: R.I.call(o, [P("zh", 0.2, 1.0)], {}) if kind != "probe" else R.meth(o, "kernel", c, P("zh", 0.2, 1.0), P("ellh", 10.0, 50.0))))
        for n, t in quantities(R, kind, o, c):
            h.append((n, t))
        if kind == "nz":
            grid = lambda q: getattr(q.cls, "name", "") != "kde_nz" and all(grid(p) for p in R.attr(q, "params") if getattr(p, "cls", None) is not None)
            if grid(o):
                h.append(("evaluation on a grid", lambda: R.I.call(o, [Arr(V("zg", 0.1, 1.5, 4).d.reshape(2, 2), "f", 0, "jnp")], {})))
            h.append(("evaluation at many redshifts", lambda: R.I.call(o, [V("zg", 0.1, 1.5, 7)], {})))
            h.append(("use in a shear kernel", lambda: R("probes.weak_lensing_kernel", c, [o], z, P("ellh", 10.0, 50.0))))
            h.append(("use as a parent", lambda: R.I.call(R("redshift.systematic_shift", o, P("sh", 0.0, 0.1), zmax=2.1379), [z], {})))
            h.append(("use in a probe", lambda: R.meth(R(WL, [o], sigma_e=0.4), "noise")))
        if kind in ("spline", "bias"):
            h = h[1:]
        if kind == "bias":
            h.append(("evaluation at a scalar", lambda: R.I.call(o, [c, P("zh", 0.2, 1.0)], {})))
            h.append(("evaluation for another cosmology", lambda: R.I.call(o, [R.cosmo(tag="other"), z], {})))
    return h


class Plain:
    def __call__(self, n, lo, hi):
        return P(n, lo, hi)


def fresh(ck, ob):
    R = Run(ck)
    c = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
    return R, ob.make(R), c


def run(ck):
    names = {"Cosmology", "Cosmology with gamma"}
    for ob in objects(ck.thorough):
        R, o, c = fresh(ck, ob)
        v = ck.valn(ob.name)
        want = {}
        with ck.case("reference", ob.name):
            for n, _ in quantities(R, ob.kind, o, c):
                # each quantity on its own fresh object
                R1, o1, c1 = fresh(ck, ob)
                with ck.case("fresh evaluation", f"{ob.name}: {n}"):
                    want[n] = dict(quantities(R1, ob.kind, o1, c1))[n]()
        hs = histories(R, ob.kind, o, c, Z())
        # one earlier call, then everything
        for i, (hn, _) in enumerate(hs):
            sub = f"{ob.name} after {hn}"
            R1, o1, c1 = fresh(ck, ob)
            with ck.case("independent of history", sub):
                h1 = histories(R1, ob.kind, o1, c1, Z())
                with ck.case("history runs", sub):
                    h1[i][1]()
                for n, t in quantities(R1, ob.kind, o1, c1, heavy=ob.kind != "cosmo" or ck.thorough):
                    if n in want:
                        with ck.case("independent of history: " + n, sub):
                            ck.same("independent of history: " + n, sub, t(), want[n], v)
        # all earlier calls in two orders, then everything, twice
        for rev in (False, True):
            R1, o1, c1 = fresh(ck, ob)
            sub = f"{ob.name} after all calls" + (" in reverse" if rev else "")
            with ck.case("independent of history", sub):
                h1 = histories(R1, ob.kind, o1, c1, Z())
                for hn, t in (reversed(h1) if rev else h1):
                    t()
                for k in range(2):
                    for n, t in quantities(R1, ob.kind, o1, c1):
                        if n in want:
                            ck.same("independent of history: " + n, sub + (", again" if k else ""), t(), want[n], v)
        # table options asked for after the default tables exist
        if ob.kind == "cosmo":
            for l, s in LIMITS:
                q = lambda R, o: R("background.radial_comoving_distance", o, A(), log10_amin=l, steps=s)
                R1, o1, _ = fresh(ck, ob)
                R2, o2, _ = fresh(ck, ob)
                sub = f"{ob.name}: radial_comoving_distance({l},{s}) after the defaults"
                with ck.case("independent of history", sub):
                    R2("background.radial_comoving_distance", o2, A())
                    R2("background.growth_factor", o2, A())
                    ck.same("independent of history", sub, q(R2, o2), q(R1, o1), v)
    # tables of neighbouring options are not taken for one another
    R1 = Run(ck)
    o1 = R1.cosmo()
    for rev in (False, True):
        for l, s in reversed(FINE) if rev else FINE:
            R2 = Run(ck)
            sub = f"radial_comoving_distance({l},{s}) after other options" + (" again" if rev else "")
            with ck.case("independent of history", sub):
                q = lambda R, o: R("background.radial_comoving_distance", o, A(), log10_amin=l, steps=s)
                ck.same("independent of history", sub, q(R1, o1), q(R2, R2.cosmo()), ck.valn("fine"))
    # and neither are tables of neighbouring sizes
    def tables(n):
        R = Run(ck)
        o = R.cosmo()
        q = lambda R, o, s: R("background.radial_comoving_distance", o, A(), log10_amin=-2, steps=s)
        sub = f"radial_comoving_distance with {n} and {n + 1} steps"
        with ck.case("independent of history", sub):
            q(R, o, n)
            R2 = Run(ck)
            ck.same("independent of history", sub, q(R, o, n + 1), q(R2, R2.cosmo(), n + 1), ck.valn("steps"))

    ck.steer("table steps", tables, (5, 9, 17), 5000)
    # and many tables of one object are told apart
    R1 = Run(ck)
    o1 = R1.cosmo()
    many = [(-2, s) for s in range(2, 50)] + [(-3, s) for s in range(2, 34)] + [(-1.5 - 0.03125 * i, 3) for i in range(32)]
    q = lambda R, o, l, s: R("background.radial_comoving_distance", o, P("ah", 0.3, 0.95), log10_amin=l, steps=s)
    for l, s in many:
        R2 = Run(ck)
        sub = f"radial_comoving_distance({l},{s}) after {len(many)} tables"
        with ck.case("independent of history", sub):
            ck.same("independent of history", sub, q(R1, o1, l, s), q(R2, R2.cosmo(), l, s), ck.valn("many"))
    # two objects of the same or of different parameters never share results
    kinds = objects(ck.thorough)
    for ob in kinds:
        with ck.case("objects are independent", ob.name):
            R = Run(ck)
            c = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
            o1 = ob.make(R)
            o2 = ob.make(R, tag="n_")
            values(R, ob.kind, o1, c)
            got = values(R, ob.kind, o2, c)
            R2 = Run(ck)
            c2 = R2.cosmo(tag="ref") if ob.kind != "cosmo" else None
            o3 = ob.make(R2, tag="n_")
            for n, t in quantities(R2, ob.kind, o3, c2):
                ck.same("objects are independent: " + n, ob.name, got[n], t(), ck.valn(ob.name))
    # functions with neither object: repeated evaluation with other arguments
    with ck.case("free functions", "noise and covariance"):
        R, R0 = Run(ck), Run(ck)
        p = Plain()

        def probes(R):
            return [R(WL, [smailg(R, p, "a", zmax=2.9371), smailg(R, p, "b", zmax=2.1379)]), R(NC, [smailg(R, p, "c", zmax=2.9371)], cb(R, p))]

        ell = V("ell", 20.0, 900.0, 3)
        R("angular_cl.noise_cl", V("e2", 5.0, 90.0, 2), probes(R)[:1])
        R("angular_cl.noise_cl", V("e2", 5.0, 90.0, 2), list(reversed(probes(R))))
        ck.same("free functions", "noise_cl after other probes", R("angular_cl.noise_cl", ell, probes(R)), R0("angular_cl.noise_cl", ell, probes(R0)))
        S = Arr(mat("S", 6, 3, 0.5, 2.0).d, "f", 0, "jnp")
        N = Arr(mat("N", 6, 3, 0.5, 2.0).d, "f", 0, "jnp")
        g = "angular_cl.gaussian_cl_covariance"
        R(g, ell, probes(R), S, N, f_sky=0.7, sparse=False)
        ck.same("free functions", "covariance after other options", R(g, ell, probes(R), S, N), R0(g, ell, probes(R0), S, N))
        ck.same("free functions", "dense covariance after sparse", R(g, ell, probes(R), S, N, sparse=False), R0(g, ell, probes(R0), S, N, sparse=False))

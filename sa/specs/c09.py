"""Array arguments are treated point by point."""
from .common import *
from .common import _NP
from .c05 import norm

N = 5
ORDER = [3, 0, 4, 1, 2]


def cases(R, ck):
    """(name, f(points), axis of the points in the result, (lo, hi), scalar allowed, lengths)."""
    c, cg = R.cosmo(), R.cosmo(True, tag="g")
    F = lambda path, *a, **k: (lambda x: R(path, *a, x, **k))
    A, K_, Z_, CHI = (0.05, 0.98), (0.005, 5.0), (0.05, 1.9), (50.0, 5000.0)
    out = []

    def add(name, f, rng, axis=-1, scalar=True, lens=(1, 2, 3, N)):
        out.append((name, f, axis, rng, scalar, lens))

    for n in BG:
        add(n, F("background." + n, c), A)
        if n.startswith("growth"):
            add(n + ", gamma", F("background." + n, cg), A)
    for n in ("radial_comoving_distance",):
        add(n + ", options", F("background." + n, c, log10_amin=-2, steps=64), A)
    add("a_of_chi", F("background.a_of_chi", c), CHI)
    add("z2a", F("utils.z2a"), Z_)
    add("a2z", F("utils.a2z"), A)
    for ty in ("eisenhu", "eisenhu_osc"):
        add(f"Eisenstein_Hu({ty})", F("transfer.Eisenstein_Hu", c, type=ty), K_)
    add("primordial_matter_power", F("power.primordial_matter_power", c), K_)
    EH = R.get("transfer.Eisenstein_Hu")
    fns = [("linear_matter_power", lambda k, *a: R("power.linear_matter_power", c, k, *a)),
           ("nonlinear_matter_power", lambda k, *a: R("power.nonlinear_matter_power", c, k, *a)),
           ("linear", lambda k, a: R("power.linear", c, k, a, EH)),
           ("halofit(smith2003)", lambda k, a: R("power.halofit", c, k, a, EH, prescription="smith2003")),
           ("halofit(takahashi2012)", lambda k, a: R("power.halofit", c, k, a, EH, prescription="takahashi2012"))]
    k0, a0 = P("kfix", *K_), P("afix", *A)
    for n, f in fns:
        add(n + " in k, one a", lambda x, f=f: f(x, a0), K_)
        add(n + " in a, one k", lambda x, f=f: f(k0, x), A)
        if n in ("linear_matter_power", "nonlinear_matter_power"):
            add(n + " in k, today", lambda x, f=f: f(x), K_)
    add("linear_matter_power, other transfer", lambda x: R("power.linear_matter_power", c, x, a0, EH, type="eisenhu"), K_)
    for ob in objects(True):
        if ob.kind == "nz":
            o = ob.make(R, "o")
            add(ob.name, lambda x, o=o: R.I.call(o, [x], {}), Z_)
            add(ob.name + ".pz_fn", lambda x, o=o: R.meth(o, "pz_fn", x), Z_)
        elif ob.kind == "bias":
            o = ob.make(R, "o")
            add(ob.name, lambda x, o=o: R.I.call(o, [c, x], {}), Z_)
        elif ob.kind == "probe":
            o = ob.make(R, "o")
            add(ob.name + ".kernel", lambda x, o=o: R.meth(o, "kernel", c, x, P("lfix", 20.0, 900.0)), Z_, axis=1)
            nl = opaque_pk()
            if "noise" not in ob.name:
                add(ob.name + ", angular_cl", lambda x, o=o: R("angular_cl.angular_cl", c, x, [o], nonlinear_fn=nl), (20.0, 900.0), axis=1, scalar=False)
            add(ob.name + ", noise_cl", lambda x, o=o: R("angular_cl.noise_cl", x, [o]), (20.0, 900.0), axis=1, scalar=False)
    p = _NP(Num(tag="d"))
    two, three = [smail(R, p, "u", zmax=3.8713), kde(R, p, "v", zmax=2.9371)], [smail(R, p, "u", zmax=3.8713), delta(R, p, "w"), smail(R, p, "x")]
    add("weak_lensing_kernel", lambda x: R("probes.weak_lensing_kernel", c, three, x, P("lfix", 20.0, 900.0)), Z_, axis=1)
    for b in (cb(R, p, "g"), [ig(R, p, "g"), cb(R, p, "h")], ia(R, p, "i")):
        nm = "per bin" if isinstance(b, list) else b.cls.name
        add("density_kernel, " + nm, lambda x, b=b: R("probes.density_kernel", c, two, b, x, P("lfix", 20.0, 900.0)), Z_, axis=1, scalar=False)
        add("nla_kernel, " + nm, lambda x, b=b: R("probes.nla_kernel", c, two, b, x, P("lfix", 20.0, 900.0)), Z_, axis=1, scalar=False)
    WLs = R(WL, two, ia_bias=ia(R, p, "i"), multiplicative_bias=[p("m0", -.1, .1), p("m1", -.1, .1)])
    NCs = R(NC, [smail(R, p, "y", zmax=2.1379)], cb(R, p, "j"))
    add("angular_cl, halofit", F2(R, c, [NCs]), (20.0, 900.0), axis=1, scalar=False, lens=(1, 2, 3))
    add("angular_cl, two probes", lambda x: R("angular_cl.angular_cl", c, x, [WLs, NCs], nonlinear_fn=opaque_pk()), (20.0, 900.0), axis=1, scalar=False)
    # values between the nodes of short tables, with the kernels themselves
    xp, fp = V("xp", 0.0, 2.0, 4), V("fp", -1.0, 1.0, 4)
    add("interp", lambda x: R("scipy.interpolate.interp", x, xp, fp), (0.05, 1.8), scalar=False)
    for k, e in ((1, "not-a-knot"), (2, "not-a-knot"), (3, "not-a-knot"), (3, "natural")):
        s = R("scipy.interpolate.InterpolatedUnivariateSpline", V("sx", 0.0, 2.0, 6), V("sy", -1.0, 1.0, 6), k=k, endpoints=e)
        add(f"spline({k},{e})", lambda x, s=s: R.I.call(s, [x], {}), (0.05, 1.9))
        add(f"spline({k},{e}).derivative", lambda x, s=s: R.meth(s, "derivative", x), (0.05, 1.9))
        add(f"spline({k},{e}).antiderivative", lambda x, s=s: R.meth(s, "antiderivative", x), (0.05, 1.9))
    return out


def F2(R, c, probes):
    return lambda x: R("angular_cl.angular_cl", c, x, probes)


def run(ck):
    R = Run(ck)
    v = ck.valn("c09")
    for name, f, axis, (lo, hi), scalar, lens in cases(R, ck):
        pts = [sym(f"{name}@{i}", lo + (hi - lo) * i / N, lo + (hi - lo) * (i + 0.9) / N) for i in range(max(lens))]
        pts = [pts[i] for i in ORDER if i < len(pts)]
        one = {}
        with ck.case("pointwise", f"{name}, one point"):
            for t in pts:
                r = R.a(f(arr([t])))
                one[t.id] = r
        if len(one) < len(pts):
            continue
        ref = one[pts[0].id]
        ck.ok("one entry per point", f"{name}, one point", ref.d.size >= 1 and all(one[t.id].shape == ref.shape for t in pts), f"shape {ref.shape}")
        squeezed = ref.ndim == 0  # documented squeeze of single results
        if axis == 1:
            ck.ok("axes", f"{name}, one point", ref.ndim == 2 and ref.shape[1] == 1, f"shape {ref.shape}")
            if ref.ndim != 2 or ref.shape[1] != 1:
                continue

        def entry(r, i):
            return oa(np.take(r.d, i, axis=axis))

        def single(t):
            r = one[t.id]
            return oa(r.d) if squeezed else oa(np.take(r.d, 0, axis=axis))

        lists = [("order " + str(n), pts[:n]) for n in lens if n > 1] + [("reversed", pts[::-1]), ("sorted", sorted(pts, key=lambda t: T.RANGES[t.attr][0])),
                                                                       ("sorted down", sorted(pts, key=lambda t: -T.RANGES[t.attr][0])), ("repeated", [pts[0], pts[1], pts[0]])]
        for ln, ps in lists:
            for kind in ("jnp", "np") if ln == "reversed" else ("jnp",):
                sub = f"{name}, {ln}{' host' if kind == 'np' else ''}"
                with ck.case("pointwise", sub):
                    r = R.a(f(arr(ps, kind=kind)))
                    want = ref.shape if not squeezed else ()
                    want = (len(ps),) if squeezed else want[:axis % len(want)] + (len(ps),) + want[axis % len(want) + 1:]
                    if not ck.ok("one entry per point", sub, r.shape == want, f"shape {r.shape} instead of {want}"):
                        continue
                    for i, t in enumerate(ps):
                        ck.eq("pointwise", f"{sub}, point {i}", Arr(entry(r, i), "f", 0, "jnp"), Arr(single(t), "f", 0, "jnp"), v)
        if scalar:
            for kind in ("py", "jnp", "np"):
                sub = f"{name}, scalar {kind}"
                with ck.case("scalars accepted", sub):
                    r = R.a(f(Arr(pts[0], "f", 0, kind, kind == "py")))
                    ck.eq("scalars accepted", sub, arr(r.flat()), arr(list(single(pts[0]).reshape(-1))), v)
                with ck.case("scalars accepted", sub + ", traced"):
                    if kind == "jnp":
                        r = R.a(R.traced(lambda x: f(x), [Arr(pts[0], "f", 0, kind)]))
                        ck.eq("scalars accepted", sub + ", traced", arr(r.flat()), arr(list(single(pts[0]).reshape(-1))), v)
    # long arrays: entries keep the value they have alone
    for name, f, axis, (lo, hi), scalar, lens in cases(Run(ck), ck):
        def at(n, name=name, axis=axis, lo=lo, hi=hi):
            R = Run(ck)
            f = {q[0]: q[1] for q in cases(R, ck)}[name]
            with ck.case("pointwise", f"{name}, {n} points"):
                ix = [(i * 7 + n // 2) % n if n % 7 else n - 1 - i for i in range(n)]
                pts = [sym(f"{name}@{n}_{i}", lo + (hi - lo) * i / n, lo + (hi - lo) * (i + 0.9) / n) for i in ix]
                r = R.a(f(arr(pts)))
                if not ck.ok("one entry per point", f"{name}, {n} points", r.ndim and r.shape[axis] == n, f"shape {r.shape}"):
                    return
                for i in sorted({0, 1, n // 2, n - 2, n - 1} | set(range(0, n, max(1, n // 7)))):
                    w = R.a(f(arr([pts[i]])))
                    w = oa(w.d) if not w.ndim else oa(np.take(w.d, 0, axis=axis))
                    ck.eq("pointwise", f"{name}, {n} points, point {i}", Arr(oa(np.take(r.d, i, axis=axis)), "f", 0, "jnp"), Arr(w, "f", 0, "jnp"), v)
        ck.steer(name, at, (4, 6, 9), 60 if "angular_cl" in name or "kernel" in name else 1100)
    # pairs (k, a) go together
    c = R.cosmo()
    for n in ("linear_matter_power", "nonlinear_matter_power"):
        for m in (2, 3, 4):
            sub = f"{n}, {m} pairs"
            with ck.case("pairs", sub):
                k, a = V(f"kp{m}_", 0.05, 2.0, m), V(f"ap{m}_", 0.3, 0.95, m)
                r = R.a(R("power." + n, c, k, a))
                if ck.ok("one entry per point", sub, r.shape == (m,), f"shape {r.shape}"):
                    for i in range(m):
                        one = R.a(R("power." + n, c, Arr(k.flat()[i], "f", 0, "jnp"), Arr(a.flat()[i], "f", 0, "jnp")))
                        ck.eq("pairs", f"{sub}, {i}", arr([r.flat()[i]]), arr(one.flat()), v)

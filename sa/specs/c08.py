"""Values and derivatives are finite and right at the special points."""
from .common import *
from .oracle import *
from .c07 import outputs, combine
from .c05 import rebuild

FLAT = dict(Omega_k=0.0)
LCDM = dict(w0=-1.0, wa=0.0)
NOW = dict(aq0=0.6, aq1=1.0, zq0=0.0, zq1=0.7)
ENDS = {"quad.delta": 0.5}
PLAIN = dict(m=0.0, m0=0.0, m1=0.0, A=0.0, eta=0.0, shift=0.0, n_s=1.0, chiq0=0.0)

POINTS = [
    ("flat", FLAT),
    ("cosmological constant", LCDM),
    ("flat, cosmological constant", {**FLAT, **LCDM}),
    ("today", NOW),
    ("today, flat", {**NOW, **FLAT}),
    ("today, flat, cosmological constant", {**NOW, **FLAT, **LCDM}),
    ("everything neutral, integrals at their ends", {**NOW, **FLAT, **LCDM, **PLAIN, **ENDS}),
    ("integrals at their ends", ENDS),
]


def tagged(over, ob):
    """Overrides for every name a parameter of the configuration may have."""
    out = dict(over)
    for n, x in list(over.items()):
        out["ref" + n] = x
        out["par" + n] = x
    return out


def finite(ck, rule, sub, ts, v, gen=None):
    """gen: a valuation away from the point; only lanes defined there count."""
    ts = [t for t in ts if t.op != "const"]
    bad = None
    for t in ts:
        x = v(t)
        if gen is not None:
            x = np.where(np.isfinite(gen(t)), x, 0.0)
        if not np.isfinite(x).all():
            k = int(np.flatnonzero(~np.isfinite(x))[0])
            bad = bad or (t, f"value is {x[k]}")
            continue
        g = T.gradient(t, v)
        for n in sorted(g):
            if not np.isfinite(g[n]).all():
                if np.isfinite(v(t)[~np.isfinite(g[n])]).any():
                    bad = bad or (t, f"d/d{n} is {g[n][np.flatnonzero(~np.isfinite(g[n]))[0]]}")
    ck.ok(rule, sub, bad is None, bad and f"{bad[1]}", bad[0].loc if bad else None)
    return bad is None


def connected(ck, sub, ts, over, v, gen, skip=()):
    """Value and derivatives at the point are the limits from next to it."""
    ts = [t for t in ts if t.op != "const" and np.isfinite(v(t)).all()]
    names = [n for n in over if n in T.symbols_many(ts) and n not in ("quad.delta",)]
    if not ts or not names:
        return
    root = combine(ts, sub, gen)
    at, gat = v(root), T.gradient(root, v)
    e = 1e-4
    worst = None
    for s in (1.0, -1.0):
        near = {}
        for n, x in over.items():
            lo = 0.0 if n.lstrip("refpar").startswith(("zq", "chiq")) else None
            d = s * e * (1000.0 if "chiq" in n else 1.0)
            d = abs(d) if lo is not None else d
            if n.endswith(("aq0", "aq1")):
                d = -abs(d)
            near[n] = x + (d if n in names else 0.0)
        w = T.Valuation(seed=v.seed, K=v.K, over=near, tag=v.tag)
        b, gb = w(root), T.gradient(root, w)
        if not (np.abs(at - b) <= 2e-3 * (np.abs(at) + np.abs(b)) + 0.02).all():
            worst = worst or f"value {at[0]:.6g}, next to it {b[0]:.6g}"
        for n in sorted(set(gat) | set(gb)):
            if n in skip:
                continue
            x, y = gat.get(n, np.zeros(v.K)), gb.get(n, np.zeros(v.K))
            sc = np.abs(x) + np.abs(y) + 0.05 * np.abs(at)
            if not (np.abs(x - y) <= 0.02 * sc + 0.03).all():
                k = int(np.argmax(np.abs(x - y) / sc))
                worst = worst or f"d/d{n} is {x[k]:.6g}, next to it {y[k]:.6g}"
    ck.ok("connected", sub, worst is None, worst, None)


def series(c, chi):
    """f_k(chi) for small curvature."""
    x = chi / RH
    ok = c.Omega_k
    return RH * (x + ok * x * x * x / 6.0 + ok * ok * pow_(x, 5.0) / 120.0)


def run(ck):
    T.NOFOLD[0] = True  # 0 * x stays, its derivative need not be finite
    try:
        points(ck)
    finally:
        T.NOFOLD[0] = False


def points(ck):
    for ob in objects(ck.thorough):
        if ob.kind == "spline":
            continue
        R = Run(ck)
        with ck.case("special points", ob.name):
            c0 = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
            o = ob.make(R)
            names = [n for n, t in quantities(R, ob.kind, o, c0) if n not in ("n_tracers", "k", "sqrtk")]  # sqrt(|Omega_k|) itself has no derivative at 0
            got = {}

            def fn(o, c, n):
                return [t() for m, t in quantities(R, ob.kind, o, c) if m == n]
            for n in names:
                with ck.case("special points", f"{ob.name}, {n}"):
                    got[n] = outputs(R, R.traced(lambda *a, n=n: fn(a[0], a[1] if len(a) > 1 else None, n), [o] + ([c0] if c0 is not None else [])))
            for pname, over in POINTS:
                ov = tagged(over, ob)
                ov.update({t.attr: 2.0 for t in ob.params if t.attr.endswith("sa")})
                v, gen = ck.valn("c08", over=ov), ck.valn("c08")
                beside = ck.valn("c08", over={n: x - 1e-4 * (n.startswith("aq")) + 1e-4 * n.startswith(("zq", "chiq")) for n, x in ov.items()})
                for n, ts in got.items():
                    sub = f"{ob.name}, {n}: {pname}"
                    # an unsmoothed slice of galaxies is not continuous in redshift
                    if finite(ck, "finite", sub, ts, v, beside) and not ob.name.startswith("delta") and "nonlinear" not in n and "quad.delta" not in over:
                        connected(ck, sub, ts, ov, v, gen)
    # concrete numbers, nothing traced
    for pname, over in POINTS[:-1] + [("flat matter only", {"Omega_k": 0.0, "Omega_c": 0.95, "Omega_b": 0.05})]:
        R = Run(ck)
        for scal in ("py", "jnp"):
            sub = f"concrete {scal} numbers: {pname}"
            with ck.case("finite", sub):
                d = {n: const(0.5 * (lo + hi) if n != "Omega_k" else 0.07) for n, (lo, hi) in COSMO.items()}
                d.update({n: const(x) for n, x in over.items() if n in d})
                c = R("Cosmology", **{n: Arr(t, "f", 0, scal, scal == "py") for n, t in d.items()})
                a1 = arr([0.5, over.get("aq1", 0.8)])
                for q in BG:
                    with ck.case("finite", f"{sub}, {q}"):
                        finite(ck, "finite", f"{sub}, {q}", [x for x in R.a(R("background." + q, c, a1)).flat()], ck.valn("conc"))
                        x = [float(ck.valn("conc")(t)[0]) for t in R.a(R("background." + q, c, a1)).flat()]
                        ck.ok("finite", f"{sub}, {q}, number", bool(np.isfinite(x).all()), f"{x}")
    # derivatives at the special points against the formulae
    for gamma in (False, True):
        R = Run(ck)
        with ck.case("derivative right", f"gamma={gamma}"):
            c, o = R.cosmo(gamma), Cos(gamma=gamma)
            A0 = V("aq", 0.4, 0.9, 2)
            for q in BG:
                if gamma and not q.startswith("growth"):
                    continue
                sub = f"{q}, gamma={gamma}"
                with ck.case("derivative right", sub):
                    n0 = len(R.I.sum_log)
                    r = outputs(R, R.traced(lambda c, a, q=q: R("background." + q, c, a), [c, A0]))
                    nt = [e["n"] for e in R.I.sum_log[n0:] if e["kind"] == "interp"]
                    n = nt[-1] if nt else None
                    at = A0.flat()
                    chi = lambda x: o.chi(x, n=n) if q in ("radial_comoving_distance", "transverse_comoving_distance", "angular_diameter_distance") else None
                    f = {
                        "w": lambda a: o.w(a), "f_de": lambda a: -3.0 * (1.0 + o.w0 + o.wa) * log(a) + 3.0 * o.wa * (a - 1.0),
                        "Esqr": o.E2, "H": lambda a: 100.0 * o.E(a), "Omega_m_a": o.Om_a, "Omega_de_a": o.Ode_a,
                        "radial_comoving_distance": chi, "dchioverda": o.dchida,
                        "transverse_comoving_distance": lambda a: series(o, chi(a)),
                        "angular_diameter_distance": lambda a: a * series(o, chi(a)),
                        "growth_factor": lambda a: o.growth(a, n), "growth_rate": lambda a: o.growth_rate(a, n),
                    }[q]
                    for pname, over in POINTS[:3]:
                        if q in ("transverse_comoving_distance", "angular_diameter_distance") and "Omega_k" not in over:
                            continue
                        v = ck.valn("c08d", over=over)
                        for t, a in zip(r, at):
                            w = f(a)
                            x, y = v(t), v(w)
                            ck.ok("value right", f"{sub}: {pname}", bool((np.abs(x - y) <= 1e-8 * np.abs(y)).all()), f"{x[0]:.9g} instead of {y[0]:.9g}", t.loc)
                            g, h = T.gradient(t, v), T.gradient(w, v)
                            for s in sorted(set(g) | set(h)):
                                p, u = g.get(s, np.zeros(v.K)), h.get(s, np.zeros(v.K))
                                ck.ok("derivative right", f"{sub}, d/d{s}: {pname}", bool((np.abs(p - u) <= 1e-6 * np.abs(u) + 1e-9 * np.abs(y)).all()), f"{p[0]:.9g} instead of {u[0]:.9g}", t.loc)

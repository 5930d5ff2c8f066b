"""Derivatives reach every input that the value depends on."""
from .common import *
from .c05 import norm

STEPS = 65


def outputs(R, r):
    """Floating-point elements of a result."""
    ls, _ = M.flatten(R.I, r)
    out = []
    for l in ls:
        if isinstance(l, (Arr, int, float)) and not isinstance(l, bool):
            A = R.a(l)
            if M.isfloat(A.dt):
                out += A.flat()
    return out


def combine(ts, tag, v):
    """One random linear combination of the elements, of order one each."""
    s = const(0.0)
    for i, t in enumerate(ts):
        m = np.abs(v(t))
        m = m[np.isfinite(m) & (m > 0)]
        w = (0.5 + T.hrand("w", tag, i)) / (float(m.mean()) if m.size else 1.0)
        s = s + w * t
    return s


def ftc(root, name, v, asif_gap):
    """Does the derivative along one input integrate to the change in value?

    Decides whether a cut is harmless (an index or a piece of a continuous
    piecewise function) or really loses the dependence.
    """
    lo, hi = T.RANGES[name][:2]
    over = {n: float(v.symval(n)[0]) for n in T.symbols(root)}
    x0 = over[name]
    x1 = x0 + 0.37 * ((hi - x0) if hi - x0 > x0 - lo else (lo - x0))
    xs = np.linspace(x0, x1, STEPS)
    w = T.Valuation(seed=0, K=STEPS, over={**over, name: xs})
    val = w(root)
    g = T.gradient(root, w).get(name, np.zeros(STEPS))
    h = T.gradient(root, w, asif=True).get(name, np.zeros(STEPS))
    tr = lambda q: float(((q[1:] + q[:-1]) / 2 * np.diff(xs)).sum())
    gap = abs(tr(h) - tr(g))
    return abs((val[-1] - val[0]) - tr(g)) <= 0.5 * gap


def check(ck, sub, ts, v, finite=True):
    ts = [t for t in ts if t.op != "const"]
    if not ts:
        return ck.ob("derivative reaches the inputs", sub, "ok")
    root = combine(ts, sub, v)
    val = v(root)
    g, h = T.gradient(root, v), T.gradient(root, v, asif=True)
    bad, nan = None, None
    lanes = np.isfinite(val)
    for n in sorted(set(g) | set(h)):
        x, y = g.get(n, np.zeros(v.K)), h.get(n, np.zeros(v.K))
        for k in np.flatnonzero(lanes):
            if not np.isfinite(x[k]):
                nan = nan or (n, k)
            elif np.isfinite(y[k]) and abs(x[k] - y[k]) > 1e-9 * max(abs(x[k]), abs(y[k]), 1e-12):
                if not ftc(root, n, v, None):
                    bad = bad or (n, x[k], y[k])
                break
    cuts = [t for t in T.topo([root]) if t.op in T.CUTS] if bad else []
    ck.ok("derivative reaches the inputs", sub, bad is None,
          bad and f"d/d{bad[0]}: {bad[1]:.6g} instead of {bad[2]:.6g}, cut by {cuts and cuts[0].op}", cuts[0].loc if cuts else None)
    if finite:
        ck.ok("derivative is finite", sub, nan is None, nan and f"d/d{nan[0]} is {g[nan[0]][nan[1]]} where the value is {val[nan[1]]:.6g}")


def run(ck):
    v = ck.valn("c07")
    for kern in (False, True):
        R = Run(ck, summaries=not kern)
        for c in catalogue(R, Num("jnp", "jnp"), ck.thorough):
            if kern != (c.group in ("kernels", "spline")):
                continue
            with ck.case("derivative reaches the inputs", c.name):
                n = len(R.I.events)
                r = R.traced(lambda *a, c=c: c.fn(R, *a, **c.kw), c.args)
                ev = [e for e in R.I.events[n:] if e["kind"] == "no-reverse-mode"]
                ck.ok("reverse mode", c.name, not ev, ev and ev[0]["what"], ev[0]["loc"] if ev else None)
                check(ck, c.name, outputs(R, r), v)
    # at every size of the arguments, tables and objects
    few = ck.valn("c07", K=4)

    def at(name, n):
        R = Run(ck)
        sub = f"{name}, {n} points"
        with ck.case("derivative reaches the inputs", sub):
            c = call_named(R, name, Num("jnp", "jnp", size=n))
            m = len(R.I.events)
            r = R.traced(lambda *a: c.fn(R, *a, **c.kw), c.args)
            ev = [e for e in R.I.events[m:] if e["kind"] == "no-reverse-mode"]
            ck.ok("reverse mode", sub, not ev, ev and ev[0]["what"], ev[0]["loc"] if ev else None)
            check(ck, sub, outputs(R, r), few, False)

    scale_calls(ck, at, skip=("kernels", "spline"))

    def of(ob):
        R = Run(ck)
        c0 = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
        o = ob.make(R)
        for n in [n for n, t in quantities(R, ob.kind, o, c0) if n not in ("n_tracers", "k", "zmax")]:
            with ck.case("derivative reaches the inputs", f"{ob.name}, {n}"):
                check(ck, f"{ob.name}, {n}", outputs(R, R.traced(lambda q: [t() for m, t in quantities(R, ob.kind, q, c0) if m == n], [o])), few, False)

    scale_objects(ck, of)

    def steps(n):
        R = Run(ck)
        with ck.case("derivative reaches the inputs", f"table of {n} steps"):
            r = R.traced(lambda c, a: R("background.radial_comoving_distance", c, a, -2, n), [R.cosmo(), A()])
            check(ck, f"table of {n} steps", outputs(R, r), few, False)

    ck.steer("table steps", steps, (5, 9, 17), 1100)
    # derivatives with respect to the parameters of the objects, inside and outside of their construction
    for ob in objects(ck.thorough):
        for where_ in ("built outside", "built inside"):
            R = Run(ck)
            sub = f"{ob.name}, {where_}"
            with ck.case("derivative reaches the inputs", sub):
                c0 = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
                o = ob.make(R)
                pars = [Arr(t, "f", 0, "py", True) for t in ob.params]
                byid = {t.id: i for i, t in enumerate(ob.params)}
                names = [n for n, t in quantities(R, ob.kind, o, c0, ob.kind != "cosmo") if n not in ("n_tracers", "k")]
                for i, n in enumerate(names):
                    if where_ == "built inside":
                        def body(*vals, n=n):
                            from .c05 import rebuild
                            def mk1(name, lo, hi):
                                return vals[byid[sym(name, lo, hi).id]]
                            q = rebuild(R, ob, mk1, vals, byid)
                            return [t() for m, t in quantities(R, ob.kind, q, c0, ob.kind != "cosmo") if m == n]
                        with ck.case("derivative reaches the inputs", f"{sub}, {n}"):
                            check(ck, f"{sub}, {n}", outputs(R, R.traced(body, pars)), v)
                    else:
                        with ck.case("derivative reaches the inputs", f"{sub}, {n}"):
                            f = lambda q: [t() for m, t in quantities(R, ob.kind, q, c0, ob.kind != "cosmo") if m == n]
                            check(ck, f"{sub}, {n}", outputs(R, R.traced(f, [o])), v)

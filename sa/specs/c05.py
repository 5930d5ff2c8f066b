"""Every numeric function can be traced and gives the eager result."""
from .common import *
from .common import _NP


def split(R, args):
    return [M.flatten(R.I, a) for a in args]


def run(ck):
    R0 = Run(ck)
    ref = {}
    for c in catalogue(R0, Num(), ck.thorough):
        with ck.case("eager", c.name):
            ref[c.name] = c.run(R0)
            ck.ok("eager", c.name, True)
    v = ck.valn("c05")
    for scal, vec in (("jnp", "jnp"), ("py", "np"), ("np", "np")):
        R = Run(ck)
        for c in catalogue(R, Num(scal, vec), ck.thorough):
            sub = f"{c.name}, {scal} scalars, {vec} arrays"
            with ck.case("same for every flavour of input", sub):
                if c.name in ref:
                    ck.same("same for every flavour of input", sub, norm(R, c.run(R)), norm(R, ref[c.name]), v)
    # everything traced
    R = Run(ck)
    for c in catalogue(R, Num(), ck.thorough):
        with ck.case("traced", c.name):
            n = len(R.I.events)
            r = R.traced(lambda *a, c=c: c.fn(R, *a, **c.kw), c.args)
            if c.name in ref:
                ck.same("traced", c.name, norm(R, r), norm(R, ref[c.name]), v)
            sinks = [e for e in R.I.events[n:] if e["kind"] in ("trace-sink", "leaked-tracer-use")]
            ck.ok("no concretisation", c.name, not sinks, f"{sinks[0] if sinks else ''}", sinks[0]["loc"] if sinks else None)
    # one argument traced, the others concrete
    R = Run(ck)
    for j in range(5):
        for c in catalogue(R, Num("py", "np" if not ck.thorough else "jnp"), ck.thorough):
            if j >= len(c.args) or len(c.args) == 1:
                continue
            sub = f"{c.name}, only argument {j} traced"
            with ck.case("partly traced", sub):
                r = R.traced(lambda x, c=c: c.fn(R, *(c.args[:j] + [x] + c.args[j + 1:]), **c.kw), [c.args[j]])
                if c.name in ref:
                    ck.same("partly traced", sub, norm(R, r), norm(R, ref[c.name]), v)
    # a batch of all inputs
    R = Run(ck)
    A_ = catalogue(R, Num(), ck.thorough)
    B_ = catalogue(R, Num(tag="n_"), ck.thorough)
    for c, d in zip(A_, B_):
        if c.group in ("cl",) and not ck.thorough:
            continue
        with ck.case("batched", c.name):
            la, st = M.flatten(R.I, c.args)
            lb, _ = M.flatten(R.I, d.args)
            stacked = [Arr(M._stack0([R.a(x).d, R.a(y).d]) if R.a(x).ndim == 0 else np.stack([R.a(x).d, R.a(y).d]), "f", 0, "jnp") for x, y in zip(la, lb)]
            f = NF("user function", lambda I, a, k, c=c, st=st: c.fn(R, *M.unflatten(I, st, list(a)), **c.kw))
            r = M.call_vmap(R.I, Vmap(f), stacked, {})
            lr, _ = M.flatten(R.I, r)
            lw, _ = M.flatten(R.I, ref[c.name])
            ck.ok("batched", c.name + ", outputs", len(lr) == len(lw), f"{len(lr)} outputs instead of {len(lw)}")
            for i, (x, w) in enumerate(zip(lr, lw)):
                x = R.a(x)
                ck.eq("batched", f"{c.name}, output {i}", Arr(x.d[0], x.dt, 0, "jnp") if x.ndim > 1 else arr(x.d[0]), R.a(w), v)
    def at(name, n):
        sub = f"{name}, {n} points"
        R1, R2 = Run(ck), Run(ck)
        with ck.case("traced", sub):
            c, d = call_named(R1, name, Num(size=n)), call_named(R2, name, Num("np", "np", size=n))
            want = c.run(R1)
            m = len(R1.I.events)
            ck.same("traced", sub, norm(R1, R1.traced(lambda *a: c.fn(R1, *a, **c.kw), c.args)), norm(R1, want), v)
            sinks = [e for e in R1.I.events[m:] if e["kind"] in ("trace-sink", "leaked-tracer-use")]
            ck.ok("no concretisation", sub, not sinks, f"{sinks[0] if sinks else ''}", sinks[0]["loc"] if sinks else None)
            ck.same("same for every flavour of input", sub, norm(R2, d.run(R2)), norm(R1, want), v)

    scale_calls(ck, at)

    def of(ob):
        R = Run(ck)
        c0 = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
        o = ob.make(R)
        for i, (q, t) in enumerate(quantities(R, ob.kind, o, c0)):
            if q in ("zmax", "n_tracers", "k"):
                continue
            sub = f"{ob.name}, {q}"
            with ck.case("traced", sub):
                m = len(R.I.events)
                r = R.traced(lambda x, c: quantities(R, ob.kind, x, c)[i][1](), [o, c0])
                ck.same("traced", sub, norm(R, r), norm(R, t()), v)
                sinks = [e for e in R.I.events[m:] if e["kind"] in ("trace-sink", "leaked-tracer-use")]
                ck.ok("no concretisation", sub, not sinks, f"{sinks[0] if sinks else ''}", sinks[0]["loc"] if sinks else None)

    scale_objects(ck, of)

    def option(fn):
        def f(n):
            R = Run(ck, summaries=False)
            s = lambda: [P("ia", 0.1, 0.5), P("ib", 1.0, 2.0)]
            with ck.case("traced", f"{fn.__name__}, {n}"):
                g = lambda a, b: fn(R, NF("f", lambda I, a, k: I.binop("mul", a[0], a[0])), a, b, n)
                ck.same("traced", f"{fn.__name__}, {n}", norm(R, R.traced(g, s())), norm(R, g(*s())), v)
        return f

    def simps(R, f, a, b, n):
        return R("scipy.integrate.simps", f, a, b, 2 * n)

    def romb(R, f, a, b, n):
        return R("scipy.integrate.romb", f, a, b, divmax=n)

    def steps(n):
        R = Run(ck)
        with ck.case("traced", f"table of {n} steps"):
            a = A()
            ck.same("traced", f"table of {n} steps", norm(R, R.traced(lambda c, a: R("background.radial_comoving_distance", c, a, -2, n), [R.cosmo(), a])), norm(R, R("background.radial_comoving_distance", R.cosmo(), a, -2, n)), v)

    ck.steer("table steps", steps, (5, 9, 17), 3000)

    def nodes(n):
        R = Run(ck, summaries=False)
        with ck.case("traced", f"interpolation of {n} nodes"):
            g = lambda x, xp, fp: R("scipy.interpolate.interp", x, xp, fp)
            s = [V("x", 0.2, 0.9, 2), V("xp", 0.1, 1.0, n), V("fp", -1.0, 1.0, n)]
            m = len(R.I.events)
            ck.same("traced", f"interpolation of {n} nodes", norm(R, R.traced(g, s)), norm(R, g(*s)), v)
            sinks = [e for e in R.I.events[m:] if e["kind"] in ("trace-sink", "leaked-tracer-use")]
            ck.ok("no concretisation", f"interpolation of {n} nodes", not sinks, f"{sinks[0] if sinks else ''}", sinks[0]["loc"] if sinks else None)

    ck.steer("interpolation nodes", nodes, (2, 3, 5), 1100)

    ck.steer("Simpson panels", option(simps), (3, 4, 6), 300)
    ck.steer("Romberg levels", option(romb), (2, 3, 4), 12)
    # accessors of a traced cosmology
    for g in (False, True):
        R = Run(ck)
        with ck.case("traced accessors", f"gamma={g}"):
            c = R.cosmo(g)
            names = [n for n in COSMO_PROPS if g or n != "gamma"]
            r = R.traced(lambda c: {n: R.attr(c, n) for n in names}, [c])
            for n in names:
                ck.eq("traced accessors", n, R.a(r[n]), R.a(R.attr(c, n)), v)
    # construction inside the traced function
    R = Run(ck)
    for ob in objects(ck.thorough):
        with ck.case("traced construction", ob.name):
            o = ob.make(R)
            pars = [Arr(t, "f", 0, "py", True) for t in ob.params]
            byid = {t.id: i for i, t in enumerate(ob.params)}
            cos = R.cosmo(tag="ref")
            heavy = ob.kind != "cosmo"
            want = {n: t() for n, t in quantities(R, ob.kind, o, cos, heavy)}

            def body(cos, *vals):
                def mk1(name, lo, hi):
                    t = sym(name, lo, hi)
                    return vals[byid[t.id]]
                q = rebuild(R, ob, mk1, vals, byid)
                return {n: t() for n, t in quantities(R, ob.kind, q, cos, heavy)}

            got = R.traced(body, [cos] + pars)
            for n in want:
                ck.same("traced construction: " + n, ob.name, norm(R, got[n]), norm(R, want[n]), v)


def rebuild(R, ob, mk1, vals, byid):
    """Build the object from traced values, vectors included."""
    class Par:
        def __call__(self, n, lo=0.3, hi=1.7):
            return mk1(n, lo, hi)

        def vec(self, n, lo, hi, k):
            w = V(n, lo, hi, k)
            return M.np_array(R.I, [vals[byid[t.id]] for t in w.flat()], "jnp")

    return ob._make(R, Par())


def norm(R, v):
    """Numbers and arrays alike."""
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return R.a(v)
    if isinstance(v, (tuple, list)):
        return type(v)(norm(R, x) for x in v)
    return v

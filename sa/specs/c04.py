"""Public functions do not modify their inputs or global state."""
from .common import *


def snap(R, v, seen=None):
    """Deep snapshot of everything a caller can see of a value."""
    seen = {} if seen is None else seen
    if isinstance(v, (list, tuple, dict, AObj, AFunc, AClass)):
        if id(v) in seen:
            return ("seen", seen[id(v)][0])
        seen[id(v)] = (len(seen), v)
    if isinstance(v, Arr):
        return ("arr", v.shape, v.dt, tuple(t.id for t in v.flat()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(snap(R, x, seen) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, v))))
    if isinstance(v, dict):
        return ("dict",) + tuple((repr(k), snap(R, x, seen)) for k, x in v.items())
    if isinstance(v, AObj):
        pub = [(k, snap(R, x, seen)) for k, x in sorted(v.attrs.items()) if not k.startswith("_")]
        tree = ()
        if v.cls.pytree is not None:
            ls, st = M.flatten(R.I, v)
            from .c01 import auxes, shape_of
            tree = (tuple(snap(R, l, {}) for l in ls), repr(shape_of(st)), snap(R, [a for _, a in auxes(st)], {}))
        elif v.cls.module is not None:
            pub = [(k, snap(R, x, seen)) for k, x in sorted(v.attrs.items())]
        return ("obj", v.cls.name, tuple(pub), tree)
    if isinstance(v, AFunc):
        return ("fn", v.qualname, snap(R, list(v.defaults or []), seen), snap(R, dict(v.kwdefaults or {}), seen), snap(R, dict(v.attrs), seen))
    if isinstance(v, AClass):
        return ("class", v.name, tuple((k, snap(R, x, seen)) for k, x in v.ns.items()))
    if isinstance(v, (Partial,)):
        return ("partial", snap(R, v.fn, seen), snap(R, list(v.args), seen), snap(R, v.kw, seen))
    if isinstance(v, (Jit, Vmap, Summary)):
        return ("wrapped", snap(R, getattr(v, "fn", None) if not isinstance(v, Summary) else v.orig, seen))
    if isinstance(v, AModule):
        return ("module", v.name)
    return ("value", repr(v) if isinstance(v, (int, float, str, bytes, bool, Ext, DType, range)) or v is None else type(v).__name__)


def globals_(R):
    return {f"{m.name}.{k}": snap(R, v, {}) for m in R.I.modules.values() for k, v in m.ns.items()}


def where(I, since):
    ev = [e for e in I.events[since:] if e["kind"] in ("inplace", "global-write")]
    return ev[-1]["loc"] if ev else None


def flavours():
    return [("host arrays", dict(scalar="py", vec="np")), ("JAX arrays", dict(scalar="jnp", vec="jnp")), ("host scalars", dict(scalar="np", vec="np"))]


def run(ck):
    for fl, kw in flavours() if ck.thorough else flavours()[:2]:
        R = Run(ck)
        base = None
        with ck.case("catalogue", fl):
            base = catalogue(R, Num(**kw), ck.thorough)
        for i, c in enumerate(base or []):
            sub = f"{c.name}, {fl}"
            with ck.case("inputs unchanged", sub):
                before = snap(R, c.args)
                opts = snap(R, c.kw)
                g0 = globals_(R)
                ev = len(R.I.events)
                r1 = c.run(R)
                s1 = snap(R, r1)
                after = snap(R, c.args)
                ck.ok("inputs unchanged", sub, before == after, first_diff(before, after), where(R.I, ev))
                ck.ok("options unchanged", sub, opts == snap(R, c.kw), "keyword options modified", where(R.I, ev))
                g1 = globals_(R)
                bad = [k for k in g0 if g1.get(k) != g0[k]] + [k for k in g1 if k not in g0 and k.rsplit(".", 1)[0] in {x.rsplit(".", 1)[0] for x in g0}]
                ck.ok("module state unchanged", sub, not bad, f"{bad[:3]} modified", where(R.I, ev))
                gw = [e for e in R.I.events[ev:] if e["kind"] == "global-write"]
                ck.ok("no global writes", sub, not gw, f"{gw[0]['name'] if gw else ''}", gw[0]["loc"] if gw else None)
                # the same inputs again, and the first result is still what it was
                r2 = c.run(R)
                ck.same("inputs can be reused", sub, r2, r1, ck.valn(sub))
                ck.ok("results are not shared", sub, snap(R, r1) == s1, "an earlier result changed")
    def at(name, n):
        for vec in ("np", "jnp"):
            R = Run(ck)
            sub = f"{name}, {n} points, {vec}"
            with ck.case("inputs unchanged", sub):
                c = call_named(R, name, Num("py", vec, size=n))
                before, g0 = snap(R, c.args), globals_(R)
                c.run(R)
                ck.ok("inputs unchanged", sub, before == snap(R, c.args), first_diff(before, snap(R, c.args)))
                g1 = globals_(R)
                ck.ok("module state unchanged", sub, all(g1.get(k) == g0[k] for k in g0), "module state modified")

    scale_calls(ck, at)
    # construction of objects leaves the arguments alone and does not alias configuration
    for ob in objects(ck.thorough):
        R = Run(ck)
        with ck.case("construction", ob.name):
            g = None
            o = ob.make(R)
            g0 = globals_(R)
            s0 = snap(R, o)
            o2 = ob.make(R, tag="n_")
            g1 = globals_(R)
            bad = [k for k in g0 if g1.get(k) != g0[k]]
            ck.ok("module state unchanged", "constructing " + ob.name, not bad, f"{bad[:3]} modified")
            ck.ok("objects do not share state", ob.name, snap(R, o) == s0, "constructing a second object changed the first")
            c = R.cosmo(tag="ref")
            values(R, ob.kind, o2, c if ob.kind != "cosmo" else None)
            ck.ok("objects do not share state", ob.name + ", use", snap(R, o) == s0, "using a second object changed the first")
    # lists and options given to constructors belong to the caller
    def constructors(cls, nb):
        n = f"{cls}, {nb} bins"
        R = Run(ck)
        with ck.case("arguments of constructors", n):
            N = Num()
            p = _NP(N)
            bins = [smailg(R, p, f"a{i}", zmax=3.8713 - 0.0931 * i) for i in range(nb)]
            ms, ss = [N(f"m{i}", -.1, .1) for i in range(nb)], [0.2 + 0.05 * i for i in range(nb)]
            bs = [cb(R, p, f"c{i}") if i % 2 == 0 else ia(R, p, f"d{i}") for i in range(nb)]
            s0 = snap(R, [bins, ms, ss, bs])
            o = R("probes.WeakLensing", bins, ia_bias=bs, multiplicative_bias=ms, sigma_e=ss) if cls == "WeakLensing" else R("probes.NumberCounts", bins, bs)
            c = R.cosmo()
            for _ in range(2):
                values(R, "probe", o, c)
                R("angular_cl.gaussian_cl_covariance_and_mean", c, V("e", 50., 90., 2), [o], nonlinear_fn=opaque_pk())
                ls, st = M.flatten(R.I, o)
                M.unflatten(R.I, st, ls)
            ck.ok("arguments of constructors", n, snap(R, [bins, ms, ss, bs]) == s0, "a list given to the constructor changed")
            probes = [o]
            s1 = snap(R, probes)
            R("angular_cl.angular_cl", c, V("e", 50., 90., 2), probes, nonlinear_fn=opaque_pk())
            R("angular_cl.noise_cl", V("e", 50., 90., 2), probes)
            ck.ok("arguments of constructors", n + " in a probe list", snap(R, probes) == s1 and len(probes) == 1 and probes[0] is o, "the probe list changed")
            many = [o, R("probes.NumberCounts", bins[:1], bs[:1]), R("probes.WeakLensing", bins, sigma_e=0.3)] + [R("probes.WeakLensing", bins[:1])] * nb
            s1, ids = snap(R, many), [id(x) for x in many]
            R("angular_cl.noise_cl", V("e", 50., 90., 2), many)
            if nb < 3:
                R("angular_cl.gaussian_cl_covariance_and_mean", c, V("e", 50., 90., 2), many, nonlinear_fn=opaque_pk(), sparse=True)
            ck.ok("arguments of constructors", n + " among other probes", snap(R, many) == s1 and [id(x) for x in many] == ids, "the probe list changed")

    R = Run(ck)
    with ck.case("arguments unchanged", "multipoles of the noise in a list"):
        p = _NP(Num())
        ls = [P("l0", 400.0, 900.0), P("l1", 20.0, 50.0), P("l2", 100.0, 200.0)]
        ids = [id(x) for x in ls]
        R("angular_cl.noise_cl", ls, [R("probes.WeakLensing", [smailg(R, p, "a", zmax=3.8713)])])
        ck.ok("arguments unchanged", "multipoles of the noise in a list", [id(x) for x in ls] == ids, "the list of multipoles changed")
    for cls in ("WeakLensing", "NumberCounts"):
        constructors(cls, 1)
        ck.steer(f"{cls} bins", lambda n, cls=cls: constructors(cls, n), (2, 3, 5), 14)
    R = Run(ck)
    with ck.case("default cosmology", "Planck15"):
        a = R("parameters.Planck15")
        g0 = globals_(R)
        R("parameters.Planck15", Omega_c=P("x", 0.2, 0.3))
        b = R("parameters.Planck15")
        ck.ok("default cosmology", "overriding changes later defaults", globals_(R) == g0 and snap(R, a) == snap(R, b), "defaults changed")


def first_diff(a, b, path="args"):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, f"{path}.{i}")
    return f"{path}: {str(a)[:60]} became {str(b)[:60]}"


from .common import _NP  # noqa: E402

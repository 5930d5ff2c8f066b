"""Evaluations inside a JAX transformation leave nothing behind."""
from .common import *
from .common import _NP


def leaks(R, roots, ctx=0):
    """(path, value) of every reachable array that belongs to a finished trace."""
    out = []
    seen = {}

    def go(v, path):
        for p, x in walk(v, seen, path):
            if isinstance(x, Arr):
                if x.lvl > ctx:
                    out.append((p, x))
            elif isinstance(x, AClass) and id(x) not in seen:
                seen[id(x)] = x
                go({k: y for k, y in x.ns.items()}, p)
            elif isinstance(x, (Jit, Vmap)) and id(x) not in seen:
                seen[id(x)] = x
                go(x.fn, p)
    go(roots, "")
    for m in R.I.modules.values():
        go({k: v for k, v in m.ns.items() if not isinstance(v, AModule)}, m.name)
    go(list(getattr(R.I, "memo_caches", [])), "memo")
    return out


def site(R, n, path):
    """Where the offending attribute was written."""
    return R.I.cur


def lanes(R, thunk, xs):
    return M.call_vmap(R.I, Vmap(NF("user function", lambda I, a, k: thunk(*a))), xs, {})


def scan(R, thunk, x):
    """lax.scan of a body that ignores its carry."""
    f = R.I.ext("jax.lax.scan") if hasattr(R.I, "ext") else Ext("jax.lax.scan")
    body = NF("user function", lambda I, a, k: (a[0], thunk(a[1])))
    return R.I.call(f, [body, R.I.arr(0.0), x], {})


def nums(r, R):
    """Numeric part of a result, so that a transformation can return it."""
    if isinstance(r, (list, tuple)):
        return [nums(x, R) for x in r]
    return r if isinstance(r, Arr) or isinstance(r, (int, float)) else None


MODES = ["jit", "vmap", "scan", "jit of jit"]


def transform(R, mode, f):
    """Run f(x) inside the transformation; x is a traced number."""
    x = P("xt", 0.9, 1.1)
    if mode == "jit":
        return R.traced(lambda x: nums(f(x), R), [x])
    if mode == "vmap":
        return lanes(R, lambda x: nums(f(x), R), [V("xt", 0.9, 1.1, 2)])
    if mode == "scan":
        return scan(R, lambda x: nums(f(x), R), V("xt", 0.9, 1.1, 2))
    if mode == "jit of jit":
        return R.traced(lambda x: R.traced(lambda y: nums(f(y), R), [x]), [x])
    raise KeyError(mode)


def scaled(R, x, v):
    """The query times a traced number: a query that belongs to the trace."""
    return R.I.binop("mul", x, v)


def traced_queries(R, kind, o, c, x):
    """Calls on the closed-over object with points that depend on x."""
    q = []
    z, a, k = (scaled(R, x, v) for v in (Z(), A(), K()))
    if kind == "cosmo":
        for n in BG:
            q.append((n, lambda n=n: R("background." + n, o, a)))
        q.append(("a_of_chi", lambda: R("background.a_of_chi", o, scaled(R, x, V("chiq", 500., 3000., 2)))))
        q.append(("Eisenstein_Hu", lambda: R("transfer.Eisenstein_Hu", o, k)))
        q.append(("linear_matter_power", lambda: R("power.linear_matter_power", o, k, a)))
        q.append(("sigmasqr", lambda: R("power.sigmasqr", o, scaled(R, x, R.I.arr(8.0)), R.get("transfer.Eisenstein_Hu"))))
        q.append(("radial_comoving_distance(-2, 64)", lambda: R("background.radial_comoving_distance", o, a, log10_amin=-2, steps=64)))
    elif kind == "nz":
        q.append(("n(z)", lambda: R.I.call(o, [z], {})))
        q.append(("pz_fn", lambda: R.meth(o, "pz_fn", z)))
    elif kind == "bias":
        q.append(("b(z)", lambda: R.I.call(o, [c, z], {})))
    elif kind == "probe":
        q.append(("kernel", lambda: R.meth(o, "kernel", c, z, scaled(R, x, P("ellq", 20., 900.)))))
    elif kind == "spline":
        xq = scaled(R, x, V("xq", 0.1, 2.2, 2))
        q.append(("call", lambda: R.I.call(o, [xq], {})))
        q.append(("derivative", lambda: R.meth(o, "derivative", xq, 1)))
        q.append(("antiderivative", lambda: R.meth(o, "antiderivative", xq)))
        q.append(("integral", lambda: R.meth(o, "integral", scaled(R, x, P("ia", 0.3, 0.8)), P("ib", 1.0, 1.9))))
    return q


def report(ck, rule, sub, bad, R):
    ck.ok(rule, sub, not bad, bad and f"{bad[0][0]} still holds {brief(bad[0][1])} of the finished trace", bad[0][1].flat()[0].loc if bad and bad[0][1].flat() and bad[0][1].flat()[0].loc else None)


def run(ck):
    for ob in objects(ck.thorough):
        v = ck.valn(ob.name)
        R0 = Run(ck)
        c0 = R0.cosmo(tag="ref") if ob.kind != "cosmo" else None
        want = {}
        with ck.case("reference", ob.name):
            want = values(R0, ob.kind, ob.make(R0), c0)
        for mode in MODES if ck.thorough or ob.kind == "cosmo" else ["jit", "scan"] if ob.kind in ("nz", "probe") else ["jit", "vmap"]:
            # 1. one quantity at a time on a fresh object
            R = Run(ck)
            c = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
            o = ob.make(R)
            with ck.case("closed over", f"{ob.name}, {mode}"):
                sub = f"{ob.name}, {mode}"
                names = [n for n, _ in traced_queries(R, ob.kind, o, c, R.I.arr(1.0))]
                for i, n in enumerate(names):
                    o1 = ob.make(R)
                    c1 = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
                    s1 = f"{sub}, {n}"
                    with ck.case("closed over", s1):
                        transform(R, mode, lambda x: traced_queries(R, ob.kind, o1, c1, x)[i][1]())
                        report(ck, "nothing left behind", s1, leaks(R, [o1, c1]), R)
                        for m, t in quantities(R, ob.kind, o1, c1, heavy=False):
                            if m in want:
                                with ck.case("usable afterwards", f"{s1}, then {m}"):
                                    ck.same("usable afterwards", f"{s1}, then {m}", t(), want[m], v)
                # 2. everything in one transformation, points known
                transform(R, mode, lambda x: [t() for n, t in quantities(R, ob.kind, o, c)])
                report(ck, "nothing left behind", sub, leaks(R, [o, c]), R)
                got = {}
                for m, t in quantities(R, ob.kind, o, c):
                    with ck.case("usable afterwards", f"{sub}, then {m}"):
                        ck.same("usable afterwards", f"{sub}, then {m}", t(), want[m], v)
        # 3. object built inside a transformation, closed over by an inner one
        for inner in (("jit", "scan", "vmap") if ob.kind == "cosmo" or ck.thorough else ("jit",)):
            R = Run(ck)
            c = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
            sub = f"{ob.name} of a transformation, inner {inner}"
            with ck.case("nested", sub):
                o = ob.make(R)
                ls, st = M.flatten(R.I, o)
                lv = []

                def outer(*leaves):
                    q = M.unflatten(R.I, st, list(leaves))
                    ctx = R.I.ctx_level
                    transform(R, inner, lambda x: [t() for n, t in traced_queries(R, ob.kind, q, c, x)])
                    lv.extend(leaks(R, [q, c], ctx))
                    return [t() for n, t in quantities(R, ob.kind, q, c, heavy=False) if n not in ("n_tracers",)]

                got = R.traced(outer, ls)
                report(ck, "nothing left behind", sub, lv, R)
                report(ck, "nothing left behind", sub + ", afterwards", leaks(R, [o, c]), R)
                ns = [n for n, t in quantities(R, ob.kind, o, c, heavy=False) if n not in ("n_tracers",)]
                for n, g in zip(ns, got):
                    with ck.case("usable afterwards", f"{sub}, then {n}"):
                        ck.same("usable afterwards", f"{sub}, then {n}", norm(R, g), norm(R, want[n]), v)
    # library functions with every argument closed over
    R = Run(ck)
    for c in catalogue(R, Num("jnp", "jnp"), ck.thorough):
        for mode in ("jit", "scan") if ck.thorough else ("jit",):
            with ck.case("all arguments closed over", f"{c.name}, {mode}"):
                transform(R, mode, lambda x: c.run(R))
                report(ck, "nothing left behind", f"{c.name}, {mode}", leaks(R, [c.args, c.kw]), R)
                c.run(R)
    # at every size of the arguments and objects
    def at(name, n):
        R = Run(ck)
        with ck.case("all arguments closed over", f"{name}, {n} points"):
            c = call_named(R, name, Num("jnp", "jnp", size=n))
            transform(R, "jit", lambda x: c.run(R))
            report(ck, "nothing left behind", f"{name}, {n} points", leaks(R, [c.args, c.kw]), R)

    scale_calls(ck, at)

    def of(ob):
        R = Run(ck)
        c0 = R.cosmo(tag="ref") if ob.kind != "cosmo" else None
        o = ob.make(R)
        with ck.case("closed over", ob.name):
            transform(R, "jit", lambda x: [t() for n, t in traced_queries(R, ob.kind, o, c0, x) + quantities(R, ob.kind, o, c0)])
            report(ck, "nothing left behind", ob.name, leaks(R, [o, c0]), R)

    scale_objects(ck, of)

    def steps(n):
        R = Run(ck)
        with ck.case("closed over", f"table of {n} steps"):
            c = R.cosmo()
            transform(R, "jit", lambda x: R("background.radial_comoving_distance", c, scaled(R, x, A()), -2, n))
            report(ck, "nothing left behind", f"table of {n} steps", leaks(R, [c]), R)

    ck.steer("table steps", steps, (5, 9, 17), 3000)
    # a cosmology that outlives many transformations, and one after an eager use
    for first in ("eager", "vmap", "scan"):
        R = Run(ck)
        c = R.cosmo()
        R0 = Run(ck)
        want = values(R0, "cosmo", R0.cosmo(), heavy=False)
        sub = f"Cosmology, {first} use first"
        with ck.case("sequence of transformations", sub):
            if first == "eager":
                values(R, "cosmo", c)
            else:
                transform(R, first, lambda x: [t() for n, t in traced_queries(R, "cosmo", c, None, x)])
            for mode in ("jit", "vmap", "scan"):
                transform(R, mode, lambda x: [t() for n, t in traced_queries(R, "cosmo", c, None, x)])
                report(ck, "nothing left behind", f"{sub}, {mode}", leaks(R, [c]), R)
            for m, t in quantities(R, "cosmo", c, heavy=False):
                ck.same("usable afterwards", f"{sub}, then {m}", t(), want[m], ck.valn(sub))


def norm(R, v):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return R.a(v)
    if isinstance(v, (tuple, list)):
        return type(v)(norm(R, x) for x in v)
    return v

"""Bias models and redshift conversions follow their definition."""
from ..lib import *
from .oracle import *
from .c12 import last


def run(ck):
    zs = dict(scalar=P("zs", 0.05, 2.0), jscalar=J("zj", 0.05, 2.0), vector=V("z", 0.05, 2.0, 4))
    for kind in ("py", "jnp", "np"):
        zs["whole " + kind] = Arr(const(1.0), "i", 0, kind, kind == "py")
    for kind in ("jnp", "np"):
        zs["whole vector " + kind] = Arr(oa(np.array([const(float(i)) for i in (0, 1, 3)], object)), "i", 0, kind)
    zs["numpy vector"] = V("z", 0.05, 2.0, 4, kind="np")
    zs["numpy scalar"] = Arr(sym("zs", 0.05, 2.0), "f", 0, "np")
    zs["table"] = Arr(V("z", 0.05, 2.0, 4).d.reshape(2, 2), "f", 0, "jnp")
    for n in ("zs", "zj", "z0", "z1", "z2", "z3"):
        widen(n, 1e-6, 900.0)
    widen("zp", 1e-3, 60.0)
    widen("b", 0.01, 50.0)
    widen("A", 1e-4, 30.0)
    widen("eta", -6.0, 6.0)
    zs["high"] = V("zh", 900.0, 1090.0, 3)
    zs["low"] = V("zl", 1e-7, 1e-3, 3)
    v = ck.valn("bias")
    for gamma in (False, True):
        R = Run(ck)
        with ck.case("bias", f"gamma={gamma}"):
            c = R.cosmo(gamma)
            o = Cos(gamma=gamma)
            R("background.growth_factor", c, 1.0)
            n = last(R, "odeint")["n"]
            b, A, eta, z0 = P("b", 0.5, 2.5), P("A", 0.2, 1.5), P("eta", -1.5, 1.5), P("zp", 0.3, 0.9)
            models = dict(
                constant_linear_bias=(R("bias.constant_linear_bias", b), lambda z: b.term()),
                inverse_growth_linear_bias=(R("bias.inverse_growth_linear_bias", b), lambda z: b.term() / o.growth(1.0 / (1.0 + z), n)),
                des_y1_ia_bias=(R("bias.des_y1_ia_bias", A, eta, z0), lambda z: A.term() * pow_((1.0 + z) / (1.0 + z0.term()), eta.term())),
            )
            for nm, (m, f) in models.items():
                for zn, z in zs.items():
                    if z.ndim == 2 and nm.startswith("inverse"):
                        continue  # the table lookup takes one-dimensional queries
                    with ck.case("bias", f"{nm}, {zn}, gamma={gamma}"):
                        r = R.a(R.I.call(m, [c, z], {}))
                        want = arr([f(x) for x in z.flat()])
                        if not z.ndim:
                            ck.ok("bias shape", f"{nm}, {zn}, gamma={gamma}", r.d.size == 1, f"shape {r.shape}")
                            r = arr(r.d.reshape(-1))
                        elif z.ndim == 2:
                            want = Arr(want.d.reshape(z.shape), "f", 0, "jnp")
                        ck.eq("bias", f"{nm}, {zn}, gamma={gamma}", r, want, v)
    # parameters that vanish or are whole, given as Python numbers
    for name, ps, f in (
        ("constant_linear_bias", [(0,), (0.0,), (1,), (1.0,), (-1,)], lambda z, b: const(float(b))),
        ("inverse_growth_linear_bias", [(0,), (0.0,), (1,), (1.0,)], lambda z, b: b / o1.growth(1.0 / (1.0 + z), n1)),
        ("des_y1_ia_bias", [(0, 1, 0.62), (0.0, 1.0, 0.62), (1, 0, 0.62), (1.0, 0.0, 0.62), (1, 1, 0), (1.0, 1.0, 0.0), (2, 1, 1), (0, 0, 0), (1, 0, 0), (1.0, 1.0, 0.62), (0.5, 2.0, 0.5), (0.5, -1.0, 0.3)], lambda z, A, eta, z0: A * pow_((1.0 + z) / (1.0 + z0), const(float(eta)))),
    ):
        for p in ps:
            R = Run(ck)
            with ck.case("bias", f"{name}{p}"):
                c, o1 = R.cosmo(), Cos()
                R("background.growth_factor", c, 1.0)
                n1 = last(R, "odeint")["n"]
                m = R("bias." + name, *p)
                for zn in ("vector", "scalar"):
                    r, z = R.a(R.I.call(m, [c, zs[zn]], {})), zs[zn]
                    ck.ok("bias shape", f"{name}{p}, {zn}", r.shape == z.shape or not z.ndim and r.d.size == 1, f"shape {r.shape}")
                    ck.eq("bias", f"{name}{p}, {zn}", arr(r.d.reshape(-1)), arr([f(x, *p) for x in z.flat()]), v)
    R = Run(ck)
    for zn, z in zs.items():
        with ck.case("conversion", zn):
            if z.dt == "i":
                z = Arr(z.d + const(1.0), "i", 0, z.kind, z.kind == "py")
            ck.eq("conversion", f"z2a, {zn}", R.a(R("utils.z2a", z)), Arr(np.vectorize(lambda x: 1.0 / (1.0 + x), otypes=[object])(z.d)), v)
            a = R("utils.z2a", z)
            ck.eq("conversion", f"a2z(z2a), {zn}", R.a(R("utils.a2z", a)), z, v)
            ck.eq("conversion", f"z2a(a2z), {zn}", R.a(R("utils.z2a", R("utils.a2z", z))), z, v)
            ck.eq("conversion", f"a2z, {zn}", R.a(R("utils.a2z", z)), Arr(np.vectorize(lambda x: 1.0 / x - 1.0, otypes=[object])(z.d)), v)

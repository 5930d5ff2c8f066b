"""Quadrature and ODE steps keep their order of accuracy."""
from ..lib import *
from .oracle import *


def opaque_f(name, kinds="jnp"):
    return NF(name, lambda I, a, k: M.result(I, oa(np.frompyfunc(lambda t: opaque(name, t), 1, 1)(I.arr(a[0]).d)), "f", [I.arr(a[0])], "jnp"))


def poly(cs):
    def f(I, a, k):
        r = 0.0
        for c in reversed(cs):
            r = I.binop("add", I.binop("mul", r, a[0]), c)
        return r
    return NF("polynomial", f)


def pint(cs, a, b):
    s = const(0.0)
    for i, c in enumerate(cs):
        s = s + c.term() * (pow_(b, i + 1.0) - pow_(a, i + 1.0)) / (i + 1.0)
    return s


def simpson(F, a, b, n):
    dx = (b - a) / float(n)
    s = const(0.0)
    for i in range(n + 1):
        w = 1.0 if i in (0, n) else (4.0 if i % 2 else 2.0)
        s = s + w * F(a + float(i) * dx)
    return s * dx / 3.0


def romberg(F, a, b, m):
    T_ = [[(b - a) * (F(a) + F(b)) * 0.5]]
    for i in range(1, m + 1):
        n = 2 ** i
        h = (b - a) / float(n)
        s = const(0.0)
        for j in range(1, n, 2):
            s = s + F(a + float(j) * h)
        row = [T_[-1][0] * 0.5 + h * s]
        for k in range(1, i + 1):
            row.append((4.0 ** k * row[k - 1] - T_[-1][k - 1]) / (4.0 ** k - 1.0))
        T_.append(row)
    return T_


SIMPS, ROMB, ODE = "scipy.integrate.simps", "scipy.integrate.romb", "scipy.ode.odeint"


def run(ck):
    INT = {"forward": (P("a", 0.1, 0.6), P("b", 1.0, 2.0)), "reversed": (P("b", 1.0, 2.0), P("a", 0.1, 0.6)), "shifted": (P("c", -3.0, -2.5), P("e", -1.0, 0.5)),
           "unit": (0.0, 1.0), "integers": (1, 4), "JAX scalars": (J("a", 0.1, 0.6), J("b", 1.0, 2.0)), "descending numbers": (2.0, -1.0)}
    F = lambda t: opaque("F", t)
    for iv, (a, b) in INT.items():
        for n in (2, 4, 6, 10, 12) + ((16, 64) if ck.thorough else ()):
            R = Run(ck, summaries=False)
            sub = f"{n} panels, {iv}"
            v = ck.valn(sub)
            with ck.case("composite Simpson rule", sub):
                at, bt = R.a(a).term(), R.a(b).term()
                got = R(SIMPS, opaque_f("F"), a, b, n)
                ck.eq("composite Simpson rule", sub, R.a(got), arr(simpson(F, at, bt, n)), v)
                ck.eq("composite Simpson rule", sub + ", keyword", R.a(R(SIMPS, opaque_f("F"), a, b, N=n)), arr(simpson(F, at, bt, n)), v)
                cs = [P(f"p{i}", 0.5, 1.5) for i in range(4)]
                ck.eq("exact for cubics", sub, R.a(R(SIMPS, poly(cs), a, b, n)), arr(pint(cs, at, bt)), v)
        R = Run(ck, summaries=False)
        with ck.case("composite Simpson rule", iv + ", default"):
            at, bt = R.a(a).term(), R.a(b).term()
            calls = []
            f = NF("F", lambda I, x, k: calls.append(I.arr(x[0]).shape) or opaque_f("F").fn(I, x, k))
            got = R(SIMPS, f, a, b)
            n = calls[0][0] - 1 if calls and calls[0] else 0
            ck.ok("default panels", iv, n >= 128 and n % 2 == 0, f"{n} panels")
            ck.eq("composite Simpson rule", iv + ", default", R.a(got), arr(simpson(F, at, bt, n)), ck.valn(iv))
        # Romberg
        for m in (1, 2, 3) + ((4, 5) if ck.thorough else ()):
            R = Run(ck, summaries=False)
            sub = f"divmax={m}, {iv}"
            with ck.case("Romberg rule", sub):
                v = ck.valn(sub)
                at, bt = R.a(a).term(), R.a(b).term()
                tab = romberg(F, at, bt, m)
                got = R(ROMB, opaque_f("F"), a, b, divmax=m)
                ck.eq("Romberg rule", sub, R.a(got), arr(tab[m][m]), v)
                r = R(ROMB, opaque_f("F"), a, b, divmax=m, return_error=True)
                ck.ok("Romberg error", sub, isinstance(r, tuple) and len(r) == 2, brief(r))
                ck.eq("Romberg error", sub + ", value", R.a(r[0]), arr(tab[m][m]), v)
                ck.eq("Romberg error", sub, R.a(r[1]), arr(abs_(tab[m - 1][m - 1] - tab[m][m])), v, rtol=1e-6)
                cs = [P(f"p{i}", 0.5, 1.5) for i in range(2 * m + 2)]
                ck.eq("exact for polynomials", sub, R.a(R(ROMB, poly(cs), a, b, divmax=m)), arr(pint(cs, at, bt)), v)
        for m in (None, 6):
            R = Run(ck, summaries=False)
            with ck.case("exact for polynomials", f"{iv}, divmax={m or 'default'}"):
                at, bt = R.a(a).term(), R.a(b).term()
                cs = [P(f"p{i}", 0.5, 1.5) for i in range(14)]
                kw = {} if m is None else dict(divmax=m)
                ck.eq("exact for polynomials", f"{iv}, divmax={m or 'default'}", R.a(R(ROMB, poly(cs), a, b, **kw)), arr(pint(cs, at, bt)), ck.valn(iv))
        R = Run(ck, summaries=False)
        with ck.case("Romberg rule", iv + ", extra arguments"):
            at, bt = R.a(a).term(), R.a(b).term()
            g = NF("g", lambda I, x, k: I.binop("mul", opaque_f("F").fn(I, [x[0]], {}), I.binop("sub", x[1], x[2])))
            c, d = P("c1", 1., 2.), P("d1", 0.1, 0.4)
            ck.eq("Romberg rule", iv + ", extra arguments", R.a(R(ROMB, g, a, b, args=(c, d), divmax=3)), arr(romberg(F, at, bt, 3)[3][3] * (c.term() - d.term())), ck.valn(iv))
    # vector-valued integrands and bounds
    R = Run(ck, summaries=False)
    with ck.case("composite Simpson rule", "vector-valued integrand"):
        a, b = P("a", 0.1, 0.6), P("b", 1., 2.)
        w = V("w", 0.5, 1.5, 3)

        def g(I, x, k):
            y = opaque_f("F").fn(I, x, k)
            return Arr(oa(np.multiply.outer(y.d, w.d)), "f", y.lvl, "jnp")
        got = R(SIMPS, NF("g", g), a, b, 6)
        s = simpson(F, a.term(), b.term(), 6)
        ck.eq("composite Simpson rule", "vector-valued integrand", R.a(got), arr([s * t for t in w.flat()]), ck.valn("vv"))
        lo, hi = V("lo", 0.1, 0.6, 3), V("hi", 1.0, 2.0, 3)
        got = R(SIMPS, opaque_f("F"), lo, hi, 4)
        ck.eq("composite Simpson rule", "vectors of bounds", R.a(got), arr([simpson(F, p, q, 4) for p, q in zip(lo.flat(), hi.flat())]), ck.valn("vb"))
        got = R(SIMPS, opaque_f("F"), lo, 3.0, 4)
        ck.eq("composite Simpson rule", "vector of lower bounds", R.a(got), arr([simpson(F, p, const(3.0), 4) for p in lo.flat()]), ck.valn("vb"))
    # many panels, steps, components and bounds
    def panels(n):
        R = Run(ck, summaries=False)
        with ck.case("composite Simpson rule", f"{2 * n} panels, scaled"):
            a, b = P("a", 0.1, 0.6), P("b", 1., 2.)
            ck.eq("composite Simpson rule", f"{2 * n} panels, scaled", R.a(R(SIMPS, opaque_f("F"), a, b, 2 * n)), arr(simpson(F, a.term(), b.term(), 2 * n)), ck.valn("pn"))

    def bounds(n):
        R = Run(ck, summaries=False)
        with ck.case("composite Simpson rule", f"{n} bounds"):
            lo, hi = V(f"lo{n}_", 0.1, 0.6, n), V(f"hi{n}_", 1.0, 2.0, n)
            ck.eq("composite Simpson rule", f"{n} bounds", R.a(R(SIMPS, opaque_f("F"), lo, hi, 4)), arr([simpson(F, p, q, 4) for p, q in zip(lo.flat(), hi.flat())]), ck.valn("bn"))

    def levels(n):
        R = Run(ck, summaries=False)
        with ck.case("Romberg rule", f"divmax={n}, scaled"):
            a, b = P("a", 0.1, 0.6), P("b", 1., 2.)
            ck.eq("Romberg rule", f"divmax={n}, scaled", R.a(R(ROMB, opaque_f("F"), a, b, divmax=n)), arr(romberg(F, a.term(), b.term(), n)[n][n]), ck.valn("lv"))

    def steps(n, dim=1):
        R = Run(ck, summaries=False)
        sub = f"{n} times, {dim} components"
        with ck.case("Runge-Kutta step", sub):
            y0, ts = V(f"y{dim}_", 0.3, 0.8, dim), V(f"t{n}_", 0.1, 1.0, n)
            rhs = lambda y, t: [opaque(f"G{i}", y[i], y[(i + 1) % len(y)], t) for i in range(len(y))]

            def fn(I, a, k):
                y, t = I.arr(a[0]), I.arr(a[1])
                return M.result(I, oa(np.array(rhs(y.flat(), t.term()) + [None], object)[:-1]), "f", [y, t], "jnp")

            g = R.a(R(ODE, NF("rhs", fn), y0, ts))
            y, want, t = y0.flat(), [y0.flat()], ts.flat()
            for i in range(1, n):
                h = t[i] - t[i - 1]
                ax = lambda k, c: [p + c * h * q for p, q in zip(y, k)]
                k1 = rhs(y, t[i - 1])
                k2 = rhs(ax(k1, 0.5), t[i - 1] + 0.5 * h)
                k3 = rhs(ax(k2, 0.5), t[i - 1] + 0.5 * h)
                k4 = rhs(ax(k3, 1.0), t[i - 1] + h)
                y = [p + h / 6.0 * (q1 + 2.0 * q2 + 2.0 * q3 + q4) for p, q1, q2, q3, q4 in zip(y, k1, k2, k3, k4)]
                want.append(y)
            ck.eq("Runge-Kutta step", sub, g, arr(want), ck.valn(sub))

    ck.steer("panels", panels, (3, 4, 6), 300)
    ck.steer("bounds", bounds, (3, 4, 6), 300)
    ck.steer("Romberg levels", levels, (2, 3, 4), 9)
    ck.steer("times", steps, (3, 4, 6), 300)
    ck.steer("components", lambda n: steps(3, n), (2, 3, 5), 40)
    # traced bounds and parameters
    R = Run(ck, summaries=False)
    with ck.case("traced", "quadratures"):
        a, b, c = P("a", 0.1, 0.6), P("b", 1., 2.), P("c", 1., 2.)
        g = lambda c: NF("g", lambda I, x, k: I.binop("mul", opaque_f("F").fn(I, [x[0]], {}), c))
        r = R.traced(lambda a, b, c: R(SIMPS, g(c), a, b, 6), [a, b, c])
        ck.eq("traced", "simps", R.a(r), arr(c.term() * simpson(F, a.term(), b.term(), 6)), ck.valn("t"))
        r = R.traced(lambda a, b, c: R(ROMB, g(c), a, b, divmax=3), [a, b, c])
        ck.eq("traced", "romb", R.a(r), arr(c.term() * romberg(F, a.term(), b.term(), 3)[3][3]), ck.valn("t"))
    # Runge-Kutta
    for name, ts in (("increasing", V("t", 0.1, 1.0, 4)), ("decreasing", Arr(V("t", 0.1, 1.0, 4).d[::-1].copy(), "f", 0, "jnp")), ("two times", V("t", 0.1, 1.0, 2)), ("host times", Arr(V("t", 0.1, 1.0, 3).d, "f", 0, "np"))):
        for dim in (0, 1, 2, 3):
            R = Run(ck, summaries=False)
            sub = f"{name}, {'scalar' if dim == 0 else f'{dim} components'}"
            with ck.case("Runge-Kutta step", sub):
                y0 = P("y", 0.3, 0.8) if dim == 0 else V("y", 0.3, 0.8, dim)

                def rhs(y, t):
                    """Coupled right-hand side on lists of terms."""
                    return [opaque(f"G{i}", *y, t) for i in range(len(y))]

                def fn(I, a, k):
                    y, t = I.arr(a[0]), I.arr(a[1])
                    o = rhs(y.flat(), t.term())
                    return M.result(I, oa(np.array(o + [None], object)[:-1].reshape(y.shape)), "f", [y, t], "jnp")

                for form in ("eager", "traced"):
                    if form == "eager":
                        got = R(ODE, NF("rhs", fn), y0, ts)
                    else:
                        got = R.traced(lambda y, t: R(ODE, NF("rhs", fn), y, t), [y0, ts])
                    y = R.a(y0).flat()
                    want = [y]
                    t = ts.flat()
                    for i in range(1, len(t)):
                        h = t[i] - t[i - 1]
                        ax = lambda k, c: [p + c * h * q for p, q in zip(y, k)]
                        k1 = rhs(y, t[i - 1])
                        k2 = rhs(ax(k1, 0.5), t[i - 1] + 0.5 * h)
                        k3 = rhs(ax(k2, 0.5), t[i - 1] + 0.5 * h)
                        k4 = rhs(ax(k3, 1.0), t[i - 1] + h)
                        y = [p + h / 6.0 * (q1 + 2.0 * q2 + 2.0 * q3 + q4) for p, q1, q2, q3, q4 in zip(y, k1, k2, k3, k4)]
                        want.append(y)
                    w = arr([q[0] for q in want]) if dim == 0 else arr(want)
                    ck.eq("Runge-Kutta step", f"{sub}, {form}", R.a(got), w, ck.valn(sub))
                    g = R.a(got)
                    ck.eq("initial value", f"{sub}, {form}", Arr(g.d[0], "f", 0, "jnp") if dim else arr(g.d[0]), Arr(R.a(y0).d, "f", 0, "jnp"), ck.valn(sub))
    R = Run(ck, summaries=False)
    with ck.case("Runge-Kutta step", "resolution"):
        # autonomous and non-autonomous linear problems of order four in one step
        y0, t = P("y", 0.3, 0.8), V("t", 0.1, 1.0, 2)
        cs = [P(f"p{i}", 0.5, 1.5) for i in range(4)]
        got = R(ODE, NF("rhs", lambda I, a, k: poly(cs).fn(I, [a[1]], {})), y0, t)
        t0, t1 = t.flat()
        ck.eq("Runge-Kutta step", "exact for cubic rates", R.a(got), arr([y0.term(), y0.term() + pint(cs, t0, t1)]), ck.valn("r"))

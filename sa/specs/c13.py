"""Growth solves the linear growth equation of the same cosmology."""
from ..lib import *
from .oracle import *
from .c11 import build
from .c12 import last

SP = "background."


def run(ck):
    vs = (("general", {}), ("flat", dict(Omega_k=0.0)), ("open", dict(Omega_k=("Okp", 0.05, 0.3))), ("closed", dict(Omega_k=("Okn", -0.3, -0.05))),
          ("LCDM", dict(Omega_k=0.0, w0=-1.0, wa=0.0)), ("wide", dict(w0=("w0w", -1.5, -0.4), wa=("waw", -0.9, 0.3))))
    a = V("a", 0.004, 0.99, 5)
    for name, over in vs:
        R = Run(ck)
        with ck.case("growth ODE", name):
            c, o = build(R, over)
            v = ck.valn(name)
            D = R(SP + "growth_factor", c, a)
            e = last(R, "odeint")
            if e["y0"].shape != (2,):
                raise Incomplete("unknown form of the growth equation")
            n = e["n"]
            ck.ok("table resolution", name, n >= 64, f"{n} entries")
            ck.eq("start in matter domination", name, e["t"].d[0], const(1e-3), v)
            ck.eq("growth factor", name, D, arr([o.growth(x, n) for x in a.flat()]), v)
            ck.eq("growth rate", name, R(SP + "growth_rate", c, a), arr([o.growth_rate(x, n) for x in a.flat()]), v)
            ck.eq("normalised today", name, R.a(R(SP + "growth_factor", c, 1.0)).flat()[0], const(1.0), v)
        R = Run(ck)
        with ck.case("growth rate first", name):
            c, o = build(R, over)
            ck.eq("growth rate first", name, R(SP + "growth_rate", c, a), arr([o.growth_rate(x, n) for x in a.flat()]), ck.valn(name))
        R = Run(ck)
        with ck.case("growth index", name):
            c, o = build(R, over, True)
            v = ck.valn(name + "g")
            D = R(SP + "growth_factor", c, a)
            n = last(R, "odeint")["n"]
            ck.ok("table resolution", name + "+gamma", n >= 64, f"{n} entries")
            ck.eq("growth factor", name + "+gamma", D, arr([o.growth(x, n) for x in a.flat()]), v)
            ck.eq("growth rate", name + "+gamma", R(SP + "growth_rate", c, a), arr([o.growth_rate(x) for x in a.flat()]), v)
            ck.eq("normalised today", name + "+gamma", R.a(R(SP + "growth_factor", c, 1.0)).flat()[0], const(1.0), v)
    # the growth equation and the expansion history describe the same cosmology
    R = Run(ck)
    with ck.case("growth ODE", "traced parameters"):
        d = cosmo_args()
        names = list(d)

        def body(x, *vals):
            c = R("Cosmology", **dict(zip(names, vals)))
            return (R(SP + "growth_factor", c, x), R(SP + "growth_rate", c, x))

        D, f = R.traced(body, [a] + [d[k] for k in names])
        n = last(R, "odeint")["n"]
        o = Cos()
        ck.eq("growth factor", "traced", D, arr([o.growth(x, n) for x in a.flat()]), ck.valn("t"))
        ck.eq("growth rate", "traced", f, arr([o.growth_rate(x, n) for x in a.flat()]), ck.valn("t"))

"""Distances integrate the expansion history and respect curvature."""
from ..lib import *
from .oracle import *
from .c11 import build

SP = "background."


def last(R, kind):
    e = [e for e in R.I.sum_log if e["kind"] == kind]
    if not e:
        raise Incomplete(f"no {kind} in the computation")
    return e[-1]


def run(ck):
    for name, over, sign in (("open", dict(Omega_k=("Okp", 0.05, 0.3)), 1), ("closed", dict(Omega_k=("Okn", -0.3, -0.05)), -1), ("flat", dict(Omega_k=0.0), 0)):
        for gamma in (False, True):
            sub = name + ("+gamma" if gamma else "")
            R = Run(ck)
            with ck.case("distance", sub):
                c, o = build(R, over, gamma)
                valn = ck.valn(sub)
                a = V("a", 0.003, 0.99, 5)
                chi = R(SP + "radial_comoving_distance", c, a)
                e = last(R, "interp")
                n = e["n"]
                ck.ok("table resolution", sub, n >= 128, f"{n} entries")
                want = [o.chi(x, -3.0, n) for x in a.flat()]
                ck.eq("radial distance", sub, chi, arr(want), valn)
                ck.eq("dchi/da", sub, R(SP + "dchioverda", c, a), arr([o.dchida(x) for x in a.flat()]), valn)
                fk = [o.fk(x, sign) for x in want]
                ck.eq("transverse distance", sub, R(SP + "transverse_comoving_distance", c, a), arr(fk), valn, rtol=1e-8)
                ck.eq("angular diameter distance", sub, R(SP + "angular_diameter_distance", c, a), arr([x * y for x, y in zip(a.flat(), fk)]), valn, rtol=1e-8)
                q = V("chi", 10.0, 3000.0, 4)
                ck.eq("scale factor of a distance", sub, R(SP + "a_of_chi", c, q), arr([o.a_of_chi(x, -3.0, n) for x in q.flat()]), valn)
                one = R.a(R(SP + "radial_comoving_distance", c, 1.0)).flat()[0]
                ck.eq("zero today", sub, one, const(0.0), valn)
                if sign == 0:
                    o2 = Cos()
    # curved signs decided by a single symbolic curvature
    R = Run(ck)
    with ck.case("transverse distance", "symbolic curvature"):
        c = R.cosmo()
        o = Cos()
        a = V("a", 0.05, 0.9, 3)
        n = 0
        f = R(SP + "transverse_comoving_distance", c, a)
        n = last(R, "interp")["n"]
        want = []
        for x in a.flat():
            ch = o.chi(x, -3.0, n)
            s = sqrt(abs_(o.Omega_k))
            want.append(where(lt(const(0.0), o.Omega_k), RH / s * sinh(s * ch / RH), RH / s * sin(s * ch / RH)))
        ck.eq("transverse distance", "symbolic curvature", f, arr(want), ck.valn("sc", K=8), rtol=1e-8)
    # caller-chosen table
    for steps in (64, 300):
        R = Run(ck)
        with ck.case("table options", f"steps={steps}"):
            c, o = build(R, dict(Omega_k=0.0))
            lam = P("lamin", -3.6, -1.6)
            a = V("a", 0.05, 0.95, 3)
            chi = R(SP + "radial_comoving_distance", c, a, log10_amin=lam, steps=steps)
            ck.eq("table options", f"log10_amin, steps={steps}", chi, arr([o.chi(x, lam.term(), steps) for x in a.flat()]), ck.valn("lam"))
            e = last(R, "interp")
            ck.ok("table options", f"number of entries {steps}", e["n"] == steps, f"{e['n']} entries")
            ck.eq("table range", f"steps={steps}: first entry", e["xp"][0], exp(lam.term() * math.log(10.0)), ck.valn("lam"))
            ck.eq("table range", f"steps={steps}: last entry", e["xp"][-1], const(1.0), ck.valn("lam"))
    for lo in (-4, -5.0, -2.5):
        R = Run(ck)
        with ck.case("table range", f"log10_amin={lo}"):
            c, o = build(R, dict(Omega_k=0.0))
            e0 = 10.0 ** lo
            a = Arr(oa([sym(f"lo{lo}_{i}", e0 * f, e0 * g) for i, (f, g) in enumerate([(1.02, 1.5), (1.6, 3.0), (8.0, 12.0), (50.0, 90.0)])]), "f", 0, "jnp")
            chi = R(SP + "radial_comoving_distance", c, a, log10_amin=lo, steps=200)
            ck.eq("table range", f"log10_amin={lo}", chi, arr([o.chi(x, float(lo), 200) for x in a.flat()]), ck.valn("lo"))
    # non-negative: nothing below zero is returned past today
    R = Run(ck)
    with ck.case("non-negative", "a > 1"):
        c, o = build(R, dict(Omega_k=0.0))
        v = ck.valn("nn")
        for n, x in (("a > 1", P("a1", 1.01, 1.2)), ("just above one", P("a2", 1.0001, 1.005)), ("far above one", P("a3", 2.0, 50.0)), ("array", Arr(oa([sym("a1"), sym("a3"), const(1.0)]), "f", 0, "jnp"))):
            for t in R.a(R(SP + "radial_comoving_distance", c, x)).flat():
                ck.ok("non-negative", n, bool(np.all(v(t) >= 0)), f"{v(t)}", t.loc)

"""The expansion history satisfies the Friedmann equation."""
from ..lib import *
from .oracle import *

SP = "background."


def variants():
    yield "general", {}
    yield "flat", dict(Omega_k=0.0)
    yield "open", dict(Omega_k=("Okp", 0.05, 0.3))
    yield "closed", dict(Omega_k=("Okn", -0.3, -0.05))
    yield "LCDM", dict(w0=-1.0, wa=0.0)
    yield "wide", dict(w0=("w0w", -1.6, -0.2), wa=("waw", -1.5, 0.9), Omega_c=("Ocw", 0.01, 0.9))


def build(R, over, gamma=False):
    ov, oo = {}, {}
    for k, v in over.items():
        if isinstance(v, tuple):
            ov[k] = P(*v)
            oo[k] = ov[k].term()
        else:
            ov[k] = oo[k] = v
    return R.cosmo(gamma, **ov), Cos(gamma=gamma, **oo)


def run(ck):
    for name, over in variants():
        for gamma in (False, True):
            sub = name + ("+gamma" if gamma else "")
            R = Run(ck)
            with ck.case("friedmann", sub):
                c, o = build(R, over, gamma)
                valn = ck.valn(tag=sub)
                a = V("a", 0.02, 1.2, 4)
                ts = a.flat()
                for fn, f in (("w", o.w), ("Esqr", o.E2), ("H", lambda x: 100.0 * o.E(x)), ("Omega_m_a", o.Om_a), ("Omega_de_a", o.Ode_a)):
                    with ck.case("friedmann", f"{sub}: {fn}"):
                        ck.eq("friedmann", f"{sub}: {fn}", R(SP + fn, c, a), arr([f(x) for x in ts]), valn)
                with ck.case("dark energy evolution", f"{sub}: f_de"):
                    # d ln rho_de / d ln a = -3 (1 + w(a)), zero today
                    fd = R.a(R(SP + "f_de", c, a))
                    ck.eq("dark energy evolution", f"{sub}: exp(f_de)", arr([exp(x) for x in fd.flat()]), arr([o.de(x) for x in ts]), valn)
                with ck.case("today", sub):
                    ck.eq("today", f"{sub}: E(1)=1", R.a(R(SP + "Esqr", c, 1.0)).d.reshape(-1)[0], const(1.0), valn)
                    ck.eq("today", f"{sub}: H(1)=100", R.a(R(SP + "H", c, 1.0)).d.reshape(-1)[0], const(100.0), valn)
                    ck.eq("today", f"{sub}: Omega_m(1)", R.a(R(SP + "Omega_m_a", c, 1.0)).d.reshape(-1)[0], o.Omega_m, valn)
                    ck.eq("today", f"{sub}: Omega_de(1)", R.a(R(SP + "Omega_de_a", c, 1.0)).d.reshape(-1)[0], o.Omega_de, valn)
    # self consistency: the reported equation of state drives the reported density
    R = Run(ck)
    with ck.case("dark energy consistency", "d f_de/d ln a = -3(1+w)"):
        c = R.cosmo()
        s = P("s", 0.05, 1.1)
        fd = R.a(R(SP + "f_de", c, s)).d.reshape(-1)[0]
        w = R.a(R(SP + "w", c, s)).d.reshape(-1)[0]
        v = ck.valn("de")
        g = T.gradient(fd, v).get("s", np.zeros(v.K))
        lhs = g * v(s.term())
        rhs = -3.0 * (1.0 + v(w))
        ck.ok("dark energy consistency", "d f_de/d ln a = -3(1+w)", np.allclose(lhs, rhs, rtol=1e-8), f"{lhs} against {rhs}", fd.loc)

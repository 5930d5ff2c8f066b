"""Physical constants and units are consistent."""
from ..lib import *
from .oracle import *

# name: (value, relative tolerance of the published value)
CONSTS = dict(
    c=(299792.458, 1e-12),       # km/s, exact
    H0=(100.0, 1e-12),           # km/s/(Mpc/h), definition
    rh=(2997.92458, 1e-12),      # c / H0
    tcmb=(2.7255, 5e-4),         # K, Fixsen (2009); 2.726 of the fitting formulae is within
    rhocrit=(2.77536627e11, 2e-4),
    C_1=(5e-14, 1e-12),          # Bridle & King (2007)
    eta_nu=(0.68130, 1e-3),      # 3 * 7/8 * (4/11)^(4/3) to the quoted rounding
)


def num(R, v):
    t = R.a(v).flat()[0]
    return float(ck_val(t))


def ck_val(t):
    return T.Valuation(seed=0, K=1)(t)[0]


def run(ck):
    R = Run(ck)
    got = {}
    for n, (want, tol) in CONSTS.items():
        with ck.case("physical value", n):
            x = num(R, R.attr(R.get("constants"), n))
            got[n] = x
            ck.ok("physical value", n, abs(x - want) <= tol * abs(want), f"{x!r} instead of {want!r}")
    with ck.case("consistency", "rh = c/H0"):
        ck.ok("consistency", "rh = c/H0", abs(got["rh"] - got["c"] / got["H0"]) < 1e-9 * got["rh"], f"{got}")
    with ck.case("physical value", "steradian"):
        x = num(R, R.attr(R.get("redshift"), "steradian_to_arcmin2"))
        w = (180.0 * 60.0 / PI) ** 2
        ck.ok("physical value", "steradian_to_arcmin2", abs(x - w) <= 1e-12 * w, f"{x!r} instead of {w!r}")
    # the constants act with these units where they are used
    c, o = R.cosmo(), Cos()
    v = ck.valn("units")
    a = P("a", 0.2, 0.9)
    with ck.case("use", "Hubble rate"):
        ck.eq("use", "H(a) = H0 E(a)", R.a(R("background.H", c, a)).flat()[0], got["H0"] * o.E(a.term()), v)
    with ck.case("use", "Hubble radius"):
        ck.eq("use", "dchi/da = c/H0/(a^2 E)", R.a(R("background.dchioverda", c, a)).flat()[0], got["c"] / got["H0"] / (a.term() * a.term() * o.E(a.term())), v)
    with ck.case("use", "steradian"):
        nz = R("redshift.smail_nz", 1.0, 2.0, 0.5, gals_per_arcmin2=P("g", 1, 30))
        ck.eq("use", "gals_per_steradian", R.a(R.attr(nz, "gals_per_steradian")).flat()[0], sym("g") * ((180.0 * 60.0 / PI) ** 2), v)
    with ck.case("use", "CMB temperature"):
        k = P("k", 0.01, 0.3)
        ck.eq("use", "transfer function at T_CMB", R.a(R("transfer.Eisenstein_Hu", c, k)).flat()[0], o.eh(k.term()), v)
    with ck.case("use", "alignment amplitude"):
        from .c24 import Smail
        s = Smail("s")
        b = R("bias.constant_linear_bias", P("b", 0.5, 2.0))
        z, ell = P("z", 0.2, 1.5), P("ell", 10, 900)
        r = R.a(R("probes.nla_kernel", c, [s.make(R)], b, z, ell)).flat()[0]
        n = [e for e in R.I.sum_log if e["kind"] == "odeint"][-1]["n"]
        zt, l = z.term(), ell.term()
        az = 1.0 / (1.0 + zt)
        f = sqrt((l - 1.0) * l * (l + 1.0) * (l + 2.0)) / ((l + 0.5) * (l + 0.5))
        want = s(zt) * sym("b", 0.5, 2.0) * 100.0 * o.E(az) * (-1.0 * got["C_1"] * got["rhocrit"]) * o.Omega_m / o.growth(az, n) * f
        ck.eq("use", "alignment amplitude C1 rho_crit Omega_m/D", r, want, v)

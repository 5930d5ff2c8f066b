"""A cosmology reports exactly the parameters it was given."""
from ..lib import *
from .oracle import *

PLANCK15 = dict(Omega_c=0.2589, Omega_b=0.0486, Omega_k=0.0, h=0.6774, n_s=0.9667, sigma8=0.8159, w0=-1.0, wa=0.0)


def accessors(ck, rule, R, c, o, gamma, valn, sub):
    exp_ = dict(Omega_c=o.Omega_c, Omega_b=o.Omega_b, h=o.h, n_s=o.n_s, sigma8=o.sigma8, Omega_k=o.Omega_k, w0=o.w0, wa=o.wa)
    exp_["Omega_m"] = o.Omega_b + o.Omega_c
    exp_["Omega"] = 1.0 - o.Omega_k
    exp_["Omega_de"] = 1.0 - o.Omega_k - (o.Omega_b + o.Omega_c)
    exp_["k"] = const(0.0) - mk("sign", o.Omega_k)
    exp_["sqrtk"] = sqrt(abs_(o.Omega_k))
    if gamma:
        exp_["gamma"] = o.gamma
    for n, t in exp_.items():
        with ck.case(rule, f"{sub}.{n}"):
            v = R.attr(c, n)
            ck.eq(rule, f"{sub}.{n}", arr(R.a(v).d.reshape(())), arr(t), valn)


def run(ck):
    for tag, over in (("curved", {}), ("closed", dict(Omega_k=(-0.2, -0.05))), ("open", dict(Omega_k=(0.05, 0.2)))):
        for gamma in (False, True):
            R = Run(ck)
            pre = tag + ("+gamma" if gamma else "")
            with ck.case("accessor", pre):
                ov = {k: P(k + tag, *v) for k, v in over.items()}
                c = R.cosmo(gamma, **ov)
                o = Cos(gamma=gamma, **{k: v.term() for k, v in ov.items()})
                accessors(ck, "accessor", R, c, o, gamma, ck.valn(), pre)
    with ck.case("accessor", "flat"):
        R = Run(ck)
        c = R.cosmo(Omega_k=0.0)
        accessors(ck, "accessor", R, c, Cos(Omega_k=0.0), False, ck.valn(), "flat")
    # positional construction follows the documented order
    with ck.case("accessor", "positional"):
        R = Run(ck)
        d = cosmo_args(True)
        order = ["Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa", "gamma"]
        c = R("Cosmology", *[d[n] for n in order])
        accessors(ck, "accessor", R, c, Cos(gamma=True), True, ck.valn(), "positional")
    with ck.case("default-cosmology", "Planck15"):
        R = Run(ck)
        c = R("Planck15")
        for n, v in PLANCK15.items():
            ck.eq("default-cosmology", f"Planck15.{n}", R.a(R.attr(c, n)), arr(v))
        ck.ok("default-cosmology", "Planck15 has no growth index", not has_gamma(R, c), "gamma growth enabled by default")
    with ck.case("default-cosmology", "override"):
        R = Run(ck)
        for n in list(PLANCK15) + ["gamma"]:
            lo, hi = COSMO.get(n, GAMMA)
            c = R("Planck15", **{n: P(n, lo, hi)})
            for m, v in PLANCK15.items():
                want = sym(m) if m == n else v
                ck.eq("default-cosmology", f"Planck15({n}=x).{m}", R.a(R.attr(c, m)), arr(want), ck.valn())
            if n == "gamma":
                ck.eq("default-cosmology", "Planck15(gamma=x).gamma", R.a(R.attr(c, "gamma")), arr(sym("gamma")), ck.valn())
    with ck.case("accessor", "after tracing"):
        R = Run(ck)
        d = cosmo_args(True)
        names = list(d)

        def body(*vals):
            c = R("Cosmology", **dict(zip(names, vals)))
            return tuple(R.attr(c, n) for n in names)

        out = R.traced(body, [d[n] for n in names])
        for n, v in zip(names, out):
            ck.eq("accessor", f"traced.{n}", R.a(v), R.a(d[n]), ck.valn())


def has_gamma(R, c):
    """Growth rate with the default construction must not be a power law of a stored index."""
    v = R.attr(c, "gamma")
    return v is not None

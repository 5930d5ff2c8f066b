"""The nonlinear spectrum is the published halofit model."""
from ..lib import *
from .oracle import *
from ..terms import is_const
from .c11 import build
from .c12 import last
from .c14 import linear, opaque_fn, opaque_T, ngrow


def params(o, Tf, a, ng, nr, full=False):
    """(k_nl, n_eff, C) from the Gaussian-filtered variance at scale factor a."""
    lo, hi = math.log(1e-4), math.log(1e4)

    def D2(k):
        return k * k * k * linear(o, Tf, k, T_(1.0), ng) / (2.0 * PI * PI)

    g = o.growth(a, ng)

    def s2(r):
        return quad(lambda x: D2(exp(x)) * exp(-1.0 * (exp(x) * r) * (exp(x) * r)) * g * g, lo, hi)

    l0, l1 = math.log(1e-4), math.log(10.0)
    nodes = range(nr) if full else coarse_nodes(nr)
    lr = [T_(l0 + (l1 - l0) * i / (nr - 1.0)) for i in nodes]
    sig = [s2(exp(x)) for x in lr]
    root = full_interp(None, T_(1.0), sig, lr)
    R = max_(exp(root), T_(1e-6))

    def y2(x):
        return exp(x) * R * exp(x) * R

    i1 = quad(lambda x: D2(exp(x)) * g * g * exp(-1.0 * y2(x)) * 2.0 * y2(x), lo, hi)
    i2 = quad(lambda x: D2(exp(x)) * g * g * exp(-1.0 * y2(x)) * 4.0 * (y2(x) - y2(x) * y2(x)), lo, hi)
    return 1.0 / R, i1 - 3.0, i1 * i1 + i2, sig


def ten(x):
    return pow_(10.0, x)


def model(o, Tf, k, a, ng, nr, kind, full=False):
    knl, n, C, _ = params(o, Tf, a, ng, nr, full)
    n2, n3, n4 = n * n, n * n * n, n * n * n * n
    Om, Ode, w = o.Om_a(a), o.Ode_a(a), o.w(a)
    D2 = k * k * k * linear(o, Tf, k, a, ng) / (2.0 * PI * PI)
    y = k / knl
    f1b, f2b, f3b = pow_(Om, -0.0307), pow_(Om, -0.0585), pow_(Om, 0.0743)
    if kind == "takahashi2012":
        an = ten(1.5222 + 2.8553 * n + 2.3706 * n2 + 0.9903 * n3 + 0.2250 * n4 - 0.6038 * C + 0.1749 * Ode * (1.0 + w))
        bn = ten(-0.5642 + 0.5864 * n + 0.5716 * n2 - 1.5474 * C + 0.2279 * Ode * (1.0 + w))
        cn = ten(0.3698 + 2.0404 * n + 0.8161 * n2 + 0.5869 * C)
        gam = 0.1971 - 0.0843 * n + 0.8460 * C
        al = abs_(6.0835 + 1.3373 * n - 0.1959 * n2 - 5.5274 * C)
        be = 2.0379 - 0.7354 * n + 0.3157 * n2 + 1.2490 * n3 + 0.3980 * n4 - 0.1682 * C
        mu = T_(0.0)
        nu = ten(5.2105 + 3.6902 * n)
        f1, f2, f3 = f1b, f2b, f3b
    else:
        an = ten(1.4861 + 1.8369 * n + 1.6762 * n2 + 0.7940 * n3 + 0.1670 * n4 - 0.6206 * C)
        bn = ten(0.9463 + 0.9466 * n + 0.3084 * n2 - 0.9400 * C)
        cn = ten(-0.2807 + 0.6669 * n + 0.3214 * n2 - 0.0793 * C)
        gam = 0.8649 + 0.2989 * n + 0.1631 * C
        al = 1.3884 + 0.3700 * n - 0.1452 * n2
        be = 0.8291 + 0.9854 * n + 0.3401 * n2
        mu = ten(-3.5442 + 0.1908 * n)
        nu = ten(0.9589 + 1.2857 * n)
        f1a, f2a, f3a = pow_(Om, -0.0732), pow_(Om, -0.1423), pow_(Om, 0.0725)
        fr = Ode / (1.0 - Om)
        f1, f2, f3 = (fr * p + (1.0 - fr) * q for p, q in ((f1b, f1a), (f2b, f2a), (f3b, f3a)))
    fy = y / 4.0 + y * y / 8.0
    DQ = D2 * pow_(1.0 + D2, be) / (1.0 + al * D2) * exp(-1.0 * fy)
    DHp = an * pow_(y, 3.0 * f1) / (1.0 + bn * pow_(y, f2) + pow_(cn * f3 * y, 3.0 - gam))
    DH = DHp / (1.0 + mu / y + nu / (y * y))
    return 2.0 * PI * PI * (DQ + DH) / (k * k * k)


def tuned(ck, o, Tf, a, ng, nr, tag):
    """Valuation whose sigma8 puts sigma(R) = 1 inside the search table."""
    K = 6 if ck.thorough else 4
    v = ck.valn(tag, K=K)
    sig = params(o, Tf, a, ng, nr)[3]
    s8 = v(o.sigma8)
    q = [v(x) / s8 ** 2 for x in sig]
    out = []
    for k in range(K):
        i = k % 2
        hi_, lo_ = q[i][k], max(q[i + 1][k], q[i][k] * 1e-3)
        out.append(np.sqrt(1.0 / (hi_ ** (0.35 + 0.1 * k) * lo_ ** (0.65 - 0.1 * k))))
    w = ck.valn(tag, over={o.sigma8.attr: np.array(out)}, K=K)
    sv = [w(x) for x in sig]
    ok = (sv[0] > 1) & (sv[2] < 1)
    return w, int(ok.sum())


def run(ck):
    kr = V("k", 0.05, 5.0, 2)
    a = Arr(np.array([sym("ax0", 0.5, 0.52), sym("ax1", 0.55, 0.58)], object), "f", 0, "jnp")
    vs = [("general", {}, False), ("gamma", {}, True), ("LCDM", dict(Omega_k=0.0, w0=-1.0, wa=0.0), False)]
    for name, over, gamma in vs:
        for tf in ("default", "opaque"):
            for kind in ("takahashi2012", "smith2003"):
                R = Run(ck)
                sub = f"{name}, {tf} transfer, {kind}"
                with ck.case("halofit", sub):
                    c, o = build(R, over, gamma)
                    ng = ngrow(R, c)
                    if tf == "default":
                        tfn, Tf = R.get("transfer.Eisenstein_Hu"), o.eh
                    else:
                        tfn, Tf = opaque_fn("T"), opaque_T("T")
                    r = R("power.halofit", c, kr, a, tfn, prescription=kind)
                    nr = [e for e in R.I.sum_log if e["kind"] == "interp" and e["x"].isconst() and not all(is_const(x) for x in e["xp"])]
                    # a search that does not go through a table lookup is compared on all of its radii
                    full = not nr
                    nr = nr[-1]["n"] if nr else 256
                    ck.ok("radius search resolution", sub, nr >= 128, f"{nr} radii")
                    v, good = tuned(ck, o, Tf, a.flat()[0], ng, nr, sub)
                    ck.ok("radius inside the search table", sub, good >= 2, f"{good} lanes") if good >= 2 else ck.notes.append(f"{sub}: {good} lanes")
                    want = arr([model(o, Tf, x, y, ng, nr, kind, full) for x, y in zip(kr.flat(), a.flat())])
                    ck.eq("halofit", sub, r, want, v, rtol=1e-8)
                    if kind == "takahashi2012":
                        ck.eq("default model", sub, R("power.halofit", c, kr, a, tfn), want, v, rtol=1e-8)
                        ck.eq("default model", sub + ", nonlinear_matter_power", R("power.nonlinear_matter_power", c, kr, a, transfer_fn=tfn), want, v, rtol=1e-8)
                        if tf == "default":
                            ck.eq("default model", sub + ", all defaults", R("power.nonlinear_matter_power", c, kr, a), want, v, rtol=1e-8)
                    # scalar scale factor
                    s = P("ax0")
                    want = arr([model(o, Tf, x, s.term(), ng, nr, kind, full) for x in kr.flat()])
                    ck.eq("halofit", sub + ", scalar a", R("power.halofit", c, kr, s, tfn, prescription=kind), want, v, rtol=1e-8)
                    for e in R.I.sum_log:
                        if e["kind"] == "simps":
                            ck.ok("filter integral resolution", sub, e["n"] >= 128, f"{e['n']} panels")
    R = Run(ck)
    with ck.case("halofit", "linear option"):
        c, o = build(R, {}, False)
        ng = ngrow(R, c)
        r = R("power.linear", c, kr, a, opaque_fn("T"))
        ck.eq("halofit", "power.linear", r, arr([linear(o, opaque_T("T"), x, y, ng) for x, y in zip(kr.flat(), a.flat())]), ck.valn("l"))
        r = R("power.nonlinear_matter_power", c, kr, a, transfer_fn=opaque_fn("T"), nonlinear_fn=R.get("power.linear"))
        ck.eq("halofit", "nonlinear_fn=linear", r, arr([linear(o, opaque_T("T"), x, y, ng) for x, y in zip(kr.flat(), a.flat())]), ck.valn("l"))

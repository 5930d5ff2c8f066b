"""Noise enters auto-spectra only, with the right per-tracer level."""
from .common import *
from .oracle import *

STER = (60.0 * 180.0 / PI) ** 2


def g(n):
    return P("g" + n, 2.0, 30.0)


def run(ck):
    ell = V("ell", 20.0, 900.0, 3)
    pl = Plain()

    class Flavours:
        kinds = {
            "smail": lambda R, t: smail(R, pl, t, zmax=2.9371, gals_per_arcmin2=g(t)),
            "kde": lambda R, t: kde(R, pl, t, zmax=2.5173, gals_per_arcmin2=g(t)),
            "shift": lambda R, t: shift(R, pl, t, zmax=2.5173, gals_per_arcmin2=g(t)),
            "delta": lambda R, t: delta(R, pl, t, gals_per_arcmin2=g(t)),
        }

    mk_ = Flavours.kinds
    dens = lambda t: sym("g" + t) * STER
    cases = []
    for k in ("smail", "kde", "shift", "delta"):
        for sg, lev in (({}, [0.26]), (dict(sigma_e=P("se", 0.2, 0.4)), [sym("se")]), (dict(sigma_e=[P("s0", 0.2, 0.3)]), [sym("s0")])):
            cases.append((f"shear {k} sigma_e={list(sg)and type(sg['sigma_e']).__name__}", [("wl", [k], sg, [x * x for x in map(const, lev)])]))
        if k != "delta":
            cases.append((f"clustering {k}", [("nc", [k], {}, [const(1.0)])]))
    two = lambda s: [P("s0", 0.2, 0.3), P("s1", 0.3, 0.4)]
    q = lambda n: sym(n) * sym(n)
    P("s0", 0.2, 0.3), P("s1", 0.3, 0.4), P("se", 0.2, 0.4), P("sf", 0.2, 0.4)
    cases += [
        ("shear, noise per bin", [("wl", ["smail", "delta"], dict(sigma_e=two(0)), [q("s0"), q("s1")])]),
        ("shear, common noise", [("wl", ["smail", "kde"], dict(sigma_e=P("se", 0.2, 0.4)), [q("se")] * 2)]),
        ("shear and clustering", [("wl", ["delta", "smail"], dict(sigma_e=two(0)), [q("s0"), q("s1")]), ("nc", ["smail", "kde"], {}, [const(1.0)] * 2)]),
        ("clustering and shear", [("nc", ["smail"], {}, [const(1.0)]), ("wl", ["shift", "kde"], {}, [const(0.26 ** 2)] * 2)]),
        ("two shears", [("wl", ["smail"], dict(sigma_e=P("se", 0.2, 0.4)), [q("se")]), ("wl", ["delta"], dict(sigma_e=P("sf", 0.2, 0.4)), [q("sf")])]),
        ("two clusterings", [("nc", ["smail"], {}, [const(1.0)]), ("nc", ["kde", "smail"], {}, [const(1.0)] * 2)]),
    ]
    for name, spec in cases:
        R = Run(ck)
        with ck.case("noise level", name):
            v = ck.valn(name)
            ps, lev = [], []
            t = 0
            for kind, bins, kw, l2 in spec:
                pzs, w = [], []
                for b, x in zip(bins, l2):
                    pzs.append(mk_[b](R, f"t{t}"))
                    w.append(x / dens(f"t{t}"))
                    t += 1
                p = R(WL, pzs, **kw) if kind == "wl" else R(NC, pzs, cb(R, pl))
                ck.eq("noise level", f"{name}, {kind} probe", R.meth(p, "noise"), arr(w), v)
                ps.append(p)
                lev += w
            pr = [(i, j) for i in range(t) for j in range(i, t)]
            want = [[lev[i] if i == j else const(0.0)] * 3 for i, j in pr]
            got = R.a(R("angular_cl.noise_cl", ell, ps))
            ck.eq("noise spectra", name, got, arr(want), v)
            for n, (i, j) in enumerate(pr):
                ts = got.d[n] if got.ndim == 2 and got.shape[0] == len(pr) else []
                if i != j:
                    ck.ok("no noise in cross spectra", f"{name} ({i},{j})", all(T.congruent(x, const(0.0), v)[0] == "same" for x in ts), "not zero")
            for k in (1, 2, 4):
                lk = V("lk", 20.0, 900.0, k)
                ck.ok("one column per multipole", f"{name}, {k}", shape(R("angular_cl.noise_cl", lk, ps)) == (len(pr), k), f"shape {shape(R('angular_cl.noise_cl', lk, ps))}")
    # many tracers, many multipoles
    def tracers(n):
        R = Run(ck)
        sub = f"{n} tracers"
        with ck.case("noise spectra", sub):
            v = ck.valn(sub)
            w = n // 2
            kinds = [("smail", "delta", "kde", "shift")[i % 4] for i in range(w)] + [("smail", "kde")[i % 2] for i in range(n - w)]
            pz = [mk_[k](R, f"n{i}") for i, k in enumerate(kinds)]
            ses = [P(f"se{i}", 0.2, 0.4) for i in range(w)]
            ps = [R(WL, pz[:w], sigma_e=list(ses)), R(NC, pz[w:], cb(R, pl))] if w else [R(NC, pz, cb(R, pl))]
            lev = [(ses[i].term() * ses[i].term() if i < w else const(1.0)) / dens(f"n{i}") for i in range(n)]
            want = [[lev[i] if i == j else const(0.0)] * 2 for i in range(n) for j in range(i, n)]
            ck.eq("noise spectra", sub, R("angular_cl.noise_cl", V("ell", 20.0, 900.0, 2), ps), arr(want), v)
            if w:
                ck.eq("noise level", sub, R.meth(ps[0], "noise"), arr(lev[:w]), v)

    def probes_(n):
        R = Run(ck)
        with ck.case("noise spectra", f"{n} probes"):
            ps = [R(NC, [mk_["smail"](R, f"n{i}")], cb(R, pl)) if i % 2 else R(WL, [mk_["delta"](R, f"n{i}")], sigma_e=P(f"se{i}", 0.2, 0.4)) for i in range(n)]
            lev = [(const(1.0) if i % 2 else sym(f"se{i}") * sym(f"se{i}")) / dens(f"n{i}") for i in range(n)]
            want = [[lev[i] if i == j else const(0.0)] * 2 for i in range(n) for j in range(i, n)]
            ck.eq("noise spectra", f"{n} probes", R("angular_cl.noise_cl", V("ell", 20.0, 900.0, 2), ps), arr(want), ck.valn("np"))

    def multipoles(n):
        R = Run(ck)
        with ck.case("noise spectra", f"{n} multipoles"):
            ps = [R(NC, [mk_["smail"](R, "n0"), mk_["smail"](R, "n1")], cb(R, pl))]
            want = [[x] * n for x in (1.0 / dens("n0"), const(0.0), 1.0 / dens("n1"))]
            ck.eq("noise spectra", f"{n} multipoles", R("angular_cl.noise_cl", V("ell", 20.0, 900.0, n), ps), arr(want), ck.valn("nm"))

    for n in [f"g{t}{i}" for t in "tn" for i in range(40)] + ["gu"]:
        widen(n, 0.003, 400.0)
    ck.steer("tracers", tracers, (3, 5, 8), 40)
    ck.steer("probes", probes_, (3, 4, 6), 30)
    ck.steer("multipoles", multipoles, (3, 5, 8), 1100)
    # one and the same object in several places
    for order in ([0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0]):
        R = Run(ck)
        sub = f"bins {order}"
        with ck.case("noise spectra", sub):
            two = [mk_["smail"](R, "n0"), mk_["kde"](R, "n1")]
            se = [P("se0", 0.2, 0.4), P("se1", 0.2, 0.4)]
            n = len(order)
            pa, pb = R(WL, [two[i] for i in order], sigma_e=[se[i] for i in order]), R(NC, [two[i] for i in order], cb(R, pl))
            la = [se[i].term() * se[i].term() / dens(f"n{i}") for i in order]
            lb = [1.0 / dens(f"n{i}") for i in order]
            for nm, ps, lev in (("shear", [pa], la), ("clustering", [pb], lb), ("both", [pa, pb], la + lb), ("shear twice", [pa, pa], la + la), ("clustering, shear, clustering", [pb, pa, pb], lb + la + lb)):
                want = [[lev[i] if i == j else const(0.0)] * 2 for i in range(len(lev)) for j in range(i, len(lev))]
                ck.eq("noise spectra", f"{sub}, {nm}", R("angular_cl.noise_cl", V("ell", 20.0, 900.0, 2), ps), arr(want), ck.valn("twice"))
    # the density of each kind is its own, per square arcminute on the whole sphere
    R = Run(ck)
    for k, f in mk_.items():
        with ck.case("density", k):
            o = f(R, "u")
            ck.eq("density", k + " per steradian", R.a(R.attr(o, "gals_per_steradian")), arr(dens("u")), ck.valn(k))
            ck.eq("density", k + " per square arcminute", R.a(R.attr(o, "gals_per_arcmin2")), arr(sym("gu")), ck.valn(k))


class Plain:
    def __call__(self, n, lo=0.3, hi=1.7):
        return P(n, lo, hi)

    def vec(self, n, lo, hi, k):
        return V(n, lo, hi, k)

"""Signal, noise and covariance use one and the same tracer-pair order."""
import itertools

from .common import *
from .oracle import *
from .c17 import *
from .c20 import knox


LAYOUTS = [[1], [2], [3], [4], [1, 1], [2, 1], [1, 2], [2, 2], [1, 1, 1], [3, 2], [1, 2, 1], [2, 3, 1]]


def probe_list(R, layout, kinds):
    """Probes with the given bin numbers; every tracer distinguishable."""
    out, spec = [], []
    t = 0
    for i, (n, k) in enumerate(zip(layout, kinds)):
        bins = []
        for b in range(n):
            dens = P(f"g{t}", 2.0 + t, 2.9 + t)
            if k == "wl":
                bins.append((Delta(f"t{t}", 0.4 + 0.12 * t, 0.45 + 0.12 * t), dict(gals_per_arcmin2=dens)))
            else:
                bins.append((Smail(f"t{t}", 2.0 + 0.1 * t), dict(zmax=2.0 + 0.1 * t, gals_per_arcmin2=dens)))
            t += 1
        spec.append(wl(bins, P(f"m{i}", -.1, .1)) if k == "wl" else nc(bins, CB(f"b{i}")))
        out.append(build_probe(R, spec[-1]))
    return out, spec


def density(spec):
    return [(k, kw["gals_per_arcmin2"].term() * (60.0 * 180.0 / PI) ** 2) for k, bins, _, _ in spec for _, kw in bins]


def run(ck):
    ell = V("ell", 20.0, 900.0, 3)
    for lay in LAYOUTS:
        mixes = [["wl"] * len(lay), ["nc"] * len(lay), [("wl", "nc")[i % 2] for i in range(len(lay))], [("nc", "wl")[i % 2] for i in range(len(lay))]]
        mixes = [m for i, m in enumerate(mixes) if m not in mixes[:i]]
        for mix in mixes if ck.thorough or sum(lay) <= 3 else mixes[-2:]:
            R = Run(ck)
            n = sum(lay)
            sub = " ".join(f"{k}{b}" for k, b in zip(mix, lay))
            with ck.case("pair order", sub):
                ps, spec = probe_list(R, lay, mix)
                pr = pairs(n)
                v = ck.valn(sub)
                dens = density(spec)
                # noise rows
                nz = R.a(R("angular_cl.noise_cl", ell, ps))
                want = [[(const(0.26 ** 2) if dens[i][0] == "wl" else const(1.0)) / dens[i][1] if i == j else const(0.0)] * 3 for i, j in pr]
                ck.eq("pair order of the noise", sub, nz, arr(want), v)
                # covariance of opaque spectra
                S, N = mat("S", len(pr), 3, 0.5, 2.0), mat("N", len(pr), 3, 0.1, 0.4)
                cov = R.a(R("angular_cl.gaussian_cl_covariance", ell, ps, S, N))
                ck.eq("pair order of the covariance", sub, cov, arr(knox(n, S, N, ell, 0.25)), v)
                # signal rows
                if "nc" in mix and sum(lay) > 3 and not ck.thorough:
                    continue
                c, o = R.cosmo(), Cos()
                l2 = V("ell", 20.0, 900.0, 2)
                sig = R.a(R("angular_cl.angular_cl", c, l2, ps, nonlinear_fn=opaque_pk()))
                tab = Tab(R, c, o)
                kern = kernels(tab, spec)
                memo = {}

                def kf(t, z, l):
                    k = (t, z.id, l.id)
                    if k not in memo:
                        memo[k] = kern[t](z, l)
                    return memo[k]

                f = limber(tab, kf, l2, max(zmax_of(p) for p in spec), pk)
                ck.eq("pair order of the signal", sub, sig, arr([[f(i, j, l) for l in l2.flat()] for i, j in pr]), v)
                # the companion: flattened signal and covariance of signal + noise
                for sp in (True, False):
                    mean, cv = R("angular_cl.gaussian_cl_covariance_and_mean", c, l2, ps, nonlinear_fn=opaque_pk(), sparse=sp)
                    ck.eq("pair order of the mean", f"{sub}, sparse={sp}", mean, Arr(sig.d.reshape(-1), "f", 0, "jnp"), v)
                    nn = R.a(R("angular_cl.noise_cl", l2, ps))
                    w = knox(n, sig, nn, l2, 0.25)
                    ck.eq("pair order of the companion covariance", f"{sub}, sparse={sp}", cv, arr(w if sp else dense(w)), v)

    def tracers(n):
        R = Run(ck)
        sub = f"{n} tracers in two probes"
        with ck.case("pair order", sub):
            lay, mix = [n - n // 2, n // 2], ["nc", "wl"]
            ps, spec = probe_list(R, lay, mix)
            pr, v = pairs(n), ck.valn(sub)
            l2 = V("ell", 20.0, 900.0, 2)
            S, N = mat("S", len(pr), 2, 0.5, 2.0), mat("N", len(pr), 2, 0.1, 0.4)
            cov = R.a(R("angular_cl.gaussian_cl_covariance", l2, ps, S, N))
            ck.eq("pair order of the covariance", sub, cov, arr(knox(n, S, N, l2, 0.25)), v)
            c, o = R.cosmo(), Cos()
            sig = R.a(R("angular_cl.angular_cl", c, l2, ps, nonlinear_fn=opaque_pk()))
            kern = kernels(Tab(R, c, o), spec)
            memo = {}

            def kf(t, z, l):
                k = (t, z.id, l.id)
                if k not in memo:
                    memo[k] = kern[t](z, l)
                return memo[k]

            f = limber(Tab(R, c, o), kf, l2, max(zmax_of(p) for p in spec), pk)
            ck.eq("pair order of the signal", sub, sig, arr([[f(i, j, l) for l in l2.flat()] for i, j in pr]), v)

    ck.steer("tracers", tracers, (3, 4, 6), 14)
    # one and the same probe listed more than once
    for lay, mix in (([1], ["wl"]), ([2], ["nc"]), ([1, 1], ["wl", "nc"]), ([2, 1], ["nc", "wl"])):
        for order in ([0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0, 1], [0, 0, 0]):
            if max(order) >= len(lay):
                continue
            R = Run(ck)
            sub = f"probes {order} of " + " ".join(f"{k}{b}" for k, b in zip(mix, lay))
            with ck.case("same probe twice", sub):
                made, sp = probe_list(R, lay, mix)
                ps, spec = [made[i] for i in order], [sp[i] for i in order]
                dens = density(spec)
                n = len(dens)
                pr, v = pairs(n), ck.valn(sub)
                want = [[(const(0.26 ** 2) if dens[i][0] == "wl" else const(1.0)) / dens[i][1] if i == j else const(0.0)] * 3 for i, j in pr]
                ck.eq("pair order of the noise", sub, R("angular_cl.noise_cl", ell, ps), arr(want), v)
                S, N = mat("S", len(pr), 3, 0.5, 2.0), mat("N", len(pr), 3, 0.1, 0.4)
                ck.eq("pair order of the covariance", sub, R("angular_cl.gaussian_cl_covariance", ell, ps, S, N), arr(knox(n, S, N, ell, 0.25)), v)
                c, o = R.cosmo(), Cos()
                l2 = V("ell", 20.0, 900.0, 2)
                sig = R.a(R("angular_cl.angular_cl", c, l2, ps, nonlinear_fn=opaque_pk()))
                kern = kernels(Tab(R, c, o), spec)
                f = limber(Tab(R, c, o), lambda t, z, l: kern[t](z, l), l2, max(zmax_of(p) for p in spec), pk)
                ck.eq("pair order of the signal", sub, sig, arr([[f(i, j, l) for l in l2.flat()] for i, j in pr]), v)
                mean, cv = R("angular_cl.gaussian_cl_covariance_and_mean", c, l2, ps, nonlinear_fn=opaque_pk(), sparse=True)
                ck.eq("pair order of the mean", sub, mean, Arr(sig.d.reshape(-1), "f", 0, "jnp"), v)
                ck.eq("pair order of the companion covariance", sub, cv, arr(knox(n, sig, R.a(R("angular_cl.noise_cl", l2, ps)), l2, 0.25)), v)


from .c20 import dense  # noqa: E402

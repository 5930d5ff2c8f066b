"""The likelihood is the Gaussian log-density, whatever the method."""
from .common import *
from .oracle import *
from .c22 import dense_of, blocks
from ..terms import matterm


def density(d, mu, C, logdet=True):
    """-1/2 [r^T C^-1 r (+ ln det C)] with the inverse and determinant of the dense matrix."""
    n = len(mu)
    r = [m - x for m, x in zip(mu, d)]
    ts = list(C.reshape(-1))
    q = const(0.0)
    for i in range(n):
        for j in range(n):
            w = matterm("inv", ts, n, i, j) if n > 1 else 1.0 / ts[0]
            q = q + r[i] * w * r[j]
    if logdet:
        q = q + (matterm("logdet", ts, n) if n > 1 else log(abs_(ts[0])))
    return -0.5 * q


G = "likelihood.gaussian_log_likelihood"


def run(ck):
    for n in (1, 2, 3, 5):
        d, mu = V("d", -1.0, 1.0, n), V("mu", -1.0, 1.0, n)
        C = mat("C", n, spd=True)
        for ld in (None, True, False):
            for m in (None, "inverse", "cholesky"):
                for kind in ("jnp", "np"):
                    kw = {}
                    if ld is not None:
                        kw["include_logdet"] = ld
                    if m is not None:
                        kw["inverse_method"] = m
                    R = Run(ck)
                    sub = f"{n}x{n}, {kw or 'defaults'}, {kind}"
                    with ck.case("dense", sub):
                        cast = lambda x: Arr(x.d, "f", 0, kind)
                        got = R(G, cast(d), cast(mu), cast(C), **kw)
                        ck.eq("dense", sub, R.a(got), arr(density(d.flat(), mu.flat(), C.d, ld is not False)), ck.valn(sub))
                        if kind == "jnp":
                            r = R.traced(lambda a, b, c: R(G, a, b, c, **kw), [d, mu, C])
                            ck.eq("dense", sub + ", traced", R.a(r), R.a(got), ck.valn(sub))
        # positional order of the options, gradient-free use with host data
        R = Run(ck)
        with ck.case("dense", f"{n}, positional"):
            ck.eq("dense", f"{n}, positional options", R.a(R(G, d, mu, C, False, "cholesky")), arr(density(d.flat(), mu.flat(), C.d, False)), ck.valn("pos"))
    for b, q in [(b, q) for b in (1, 2, 3, 4, 5) for q in (1, 2, 3, 4, 5) if b * q <= (25 if ck.thorough else 16)]:
        n = b * q
        d, mu = V("d", -1.0, 1.0, n), V("mu", -1.0, 1.0, n)
        S = blocks("S", b, b, q, spd=True)
        D = dense_of(S)
        for ld in (None, True, False):
            for m in (None, "inverse", "cholesky"):
                if b * q > 6 and (ld, m) not in ((None, None), (False, "cholesky")):
                    continue
                kw = {}
                if ld is not None:
                    kw["include_logdet"] = ld
                if m is not None:
                    kw["inverse_method"] = m
                R = Run(ck)
                sub = f"{b}x{b} blocks of {q}, {kw or 'defaults'}"
                with ck.case("sparse", sub):
                    v = ck.valn(sub)
                    want = arr(density(d.flat(), mu.flat(), D, ld is not False))
                    got = R.a(R(G, d, mu, S, **kw))
                    ck.eq("sparse", sub, got, want, v)
                    ck.eq("layouts agree", sub, R.a(R(G, d, mu, arr(D), **kw)), want, v)
                    r = R.traced(lambda a, b, c: R(G, a, b, c, **kw), [d, mu, S])
                    ck.eq("sparse", sub + ", traced", R.a(r), want, v)
    def many(n, q):
        for m in ("inverse", "cholesky"):
            R = Run(ck)
            sub = f"data of length {n * q}, {'dense' if q == 1 else f'blocks of {q}'}, {m}"
            with ck.case("scaled", sub):
                v = ck.valn(sub)
                N = n * q
                d, mu = V("d", -1.0, 1.0, N), V("mu", -1.0, 1.0, N)
                C = mat("C", N, spd=True) if q == 1 else blocks("S", n, n, q, spd=True)
                D = C.d if q == 1 else dense_of(C)
                ck.eq("scaled", sub, R.a(R(G, d, mu, C, inverse_method=m)), arr(density(d.flat(), mu.flat(), D)), v, rtol=1e-7)

    ck.steer("dense data length", lambda n: many(n, 1), (3, 4, 6), 24)
    ck.steer("blocks", lambda n: many(n, 2), (2, 3, 4), 9)
    ck.steer("multipoles", lambda n: many(2, n), (2, 3, 4), 12)
    # covariances of any magnitude: angular power spectra are of order 1e-10 and smaller
    for n, scales in ((3, (1e-150, 1e-110, 1e120)), (8, (1e-60, 1e-40, 1e50))):
        for sc in scales:
            for lay in ("dense", "sparse"):
                for m in (None, "inverse", "cholesky"):
                    kw = {} if m is None else dict(inverse_method=m)
                    R = Run(ck)
                    sub = f"{n}x{n}, {lay}, entries of order {sc:g}, {m or 'default'}"
                    with ck.case("any magnitude", sub):
                        if lay == "dense":
                            C = Arr(mat("C", n, spd=True).d * const(sc), "f", 0, "jnp")
                            D = C.d
                        else:
                            C = Arr(blocks("S", n, n, 1, spd=True).d * const(sc), "f", 0, "jnp")
                            D = dense_of(C)
                        rs = const(math.sqrt(sc))
                        d, mu = Arr(V("d", -1.0, 1.0, n).d * rs, "f", 0, "jnp"), Arr(V("mu", -1.0, 1.0, n).d * rs, "f", 0, "jnp")
                        got = R.a(R(G, d, mu, C, **kw))
                        ck.representable("any magnitude", sub, got, arr(density(d.flat(), mu.flat(), D)), ck.valn(sub))
    # the likelihood of a covariance and mean of the library, in both layouts
    R = Run(ck)
    with ck.case("pipeline", "covariance of the library"):
        pl = Plain()
        ps = [R(WL, [smailg(R, pl, "a", zmax=2.1379)]), R(NC, [smailg(R, pl, "b", zmax=2.9371)], cb(R, pl))]
        ell = V("ell", 20.0, 900.0, 2)
        S = Arr(mat("S", 3, 2, 0.1, 0.2).d, "f", 0, "jnp")
        S.d[0] = S.d[0] + 1.0
        S.d[2] = S.d[2] + 1.0
        N = R.a(R("angular_cl.noise_cl", ell, ps))
        c1 = R("angular_cl.gaussian_cl_covariance", ell, ps, S, N, sparse=True)
        c2 = R("angular_cl.gaussian_cl_covariance", ell, ps, S, N, sparse=False)
        d, mu = V("d", -1.0, 1.0, 6), Arr(S.d.reshape(-1), "f", 0, "jnp")
        v = ck.valn("pipeline")
        want = arr(density(d.flat(), mu.flat(), R.a(c2).d))
        ck.eq("pipeline", "sparse covariance", R.a(R(G, d, mu, c1)), want, v)
        ck.eq("pipeline", "dense covariance", R.a(R(G, d, mu, c2)), want, v)
        ck.eq("pipeline", "dense covariance, cholesky", R.a(R(G, d, mu, c2, inverse_method="cholesky")), want, v)


class Plain:
    def __call__(self, n, lo=0.3, hi=1.7):
        return P(n, lo, hi)

"""The covariance is the Gaussian (Knox) covariance in both layouts."""
from .common import *
from .oracle import *


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i, n)]


def gradient(l):
    n = len(l)
    if n == 2:
        return [l[1] - l[0]] * 2
    return [l[1] - l[0]] + [(l[i + 1] - l[i - 1]) / 2.0 for i in range(1, n - 1)] + [l[-1] - l[-2]]


def knox(n, S, N, ell, fsky):
    """[pair, pair, multipole] covariance terms."""
    pr = pairs(n)
    ix = {}
    for q, (i, j) in enumerate(pr):
        ix[i, j] = ix[j, i] = q
    l = ell.flat()
    dl = gradient(l)
    fsky = const(fsky)
    C = S.d + N.d
    out = np.empty((len(pr), len(pr), len(l)), object)
    for p, (i, j) in enumerate(pr):
        for q, (m, k) in enumerate(pr):
            for t in range(len(l)):
                out[p, q, t] = (C[ix[i, m], t] * C[ix[j, k], t] + C[ix[i, k], t] * C[ix[j, m], t]) / ((2.0 * l[t] + 1.0) * dl[t] * fsky)
    return out


def dense(w):
    p, q, k = w.shape
    out = np.full((p * k, q * k), const(0.0), object)
    for i in range(p):
        for j in range(q):
            for t in range(k):
                out[i * k + t, j * k + t] = w[i, j, t]
    return out


def run(ck):
    pl = Plain()
    lists = {
        1: lambda R: [R(NC, [smailg(R, pl, "a", zmax=2.1379)], cb(R, pl))],
        2: lambda R: [R(WL, [smailg(R, pl, "a", zmax=2.1379), delta(R, pl, "b")])],
        3: lambda R: [R(WL, [smailg(R, pl, "a", zmax=2.1379)]), R(NC, [smailg(R, pl, "b", zmax=2.1379), smailg(R, pl, "c", zmax=2.9371)], cb(R, pl))],
        4: lambda R: [R(NC, [smailg(R, pl, "a", zmax=2.1379), smailg(R, pl, "d", zmax=2.1379)], cb(R, pl)), R(WL, [delta(R, pl, "b"), smailg(R, pl, "c", zmax=2.9371)])],
    }
    if ck.thorough:
        lists[5] = lambda R: lists[2](R) + lists[3](R)
    for n, f in lists.items():
        for nl in (2, 3, 5):
            for fs in (None, "symbol"):
                R = Run(ck)
                sub = f"{n} tracers, {nl} multipoles, f_sky={fs}"
                with ck.case("Knox covariance", sub):
                    ps = f(R)
                    v = ck.valn(sub)
                    ell = V("ell", 20.0, 900.0, nl)
                    m = n * (n + 1) // 2
                    S, N = mat("S", m, nl, 0.5, 2.0), mat("N", m, nl, 0.1, 0.4)
                    kw = {} if fs is None else dict(f_sky=P("fsky", 0.1, 0.9))
                    w = knox(n, S, N, ell, 0.25 if fs is None else sym("fsky"))
                    g = "angular_cl.gaussian_cl_covariance"
                    sp = R.a(R(g, ell, ps, S, N, sparse=True, **kw))
                    de = R.a(R(g, ell, ps, S, N, sparse=False, **kw))
                    ck.eq("Knox covariance", sub + ", sparse", sp, arr(w), v)
                    ck.eq("Knox covariance", sub + ", dense", de, arr(dense(w)), v)
                    ck.eq("Knox covariance", sub + ", default layout", R.a(R(g, ell, ps, S, N, **kw)), arr(w), v)
                    ck.eq("symmetric", sub + ", sparse", sp, Arr(sp.d.transpose((1, 0, 2)), "f", 0, "jnp"), v)
                    ck.eq("symmetric", sub + ", dense", de, Arr(de.d.T, "f", 0, "jnp"), v)
                    ck.eq("layouts agree", sub, R("sparse.to_dense", sp), de, v)
                    k = m * nl
                    off = [(i, j) for i in range(k) for j in range(k) if i % nl != j % nl]
                    bad = [(i, j) for i, j in off if T.congruent(de.d[i, j], const(0.0), v)[0] != "same"] if de.shape == (k, k) else off
                    ck.ok("diagonal in multipole", sub, not bad, f"elements {bad[:3]} do not vanish")
                    host = R(g, Arr(ell.d, "f", 0, "np"), ps, Arr(S.d, "f", 0, "np"), Arr(N.d, "f", 0, "np"), sparse=True, **kw)
                    ck.eq("Knox covariance", sub + ", host arrays", R.a(host), arr(w), v)
    # many tracers, many multipoles
    def many(n, nl):
        R = Run(ck)
        sub = f"{n} tracers, {nl} multipoles, scaled"
        with ck.case("Knox covariance", sub):
            ps = [R(NC, [smailg(R, pl, f"t{i}", zmax=2.1379) for i in range(n)], cb(R, pl))]
            v = ck.valn(sub)
            ell, m = V("ell", 20.0, 900.0, nl), n * (n + 1) // 2
            S, N = mat("S", m, nl, 0.5, 2.0), mat("N", m, nl, 0.1, 0.4)
            w = knox(n, S, N, ell, 0.25)
            ck.eq("Knox covariance", sub + ", sparse", R("angular_cl.gaussian_cl_covariance", ell, ps, S, N, sparse=True), arr(w), v)
            ck.eq("Knox covariance", sub + ", dense", R("angular_cl.gaussian_cl_covariance", ell, ps, S, N, sparse=False), arr(dense(w)), v)

    ck.steer("tracers", lambda n: many(n, 2), (2, 3, 5), 12)
    ck.steer("multipoles", lambda n: many(1, n), (3, 5, 8), 300)
    # the companion
    for n in (1, 2, 3):
        for kw in (dict(), dict(sparse=True), dict(sparse=False), dict(sparse=True, f_sky=P("fsky", 0.1, 0.9)), dict(f_sky=P("fsky", 0.1, 0.9))):
            R = Run(ck)
            sub = f"{n} tracers, {', '.join(kw) or 'defaults'} {kw.get('sparse', '')}"
            with ck.case("companion", sub):
                ps = lists[n](R)
                v = ck.valn(sub)
                ell = V("ell", 20.0, 900.0, 3)
                c = R.cosmo()
                sig = R.a(R("angular_cl.angular_cl", c, ell, ps, nonlinear_fn=opaque_pk()))
                noi = R.a(R("angular_cl.noise_cl", ell, ps))
                mean, cov = R("angular_cl.gaussian_cl_covariance_and_mean", c, ell, ps, nonlinear_fn=opaque_pk(), **kw)
                ck.eq("companion mean", sub, mean, Arr(sig.d.reshape(-1), "f", 0, "jnp"), v)
                w = knox(n, sig, noi, ell, sym("fsky") if "f_sky" in kw else 0.25)
                ck.eq("companion covariance", sub, cov, arr(w if kw.get("sparse", False) else dense(w)), v)


class Plain:
    def __call__(self, n, lo=0.3, hi=1.7):
        return P(n, lo, hi)

    def vec(self, n, lo, hi, k):
        return V(n, lo, hi, k)

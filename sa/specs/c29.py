"""Table lookup is piecewise-linear interpolation on the whole table."""
from ..lib import *
from .oracle import *

INTERP = "scipy.interpolate.interp"


def run(ck):
    for n in (2, 3, 4, 5, 8) + ((12, 20, 33) if ck.thorough else (13,)):
        for order in ("increasing", "decreasing"):
            for kind in ("jnp", "np"):
                for space in ("even", "graded", "negative", "signed", "close", "wide"):
                    R = Run(ck, summaries=False)
                    sub = f"{n} {order} nodes, {space}, {kind}"
                    v = ck.valn(sub)
                    with ck.case("linear interpolation", sub):
                        x = V("x", 0.2, 2.0, n).flat()
                        if space == "graded":
                            x = [exp(3.0 * t) for t in x]
                        elif space == "negative":
                            x = [-9.0 + 2.0 * t for t in x]
                        elif space == "signed":  # a node at zero
                            x = [t - x[n // 2] for t in x]
                        elif space == "close":
                            x = [1e-10 * t for t in x]
                        elif space == "wide":
                            x = [1e12 * t for t in x]
                        y = [sym(f"y{i}", -1.0, 1.0) for i in range(n)]
                        if order == "decreasing":
                            x = x[::-1]
                        xp, fp = arr(x, kind=kind), arr(y, kind=kind)
                        q, w = [], []
                        for i in range(n - 1):
                            for u in (0.03, 0.3, 0.48, 0.52, 0.7, 0.97):
                                q.append(x[i] + u * (x[i + 1] - x[i]))
                                w.append(y[i] + u * (y[i + 1] - y[i]))
                            s = sym(f"u{i}", 0.05, 0.95)
                            q.append(x[i] + s * (x[i + 1] - x[i]))
                            w.append(y[i] + s * (y[i + 1] - y[i]))
                        ck.eq("linear interpolation", sub, R(INTERP, arr(q, kind=kind), xp, fp), arr(w), v, rtol=1e-7)
                        ck.eq("linear interpolation", sub + ", reversed queries", R(INTERP, arr(q[::-1], kind=kind), xp, fp), arr(w[::-1]), v, rtol=1e-7)
                        ck.eq("exact at the nodes", sub, R(INTERP, arr(x, kind=kind), xp, fp), arr(y), v, rtol=1e-8)
                        for i in range(n):
                            ck.eq("exact at the nodes", f"{sub}, node {i}", R(INTERP, arr([x[i]]), xp, fp), arr([y[i]]), v, rtol=1e-8)
                        if kind == "jnp":
                            r = R.traced(lambda a, b, c: R(INTERP, a, b, c), [arr(q), xp, fp])
                            ck.eq("linear interpolation", sub + ", traced", R.a(r), arr(w), v, rtol=1e-7)
    def nodes(n, m=None):
        for order in ("increasing", "decreasing"):
            R = Run(ck, summaries=False)
            sub = f"{n} {order} nodes, {m or 'few'} queries, scaled"
            with ck.case("linear interpolation", sub):
                x, y = V(f"x{n}_", 0.2, 2.0, n).flat(), [sym(f"y{i}", -1.0, 1.0) for i in range(n)]
                if order == "decreasing":
                    x = x[::-1]
                js = [i % (n - 1) for i in range(m)] if m else [i for i in sorted({0, 1, n // 2, n - 3, n - 2} | set(range(0, n - 1, max(1, n // 5)))) if 0 <= i < n - 1]
                us = [0.03 + 0.94 * ((i * 0.618) % 1.0) for i in range(len(js))]
                q = [x[i] + u * (x[i + 1] - x[i]) for i, u in zip(js, us)]
                w = [y[i] + u * (y[i + 1] - y[i]) for i, u in zip(js, us)]
                ck.eq("linear interpolation", sub, R(INTERP, arr(q), arr(x), arr(y)), arr(w), ck.valn(sub), rtol=1e-7)

    ck.steer("nodes", nodes, (3, 5, 8), 300)
    ck.steer("queries", lambda n: nodes(4, n), (3, 5, 8), 600)
    # the lookups behind distances and growth, on their own tables
    for gamma in (False, True):
        R = Run(ck)
        with ck.case("tables", f"gamma={gamma}"):
            c = R.cosmo(gamma)
            R("background.radial_comoving_distance", c, 0.5)
            R("background.growth_factor", c, 0.5)
            R("background.a_of_chi", c, 500.0)
            logs = [e for e in R.I.sum_log if e["kind"] == "interp"]
            ck.ok("tables", f"gamma={gamma}", len(logs) >= 3, f"{len(logs)} lookups")
            for e in logs:
                xs = [T.Valuation(seed=1, K=2)(t) for t in e["xp"]]
                mono = all((a < b).all() for a, b in zip(xs, xs[1:])) or all((a > b).all() for a, b in zip(xs, xs[1:]))
                ck.ok("monotonic abscissae", f"gamma={gamma}, {e['caller']}", mono, "table abscissae are not monotonic", e["loc"])

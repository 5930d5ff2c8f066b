"""Splines interpolate smoothly and their calculus is consistent."""
from fractions import Fraction as Fr

from .common import *
from .oracle import *


def lag(us, u, n):
    """Weights of the n-th derivative at u of the polynomial through the nodes us."""
    us = [Fr(x) for x in us]
    u = Fr(u)
    out = []
    for j in range(len(us)):
        # coefficients of the Lagrange basis polynomial
        p = [Fr(1)]
        for m, x in enumerate(us):
            if m == j:
                continue
            d = us[j] - x
            q = [Fr(0)] * (len(p) + 1)
            for i, c in enumerate(p):
                q[i] -= c * x / d
                q[i + 1] += c / d
            p = q
        for _ in range(n):
            p = [c * i for i, c in enumerate(p)][1:] or [Fr(0)]
        out.append(float(sum(c * u ** i for i, c in enumerate(p))))
    return out


class Piece:
    """A polynomial piece in the local coordinate u, from its values."""

    def __init__(self, us, vals, h):
        self.us, self.vals, self.h = us, vals, h

    def d(self, n, u):
        w = lag(self.us, u, n)
        s = const(0.0)
        for c, v in zip(w, self.vals):
            if c:
                s = s + c * v
        for _ in range(n):
            s = s / self.h
        return s


US = [Fr(1, 8), Fr(3, 8), Fr(5, 8), Fr(7, 8), Fr(1, 2), Fr(1, 4)]


def run(ck):
    cfg = []
    for k in (1, 2, 3):
        for n in range(k + 1, (9 if ck.thorough else 7)):
            for e in ((None, "not-a-knot", "natural") if k == 3 else (None,)):
                for sp in ("positive", "signed", "close", "wide"):
                    if sp == "positive" or n == k + 3:
                        cfg.append((k, n, e, sp))
    for k, n, e, sp in cfg:
        R = Run(ck)
        sub = f"k={k}, {n} points, {e or 'default ends'}" + ({"positive": "", "signed": ", abscissae of both signs", "close": ", close abscissae", "wide": ", wide abscissae"}[sp])
        v = ck.valn(sub)
        with ck.case("spline", sub):
            X, Y = V("x", 0.2, 2.0, n), V("y", -1.0, 1.0, n)
            if sp == "signed":
                X = Arr(X.d - X.flat()[n // 2], "f", 0, "jnp")
            elif sp != "positive":
                X = Arr(X.d * const(1e-8 if sp == "close" else 1e6), "f", 0, "jnp")
            x, y = X.flat(), Y.flat()
            kw = {} if e is None else dict(endpoints=e)
            s = R("scipy.interpolate.InterpolatedUnivariateSpline", X, Y, k=k, **kw)
            call = lambda t: R.a(R.I.call(s, [arr(t)], {})).flat()
            der = lambda t, m: R.a(R.meth(s, "derivative", arr(t), m)).flat()
            ad = lambda t: R.a(R.meth(s, "antiderivative", arr(t))).flat()
            # the breakpoints of the polynomial pieces
            br = [x[0]] + [(p + q) / 2.0 for p, q in zip(x, x[1:])] + [x[-1]] if k == 2 else list(x)
            m = len(br) - 1
            hs = [br[i + 1] - br[i] for i in range(m)]
            us = US[: k + 1]
            q = [br[i] + float(u) * hs[i] for i in range(m) for u in us]
            vals = call(q)
            pieces = [Piece(us, vals[i * (k + 1):(i + 1) * (k + 1)], hs[i]) for i in range(m)]
            # degree, interpolation
            chk = [br[i] + 0.95 * hs[i] for i in range(m)] + [br[i] + 0.02 * hs[i] for i in range(m)]
            want = [pieces[i].d(0, Fr(19, 20)) for i in range(m)] + [pieces[i].d(0, Fr(1, 50)) for i in range(m)]
            ck.eq(f"one polynomial of degree {k} per piece", sub, arr(call(chk)), arr(want), v, rtol=1e-7)
            ck.eq("passes through the data", sub, arr(call(x)), arr(y), v, rtol=1e-8)
            # smoothness
            for d in range(k):
                l = [pieces[i].d(d, 1) + 3.0 for i in range(m - 1)]
                r = [pieces[i + 1].d(d, 0) + 3.0 for i in range(m - 1)]
                if l:
                    ck.eq("continuous derivatives", f"{sub}, derivative {d}", arr(l), arr(r), v, rtol=1e-7)
            # end conditions
            if k == 3 and e == "natural":
                ck.eq("natural ends", sub, arr([pieces[0].d(2, 0) + 1.0, pieces[-1].d(2, 1) + 1.0]), arr([const(1.0)] * 2), v, rtol=1e-7)
            elif k in (2, 3) and m > 2:
                ck.eq("not-a-knot ends", sub, arr([pieces[0].d(k, 1), pieces[-1].d(k, 0)]), arr([pieces[1].d(k, 0), pieces[-2].d(k, 1)]), v, rtol=1e-7)
            # extrapolation continues the first and last piece
            ext = [(pieces[0], Fr(-1, 2), br[0] - 0.5 * hs[0]), (pieces[0], Fr(-3), br[0] - 3.0 * hs[0]), (pieces[-1], Fr(3, 2), br[-1] + 0.5 * hs[-1]), (pieces[-1], Fr(4), br[-1] + 3.0 * hs[-1])]
            ck.eq("extrapolation", sub, arr(call([t for _, _, t in ext])), arr([p.d(0, u) for p, u, _ in ext]), v, rtol=1e-7)
            # derivatives
            pts = [(pieces[i], u, br[i] + float(u) * hs[i]) for i in range(m) for u in (Fr(1, 10), Fr(3, 5))] + ext
            for d in range(k + 1):
                ck.eq("derivative", f"{sub}, order {d}", arr(der([t for _, _, t in pts], d)), arr([p.d(d, u) for p, u, _ in pts]), v, rtol=1e-6)
            ck.eq("derivative", f"{sub}, default order", R.a(R.meth(s, "derivative", arr([t for _, _, t in pts]))), arr([p.d(1, u) for p, u, _ in pts]), v, rtol=1e-6)
            # antiderivative: its pieces, their derivative and continuity
            ua = US[: k + 2]
            va = ad([br[i] + float(u) * hs[i] for i in range(m) for u in ua])
            pa = [Piece(ua, va[i * (k + 2):(i + 1) * (k + 2)], hs[i]) for i in range(m)]
            ck.eq("antiderivative", sub + ", derivative", arr([pa[i].d(1, u) for i in range(m) for u in (Fr(1, 10), Fr(3, 5), Fr(9, 10))]),
                  arr([pieces[i].d(0, u) for i in range(m) for u in (Fr(1, 10), Fr(3, 5), Fr(9, 10))]), v, rtol=1e-6)
            if m > 1:
                ck.eq("antiderivative", sub + ", continuous", arr([pa[i].d(0, 1) + 5.0 for i in range(m - 1)]), arr([pa[i + 1].d(0, 0) + 5.0 for i in range(m - 1)]), v, rtol=1e-7)
            ck.eq("antiderivative", sub + ", extrapolation", arr(ad([t for _, _, t in ext])), arr([(pa[0] if p is pieces[0] and u < 0 else pa[-1]).d(0, u) for p, u, _ in ext]), v, rtol=1e-6)
            # definite integrals in all positions and both orders
            pos = [(0, br[0] - 0.4 * hs[0]), (0, br[0] + 0.2 * hs[0]), (m // 2, br[m // 2] + 0.3 * hs[m // 2]), (m - 1, br[m - 1] + 0.7 * hs[m - 1]), (m - 1, br[m] + 0.6 * hs[m - 1])]
            us_ = [Fr(-2, 5), Fr(1, 5), Fr(3, 10), Fr(7, 10), Fr(8, 5)]
            # the exact integral of the pieces, from the pieces themselves
            def primitive(i, u):
                """Integral of piece i from its left end to u, exactly (Gauss points of the cubic)."""
                tot = const(0.0)
                w = [(Fr(0), 1.0), (Fr(1, 2), 4.0), (Fr(1), 1.0)]
                for f, c in w:
                    tot = tot + c * pieces[i].d(0, f * u)
                return tot * (hs[i] * float(u)) / 6.0
            def upto(i, u):
                tot = const(0.0)
                for j in range(i):
                    tot = tot + primitive(j, Fr(1))
                return tot + primitive(i, u)
            got, want = [], []
            for p, (i, t) in enumerate(pos):
                for r, (j, t2) in enumerate(pos):
                    g = R.a(R.meth(s, "integral", Arr(t, "f", 0, "jnp"), Arr(t2, "f", 0, "jnp")))
                    ck.ok("integral", f"{sub}, one number", g.d.size == 1, f"shape {g.shape}")
                    got.append(g.flat()[0] + 7.0)
                    want.append(upto(j, us_[r]) - upto(i, us_[p]) + 7.0)
            ck.eq("integral", sub, arr(got), arr(want), v, rtol=1e-7)
    # many knots, many queries
    def knots(n, k=1):
        R = Run(ck)
        sub = f"k={k}, {n} knots, scaled"
        with ck.case("scaled", sub):
            X, Y = V(f"x{n}_", 0.2, 2.0, n), V("y", -1.0, 1.0, n)
            x, y = X.flat(), Y.flat()
            s = R("scipy.interpolate.InterpolatedUnivariateSpline", X, Y, k=k)
            v = ck.valn(sub)
            ck.eq("passes through the data", sub, R.I.call(s, [X], {}), Y, v, rtol=1e-7)
            if k == 1:
                q = sorted({0, 1, n // 2, n - 3, n - 2} | set(range(0, n - 1, max(1, n // 9))))
                q = [i for i in q if 0 <= i < n - 1]
                t = [x[i] + 0.3 * (x[i + 1] - x[i]) for i in q]
                ck.eq("scaled", sub + ", values", R.I.call(s, [arr(t)], {}), arr([y[i] + 0.3 * (y[i + 1] - y[i]) for i in q]), v, rtol=1e-7)
                ck.eq("scaled", sub + ", slopes", R.meth(s, "derivative", arr(t), 1), arr([(y[i + 1] - y[i]) / (x[i + 1] - x[i]) for i in q]), v, rtol=1e-7)
                cum = [const(0.0)]
                for i in range(n - 1):
                    cum.append(cum[-1] + 0.5 * (y[i] + y[i + 1]) * (x[i + 1] - x[i]))
                g = R.a(R.meth(s, "integral", Arr(x[0], "f", 0, "jnp"), Arr(x[-1], "f", 0, "jnp")))
                ck.eq("scaled", sub + ", integral", arr([g.flat()[0] + 7.0]), arr([cum[-1] + 7.0]), v, rtol=1e-7)
                a = R.a(R.meth(s, "antiderivative", arr([x[i] for i in q])))
                ck.eq("scaled", sub + ", antiderivative", arr([p - a.flat()[0] + 5.0 for p in a.flat()]), arr([cum[i] - cum[q[0]] + 5.0 for i in q]), v, rtol=1e-7)

    def queries(n):
        for k in (1, 2, 3):
            R = Run(ck)
            sub = f"k={k}, {n} queries"
            with ck.case("scaled", sub):
                s = R("scipy.interpolate.InterpolatedUnivariateSpline", V("x", 0.2, 2.0, 5), V("y", -1.0, 1.0, 5), k=k)
                t = V(f"t{n}_", 0.1, 2.2, n)
                for nm, f in (("value", lambda q: R.I.call(s, [q], {})), ("derivative", lambda q: R.meth(s, "derivative", q, 1)), ("antiderivative", lambda q: R.meth(s, "antiderivative", q))):
                    full = R.a(f(t)).flat()
                    for i in sorted({0, n // 2, n - 2, n - 1}):
                        ck.eq("scaled", f"{sub}, {nm} {i}", arr([full[i]]), R.a(f(arr([t.flat()[i]]))), ck.valn(sub))

    ck.steer("knots of linear splines", knots, (4, 6, 9), 300)
    ck.steer("knots of quadratic splines", lambda n: knots(n, 2), (4, 5, 7), 10)
    ck.steer("knots of cubic splines", lambda n: knots(n, 3), (4, 5, 7), 10)
    ck.steer("queries", queries, (3, 5, 8), 600)
    # uneven tables and descending queries
    R = Run(ck)
    for k in (1, 2, 3):
        with ck.case("queries", f"k={k}"):
            X, Y = V("x", 0.2, 2.0, 6), V("y", -1.0, 1.0, 6)
            s = R("scipy.interpolate.InterpolatedUnivariateSpline", X, Y, k=k)
            t = V("t", 0.1, 2.2, 4)
            fwd = R.a(R.I.call(s, [t], {})).flat()
            rev = R.a(R.I.call(s, [Arr(t.d[::-1].copy(), "f", 0, "jnp")], {})).flat()
            ck.eq("queries", f"k={k}, reversed", arr(rev[::-1]), arr(fwd), ck.valn("q"))
            one = [R.a(R.I.call(s, [Arr(q, "f", 0, "jnp")], {})).flat()[0] for q in t.flat()]
            ck.eq("queries", f"k={k}, one by one", arr(one), arr(fwd), ck.valn("q"))

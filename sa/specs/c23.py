"""Invalid or unsupported requests are rejected, never guessed."""
import ast
import os

from .common import *
from .common import _NP
from .c22 import blocks, D_


def strings():
    """Every one-line string written in the library, a candidate for an undocumented option."""
    from ..lib import ROOT
    out = set()
    for d, _, fs in os.walk(os.path.join(ROOT, "jax_cosmo")):
        for f in fs:
            if f.endswith(".py"):
                with open(os.path.join(d, f)) as h:
                    for n in ast.walk(ast.parse(h.read())):
                        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) <= 40 and "\n" not in n.value:
                            out.add(n.value)
    return sorted(out)


OPTIONS = {"transfer": ("eisenhu", "eisenhu_osc"), "prescription": ("smith2003", "takahashi2012"), "method": ("inverse", "cholesky")}


def undocumented(option, words=True):
    """Strings of the library and near misses of the documented ones, and values that are no strings."""
    ok = OPTIONS[option]
    near = [v for s in ok for v in (s.upper(), s.title(), s + " ", " " + s, s[:-1], s + "x", "x" + s, s.replace("_", "-"), s.replace("_", ""), s[:3])]
    words = [w for s in (strings() if words else ()) for w in (s, s.lower(), s.upper())]
    return [w for w in dict.fromkeys(near + words) if w not in ok] + [0, 1, 2, True, False, 2003, 2012, None]


def run(ck):
    k, a = V("k", 0.05, 2.0, 2), V("a", 0.3, 0.9, 2)
    NI = ("NotImplementedError", "ValueError", "KeyError", "TypeError", "AssertionError")
    rej = "rejected"
    for form in ("eager", "traced"):
        R = Run(ck)
        c = R.cosmo()
        tf = R.get("transfer.Eisenstein_Hu")

        def no(sub, thunk, want=None):
            if form == "traced":
                ck.raises(rej, sub + ", traced", lambda: R.traced(thunk), want)
            else:
                ck.raises(rej, sub, thunk, want)

        for ty in ("", "bbks", "eisenhu_", "Eisenhu", "EISENHU", "eisenhu_osc2", "boltzmann", None):
            no(f"transfer type {ty!r}", lambda: R("transfer.Eisenstein_Hu", c, k, type=ty))
            no(f"linear power with transfer type {ty!r}", lambda: R("power.linear_matter_power", c, k, a, type=ty))
        for w in undocumented("transfer", form == "eager"):
            no(f"transfer type {w!r}", lambda: R("transfer.Eisenstein_Hu", c, k, type=w))
        for w in undocumented("prescription", form == "eager"):
            no(f"halofit prescription {w!r}", lambda: R("power.halofit", c, k, a, tf, prescription=w))
        for pr in ("", "smith", "takahashi", "Takahashi2012", "mead2015", "smith2012", None):
            no(f"halofit prescription {pr!r}", lambda: R("power.halofit", c, k, a, tf, prescription=pr))
        d, mu, C = V("d", -1., 1., 3), V("mu", -1., 1., 3), mat("C", 3, spd=True)
        for w in undocumented("method", form == "eager"):
            no(f"inverse method {w!r}", lambda: R("likelihood.gaussian_log_likelihood", d, mu, C, True, w))
        for m in ("", "inv", "lu", "Cholesky", "INVERSE", "cholesky ", None):
            for ld in (True, False):
                no(f"inverse method {m!r}, logdet={ld}", lambda: R("likelihood.gaussian_log_likelihood", d, mu, C, ld, m))
        f = NF("f", lambda I, a, kw: I.binop("mul", a[0], a[0]))
        for n in range(-5, 1030, 2 if form == "eager" else 34):
            no(f"Simpson rule with {n} panels", lambda: R("scipy.integrate.simps", f, 0.0, 1.0, n))
        for n in (1, 3, 5, 7, 127, 129, 255, 257, 511, 9999, 100001):
            no(f"Simpson rule with {n} panels", lambda: R("scipy.integrate.simps", f, 0.0, 1.0, n))
            no(f"Simpson rule with N={n} panels", lambda: R("scipy.integrate.simps", f, P("lo", 0., .4), P("hi", 1., 2.), N=n))
            for bn, lo, hi in (("whole", 0, 1), ("array scalar", J("lo", 0., .4), J("hi", 1., 2.)), ("lower array", J("lo", 0., .4), 1.0), ("upper array", 0.0, J("hi", 1., 2.)),
                               ("vector", V("lo", 0., .4), V("hi", 1., 2.)), ("upper vector", 0.0, V("hi", 1., 2.)), ("numpy", Arr(sym("lo", 0., .4), "f", 0, "np"), Arr(sym("hi", 1., 2.), "f", 0, "np"))):
                no(f"Simpson rule with {n} panels, {bn} limits", lambda: R("scipy.integrate.simps", f, lo, hi, n))
        S = "scipy.interpolate.InterpolatedUnivariateSpline"
        for kk in (-1, 0, 4, 5, 7):
            for n in (5, 8):
                no(f"spline of order {kk} through {n} points", lambda: R(S, V("x", 0., 1., n), V("y", 0., 1., n), k=kk))
        for kk in (1, 2, 3):
            for n in range(1, kk + 1):
                for e in ("not-a-knot", "natural"):
                    no(f"spline of order {kk} through {n} points, {e}", lambda: R(S, V("x", 0., 1., n), V("y", 0., 1., n), k=kk, endpoints=e))
            for n, m in [(n, m) for n in range(1, 8) for m in range(1, 8) if n != m and (form == "eager" or ck.thorough or abs(n - m) < 2)]:
                no(f"spline of order {kk} through {n} abscissae and {m} ordinates", lambda: R(S, V("x", 0., 1., n), V("y", 0., 1., m), k=kk))
            no(f"spline of order {kk} through matrices", lambda: R(S, mat("x", 5, 2), mat("y", 5, 2), k=kk))
            no(f"spline of order {kk} through matrix ordinates", lambda: R(S, V("x", 0., 1., 5), mat("y", 5, 2), k=kk))
            for n in (-1, kk + 1, kk + 2):
                no(f"derivative {n} of a spline of order {kk}", lambda: R.meth(R(S, V("x", 0., 1., 5), V("y", 0., 1., 5), k=kk), "derivative", V("t", 0.2, 0.8, 2), n))
        no("natural quadratic spline", lambda: R(S, V("x", 0., 1., 5), V("y", 0., 1., 5), k=2, endpoints="natural"))
        # delta distributions have no clustering or alignment kernel
        pl = _NP(Num())
        z, ell = V("z", 0.25, 1.4, 2), P("ell", 20., 900.)
        for name, bins in (("delta", lambda: [delta(R, pl)]), ("delta first", lambda: [delta(R, pl), smail(R, pl)]), ("delta last", lambda: [smail(R, pl), delta(R, pl)]),
                           ("delta between", lambda: [smail(R, pl), delta(R, pl), smail(R, pl, "o")]), ("two deltas", lambda: [delta(R, pl), delta(R, pl, "o")])):
            n = len(bins())
            for bn, b in (("one bias", lambda: cb(R, pl)), ("bias per bin", lambda: [cb(R, pl, f"b{i}") for i in range(n)])):
                no(f"clustering kernel, {name}, {bn}", lambda: R("probes.density_kernel", c, bins(), b(), z, ell))
                no(f"clustering probe, {name}, {bn}", lambda: R.meth(R(NC, bins(), b()), "kernel", c, z, ell))
                no(f"alignment kernel, {name}, {bn}", lambda: R("probes.nla_kernel", c, bins(), b(), z, ell))
                no(f"aligned shear probe, {name}, {bn}", lambda: R.meth(R(WL, bins(), ia_bias=b()), "kernel", c, z, ell))
            l2 = V("l2", 20., 90., 2)
            no(f"clustering spectra, {name}", lambda: R("angular_cl.angular_cl", c, l2, [R(NC, bins(), cb(R, pl))], nonlinear_fn=opaque_pk()))
            no(f"spectra with shear, {name}", lambda: R("angular_cl.angular_cl", c, l2, [R(WL, [smail(R, pl)]), R(NC, bins(), cb(R, pl))], nonlinear_fn=opaque_pk()))
        # block matrices
        VE = ("ValueError", "TypeError", "AssertionError", "NotImplementedError")
        for n, x in (("a scalar", P("x")), ("a vector", V("x", 0., 1., 3)), ("a matrix", mat("x", 3)), ("a 4D array", Arr(mat("x", 4, 4).d.reshape(2, 2, 2, 2), "f", 0, "jnp"))):
            for g in ("to_dense", "inv", "slogdet", "det", "check_sparse"):
                no(f"{g} of {n}", lambda: R("sparse." + g, x))
        for sh in ((1, 2, 2), (2, 1, 2), (2, 3, 1), (3, 2, 2), (1, 3, 3)):
            for g in ("inv", "slogdet", "det"):
                no(f"{g} of {sh[0]}x{sh[1]} blocks of {sh[2]}", lambda: R("sparse." + g, blocks("B", *sh)))
            no(f"square check of {sh}", lambda: R("sparse.check_sparse", blocks("B", *sh), square=True))
        B = lambda *s: blocks("B", *s)
        D3 = Arr(mat("x", 4, 4).d.reshape(2, 2, 2, 2), "f", 0, "jnp")
        prods = [
            ("no operand", []), ("one operand", [B(2, 2, 2)]), ("four operands", [D_("x", 2, 4), B(2, 2, 2), B(2, 2, 2), D_("y", 4, 2)]),
            ("five operands", [B(2, 2, 2)] * 5),
            ("sparse, short vector", [B(2, 3, 2), D_("x", 5)]), ("sparse, long vector", [B(2, 3, 2), D_("x", 7)]), ("sparse, vector of the rows", [B(2, 3, 2), D_("x", 4)]),
            ("sparse, vector of the blocks", [B(2, 3, 2), D_("x", 3)]),
            ("vector of the columns, sparse", [D_("x", 6), B(2, 3, 2)]), ("short vector, sparse", [D_("x", 3), B(2, 3, 2)]), ("vector of the blocks, sparse", [D_("x", 2), B(2, 3, 2)]),
            ("sparse, dense with other rows", [B(2, 3, 2), D_("x", 4, 6)]), ("sparse, transposed dense", [B(2, 3, 2), D_("x", 2, 6)]),
            ("dense with other columns, sparse", [D_("x", 4, 6), B(2, 3, 2)]), ("transposed dense, sparse", [D_("x", 4, 3), B(2, 3, 2)]),
            ("sparse, sparse of other rows", [B(2, 3, 2), B(2, 3, 2)]), ("sparse, sparse of one row", [B(2, 3, 2), B(1, 3, 2)]), ("sparse of one column, sparse", [B(2, 1, 2), B(3, 2, 2)]),
            ("sparse, sparse of other block size", [B(1, 2, 3), B(3, 1, 2)]), ("sparse, sparse of other block size, equal inner size", [B(1, 1, 2), B(2, 1, 1)]),
            ("sparse, sparse of unit block size, equal inner size", [B(2, 2, 1), B(1, 2, 2)]), ("sparse, sparse of unit block size", [B(2, 2, 2), B(4, 2, 1)]),
            ("sparse, scalar", [B(2, 2, 2), P("x")]), ("scalar, sparse", [P("x"), B(2, 2, 2)]), ("sparse, 4D", [B(2, 2, 2), D3]), ("4D, sparse", [D3, B(2, 2, 2)]),
            ("vector, sparse, vector", [D_("x", 4), B(2, 2, 2), D_("y", 4)]), ("dense, sparse, vector", [D_("x", 2, 4), B(2, 2, 2), D_("y", 4)]),
            ("vector, sparse, dense", [D_("x", 4), B(2, 2, 2), D_("y", 4, 2)]),
            ("sparse, dense, sparse", [B(2, 2, 2), D_("x", 4, 4), B(2, 2, 2)]), ("dense, dense, dense", [D_("x", 4, 4)] * 3), ("sparse, sparse, sparse", [B(2, 2, 2)] * 3),
            ("dense, dense, sparse", [D_("x", 4, 4), D_("y", 4, 4), B(2, 2, 2)]), ("sparse, sparse, dense", [B(2, 2, 2), B(2, 2, 2), D_("x", 4, 4)]),
            ("dense of other columns, sparse, dense", [D_("x", 2, 6), B(2, 3, 2), D_("y", 6, 2)]), ("dense, sparse, dense of other rows", [D_("x", 2, 4), B(2, 3, 2), D_("y", 4, 2)]),
            ("dense, sparse, short dense", [D_("x", 2, 4), B(2, 3, 2), D_("y", 3, 2)]), ("short dense, sparse, dense", [D_("x", 2, 2), B(2, 3, 2), D_("y", 6, 2)]),
            ("vector, vector", [D_("x", 4), D_("y", 4)]), ("dense, vector", [D_("x", 3, 4), D_("y", 4)]),
        ]
        for n, ops in prods:
            no(f"product of {n}", lambda: R("sparse.dot", *ops))
        # lengths that cannot belong together
        for m in ("inverse", "cholesky"):
            no(f"likelihood of mismatched shapes, {m}", lambda: R("likelihood.gaussian_log_likelihood", V("d", -1., 1., 4), V("mu", -1., 1., 4), mat("C", 3, spd=True), True, m), None)
            no(f"likelihood of a non-square covariance, {m}", lambda: R("likelihood.gaussian_log_likelihood", V("d", -1., 1., 3), V("mu", -1., 1., 3), mat("C", 3, 4), True, m), None)
    # valid requests are accepted
    R = Run(ck)
    for c in catalogue(R, Num(), ck.thorough):
        with ck.case("accepted", c.name):
            c.run(R)
            ck.ok("accepted", c.name, True)
    R = Run(ck)
    for n in (2, 4, 6, 8, 10, 128, 256):
        with ck.case("accepted", f"Simpson rule with {n} panels"):
            R("scipy.integrate.simps", NF("f", lambda I, a, kw: I.binop("mul", a[0], a[0])), 0.0, 1.0, n)
            ck.ok("accepted", f"Simpson rule with {n} panels", True)
    for kk in (1, 2, 3):
        for n in range(kk + 1, 8):
            for e in ("not-a-knot", "natural"):
                if kk == 2 and e == "natural":
                    continue
                if kk == 3 and n == 4 and False:
                    continue
                with ck.case("accepted", f"spline of order {kk} through {n} points, {e}"):
                    s = R("scipy.interpolate.InterpolatedUnivariateSpline", V("x", 0., 1., n), V("y", 0., 1., n), k=kk, endpoints=e)
                    R.I.call(s, [V("t", 0.2, 0.8, 2)], {})
                    for d in range(kk + 1):
                        R.meth(s, "derivative", V("t", 0.2, 0.8, 2), d)
                    ck.ok("accepted", f"spline of order {kk} through {n} points, {e}", True)

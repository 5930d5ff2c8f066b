"""Contracts used at the callers of the numerical kernels.

The kernels themselves are analysed without summaries (C26-C29).  At callers
 * a quadrature of f over [a, b] is the symmetric two point rule
   (b - a)/2 * (f(a + (1/2 - d)(b - a)) + f(a + (1/2 + d)(b - a))),  d symbolic:
   equal terms <=> same integrand, same bounds, same sign;
 * an ODE solution at table entry i is y0 + (t_i - t_0)/2 * sum_s f(Y_si, t_si),
   Y_si uninterpreted, for the first, middle and last entry;
 * a table lookup is the piecewise linear interpolant of the first, middle and
   last table entry.
"""
import numpy as np

from . import terms as T
from .terms import Term, const, mk, sym
from .values import *
from .values import fmt
from . import models as M

DELTA = ("quad.delta", 0.15, 0.4)


def xis():
    d = sym(*DELTA)
    h = const(0.5)
    return [mk("sub", h, d), mk("add", h, d)]


def _afunc(f):
    g = f
    while isinstance(g, (Jit, Vmap, Partial)):
        g = g.fn
    return g if isinstance(g, AFunc) else None


def _bind(I, orig, names, args, kw):
    """Values for the first len(names) positional parameters of orig."""
    f = _afunc(orig)
    if f is None:
        return None
    b = I.bind_args(f, args, kw)
    params = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
    out = {}
    for i, n in enumerate(names):
        if n in params:
            out[n] = b[n]
        elif i < len(params) and i < 3:
            out[n] = b[params[i]]
        else:
            return None
    return out


def _log(I, **kw):
    I.sum_log.append(dict(loc=I.cur, caller=I.stack[-1][0] if I.stack else "?", **kw))


def _quad(I, name, f, a, b, n, jit):
    A, B = I.arr(a), I.arr(b)
    width = I.binop("sub", b, a)
    nodes = [I.binop("add", a, I.binop("mul", Arr(x, "f", 0, "jnp"), width)) for x in xis()]
    nodes = [I.arr(x) for x in nodes]
    lvl = max([x.lvl for x in nodes] + [I.jit_level])
    d = np.stack([oa(x.d) for x in nodes]) if nodes[0].ndim else M._stack0([x.d for x in nodes])
    X = Arr(d, "f", lvl, "jnp")
    if jit:
        ys = []
        for x in nodes:
            x = Arr(x.d, "f", max(x.lvl, I.jit_level), "jnp")
            ys.append(I.arr(M.call_jit(I, Jit(f), [x], {})))
        y0, y1 = ys
        if name == "romb" and (y0.ndim > 0):
            return None
    else:
        Y = I.arr(I.call(f, [X]))
        if Y.ndim == 0 or Y.shape[0] != 2:
            # integrand does not follow the node axis: f constant over the nodes is a
            # genuine shape error of the original rule (y[0:-1:2] of a scalar)
            I.raise_("IndexError", f"integrand of {name} does not return one value per node")
        y0 = Arr(oa(Y.d[0]), Y.dt, Y.lvl, Y.kind)
        y1 = Arr(oa(Y.d[1]), Y.dt, Y.lvl, Y.kind)
    s = I.binop("mul", 0.5, I.binop("add", y0, y1))
    r = I.arr(I.binop("mul", width, s))
    _log(I, kind=name, a=A, b=B, n=n, nodes=nodes, vals=(y0, y1))
    return M.result(I, r.d, "f", [r, X], "jnp")


def simps(I, summ, args, kw):
    b = _bind(I, summ.orig, ["f", "a", "b", "N"], args, kw)
    if b is None:
        return I.call(summ.orig, args, kw)
    n = b["N"]
    if not isinstance(n, int) or n <= 0 or n % 2 == 1:
        return I.call(summ.orig, args, kw)
    return _quad(I, "simps", b["f"], b["a"], b["b"], n, False)


def romb(I, summ, args, kw):
    b = _bind(I, summ.orig, ["function", "a", "b", "args", "divmax", "return_error"], args, kw)
    if b is None or b["return_error"] is not False or not isinstance(b["divmax"], int) or b["divmax"] < 1:
        return I.call(summ.orig, args, kw)
    extra = list(I.iterate(b["args"]))
    fn = b["function"]
    if extra:
        fn = NF("romb-integrand", lambda I2, a, k: I2.call(b["function"], list(a) + extra, k))
    r = _quad(I, "romb", fn, b["a"], b["b"], 2 ** b["divmax"], True)
    if r is None:
        return I.call(summ.orig, args, kw)
    return r


def odeint(I, summ, args, kw):
    b = _bind(I, summ.orig, ["fn", "y0", "t"], args, kw)
    if b is None:
        return I.call(summ.orig, args, kw)
    fn, y0, t = b["fn"], I.arr(b["y0"]), I.arr(b["t"])
    if t.ndim != 1 or t.shape[0] < 2:
        return I.call(summ.orig, args, kw)
    n = t.shape[0]
    want = range(n) if n <= 4 else (0, n // 2, n - 1)
    tag = f"ode{len([e for e in I.sum_log if e['kind'] == 'odeint'])}"
    out = []
    derivs = {}
    with M.Staged(I, [y0, t]) as S:
        t0 = t.d[0]
        for i in range(n):
            if i == 0:
                out.append(y0.d)
            elif i in want:
                h = mk("sub", t.d[i], t0)
                acc = None
                derivs[i] = []
                for s, x in enumerate(xis()):
                    ts = Arr(mk("add", t0, mk("mul", x, h)), "f", S.lvl, "jnp")
                    Y = np.empty(y0.shape, object)
                    for idx in np.ndindex(*y0.shape):
                        Y[idx] = sym(f"Y[{'.'.join(map(str, idx))}]@{s}.{['first', 'mid', 'last'][list(want).index(i)] if n > 4 else i}", 0.3, 1.2)
                    Ya = Arr(Y, "f", S.lvl, "jnp")
                    dy = I.arr(I.call(fn, [Ya, ts]))
                    if dy.shape != y0.shape:
                        I.raise_("TypeError", f"odeint derivative shape {dy.shape} for state {y0.shape}")
                    derivs[i].append((Ya, ts, dy))
                    acc = dy.d if acc is None else acc + dy.d
                out.append(oa(y0.d + oa(oa(acc) * mk("mul", const(0.5), h))))
            else:
                o = np.empty(y0.shape, object)
                for idx in np.ndindex(*y0.shape):
                    o[idx] = T.opaque(f"{tag}[{i},{idx}]")
                out.append(o)
    d = np.stack([oa(x) for x in out]) if y0.ndim else M._stack0([oa(x) for x in out])
    _log(I, kind="odeint", y0=y0, t=t, n=n, derivs=derivs)
    return Arr(d, "f", S.outer, "jnp")


def _lerp(x, x0, y0, x1, y1):
    a = mk("div", mk("sub", y1, y0), mk("sub", x1, x0))
    return mk("add", y0, mk("mul", a, mk("sub", x, x0)))


def full_interp(I, x, xp, fp, clampends=False):
    """Piecewise linear interpolant through all given nodes."""
    n = len(xp)
    if n == 1:
        return fp[0]
    up = mk("sub", xp[-1], xp[0])
    r = _lerp(x, xp[0], fp[0], xp[1], fp[1])
    for i in range(1, n - 1):
        c = mk("gt", mk("mul", mk("sub", x, xp[i]), up), const(0.0))
        r = mk("select", c, _lerp(x, xp[i], fp[i], xp[i + 1], fp[i + 1]), r)
    if clampends:
        r = mk("select", mk("lt", x, xp[0]), fp[0], mk("select", mk("gt", x, xp[-1]), fp[-1], r))
    return r


def coarse_nodes(n):
    return list(range(n)) if n <= 4 else [0, n // 2, n - 1]


def _unresolved(t, memo):
    """Does the term depend on a state the coarse integration leaves out?"""
    todo = [t]
    while todo:
        x = todo.pop()
        if id(x) in memo:
            continue
        memo.add(id(x))
        if x.op == "opaque" and str(x.attr).startswith("ode"):
            return True
        todo.extend(a for a in x.args if hasattr(a, "op"))
    return False


def table_nodes(xp, fp):
    """coarse_nodes, of the mirror image when the table is read backwards."""
    n = len(xp)
    k = coarse_nodes(n)
    if n > 4 and n % 2 == 0:
        j = n - 1 - k[1]
        def bad(i):
            return any(_unresolved(v[i], set()) for v in (xp, fp))
        ends = [x.attr for x in (xp[0], xp[-1]) if x.op == "const"]
        if (bad(k[1]) and not bad(j)) or (len(ends) == 2 and ends[0] > ends[1] and not bad(j)):
            k = [0, j, n - 1]
    return k


def coarse_interp(I, x, xp, fp, clampends=False):
    k = table_nodes(xp, fp)
    return full_interp(I, x, [xp[i] for i in k], [fp[i] for i in k], clampends)


def interp(I, summ, args, kw):
    b = _bind(I, summ.orig, ["x", "xp", "fp"], args, kw)
    if b is None:
        return I.call(summ.orig, args, kw)
    x, xp, fp = I.arr(b["x"]), I.arr(b["xp"]), I.arr(b["fp"])
    if x.ndim != 1 or xp.ndim != 1 or fp.shape != xp.shape or xp.shape[0] <= 4:
        return I.call(summ.orig, args, kw)
    xs, fs = list(xp.d), list(fp.d)
    d = np.empty(x.shape, object)
    for i in range(x.shape[0]):
        d[i] = coarse_interp(I, x.d[i], xs, fs)
    k = table_nodes(xs, fs)
    _log(I, kind="interp", x=x, xp=[xs[i] for i in k], fp=[fs[i] for i in k], n=len(xs))
    return M.result(I, d, "f", [x, xp, fp], "jnp")


TABLE = {
    "jax_cosmo.scipy.integrate": {"simps": simps, "romb": romb},
    "jax_cosmo.scipy.ode": {"odeint": odeint},
    "jax_cosmo.scipy.interpolate": {"interp": interp},
}


def install_summaries(I, m):
    for n, f in TABLE.get(m.name, {}).items():
        if n in m.ns and _afunc(m.ns[n]) is not None:
            m.ns[n] = Summary(n, m.ns[n], f)

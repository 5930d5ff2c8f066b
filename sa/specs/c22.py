"""Sparse linear algebra agrees with the dense matrices it represents."""
import itertools

from .common import *
from .oracle import *
from ..terms import matterm


def blocks(name, a, b, q, spd=False, kind="jnp", lo=0.5, hi=2.0):
    """Sparse matrix of free entries (spd: each multipole symmetric and dominant)."""
    d = np.empty((a, b, q), object)
    for i, j, t in np.ndindex(a, b, q):
        if spd:
            d[i, j, t] = sym(f"{name}{min(i, j)}_{max(i, j)}_{t}", *((3.0 + a, 4.0 + a) if i == j else (-1.0, 1.0)))
        else:
            d[i, j, t] = sym(f"{name}{i}_{j}_{t}", *((lo, hi) if (i + 2 * j + t) % 3 else (-hi, -lo)))
    return Arr(d, "f", 0, kind)


def dense_of(S):
    a, b, q = S.shape
    out = np.full((a * q, b * q), const(0.0), object)
    for i, j, t in np.ndindex(a, b, q):
        out[i * q + t, j * q + t] = S.d[i, j, t]
    return out


def sparse_of(D, a, b, q):
    out = np.empty((a, b, q), object)
    for i, j, t in np.ndindex(a, b, q):
        out[i, j, t] = D[i * q + t, j * q + t]
    return out


def mm(A, B):
    """Matrix product of object arrays of any rank 1-2."""
    A2 = A if A.ndim == 2 else A[None, :]
    B2 = B if B.ndim == 2 else B[:, None]
    out = np.empty((A2.shape[0], B2.shape[1]), object)
    for i in range(A2.shape[0]):
        for j in range(B2.shape[1]):
            s = const(0.0)
            for k in range(A2.shape[1]):
                s = s + A2[i, k] * B2[k, j]
            out[i, j] = s
    if A.ndim == 1:
        out = out[0]
    if B.ndim == 1:
        out = out[..., 0]
    return out


def D_(name, n, m=None, kind="jnp"):
    if m is None:
        return V(name, -1.0, 1.0, n, kind=kind)
    return Arr(mat(name, n, m, -1.0, 1.0).d, "f", 0, kind)


def shapes(thorough):
    base = [(1, 1, 1), (1, 1, 3), (1, 2, 2), (2, 1, 2), (2, 3, 1), (3, 2, 2), (2, 2, 2), (2, 2, 3), (1, 3, 2), (3, 1, 3), (3, 3, 2)]
    if thorough:
        base = list(itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3)))
    return base


def run(ck):
    for a, b, q in shapes(ck.thorough):
        for kind in ("jnp", "np", "list"):
            R = Run(ck)
            sub = f"{a}x{b} blocks of {q}, {kind}"
            v = ck.valn(f"{a}{b}{q}")
            S0 = blocks("S", a, b, q)
            as_ = (lambda x: [[[arr(t) for t in r] for r in p] for p in x.d]) if kind == "list" else (lambda x: Arr(x.d, "f", 0, kind))
            ad = (lambda x: Arr(x.d, "f", 0, "np")) if kind == "np" else (lambda x: x)
            S = as_(S0)
            W = dense_of(S0)

            def chk(name, thunk, want, direct=True):
                with ck.case(name, sub):
                    ck.eq(name, sub, R.a(thunk()), arr(want), v)

            if kind != "list":
                chk("is_sparse", lambda: 1.0 if R.I.truth_native(R("sparse.is_sparse", S)) else 0.0, const(1.0))
            chk("to_dense", lambda: R("sparse.to_dense", S), W)
            x, y = D_("x", b * q), D_("y", a * q)
            chk("dot(sparse, vector)", lambda: R("sparse.dot", S, ad(x)), mm(W, x.d))
            chk("dot(vector, sparse)", lambda: R("sparse.dot", ad(y), S), mm(y.d, W))
            for n in (1, 2, 3):
                X, Y = D_("X", b * q, n), D_("Y", n, a * q)
                chk(f"dot(sparse, {n} columns)", lambda: R("sparse.dot", S, ad(X)), mm(W, X.d))
                chk(f"dot({n} rows, sparse)", lambda: R("sparse.dot", ad(Y), S), mm(Y.d, W))
                if kind == "jnp":
                    chk(f"sparse_dot_dense, {n} columns", lambda: R("sparse.sparse_dot_dense", S, X), mm(W, X.d))
                    chk(f"dense_dot_sparse, {n} rows", lambda: R("sparse.dense_dot_sparse", Y, S), mm(Y.d, W))
                if kind != "list":
                    for m in (1, 2):
                        Z = D_("Z", m, a * q)
                        want = mm(mm(Z.d, W), X.d)
                        chk(f"dot({m} rows, sparse, {n} columns)", lambda: R("sparse.dot", ad(Z), S, ad(X)), want)
                        if kind == "jnp":
                            chk(f"dense_dot_sparse_dot_dense, {m} rows, {n} columns", lambda: R("sparse.dense_dot_sparse_dot_dense", Z, S, X), want)
            if kind == "jnp":
                chk("sparse_dot_vec", lambda: R("sparse.sparse_dot_vec", S, x), mm(W, x.d))
                chk("vec_dot_sparse", lambda: R("sparse.vec_dot_sparse", y, S), mm(y.d, W))
            for c in (1, 2, 3):
                E = blocks("E", b, c, q)
                want = sparse_of(mm(W, dense_of(E)), a, c, q)
                chk(f"dot(sparse, sparse with {c} columns)", lambda: R("sparse.dot", S, as_(E)), want)
                if kind == "jnp":
                    chk(f"sparse_dot_sparse, {c} columns", lambda: R("sparse.sparse_dot_sparse", S, E), want)
            if kind != "list":
                with ck.case("check_sparse", sub):
                    ck.eq("check_sparse", sub, R.a(R("sparse.check_sparse", S)), S0, v)
    sq = [(n, q) for n in (1, 2, 3, 4) for q in (1, 2, 3)]
    if ck.thorough:
        sq += [(5, 1), (5, 2), (4, 4)]
    for n, q in sq:
        for form in ("general", "symmetric"):
            R = Run(ck)
            S = blocks("S", n, n, q, spd=form == "symmetric")
            W = dense_of(S)
            N = n * q
            ts = list(W.reshape(-1))
            sub = f"{n}x{n} blocks of {q}, {form}"
            v = ck.valn(sub, K=8 if form == "general" else None)
            with ck.case("inverse", sub):
                I = R.a(R("sparse.inv", S))
                inv = np.empty((N, N), object)
                for i in range(N):
                    for j in range(N):
                        inv[i, j] = matterm("inv", ts, N, i, j) if N > 1 else 1.0 / ts[0]
                ck.eq("inverse", sub, I, arr(sparse_of(inv, n, n, q)), v, rtol=1e-8)
                if I.shape == (n, n, q):
                    one = mm(W, dense_of(I))
                    ck.eq("inverse times matrix", sub, arr([[one[i, j] + 1.0 for j in range(N)] for i in range(N)]),
                          arr([[const(2.0 if i == j else 1.0) for j in range(N)] for i in range(N)]), v, rtol=1e-8)
            det = matterm("det", ts, N) if N > 1 else ts[0]
            with ck.case("log-determinant", sub):
                r = R("sparse.slogdet", S)
                ck.ok("log-determinant", sub + ", pair", isinstance(r, tuple) and len(r) == 2, f"{brief(r)}")
                s, ld = r
                ck.eq("log-determinant", sub, R.a(ld), arr(log(abs_(det))), v, rtol=1e-8)
                ck.eq("determinant sign", sub, R.a(s), arr(mk("sign", det)), v)
            with ck.case("determinant", sub):
                ck.eq("determinant", sub, R.a(R("sparse.det", S)), arr(det), v, rtol=1e-8)
            for kind in ("np", "list"):
                T2 = Arr(S.d, "f", 0, "np") if kind == "np" else [[[arr(t) for t in r] for r in p] for p in S.d]
                with ck.case("host matrices", f"{sub}, {kind}"):
                    ck.same("host matrices", f"inv, {sub}, {kind}", R("sparse.inv", T2), R("sparse.inv", S), v)
                    ck.same("host matrices", f"slogdet, {sub}, {kind}", R("sparse.slogdet", T2), R("sparse.slogdet", S), v)
                    ck.same("host matrices", f"det, {sub}, {kind}", R("sparse.det", T2), R("sparse.det", S), v)
    # every extent, scaled
    def prods(a, b, q, x, y):
        R = Run(ck)
        sub = f"{a}x{b} blocks of {q}, {x} columns, {y} rows"
        v = ck.valn(sub)
        S = blocks("S", a, b, q)
        W = dense_of(S)
        with ck.case("scaled", sub):
            ck.eq("scaled", sub + ", to_dense", R("sparse.to_dense", S), arr(W), v)
            u, w = D_("x", b * q), D_("y", a * q)
            ck.eq("scaled", sub + ", dot(sparse, vector)", R("sparse.dot", S, u), arr(mm(W, u.d)), v)
            ck.eq("scaled", sub + ", dot(vector, sparse)", R("sparse.dot", w, S), arr(mm(w.d, W)), v)
            X, Y = D_("X", b * q, x), D_("Y", y, a * q)
            ck.eq("scaled", sub + ", dot(sparse, dense)", R("sparse.dot", S, X), arr(mm(W, X.d)), v)
            ck.eq("scaled", sub + ", dot(dense, sparse)", R("sparse.dot", Y, S), arr(mm(Y.d, W)), v)
            ck.eq("scaled", sub + ", dot(dense, sparse, dense)", R("sparse.dot", Y, S, X), arr(mm(mm(Y.d, W), X.d)), v)
            E = blocks("E", b, x, q)
            ck.eq("scaled", sub + ", dot(sparse, sparse)", R("sparse.dot", S, E), arr(sparse_of(mm(W, dense_of(E)), a, x, q)), v)

    for axis, f, upto in (("block rows", lambda n: prods(n, 2, 2, 2, 2), 40), ("block columns", lambda n: prods(2, n, 2, 2, 2), 40), ("block size", lambda n: prods(2, 2, n, 2, 2), 40),
                          ("dense columns", lambda n: prods(2, 2, 2, n, 2), 80), ("dense rows", lambda n: prods(2, 2, 2, 2, n), 80), ("all extents", lambda n: prods(n, n, n, n, n), 10)):
        ck.steer(axis, f, (3, 4, 6) if axis != "all extents" else (2, 3, 4), upto)

    def square(n, q):
        R = Run(ck)
        S = blocks("S", n, n, q, spd=True)
        W = dense_of(S)
        N, ts = n * q, list(W.reshape(-1))
        sub = f"{n}x{n} blocks of {q}, scaled"
        v = ck.valn(sub)
        with ck.case("scaled", sub):
            inv = np.array([[matterm("inv", ts, N, i, j) for j in range(N)] for i in range(N)], object)
            ck.eq("scaled", sub + ", inverse", R.a(R("sparse.inv", S)), arr(sparse_of(inv, n, n, q)), v, rtol=1e-7)
            s, ld = R("sparse.slogdet", S)
            det = matterm("det", ts, N)
            ck.eq("scaled", sub + ", log-determinant", R.a(ld), arr(matterm("logdet", ts, N)), v, rtol=1e-7)
            ck.eq("scaled", sub + ", sign", R.a(s), arr(mk("sign", det)), v)
            ck.eq("scaled", sub + ", determinant", R.a(R("sparse.det", S)), arr(det), v, rtol=1e-7)

    ck.steer("square blocks", lambda n: square(n, 2), (2, 3, 4), 9)
    ck.steer("square block size", lambda n: square(2, n), (2, 3, 4), 16)
    # log-determinants of matrices whose determinant is not a floating-point number
    for n, q, scales in ((1, 4, (1e-90, 1e90)), (2, 2, (1e-100, 1e100)), (3, 2, (1e-70, 1e70)), (2, 3, (1e-70, 1e70)), (5, 1, (1e-80, 1e80))):
        for sc in scales:
            for form in ("general", "symmetric"):
                R = Run(ck)
                sub = f"{n}x{n} blocks of {q}, {form}, entries of order {sc:g}"
                with ck.case("any magnitude", sub):
                    S = Arr(blocks("S", n, n, q, spd=form == "symmetric").d * const(sc), "f", 0, "jnp")
                    W = list(dense_of(S).reshape(-1))
                    s, ld = R("sparse.slogdet", S)
                    v = ck.valn(sub)
                    ck.representable("any magnitude", sub, R.a(ld), arr(matterm("logdet", W, n * q)), v)
                    ck.representable("any magnitude", sub + ", sign", R.a(s), arr(mk("sign", matterm("det", W, n * q))), v)
    # inverses, determinants and products of small and large entries (spectra of order 1e-9, say)
    for n, q in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 2)):
        for sc in (1e-18, 1e-14, 1e-10, 1e-6, 1e6, 1e10, 1e14):
            R = Run(ck)
            N = n * q
            sub = f"{n}x{n} blocks of {q}, entries of order {sc:g}"
            with ck.case("any magnitude", sub):
                S = Arr(blocks("S", n, n, q, spd=True).d * const(sc), "f", 0, "jnp")
                D = dense_of(S)
                W = list(D.reshape(-1))
                v = ck.valn(sub)
                inv = np.array([[matterm("inv", W, N, i, j) if N > 1 else 1.0 / W[0] for j in range(N)] for i in range(N)], object)
                ck.representable("any magnitude", sub + ", inverse", R.a(R("sparse.inv", S)), arr(sparse_of(inv, n, n, q)), v)
                s, ld = R("sparse.slogdet", S)
                ck.representable("any magnitude", sub + ", log-determinant", R.a(ld), arr(matterm("logdet", W, N) if N > 1 else log(abs_(W[0]))), v)
                det = matterm("det", W, N) if N > 1 else W[0]
                ck.representable("any magnitude", sub + ", determinant", R.a(R("sparse.det", S)), arr(det), v)
                ck.representable("any magnitude", sub + ", sign", R.a(s), arr(mk("sign", det)), v)
                x = D_("x", N)
                ck.representable("any magnitude", sub + ", product", R.a(R("sparse.dot", S, x)), arr(mm(D, x.d)), v)
                ck.representable("any magnitude", sub + ", product with itself", R.a(R("sparse.dot", S, S)), arr(sparse_of(mm(D, D), n, n, q)), v)
    # singular leading or trailing blocks of regular matrices
    for name, z in (("trailing", (-1, -1)), ("leading", (0, 0))):
        for n, q in ((2, 1), (2, 2), (3, 2)):
            R = Run(ck)
            sub = f"{n}x{n} blocks of {q}, {name} block zero"
            with ck.case("log-determinant", sub):
                S = blocks("S", n, n, q)
                for t in range(q):
                    S.d[z[0], z[1], t] = const(0.0)
                W = dense_of(S)
                det = matterm("det", list(W.reshape(-1)), n * q)
                v = ck.valn(sub)
                s, ld = R("sparse.slogdet", S)
                ck.eq("log-determinant", sub, R.a(ld), arr(log(abs_(det))), v, rtol=1e-8)
                ck.eq("determinant sign", sub, R.a(s), arr(mk("sign", det)), v)
                ck.eq("determinant", sub, R.a(R("sparse.det", S)), arr(det), v, rtol=1e-8)

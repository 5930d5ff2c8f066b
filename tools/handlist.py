HAND = {}

# ---------------------------------------------------------------- A: other library entry points
HAND["A"] = [
 ("angular_cl.py", "_get_cl_ordering", '''
from itertools import combinations_with_replacement
def _get_cl_ordering(probes):
    """Unordered pairs of tracers"""
    n_tracers = 0
    for p in probes:
        n_tracers += p.n_tracers
    return list(combinations_with_replacement(range(n_tracers), 2))
'''),
 ("angular_cl.py", "_get_cov_blocks_ordering", '''
def _get_cov_blocks_ordering(probes):
    cl_index = _get_cl_ordering(probes)
    rank = {}
    for n, (i, j) in enumerate(cl_index):
        rank[i, j] = n
        rank[j, i] = n
    return [
        (rank[i, m], rank[j, n], rank[i, n], rank[j, m])
        for (i, j) in cl_index
        for (m, n) in cl_index
    ]
'''),
 ("angular_cl.py", "angular_cl", '''
def _limber_weight(cosmo, chi, a):
    return bkgrd.dchioverda(cosmo, a) / np.clip(chi**2, 1.0)


def angular_cl(
    cosmo, ell, probes, transfer_fn=tklib.Eisenstein_Hu, nonlinear_fn=power.halofit
):
    """Limber"""
    zmax = np.max(np.array([p.zmax for p in probes]))
    pairs = np.array(_get_cl_ordering(probes))
    first, second = pairs[:, 0], pairs[:, 1]

    def one_ell(l):
        def integrand(a):
            chi = bkgrd.radial_comoving_distance(cosmo, a)
            k = (l + 0.5) / np.maximum(chi, 1.0)
            pk = power.nonlinear_matter_power(
                cosmo, k, a, transfer_fn=transfer_fn, nonlinear_fn=nonlinear_fn
            )
            z = a2z(a)
            kernels = np.concatenate([p.kernel(cosmo, z, l) for p in probes], axis=0)
            products = kernels[first] * kernels[second]
            return np.transpose(products * pk * _limber_weight(cosmo, chi, a))

        return simps(integrand, z2a(zmax), 1.0, 512) / const.c**2

    return vmap(one_ell, out_axes=1)(ell)
'''),
 ("angular_cl.py", "noise_cl", '''
def noise_cl(ell, probes):
    n_ell = len(ell)
    noise = np.concatenate([p.noise() for p in probes])
    rows = []
    for i, j in _get_cl_ordering(probes):
        if i == j:
            rows.append(noise[i] * np.ones(n_ell))
        else:
            rows.append(np.zeros(n_ell))
    return np.stack(rows)
'''),
 ("angular_cl.py", "gaussian_cl_covariance", '''
def _knox_norm(ell, f_sky):
    return (2 * ell + 1) * np.gradient(ell) * f_sky


def gaussian_cl_covariance(ell, probes, cl_signal, cl_noise, f_sky=0.25, sparse=True):
    ell = np.atleast_1d(ell)
    n_ell = ell.shape[0]
    cl_obs = np.asarray(cl_signal) + cl_noise
    n_cls = len(cl_obs)
    a, b, c, d = np.array(_get_cov_blocks_ordering(probes)).T
    blocks = cl_obs[a] * cl_obs[b] + cl_obs[c] * cl_obs[d]
    blocks = (blocks / _knox_norm(ell, f_sky)).reshape(n_cls, n_cls, n_ell)
    if sparse:
        return blocks
    full = blocks[:, :, :, None] * np.eye(n_ell)
    return np.swapaxes(full, 1, 2).reshape(n_ell * n_cls, n_ell * n_cls)
'''),
 ("sparse.py", "to_dense", '''
@jit
def to_dense(sparse):
    sparse = check_sparse(sparse)
    a, b, n = sparse.shape
    full = np.einsum("abn,nm->anbm", sparse, np.eye(n, dtype=sparse.dtype))
    return full.reshape(a * n, b * n)
'''),
 ("sparse.py", "sparse_dot_vec", '''
@jit
def sparse_dot_vec(sparse, vec):
    a, b, n = sparse.shape
    return np.einsum("abn,bn->an", sparse, vec.reshape(b, n)).reshape(-1)
'''),
 ("sparse.py", "sparse_dot_dense", '''
@jit
def sparse_dot_dense(sparse, dense):
    a, b, n = sparse.shape
    c = dense.shape[1]
    return np.einsum("abn,bnc->anc", sparse, dense.reshape((b, n, c))).reshape((a * n, c))
'''),
 ("sparse.py", "vec_dot_sparse", '''
@jit
def vec_dot_sparse(vec, sparse):
    a, b, n = sparse.shape
    v = vec.reshape(a, n)
    return np.sum(v[:, None, :] * sparse, axis=0).ravel()
'''),
 ("sparse.py", "sparse_dot_sparse", '''
@jit
def sparse_dot_sparse(sparse1, sparse2):
    left = np.moveaxis(sparse1, -1, 0)
    right = np.moveaxis(sparse2, -1, 0)
    return np.moveaxis(np.matmul(left, right), 0, -1)
'''),
 ("sparse.py", "dense_dot_sparse_dot_dense", '''
@jit
def dense_dot_sparse_dot_dense(X, Y, Z):
    return np.dot(X, sparse_dot_dense(Y, Z))
'''),
 ("sparse.py", "inv", '''
@jit
def inv(sparse):
    sparse = check_sparse(sparse, square=True)
    per_ell = sparse.transpose(2, 0, 1)
    return vmap(np.linalg.inv)(per_ell).transpose(1, 2, 0)
'''),
 ("sparse.py", "slogdet", '''
@jit
def slogdet(sparse):
    sparse = check_sparse(sparse, square=True)
    sign, logdet = vmap(np.linalg.slogdet, in_axes=2)(sparse)
    return np.prod(sign), logdet.sum()
'''),
 ("likelihood.py", "=y = np.dot(np.linalg.inv(C), r)", "y = np.linalg.solve(C, r)"),
 ("likelihood.py", "=rT_Cinv_r = np.dot(r, y)", "rT_Cinv_r = np.sum(r * y)"),
 ("scipy/integrate.py", "=    S = dx / 3 * np.sum(y[0:-1:2] + 4 * y[1::2] + y[2::2], axis=0)\n", '''    ends = y[0] + y[-1]
    odd = np.sum(y[1:-1:2], axis=0)
    even = np.sum(y[2:-1:2], axis=0)
    S = dx / 3 * (ends + 4 * odd + 2 * even)
'''),
 ("scipy/ode.py", "odeint", '''
def _rk4_step(fn, y, t, h):
    k1 = fn(y, t)
    k2 = fn(y + 0.5 * h * k1, t + 0.5 * h)
    k3 = fn(y + 0.5 * h * k2, t + 0.5 * h)
    k4 = fn(y + h * k3, t + h)
    return y + h * (k1 + 2 * k2 + 2 * k3 + k4) / 6.0


def odeint(fn, y0, t):
    t = np.asarray(t)

    def step(y, interval):
        lo, hi = interval
        y = _rk4_step(fn, y, lo, hi - lo)
        return y, y

    y0 = np.asarray(y0)
    _, ys = jax.lax.scan(step, y0 * np.ones_like(y0), (t[:-1], t[1:]))
    return np.concatenate([np.expand_dims(y0, 0), ys], axis=0)
'''),
 ("bias.py", "constant_linear_bias.__call__", '''
def __call__(self, cosmo, z):
    (b,) = self.params
    return np.broadcast_to(b, np.shape(z)) * 1.0
'''),
 ("redshift.py", "kde_nz.pz_fn", '''
def pz_fn(self, z):
    zcat, weight = self.params[:2]
    w = np.atleast_1d(weight)
    bw = self.config["bw"]
    z = np.asarray(z)
    k = self._kernel(bw, np.asarray(zcat), z[..., None])
    return np.sum(k * w, axis=-1) / np.sum(w)
'''),
 ("power.py", "=    return nonlinear_fn(cosmo, k, a, transfer_fn=transfer_fn)", '''    options = {"transfer_fn": transfer_fn}
    return nonlinear_fn(cosmo, k, a, **options)'''),
]

# ---------------------------------------------------------------- B: dispatch tables, helpers, loops
HAND["B"] = [
 ("transfer.py", "+", '''
def _drag_redshift(w_m, w_b):
    b1 = 0.313 * w_m**-0.419 * (1.0 + 0.607 * w_m**0.674)
    b2 = 0.238 * w_m**0.223
    return 1291.0 * w_m**0.251 / (1.0 + 0.659 * w_m**0.828) * (1.0 + b1 * w_b**b2)
'''),
 ("transfer.py", '''=    b1 = 0.313 * np.power(w_m, -0.419) * (1.0 + 0.607 * np.power(w_m, 0.674))
    b2 = 0.238 * np.power(w_m, 0.223)
    z_d = (
        1291.0
        * np.power(w_m, 0.251)
        / (1.0 + 0.659 * np.power(w_m, 0.828))
        * (1.0 + b1 * np.power(w_b, b2))
    )
''', '''    z_d = _drag_redshift(w_m, w_b)
'''),
 ("background.py", "transverse_comoving_distance", '''
def transverse_comoving_distance(cosmo, a):
    chi = radial_comoving_distance(cosmo, a)
    x = chi / const.rh
    # keep the roots away from zero, where the branch is not used
    flat = cosmo.k == 0
    s = np.sqrt(np.where(flat, 1.0, np.abs(cosmo.Omega_k)))
    u = cosmo.Omega_k * x**2
    series = chi * (1.0 + u / 6.0 + u**2 / 120.0)
    curved = np.where(cosmo.Omega_k > 0, np.sinh(s * x), np.sin(s * x)) * const.rh / s
    return np.where(flat, series, curved)
'''),
 ("background.py", "growth_factor", '''
def growth_factor(cosmo, a):
    solver = {True: _growth_factor_gamma, False: _growth_factor_ODE}
    return solver[cosmo._flags["gamma_growth"]](cosmo, a)
'''),
 ("background.py", "growth_rate", '''
def growth_rate(cosmo, a):
    if not cosmo._flags["gamma_growth"]:
        return _growth_rate_ODE(cosmo, a)
    return _growth_rate_gamma(cosmo, a)
'''),
 ("background.py", "Omega_de_a", '''
def Omega_de_a(cosmo, a):
    esqr = Esqr(cosmo, a)
    rho = np.exp(f_de(cosmo, a)) * cosmo.Omega_de
    return rho / esqr
'''),
 ("background.py", "a_of_chi", '''
def a_of_chi(cosmo, chi):
    table = _distance_table(cosmo)
    # on increasing abscissae
    return interp(np.atleast_1d(chi), table["chi"][::-1], table["a"][::-1])
'''),
 ("background.py", "_growth_rate_gamma", '''
def _growth_rate_gamma(cosmo, a):
    return np.power(Omega_m_a(cosmo, a), cosmo.gamma)
'''),
 ("core.py", "Cosmology.tree_flatten", '''
def tree_flatten(self):
    names = ["Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa"]
    if self._flags["gamma_growth"]:
        names.append("gamma")
    return tuple(getattr(self, "_" + n) for n in names), dict(self._flags)
'''),
 ("core.py", "Cosmology.tree_unflatten", '''
@classmethod
def tree_unflatten(cls, aux_data, children):
    names = ("Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa")
    kwargs = dict(zip(names, children))
    if aux_data["gamma_growth"]:
        kwargs["gamma"] = children[-1]
    return cls(**kwargs)
'''),
 ("core.py", "Cosmology.Omega_de", '''
@property
def Omega_de(self):
    return 1.0 - self._Omega_k - (self._Omega_b + self._Omega_c)
'''),
 ("probes.py", "+", '''
def _spin2_factor(ell):
    return np.sqrt((ell - 1.0) * ell * (ell + 1.0) * (ell + 2.0)) / (ell + 0.5) ** 2


def _no_planes(pzs, what):
    for pz in pzs:
        if isinstance(pz, rds.delta_nz):
            raise NotImplementedError(what)


def _bias_of(bias, cosmo, z):
    if isinstance(bias, list):
        return np.stack([b(cosmo, z) for b in bias], axis=0)
    return bias(cosmo, z)
'''),
 ("probes.py", "weak_lensing_kernel", '''
@jit
def weak_lensing_kernel(cosmo, pzs, z, ell):
    z = np.atleast_1d(z)
    zmax = max([pz.zmax for pz in pzs])
    chi = bkgrd.radial_comoving_distance(cosmo, z2a(z))

    def efficiency(z_prime):
        chi_prime = bkgrd.radial_comoving_distance(cosmo, z2a(z_prime))
        return np.clip(chi_prime - chi, 0) / np.clip(chi_prime, 1.0)

    rows = []
    for pz in pzs:
        if isinstance(pz, rds.delta_nz):
            g = efficiency(pz.params[0])
        else:
            g = simps(
                vmap(lambda zp, pz=pz: pz(zp) * efficiency(zp)), z, zmax, 256
            )
        rows.append(g * (1.0 + z) * chi)
    radial_kernel = np.stack(rows, axis=0)
    constant_factor = 3.0 * const.H0**2 * cosmo.Omega_m / 2.0 / const.c
    return constant_factor * _spin2_factor(ell) * radial_kernel
'''),
 ("probes.py", "density_kernel", '''
@jit
def density_kernel(cosmo, pzs, bias, z, ell):
    _no_planes(pzs, "Density kernel not properly implemented for delta redshift distributions")
    dndz = np.stack([pz(z) for pz in pzs], axis=0)
    return dndz * _bias_of(bias, cosmo, z) * bkgrd.H(cosmo, z2a(z))
'''),
 ("probes.py", "nla_kernel", '''
@jit
def nla_kernel(cosmo, pzs, bias, z, ell):
    _no_planes(pzs, "NLA kernel not properly implemented for delta redshift distributions")
    a = z2a(z)
    norm = -(5e-14 * const.rhocrit) * cosmo.Omega_m / bkgrd.growth_factor(cosmo, a)
    return density_kernel(cosmo, pzs, bias, z, ell) * norm * _spin2_factor(ell)
'''),
 ("probes.py", "WeakLensing.kernel", '''
def kernel(self, cosmo, z, ell):
    z = np.atleast_1d(z)
    pzs, m, *ia = self.params
    total = weak_lensing_kernel(cosmo, pzs, z, ell)
    if ia:
        total = total + nla_kernel(cosmo, pzs, ia[0], z, ell)
    calibration = 1.0 + (np.stack(list(m))[:, None] if isinstance(m, list) else m)
    return total * calibration
'''),
 ("probes.py", "WeakLensing.noise", '''
def noise(self):
    pzs = self.params[0]
    ngals = np.array([pz.gals_per_steradian for pz in pzs])
    sigma_e = self.config["sigma_e"]
    if isinstance(sigma_e, list):
        sigma_e = np.array(sigma_e)
    return np.square(sigma_e) / ngals
'''),
 ("scipy/interpolate.py", "InterpolatedUnivariateSpline.__call__", '''
def __call__(self, x):
    t, *coeffs = self._compute_coeffs(x)
    result = coeffs[-1]
    for c in coeffs[-2::-1]:
        result = result * t + c
    return result
'''),
 ("scipy/interpolate.py", "interp", '''
@functools.partial(vmap, in_axes=(0, None, None))
def interp(x, xp, fp):
    xp, fp = np.asarray(xp), np.asarray(fp)
    nearest = np.clip(np.argmin(np.abs(x - xp)), 1, len(xp) - 2)
    rising = xp[-1] > xp[0]
    below = np.where(rising, x < xp[nearest], x > xp[nearest])
    lo = np.where(below, nearest - 1, nearest)
    hi = lo + 1
    w = (x - xp[lo]) / (xp[hi] - xp[lo])
    return fp[lo] + w * (fp[hi] - fp[lo])
'''),
]

# ---------------------------------------------------------------- C: more exotic spellings
HAND["C"] = [
 ("scipy/interpolate.py", "interp", '''
def interp(x, xp, fp):
    xp, fp = np.asarray(xp), np.asarray(fp)
    x = np.asarray(x)
    rising = xp[-1] > xp[0]
    xs = np.where(rising, xp, xp[::-1])
    fs = np.where(rising, fp, fp[::-1])
    i = np.clip(np.searchsorted(xs, x, side="right") - 1, 0, len(xp) - 2)
    slope = (fs[i + 1] - fs[i]) / (xs[i + 1] - xs[i])
    return fs[i] + slope * (x - xs[i])
'''),
 ("power.py", "sigmasqr", '''
def _tophat(x):
    return 3.0 / x**3 * (np.sin(x) - x * np.cos(x))


def sigmasqr(cosmo, R, transfer_fn, kmin=0.0001, kmax=1000.0, ksteps=5, **kwargs):
    def int_sigma(logk):
        k = np.exp(logk)
        t = transfer_fn(cosmo, k, **kwargs)
        return k**3 * primordial_matter_power(cosmo, k) * (t * _tophat(k * R)) ** 2

    y = romb(int_sigma, np.log(kmin), np.log(kmax), divmax=7)
    return y / (2.0 * np.pi**2)
'''),
 ("power.py", "linear_matter_power", '''
def linear_matter_power(cosmo, k, a=1.0, transfer_fn=tklib.Eisenstein_Hu, **kwargs):
    k, a = np.atleast_1d(k), np.atleast_1d(a)
    variance = sigmasqr(cosmo, 8.0, transfer_fn, **kwargs)
    amplitude = cosmo.sigma8 / np.sqrt(variance)
    root = amplitude * transfer_fn(cosmo, k, **kwargs) * bkgrd.growth_factor(cosmo, a)
    return np.squeeze(primordial_matter_power(cosmo, k) * root * root)
'''),
 ("power.py", "_halofit_parameters", '''
def _halofit_parameters(cosmo, a, transfer_fn):
    a = np.atleast_1d(a)
    logr = np.linspace(np.log(1e-4), np.log(1e1), 256)
    lo, hi = np.log(1e-4), np.log(1e4)
    growth2 = bkgrd.growth_factor(cosmo, a) ** 2

    def delta2(k):
        pk = linear_matter_power(cosmo, k, transfer_fn=transfer_fn)
        return k**3 * pk / (2.0 * np.pi**2)

    def variance(logk):
        k = np.exp(logk)
        y2 = np.square(k[:, None] * np.exp(logr)[None, :])
        return delta2(k)[:, None] * np.exp(-y2)

    sigma2 = simps(variance, lo, hi, 256)

    def scale(g2):
        return np.exp(interp(np.ones(1), g2 * sigma2, logr))[0]

    r_nl = np.maximum(jax.vmap(scale)(growth2), 1e-6)
    k_nl = 1.0 / np.squeeze(r_nl)

    def moments(logk):
        k = np.exp(logk)
        y2 = (k[:, None] / np.atleast_1d(k_nl)) ** 2
        res = delta2(k)[:, None] * np.exp(-y2) * growth2[None, :]
        return np.stack([2 * res * y2, 4 * res * (y2 - y2**2)], axis=1)

    first, second = simps(moments, lo, hi, 256)
    return k_nl, first - 3.0, first**2 + second
'''),
 ("redshift.py", "smail_nz.pz_fn", '''
def pz_fn(self, z):
    a, b, z0 = self.params
    safe = np.where(z == 0, z0, z)
    decay = np.where(z == 0, 1.0, np.exp(-((safe / z0) ** b)))
    return np.power(z, a) * decay
'''),
 ("redshift.py", "delta_nz.pz_fn", '''
def pz_fn(self, z):
    return np.where(np.equal(z, self.params[0]), 1.0, 0.0)
'''),
 ("redshift.py", "systematic_shift.pz_fn", '''
def pz_fn(self, z):
    parent, shift = self.params
    return parent.pz_fn(np.maximum(z - shift, 0.0))
'''),
 ("scipy/integrate.py", "romb", '''
def romb(function, a, b, args=(), divmax=6, return_error=False):
    vfunc = jit(lambda x: function(x, *args))
    interval = [a, b]
    total = _difftrap1(vfunc, interval)
    last = [(b - a) * total]
    err = np.inf
    for i in range(1, divmax + 1):
        n = 2**i
        total = total + _difftrapn(vfunc, interval, n)
        row = [(b - a) * total / n]
        for k in range(i):
            row.append(_romberg_diff(last[k], row[k], k + 1))
        err = np.abs(last[i - 1] - row[i])
        last = row
    result = last[-1]
    if return_error:
        return result, err
    return result
'''),
 ("scipy/integrate.py", "simps", '''
def simps(f, a, b, N=128):
    if N % 2 == 1:
        raise ValueError("N must be an even integer.")
    x = np.linspace(a, b, N + 1)
    weights = np.ones(N + 1).at[1:-1:2].set(4.0).at[2:-1:2].set(2.0)
    y = f(x)
    return (b - a) / N / 3 * np.tensordot(weights, y, axes=1)
'''),
 ("sparse.py", "to_dense", '''
@jit
def to_dense(sparse):
    sparse = check_sparse(sparse)
    rows, cols, n = sparse.shape
    return np.block([[np.diag(sparse[i, j]) for j in range(cols)] for i in range(rows)])
'''),
 ("sparse.py", "sparse_dot_sparse", '''
@jit
def sparse_dot_sparse(sparse1, sparse2):
    return np.sum(sparse1[:, :, None, :] * sparse2[None, :, :, :], axis=1)
'''),
 ("sparse.py", "det", '''
@jit
def det(sparse):
    sparse = check_sparse(sparse, square=True)
    return np.prod(np.linalg.det(np.transpose(sparse, (2, 0, 1))))
'''),
 ("likelihood.py", "=y = sp.linalg.cho_solve(sp.linalg.cho_factor(C, lower=True), r)", '''L = np.linalg.cholesky(C)
            y = sp.linalg.solve_triangular(L.T, sp.linalg.solve_triangular(L, r, lower=True), lower=False)'''),
 ("angular_cl.py", "_get_cl_ordering", '''
def _get_cl_ordering(probes):
    n_tracers = sum(p.n_tracers for p in probes)
    return [(i, j) for i in range(n_tracers) for j in range(n_tracers) if j >= i]
'''),
 ("angular_cl.py", "_get_cov_blocks_ordering", '''
def _get_cov_blocks_ordering(probes):
    cl_index = _get_cl_ordering(probes)

    def find(a, b):
        return cl_index.index((min(a, b), max(a, b)))

    cov_blocks = []
    for p in cl_index:
        for q in cl_index:
            cov_blocks.append((find(p[0], q[0]), find(p[1], q[1]), find(p[0], q[1]), find(p[1], q[0])))
    return cov_blocks
'''),
 ("background.py", "Omega_de_a", '''
def Omega_de_a(cosmo, a):
    return cosmo.Omega_de * np.exp(f_de(cosmo, a) - np.log(Esqr(cosmo, a)))
'''),
]

# ---------------------------------------------------------------- D: restructured tables, classes, dispatch
HAND["D"] = [
 ("background.py", "_tabulate", '''
def _outlives(value, traces):
    return isinstance(value, Tracer) and not any(value._trace is t for t in traces)


def _tabulate(cosmo, tables, key, compute):
    try:
        return tables[key]
    except KeyError:
        pass
    traced = list(filter(lambda p: isinstance(p, Tracer), tree_leaves(cosmo)))
    if len(traced) == 0:
        with ensure_compile_time_eval():
            table = compute()
        keep = True
    else:
        table = compute()
        traces = [p._trace for p in traced]
        keep = not any(_outlives(v, traces) for v in table.values())
    if keep:
        tables.update({key: table})
    return table
'''),
 ("background.py", "f_de", '''
def f_de(cosmo, a):
    lna = np.log(a)
    return -3.0 * ((1.0 + cosmo.w0) * lna + cosmo.wa * (lna - a + 1.0))
'''),
 ("background.py", "Esqr", '''
def Esqr(cosmo, a):
    densities = (cosmo.Omega_m, cosmo.Omega_k, cosmo.Omega_de)
    scalings = (a**-3.0, a**-2.0, np.exp(f_de(cosmo, a)))
    total = 0.0
    for density, scaling in zip(densities, scalings):
        total = total + density * scaling
    return total
'''),
 ("background.py", "_distance_table", '''
def _distance_table(cosmo, log10_amin=-3, steps=256):
    key = (log10_amin, steps)
    name = "background.radial_comoving_distance"
    if name not in cosmo._workspace:
        cosmo._workspace[name] = {}

    def rate(y, lna):
        return np.exp(lna) * dchioverda(cosmo, np.exp(lna))

    def compute():
        a = np.logspace(log10_amin, 0.0, num=steps)
        from_start = odeint(rate, 0.0, np.log(a))
        return dict(a=a, chi=from_start[-1] - from_start)

    return _tabulate(cosmo, cosmo._workspace[name], key, compute)
'''),
 ("background.py", "transverse_comoving_distance", '''
def transverse_comoving_distance(cosmo, a):
    chi = radial_comoving_distance(cosmo, a)

    def curved(fn):
        radius = const.rh / cosmo.sqrtk
        return lambda x: radius * fn(x / radius)

    def flat(x):
        u = cosmo.Omega_k * (x / const.rh) ** 2
        return x * np.polyval(np.array([1.0 / 120.0, 1.0 / 6.0, 1.0]), u)

    by_sign = {1: curved(np.sinh), 0: flat, -1: curved(np.sin)}
    return lax.switch(cosmo.k + 1, [by_sign[1], by_sign[0], by_sign[-1]], chi)
'''),
 ("background.py", "_growth_factor_ODE", '''
def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
    return _look_up_growth(_growth_table_ODE(cosmo, log10_amin, steps, eps), a)


def _look_up_growth(table, a):
    a = np.atleast_1d(a)
    g = np.maximum(interp(a, table["a"], table["g"]), 0.0)
    return np.where(a <= 1.0, g, 1.0)
'''),
 ("background.py", "_growth_table_ODE", '''
def _growth_table_ODE(cosmo, log10_amin=-3, steps=128, eps=1e-4):
    def rhs(state, x):
        D, dD = state
        om, ode = Omega_m_a(cosmo, x), Omega_de_a(cosmo, x)
        friction = (2.0 - (om + (1.0 + 3.0 * w(cosmo, x)) * ode) / 2.0) / x
        return np.stack([dD, 1.5 * om * D / x**2 - friction * dD])

    def compute():
        atab = np.logspace(log10_amin, 0.0, steps)
        D, dD = odeint(rhs, np.array([atab[0], 1.0]), atab).T
        return {"a": atab, "g": D / D[-1], "f": atab * dD / D}

    return _tabulate(cosmo, cosmo._workspace, "background.growth_factor", compute)
'''),
 ("background.py", "_growth_factor_gamma", '''
def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
    def compute():
        atab = np.logspace(log10_amin, 0.0, steps)
        lna = np.log(atab)
        lng = odeint(lambda _, x: _growth_rate_gamma(cosmo, np.exp(x)), lna[0], lna)
        return {"a": atab, "g": np.exp(lng - lng[-1])}

    return _look_up_growth(
        _tabulate(cosmo, cosmo._workspace, "background.growth_factor", compute), a
    )
'''),
 ("jax_utils.py", "container.tree_flatten", '''
def tree_flatten(self):
    return tuple(self.params), dict(self.config)
'''),
 ("redshift.py", "redshift_distribution.__call__", '''
def __call__(self, z):
    return self.pz_fn(z) / self._normalisation()

def _normalisation(self):
    if self._norm is not None:
        return self._norm
    return simps(self.pz_fn, 0.0, self.zmax, 256)
'''),
 ("redshift.py", "smail_nz.pz_fn", '''
def pz_fn(self, z):
    a, b, z0 = self.params
    positive = z != 0
    safe = np.where(positive, z, 1.0)
    x = np.where(positive, np.exp(b * np.log(safe / z0)), 0.0)
    return z**a / np.exp(x)
'''),
 ("redshift.py", "kde_nz.pz_fn", '''
def pz_fn(self, z):
    zcat, weight = self.params[:2]
    weight = np.atleast_1d(weight)
    weight = weight / weight.sum()
    k = self._kernel(self.config["bw"], zcat[..., None], z)
    return np.tensordot(weight, k, axes=1)
'''),
 ("redshift.py", "kde_nz._kernel", '''
def _kernel(self, bw, X, x):
    t = (x - X) / bw
    return np.exp(-t * t / 2.0) / (np.sqrt(2.0 * np.pi) * bw)
'''),
 ("power.py", "linear_matter_power", '''
def linear_matter_power(cosmo, k, a=1.0, transfer_fn=tklib.Eisenstein_Hu, **kwargs):
    k, a = np.atleast_1d(k), np.atleast_1d(a)
    amplitude = cosmo.sigma8 * bkgrd.growth_factor(cosmo, a)
    shape = primordial_matter_power(cosmo, k) * transfer_fn(cosmo, k, **kwargs) ** 2
    norm = sigmasqr(cosmo, 8.0, transfer_fn, **kwargs)
    return np.squeeze(shape * amplitude**2 / norm)
'''),
 ("power.py", "halofit", '''
_SMITH = {
    "a": (1.4861, 1.8369, 1.6762, 0.7940, 0.1670, -0.6206, 0.0),
    "b": (0.9463, 0.9466, 0.3084, 0.0, 0.0, -0.9400, 0.0),
    "c": (-0.2807, 0.6669, 0.3214, 0.0, 0.0, -0.0793, 0.0),
    "gamma": (0.8649, 0.2989, 0.0, 0.0, 0.0, 0.1631, 0.0),
    "alpha": (1.3884, 0.3700, -0.1452, 0.0, 0.0, 0.0, 0.0),
    "beta": (0.8291, 0.9854, 0.3401, 0.0, 0.0, 0.0, 0.0),
    "mu": (-3.5442, 0.1908, 0.0, 0.0, 0.0, 0.0, 0.0),
    "nu": (0.9589, 1.2857, 0.0, 0.0, 0.0, 0.0, 0.0),
}
_TAKAHASHI = {
    "a": (1.5222, 2.8553, 2.3706, 0.9903, 0.2250, -0.6038, 0.1749),
    "b": (-0.5642, 0.5864, 0.5716, 0.0, 0.0, -1.5474, 0.2279),
    "c": (0.3698, 2.0404, 0.8161, 0.0, 0.0, 0.5869, 0.0),
    "gamma": (0.1971, -0.0843, 0.0, 0.0, 0.0, 0.8460, 0.0),
    "alpha": (6.0835, 1.3373, -0.1959, 0.0, 0.0, -5.5274, 0.0),
    "beta": (2.0379, -0.7354, 0.3157, 1.2490, 0.3980, -0.1682, 0.0),
    "nu": (5.2105, 3.6902, 0.0, 0.0, 0.0, 0.0, 0.0),
}


def halofit(cosmo, k, a, transfer_fn, prescription="takahashi2012"):
    tables = {"smith2003": _SMITH, "takahashi2012": _TAKAHASHI}
    if prescription not in tables:
        raise NotImplementedError
    takahashi = prescription == "takahashi2012"
    a = np.atleast_1d(a)
    pklin = linear_matter_power(cosmo, k, a, transfer_fn)
    k_nl, n, C = _halofit_parameters(cosmo, a, transfer_fn)
    om_m, om_de, w = (f(cosmo, a) for f in (bkgrd.Omega_m_a, bkgrd.Omega_de_a, bkgrd.w))
    basis = (1.0, n, n**2, n**3, n**4, C, om_de * (1 + w))

    def fit(name):
        return sum(c * x for c, x in zip(tables[prescription][name], basis))

    a_n, b_n, c_n, nu_n = (10 ** fit(x) for x in ("a", "b", "c", "nu"))
    gamma_n, alpha_n, beta_n = map(fit, ("gamma", "alpha", "beta"))
    mu_n = 10 ** fit("mu") if not takahashi else 0.0
    if takahashi:
        alpha_n = np.where(alpha_n < 0, -alpha_n, alpha_n)

    flat = [om_m**p for p in (-0.0307, -0.0585, 0.0743)]
    if takahashi:
        f1, f2, f3 = flat
    else:
        frac = om_de / (1.0 - om_m)
        f1, f2, f3 = [
            o + frac * (f - o)
            for f, o in zip(flat, [om_m**p for p in (-0.0732, -0.1423, 0.0725)])
        ]

    conv = k**3 / (2.0 * np.pi**2)
    d2l = conv * pklin
    y = k / k_nl
    d2q = d2l * (1.0 + d2l) ** beta_n / (1 + alpha_n * d2l) / np.exp(y / 4.0 + y**2 / 8.0)
    d2h = a_n * y ** (3 * f1) / (1.0 + b_n * y**f2 + (c_n * f3 * y) ** (3.0 - gamma_n))
    d2h = d2h * y**2 / (y**2 + mu_n * y + nu_n)
    return ((d2q + d2h) / conv).squeeze()
'''),
 ("power.py", "sigmasqr", '''
def _top_hat(x):
    return 3.0 * (np.sin(x) / x - np.cos(x)) / x**2


def sigmasqr(cosmo, R, transfer_fn, kmin=0.0001, kmax=1000.0, ksteps=5, **kwargs):
    def dimensionless_power(k):
        return k**3 * primordial_matter_power(cosmo, k) * transfer_fn(cosmo, k, **kwargs) ** 2

    def integrand(logk):
        k = np.exp(logk)
        return dimensionless_power(k) * _top_hat(k * R) ** 2 / (2.0 * np.pi**2)

    return romb(integrand, np.log(kmin), np.log(kmax), divmax=7)
'''),
 ("scipy/interpolate.py", "InterpolatedUnivariateSpline.__call__", '''
def __call__(self, x):
    t, *coeffs = self._compute_coeffs(x)
    result = coeffs[-1]
    for c in coeffs[-2::-1]:
        result = c + t * result
    return result
'''),
 ("scipy/interpolate.py", "InterpolatedUnivariateSpline.derivative", '''
def derivative(self, x, n=1):
    assert n in range(self.k + 1), "Invalid n."
    if n == 0:
        return self(x)
    t, *coeffs = self._compute_coeffs(x)
    for _ in range(n):
        coeffs = [i * c for i, c in enumerate(coeffs)][1:]
    result = coeffs[0]
    for i, c in enumerate(coeffs[1:], 1):
        result = result + c * t**i
    return result
'''),
 ("scipy/interpolate.py", "InterpolatedUnivariateSpline.antiderivative", '''
def _pieces(self):
    """Knots and the polynomial coefficients on every interval."""
    x, y, z = self._x, self._y, self._coefficients
    if self.k == 1:
        return x, [y[:-1], z]
    if self.k == 2:
        middle = 0.5 * (x[:-1] + x[1:])
        knots = np.hstack([x[0] - 0.5 * (x[1] - x[0]), middle, x[-1] + 0.5 * (x[-1] - x[-2])])
        h = knots[1:] - knots[:-1]
        dt = x - knots[:-1]
        c = np.diff(z) / (2 * h)
        return knots, [y - z[:-1] * dt - c * dt**2, z[:-1], c]
    h = np.diff(x)
    b = np.diff(y) / h - (2 * z[:-1] + z[1:]) * h / 3.0
    return x, [y[:-1], b, z[:-1], np.diff(z) / (3 * h)]

def antiderivative(self, xs):
    knots, coeffs = self._pieces()

    def primitive(cs, t):
        return sum(c * t ** (i + 1) / (i + 1) for i, c in enumerate(cs))

    full = np.cumsum(primitive(coeffs, np.diff(knots)))
    start = np.concatenate([np.zeros_like(full[:1]), full])
    ind = np.clip(np.searchsorted(knots, xs, side="right") - 1, 0, len(knots) - 2)
    return start[ind] + primitive([c[ind] for c in coeffs], xs - knots[ind])
'''),
 ("scipy/interpolate.py", "InterpolatedUnivariateSpline.integral", '''
def integral(self, a, b):
    lower, upper = self.antiderivative(np.array([a, b]))
    return np.atleast_1d(upper - lower)
'''),
 ("scipy/ode.py", "odeint", '''
def odeint(fn, y0, t):
    """Classical Runge-Kutta steps between the given times."""

    def step(state, t_next):
        y, t_now = state
        h = t_next - t_now
        slopes, weights = [fn(y, t_now)], (1.0, 2.0, 2.0, 1.0)
        for frac in (0.5, 0.5, 1.0):
            slopes.append(fn(y + frac * h * slopes[-1], t_now + frac * h))
        y = y + h * sum(wt * s for wt, s in zip(weights, slopes)) / 6.0
        return (y, t_next), y

    return jax.lax.scan(step, (y0, np.asarray(t[0])), t)[1]
'''),
 ("sparse.py", "det", '''
def det(sparse):
    s, l = slogdet(sparse)
    return np.multiply(s, np.exp(l))
'''),
]

# ---------------------------------------------------------------- E: other language and library features
HAND["E"] = [
 ("background.py", "+", '''
import enum
import functools
import typing
import warnings
from collections import namedtuple
from dataclasses import dataclass


class _Geometry(enum.IntEnum):
    CLOSED = -1
    FLAT = 0
    OPEN = 1


class _Table(typing.NamedTuple):
    a: typing.Any
    chi: typing.Any


@functools.lru_cache(maxsize=None)
def _decades(log10_amin: float) -> float:
    return 0.0 - log10_amin
'''),
 ("background.py", "w", '''
def w(cosmo, a) -> np.ndarray:
    """Linder (2003)"""
    w0, wa = cosmo.w0, cosmo.wa
    return w0 + wa - a * wa
'''),
 ("background.py", "Omega_m_a", '''
def Omega_m_a(cosmo, a):
    if (e := Esqr(cosmo, a)) is None:  # pragma: no cover
        warnings.warn("no expansion")
    return cosmo.Omega_m / (e * a * a * a)
'''),
 ("background.py", "a_of_chi", '''
def a_of_chi(cosmo, chi):
    table = _Table(**_distance_table(cosmo))
    return interp(np.ravel(chi) if np.ndim(chi) < 2 else np.atleast_1d(chi), table.chi, table.a)
'''),
 ("background.py", "growth_rate", '''
def growth_rate(cosmo, a):
    match cosmo._flags["gamma_growth"]:
        case True:
            rate = _growth_rate_gamma
        case _:
            rate = _growth_rate_ODE
    return rate(cosmo, a)
'''),
 ("background.py", "transverse_comoving_distance", '''
def transverse_comoving_distance(cosmo, a):
    chi = radial_comoving_distance(cosmo, a)
    flat = lambda x: _expanded(cosmo, x)
    closed = functools.partial(_curved, cosmo, np.sin)
    opened = functools.partial(_curved, cosmo, np.sinh)
    return lax.cond(
        cosmo.k == _Geometry.FLAT,
        flat,
        lambda x: lax.cond(cosmo.k == _Geometry.CLOSED, closed, opened, x)
        if False
        else lax.switch(cosmo.k + 1, (opened, flat, closed), x),
        chi,
    )


def _curved(cosmo, fn, chi):
    return const.rh / cosmo.sqrtk * fn(cosmo.sqrtk * chi / const.rh)


def _expanded(cosmo, chi):
    u = cosmo.Omega_k * (chi / const.rh) ** 2
    return chi + chi * u * (1.0 / 6.0 + u / 120.0)
'''),
 ("bias.py", "inverse_growth_linear_bias.__call__", '''
def __call__(self, cosmo, z):
    (cb,) = self.params
    growth = bkgrd.growth_factor(cosmo, z2a(z))
    return np.true_divide(cb, growth)
'''),
 ("bias.py", "des_y1_ia_bias.__call__", '''
def __call__(self, cosmo, z):
    A, eta, z0, *_ = self.params
    ratio = np.divide(np.add(1.0, z), np.add(1.0, z0))
    return np.multiply(A, np.float_power(ratio, eta))
'''),
 ("redshift.py", "+", '''
import operator
from functools import cached_property, reduce
'''),
 ("redshift.py", "redshift_distribution.gals_per_steradian", '''
@property
def gals_per_steradian(self):
    """Number density per steradian"""
    return operator.mul(self._gals_per_arcmin2, steradian_to_arcmin2)
'''),
 ("redshift.py", "delta_nz.pz_fn", '''
def pz_fn(self, z):
    (z0, *_) = self.params
    return np.equal(z, z0).astype(float)
'''),
 ("redshift.py", "kde_nz.pz_fn", '''
def pz_fn(self, z):
    zcat, weight, *_ = self.params
    weight = np.atleast_1d(weight)
    kernel = self._kernel(self.config["bw"], np.reshape(zcat, (-1, 1)) if np.ndim(zcat) == 1 else np.expand_dims(zcat, -1), z)
    return np.average(kernel.T, axis=-1, weights=weight) if np.ndim(z) < 2 and weight.shape[0] == np.shape(zcat)[0] else np.dot(kernel.T, weight) / np.sum(weight)
'''),
 ("angular_cl.py", "_get_cl_ordering", '''
def _get_cl_ordering(probes):
    import itertools
    n = sum(p.n_tracers for p in probes)
    return list(itertools.combinations_with_replacement(range(n), 2))
'''),
 ("angular_cl.py", "noise_cl", '''
def noise_cl(ell, probes):
    from functools import reduce
    noise = reduce(lambda x, y: np.concatenate([x, y]), (p.noise() for p in probes))
    pairs = np.array(_get_cl_ordering(probes))
    auto = (pairs[:, 0] == pairs[:, 1]).astype(float)
    return (auto * noise[pairs[:, 0]])[:, None] * np.ones(len(ell))
'''),
 ("angular_cl.py", "gaussian_cl_covariance_and_mean", '''
def gaussian_cl_covariance_and_mean(
    cosmo,
    ell,
    probes,
    transfer_fn=tklib.Eisenstein_Hu,
    nonlinear_fn=power.halofit,
    f_sky=0.25,
    sparse=False,
):
    spectra = dict(transfer_fn=transfer_fn, nonlinear_fn=nonlinear_fn)
    signal = angular_cl(cosmo, np.atleast_1d(ell), probes, **spectra)
    noise = noise_cl(np.atleast_1d(ell), probes)
    cov = gaussian_cl_covariance(np.atleast_1d(ell), probes, signal, noise, f_sky, sparse)
    return np.ravel(signal), cov
'''),
 ("utils.py", "+", "import operator\n"),
 ("utils.py", "z2a", '''
def z2a(z):
    """scale factor"""
    return operator.truediv(1.0, operator.add(z, 1.0))
'''),
 ("scipy/integrate.py", "_difftrapn", '''
def _difftrapn(function, interval, numtraps):
    """Sum of the ordinates added by this refinement."""
    lower, upper = interval
    count = numtraps >> 1
    h = (upper - lower) / float(count)
    points = lower + h * (np.arange(count) + 0.5)
    return function(points).sum()
'''),
 ("scipy/integrate.py", "_romberg_diff", '''
def _romberg_diff(b, c, k):
    """Richardson extrapolation."""
    return c + (c - b) / (4.0**k - 1.0)
'''),
 ("scipy/ode.py", "odeint", '''
def odeint(fn, y0, t):
    def rk4(i, ys):
        y, start, end = ys[i], t[i], t[i + 1]
        h = end - start
        k1 = fn(y, start)
        k2 = fn(y + h * k1 / 2, start + h / 2)
        k3 = fn(y + h * k2 / 2, start + h / 2)
        k4 = fn(y + h * k3, end)
        return ys.at[i + 1].set(y + h * (k1 + 2 * k2 + 2 * k3 + k4) / 6.0)

    t = np.asarray(t)
    y0 = np.asarray(y0, dtype=float)
    ys = np.zeros((len(t),) + y0.shape).at[0].set(y0)
    return jax.lax.fori_loop(0, len(t) - 1, rk4, ys) if False else _unrolled(rk4, len(t) - 1, ys)


def _unrolled(body, n, value):
    return jax.lax.scan(lambda v, i: (body(i, v), None), value, np.arange(n))[0]
'''),
 ("likelihood.py", "+", '''
import operator
'''),
 ("transfer.py", "+", '''
_FITS = {"eisenhu_osc": True, "eisenhu": False}
'''),
]

# language features: generators, lazy iteration, named tuples, data classes, context managers, descriptors, match
HAND["F"] = [
 ("angular_cl.py", "+", '''
import contextlib
import dataclasses
import itertools
import operator
import typing


class _Pair(typing.NamedTuple):
    first: int
    second: int

    @property
    def auto(self):
        return self.first == self.second

    def swapped(self):
        return self._replace(first=self.second, second=self.first)


def _pairs(n):
    for i in itertools.count():
        if i >= n:
            return
        yield from (_Pair(i, j) for j in range(i, n))


@dataclasses.dataclass(frozen=True)
class _Blocks:
    order: tuple

    def __getitem__(self, pair):
        try:
            return self.order.index(pair)
        except ValueError:
            return self.order.index(pair.swapped())

    def __iter__(self):
        for left, right in itertools.product(self.order, repeat=2):
            yield self._block(left, right)

    def _block(self, left, right):
        i, j = left
        m, n = right
        return tuple(self[_Pair(*p)] for p in ((i, m), (j, n), (i, n), (j, m)))


@contextlib.contextmanager
def _explained(what):
    try:
        yield what
    except TypeError as err:
        raise TypeError(str(err)) from err
'''),
 ("angular_cl.py", "_get_cl_ordering", '''
def _get_cl_ordering(probes):
    """indices of the spectra"""
    n_tracers = sum(map(operator.attrgetter("n_tracers"), probes))
    return [tuple(p) for p in _pairs(n_tracers)]
'''),
 ("angular_cl.py", "_get_cov_blocks_ordering", '''
def _get_cov_blocks_ordering(probes):
    """indices of the covariance blocks"""
    return list(_Blocks(tuple(itertools.starmap(_Pair, _get_cl_ordering(probes)))))
'''),
 ("angular_cl.py", "noise_cl", '''
def noise_cl(ell, probes):
    """noise of the auto spectra"""
    levels = itertools.chain.from_iterable(p.noise() for p in probes)
    noise = dict(enumerate(levels))
    rows = []
    for pair in _pairs(len(noise)):
        rows.append(noise[pair.first] * float(pair.auto) * np.ones(len(ell)))
    return np.stack(rows)
'''),
 ("angular_cl.py", "gaussian_cl_covariance", '''
def gaussian_cl_covariance(ell, probes, cl_signal, cl_noise, f_sky=0.25, sparse=True):
    """Gaussian covariance"""
    with _explained("covariance"):
        ell = np.atleast_1d(ell)
        total = np.asarray(cl_signal) + cl_noise
        n_cls, n_ell = total.shape[0], len(ell)
        norm = (2 * ell + 1) * np.gradient(ell) * f_sky
        blocks = iter(_get_cov_blocks_ordering(probes))
        rows = [
            [
                (total[a] * total[b] + total[c] * total[d]) / norm
                for a, b, c, d in itertools.islice(blocks, n_cls)
            ]
            for _ in range(n_cls)
        ]
    match bool(sparse):
        case True:
            return np.array(rows)
        case _:
            return np.block([[np.diag(block) for block in row] for row in rows])
'''),
 ("redshift.py", "+", '''
class _Config:
    """configuration entry as an attribute"""

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        return obj.config[self.name]


def _chunks(seq, n):
    it = iter(seq)
    while chunk := tuple(_take(it, n)):
        yield chunk


def _take(it, n):
    for _ in range(n):
        try:
            yield next(it)
        except StopIteration:
            return
'''),
 ("redshift.py", "redshift_distribution", '''
class redshift_distribution(container):
    zmax = _Config()

    def __init__(self, *args, gals_per_arcmin2=1.0, zmax=10.0, **kwargs):
        """Initialize the parameters of the redshift distribution"""
        self._norm = None
        self._gals_per_arcmin2 = gals_per_arcmin2
        super().__init__(*args, zmax=zmax, **kwargs)

    @abstractmethod
    def pz_fn(self, z):
        """Un-normalized n(z)"""

    def __call__(self, z):
        """normalized n(z)"""
        norm = (
            simps(self.pz_fn, 0.0, self.zmax, 256) if self._norm is None else self._norm
        )
        return self.pz_fn(z) / norm

    @property
    def gals_per_arcmin2(self):
        return self._gals_per_arcmin2

    gals_per_steradian = property(
        lambda self: self.gals_per_arcmin2 * steradian_to_arcmin2
    )

    def tree_flatten(self):
        return (self.params, self._gals_per_arcmin2), self.config

    @classmethod
    def tree_unflatten(cls, aux_data, children):
        match children:
            case (args, density):
                return cls(*args, gals_per_arcmin2=density, **aux_data)
'''),
 ("redshift.py", "smail_nz.pz_fn", '''
def pz_fn(self, z):
    ((a, b, z0),) = _chunks(self.params, 3)
    zero = z == 0
    x = np.where(zero, 0.0, (np.where(zero, 1.0, z) / z0) ** b)
    return z**a * np.exp(-x)
'''),
 ("probes.py", "+", '''
import collections
import dataclasses
import enum
import itertools


class _Kind(enum.Enum):
    EXTENDED = enum.auto()
    PLANE = enum.auto()

    @classmethod
    def of(cls, pz):
        return cls.PLANE if isinstance(pz, rds.delta_nz) else cls.EXTENDED


@dataclasses.dataclass
class _Grouped:
    """bins grouped by kind, remembering where they came from"""

    members: dict = dataclasses.field(default_factory=lambda: collections.defaultdict(list))

    def add(self, i, pz):
        self.members[_Kind.of(pz)].append((i, pz))
        return self

    def of(self, kind):
        return [pz for _, pz in self.members[kind]]

    def order(self):
        return [i for kind in _Kind for i, _ in self.members[kind]]


def _stacked(functions, *args):
    return np.stack([f(*args) for f in functions], axis=0)


def _no_planes(what, pzs):
    if _Kind.PLANE in {_Kind.of(pz) for pz in pzs}:
        raise NotImplementedError(
            f"{what} kernel not properly implemented for delta redshift distributions"
        )


def _galaxy_kernel(cosmo, pzs, bias, z):
    match bias:
        case list():
            b = _stacked(bias, cosmo, z)
        case _:
            b = bias(cosmo, z)
    return _stacked(pzs, z) * b * bkgrd.H(cosmo, z2a(z))
'''),
 ("probes.py", "weak_lensing_kernel", '''
@jit
def weak_lensing_kernel(cosmo, pzs, z, ell):
    """weak lensing kernel"""
    z = np.atleast_1d(z)
    groups = _Grouped()
    for i, pz in enumerate(pzs):
        groups.add(i, pz)
    chi = bkgrd.radial_comoving_distance(cosmo, z2a(z))

    def ratio(z_prime):
        chi_prime = bkgrd.radial_comoving_distance(cosmo, z2a(z_prime))
        return np.clip(chi_prime - chi, 0) / np.clip(chi_prime, 1.0)

    def rows():
        if extended := groups.of(_Kind.EXTENDED):
            zmax = max(pz.zmax for pz in pzs)
            yield simps(
                vmap(lambda zp: _stacked(extended, zp) * ratio(zp)), z, zmax, 256
            )
        if planes := groups.of(_Kind.PLANE):
            yield vmap(ratio)(np.array([pz.params[0] for pz in planes]))

    kernel = np.concatenate([r * (1.0 + z) * chi for r in rows()], axis=0)
    where = {i: k for k, i in enumerate(groups.order())}
    kernel = np.stack([kernel[where[i]] for i in range(len(where))])
    factor = 3.0 * const.H0**2 * cosmo.Omega_m / 2.0 / const.c
    ell_factor = np.sqrt((ell - 1.0) * ell * (ell + 1.0) * (ell + 2.0)) / (ell + 0.5) ** 2
    return factor * ell_factor * kernel
'''),
 ("probes.py", "density_kernel", '''
@jit
def density_kernel(cosmo, pzs, bias, z, ell):
    """clustering kernel"""
    _no_planes("Density", pzs)
    return _galaxy_kernel(cosmo, pzs, bias, z)
'''),
 ("probes.py", "nla_kernel", '''
@jit
def nla_kernel(cosmo, pzs, bias, z, ell):
    """alignment kernel"""
    _no_planes("NLA", pzs)
    kernel = _galaxy_kernel(cosmo, pzs, bias, z)
    kernel *= (
        -(5e-14 * const.rhocrit) * cosmo.Omega_m / bkgrd.growth_factor(cosmo, z2a(z))
    )
    return (
        np.sqrt((ell - 1.0) * ell * (ell + 1.0) * (ell + 2.0)) / (ell + 0.5) ** 2 * kernel
    )
'''),
 ("probes.py", "WeakLensing.tree_unflatten", '''
@classmethod
def tree_unflatten(cls, aux_data, children):
    names = ("redshift_bins", "multiplicative_bias", "ia_bias")
    return cls(**dict(zip(names, children)), **aux_data)
'''),
 ("probes.py", "WeakLensing.noise", '''
def noise(self):
    """noise power"""
    density = np.array([pz.gals_per_steradian for pz in self.params[0]])
    match self.config:
        case {"sigma_e": [*values]}:
            sigma_e = np.array(values)
        case {"sigma_e": sigma_e}:
            pass
    return sigma_e**2 / density
'''),
 ("core.py", "+", '''
import collections

_PRIMARY = "Omega_c Omega_b h n_s sigma8 Omega_k w0 wa".split()
_Children = collections.namedtuple("_Children", _PRIMARY + ["gamma"], defaults=[None])
'''),
 ("core.py", "Cosmology.tree_flatten", '''
def tree_flatten(self):
    names = list(_PRIMARY)
    if self._flags["gamma_growth"]:
        names.append("gamma")
    return tuple(getattr(self, "_" + n) for n in names), self._flags
'''),
 ("core.py", "Cosmology.tree_unflatten", '''
@classmethod
def tree_unflatten(cls, aux_data, children):
    return cls(**_Children(*children)._asdict())
'''),
 ("sparse.py", "+", '''
import functools
import itertools


class _Shape(collections.namedtuple("_Shape", "rows cols")):
    @classmethod
    def of(cls, x, name):
        match x.shape:
            case (ny, nx, n):
                return cls(ny * n, nx * n)
            case (n,):
                return cls(n, n)
            case (ny, nx):
                return cls(ny, nx)
        raise ValueError(f"{name} has invalid dimension {x.ndim} (expected 1 or 2).")
'''),
 ("sparse.py", "=import jax.numpy as np\n", '''import collections

import jax.numpy as np
'''),
 ("sparse.py", "dot", '''
@jit
def dot(*args):
    """A @ B or A @ B @ C"""
    match args:
        case (A, B):
            A, B = map(np.asarray, args)
            left, right = _Shape.of(A, "A"), _Shape.of(B, "B")
            if left.cols != right.rows or (
                A.ndim == B.ndim == 3 and A.shape[2] != B.shape[2]
            ):
                raise ValueError(
                    f"Shapes of A {A.shape} and B {B.shape} not compatible for dot product."
                )
            table = {
                (3, 3): sparse_dot_sparse,
                (3, 1): sparse_dot_vec,
                (3, 2): sparse_dot_dense,
                (1, 3): vec_dot_sparse,
            }
            return table.get((A.ndim, B.ndim), dense_dot_sparse)(A, B)
        case (A, B, C):
            if (A.ndim, B.ndim, C.ndim) != (2, 3, 2):
                raise ValueError("Can only handle dense @ sparse @ dense bilinear form.")
            shapes = [_Shape.of(x, n) for x, n in zip(args, "ABC")]
            if any(p.cols != q.rows for p, q in itertools.pairwise(shapes)):
                raise ValueError(
                    "Shapes of A {A.shape}, B {B.shape}, C {C.shape} not compatible for dot product."
                )
            return dense_dot_sparse_dot_dense(A, B, C)
        case _:
            raise ValueError(f"Expected 2 or 3 input arrays but got {len(args)}.")
'''),
]

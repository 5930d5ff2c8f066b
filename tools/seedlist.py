SEEDS = []


def S(*a):
    SEEDS.append(a)


COSMO = 'cosmo = jc.Cosmology(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=0.8, Omega_k=0.0, w0=-1.0, wa=0.0)\n'

S("nz-density-static", "C02", [("redshift.py", """        children = (self.params, self._gals_per_arcmin2)
        aux_data = self.config
        return (children, aux_data)
""", """        children = (self.params,)
        aux_data = dict(self.config, gals_per_arcmin2=self._gals_per_arcmin2)
        return (children, aux_data)
"""), ("redshift.py", """        args, gals_per_arcmin2 = children
        return cls(*args, gals_per_arcmin2=gals_per_arcmin2, **aux_data)
""", """        (args,) = children
        return cls(*args, **aux_data)
""")], "a distribution with a number density that is varied or differentiated through the flattened form",
  "The galaxy number density is no longer a leaf but part of the static data.", '''
nz = jc.redshift.smail_nz(1.0, 2.0, 0.5, gals_per_arcmin2=3.0)
n = len(jax.tree_util.tree_leaves(nz))
check(n == 4, f"{n} leaves for three shape parameters and a density")
''')

S("normalisation-memo", "C03", [("power.py", """    pknorm = cosmo.sigma8**2 / sigmasqr(cosmo, 8.0, transfer_fn, **kwargs)
""", """    # The variance only has to be computed once per cosmology
    key = ("power.sigma8", transfer_fn)
    if key not in cosmo._workspace:
        cosmo._workspace[key] = sigmasqr(cosmo, 8.0, transfer_fn, **kwargs)
    pknorm = cosmo.sigma8**2 / cosmo._workspace[key]
""")], "two linear spectra of one cosmology object with different transfer options, in that order",
  "The variance that normalises the spectrum is remembered without the transfer options, so the second type is normalised with the first.", '''
C = dict(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=0.8, Omega_k=0.0, w0=-1.0, wa=0.0)
k = np.logspace(-2, 0, 5)
fresh = jc.power.linear_matter_power(jc.Cosmology(**C), k, type="eisenhu")
c = jc.Cosmology(**C)
jc.power.linear_matter_power(c, k)
close(jc.power.linear_matter_power(c, k, type="eisenhu"), fresh, "linear power after another type")
''')

S("shear-bias-inplace", "C04", [("probes.py", """        if isinstance(m, list):
            m = np.expand_dims(np.stack([mi for mi in m], axis=0), 1)
        kernel *= 1.0 + m
        return kernel
""", """        if isinstance(m, list):
            for i, mi in enumerate(m):
                m[i] = np.atleast_1d(1.0 + mi)
            kernel *= np.stack(m, axis=0)
        else:
            kernel *= 1.0 + m
        return kernel
""")], "a list of multiplicative biases and a second use of the probe",
  "The calibration factors are written back into the caller's list, so the second kernel is calibrated with 2+m.", '''
''' + COSMO + '''
nzs = [jc.redshift.smail_nz(1.0, 2.0, 0.5), jc.redshift.smail_nz(1.0, 2.0, 0.9)]
m = [0.02, -0.01]
p = jc.probes.WeakLensing(nzs, multiplicative_bias=m)
z = np.linspace(0.1, 1.0, 4)
p.kernel(cosmo, z, 100.0)
check(m == [0.02, -0.01], f"the list became {m}")
''')

S("spline-knots-memo", "C06", [("scipy/interpolate.py", """    def _compute_coeffs(self, xs):
        \"\"\"Compute the spline coefficients for a given x.\"\"\"
        # Retrieve parameters
        x, y, coefficients = self._x, self._y, self._coefficients
""", """    def _compute_coeffs(self, xs):
        \"\"\"Compute the spline coefficients for a given x.\"\"\"
        # Retrieve parameters
        x, y, coefficients = self._x, self._y, self._coefficients
        if getattr(self, "_h", None) is None:
            self._h = np.diff(x)
"""), ("scipy/interpolate.py", """        h = np.diff(knots)[ind]

        if self.k == 1:
            a = y[ind]
            result = (t, a, coefficients[ind])
""", """        h = np.diff(knots)[ind] if self.k == 2 else self._h[ind]

        if self.k == 1:
            a = y[ind]
            result = (t, a, coefficients[ind])
""")], "a cubic spline whose first evaluation happens inside a jitted function that closes over it, and a later evaluation outside",
  "Interval lengths computed inside a transformation stay in the spline object.", '''
x = np.linspace(0.0, 2.0, 9)
s = jc.scipy.interpolate.InterpolatedUnivariateSpline(x, np.sin(x))
jax.jit(lambda t: s(t))(np.array([0.3, 0.7]))
try:
    r = s(np.array([0.3, 0.7]))
except Exception as e:
    check(False, f"{type(e).__name__} when the spline is used again")
close(r, onp.sin([0.3, 0.7]), rtol=1e-3)
''')

S("halofit-frozen-scale", "C07", [("power.py", """    k_nl = 1.0 / R_nl(np.atleast_1d(a)).squeeze()
""", """    # The root finding is not worth differentiating through
    k_nl = 1.0 / jax.lax.stop_gradient(R_nl(np.atleast_1d(a))).squeeze()
""")], "a derivative of the nonlinear spectrum",
  "The nonlinear scale is cut from the gradient of the nonlinear power spectrum.", '''
def f(s8):
    c = jc.Cosmology(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=s8, Omega_k=0.0, w0=-1.0, wa=0.0)
    return jc.power.nonlinear_matter_power(c, np.array([0.5, 2.0]), np.array([0.7])).sum()

g = jax.grad(f)(0.8)
h = 1e-4
close(g, (f(0.8 + h) - f(0.8 - h)) / (2 * h), "gradient against finite differences", rtol=2e-2)
''')

S("lensing-observer-gradient", "C08", [("probes.py", """            return dndz * np.clip(chi_prime - chi, 0) / np.clip(chi_prime, 1.0)
""", """            eff = np.where(chi_prime > 0, 1.0 - chi / chi_prime, 0.0)
            return dndz * np.clip(eff, 0)
""")], "the derivative of the lensing kernel at the observer",
  "The lensing efficiency is 0/0 in the unselected branch at zero distance: values are right, derivatives are nan.", '''
def f(om):
    c = jc.Cosmology(Omega_c=om, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=0.8, Omega_k=0.0, w0=-1.0, wa=0.0)
    p = jc.probes.WeakLensing([jc.redshift.smail_nz(1.0, 2.0, 0.5)])
    return p.kernel(c, np.array([0.0, 0.5]), 100.0).sum()

check(onp.isfinite(f(0.25)), "value")
check(onp.isfinite(jax.grad(f)(0.25)), "gradient is not finite")
''')

S("almost-flat-is-flat", "C10", [("core.py", """        return -np.sign(self._Omega_k).astype(np.int8)
""", """        return -np.sign(np.round(self._Omega_k, 4)).astype(np.int8)
""")], "a curvature below 5e-5",
  "The reported curvature sign of a slightly curved universe is that of a flat one.", '''
c = jc.Cosmology(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=0.8, Omega_k=2e-5, w0=-1.0, wa=0.0)
check(int(c.k) == -1, f"curvature sign {c.k} for Omega_k = 2e-5")
''')

S("dark-energy-fraction-flat", "C11", [("background.py", """    return cosmo.Omega_de * np.exp(f_de(cosmo, a)) / Esqr(cosmo, a)
""", """    return cosmo.Omega - Omega_m_a(cosmo, a)
""")], "a curved universe",
  "The dark-energy fraction away from today absorbs the curvature fraction's evolution.", '''
c = jc.Cosmology(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=0.8, Omega_k=0.1, w0=-0.9, wa=0.2)
a = np.array([0.3, 0.6, 0.9])
f = -3 * (1 - 0.9 + 0.2) * onp.log(a) + 3 * 0.2 * (a - 1)
de = (1 - 0.1 - 0.3) * onp.exp(f)
e2 = 0.3 * a**-3.0 + 0.1 * a**-2.0 + de
close(jc.background.Omega_de_a(c, a), de / e2, "Omega_de(a)")
''')

S("angular-distance-radial", "C12", [("background.py", """    return a * transverse_comoving_distance(cosmo, a)
""", """    return a * radial_comoving_distance(cosmo, a)
""")], "a curved universe", "The angular diameter distance ignores curvature.", '''
c = jc.Cosmology(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=0.8, Omega_k=0.1, w0=-1.0, wa=0.0)
a = np.array([0.3, 0.6])
close(jc.background.angular_diameter_distance(c, a), a * jc.background.transverse_comoving_distance(c, a), "d_A")
''')

S("growth-constant-w", "C13", [("background.py", """                    + (1.0 + 3.0 * w(cosmo, x)) * Omega_de_a(cosmo, x)
""", """                    + (1.0 + 3.0 * cosmo.w0) * Omega_de_a(cosmo, x)
""")], "a dark energy equation of state that evolves (wa != 0)",
  "The friction term of the growth equation uses today's equation of state.", '''
kw = dict(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=0.8, Omega_k=0.0)
c = jc.Cosmology(w0=-0.9, wa=0.4, **kw)
from scipy.integrate import solve_ivp
def e2(a):
    return 0.3 * a**-3 + 0.7 * onp.exp(-3 * (1 - 0.9 + 0.4) * onp.log(a) + 3 * 0.4 * (a - 1))
def rhs(a, y):
    d = 1e-6 * a
    dl = (e2(a + d) - e2(a - d)) / (2 * d) / (2 * e2(a))
    return [y[1], -(3 / a + dl) * y[1] + 1.5 * 0.3 / (a**5 * e2(a)) * y[0]]
s = solve_ivp(rhs, (1e-3, 1.0), [1e-3, 1.0], t_eval=[0.5, 1.0], rtol=1e-8, atol=1e-12)
close(jc.background.growth_factor(c, np.array([0.5])), [s.y[0][0] / s.y[0][1]], "growth", rtol=2e-3)
''')

S("baryon-silk-scale", "C15", [("transfer.py", """            T_tilde(k, 1.0, 1.0) / (1.0 + (k * sh_d / 5.2) ** 2)
""", """            T_tilde(k, 1.0, 1.0) / (1.0 + (k * sh_d / 5.4) ** 2)
""")], "wavenumbers around the first acoustic peaks", "The baryon term of Eq. (21) uses the constant of the dark matter term, Eq. (18).", '''
''' + COSMO + '''
k = np.array([0.1, 0.15, 0.2])
import jax_cosmo.constants as const
h, om, ob = 0.7, 0.3 * 0.49, 0.05 * 0.49
th = const.tcmb / 2.7
keq = 7.46e-2 * om / th**2; zeq = 2.5e4 * om / th**4
b1 = 0.313 * om**-0.419 * (1 + 0.607 * om**0.674); b2 = 0.238 * om**0.223
zd = 1291 * om**0.251 / (1 + 0.659 * om**0.828) * (1 + b1 * ob**b2)
R = lambda z: 31.5 * ob / th**4 * 1e3 / z
s = 2 / (3 * keq) * onp.sqrt(6 / R(zeq)) * onp.log((onp.sqrt(1 + R(zd)) + onp.sqrt(R(zd) + R(zeq))) / (1 + onp.sqrt(R(zeq))))
ks = 1.6 * ob**0.52 * om**0.73 * (1 + (10.4 * om)**-0.95)
fb = 0.05 / 0.3; fc = 1 - fb; K = onp.asarray(k) * h; q = K / (13.41 * keq)
ac = ((46.9 * om)**0.67 * (1 + (32.1 * om)**-0.532))**-fb * ((12 * om)**0.424 * (1 + (45 * om)**-0.582))**(-fb**3)
bc = 1 / (1 + 0.944 / (1 + (458 * om)**-0.708) * (fc**((0.395 * om)**-0.0266) - 1))
def T0(a, b):
    C = 14.2 / a + 386 / (1 + 69.9 * q**1.08); L = onp.log(onp.e + 1.8 * b * q)
    return L / (L + C * q * q)
f = 1 / (1 + (K * s / 5.4)**4)
Tc = f * T0(1, bc) + (1 - f) * T0(ac, bc)
y = (1 + zeq) / (1 + zd); sy = onp.sqrt(1 + y)
ab = 2.07 * keq * s * (1 + R(zd))**-0.75 * y * (-6 * sy + (2 + 3 * y) * onp.log((sy + 1) / (sy - 1)))
bb = 0.5 + fb + (3 - 2 * fb) * onp.sqrt((17.2 * om)**2 + 1)
st = s / (1 + (8.41 * om**0.435 / (K * s))**3)**(1 / 3)
Tb = onp.sin(K * st) / (K * st) * (T0(1, 1) / (1 + (K * s / 5.2)**2) + ab / (1 + (bb / (K * s))**3) * onp.exp(-(K / ks)**1.4))
close(jc.transfer.Eisenstein_Hu(cosmo, k), fb * Tb + fc * Tc, "transfer function", rtol=1e-5)
''')

S("halofit-constant-w", "C16", [("power.py", """    w = bkgrd.w(cosmo, a)
""", """    w = cosmo.w0
""")], "evolving dark energy (wa != 0) at a < 1",
  "The Takahashi dark-energy correction uses today's equation of state.", '''
kw = dict(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=0.8, Omega_k=0.0)
c = jc.Cosmology(w0=-0.9, wa=0.4, **kw)
# the same model with the equation of state replaced by its value at that scale factor only where halofit uses it
import jax_cosmo.power as p
a, k = np.array([0.5]), np.array([1.0])
kn, n, C = [onp.asarray(x) for x in p._halofit_parameters(c, a, jc.transfer.Eisenstein_Hu)]
pl = onp.asarray(p.linear_matter_power(c, k, a))
om, ode, w = [float(f(c, a)[0]) for f in (jc.background.Omega_m_a, jc.background.Omega_de_a, jc.background.w)] if jc.background.w(c, a).ndim else None
an = 10 ** (1.5222 + 2.8553 * n + 2.3706 * n**2 + 0.9903 * n**3 + 0.2250 * n**4 - 0.6038 * C + 0.1749 * ode * (1 + w))
bn = 10 ** (-0.5642 + 0.5864 * n + 0.5716 * n**2 - 1.5474 * C + 0.2279 * ode * (1 + w))
cn = 10 ** (0.3698 + 2.0404 * n + 0.8161 * n**2 + 0.5869 * C)
ga = 0.1971 - 0.0843 * n + 0.8460 * C
al = abs(6.0835 + 1.3373 * n - 0.1959 * n**2 - 5.5274 * C)
be = 2.0379 - 0.7354 * n + 0.3157 * n**2 + 1.2490 * n**3 + 0.3980 * n**4 - 0.1682 * C
nu = 10 ** (5.2105 + 3.6902 * n)
f1, f2, f3 = om**-0.0307, om**-0.0585, om**0.0743
d2 = onp.asarray(k)**3 * pl / (2 * onp.pi**2); y = onp.asarray(k) / kn
dq = d2 * (1 + d2)**be / (1 + al * d2) * onp.exp(-(y / 4 + y**2 / 8))
dh = an * y**(3 * f1) / (1 + bn * y**f2 + (cn * f3 * y)**(3 - ga)) / (1 + nu / y**2)
want = 2 * onp.pi**2 / onp.asarray(k)**3 * (dq + dh)
close(onp.ravel(p.nonlinear_matter_power(c, k, a)), onp.ravel(want), "nonlinear power", rtol=1e-4)
''')

S("limber-first-zmax", "C17", [("angular_cl.py", """    zmax = max([p.zmax for p in probes])
""", """    zmax = probes[0].zmax
""")], "several probes of which a later one is deeper than the first",
  "The Limber integral stops at the depth of the first probe.", '''
''' + COSMO + '''
lens = jc.probes.NumberCounts([jc.redshift.smail_nz(2.0, 2.0, 0.3, zmax=0.5)], jc.bias.constant_linear_bias(1.0))
src = jc.probes.WeakLensing([jc.redshift.smail_nz(2.0, 2.0, 0.9, zmax=4.0)])
ell = np.array([50.0, 500.0])
alone = jc.angular_cl.angular_cl(cosmo, ell, [src], nonlinear_fn=jc.power.linear)
both = jc.angular_cl.angular_cl(cosmo, ell, [lens, src], nonlinear_fn=jc.power.linear)
close(both[2], alone[0], "shear auto-spectrum next to a shallow probe", rtol=1e-4)
''')

S("noise-column-order", "C18", [("angular_cl.py", """    # Define an ordering for the blocks of the signal vector
    cl_index = np.array(_get_cl_ordering(probes))

    # Only include a noise contribution for the auto-spectra
""", """    # Define an ordering for the blocks of the signal vector
    n = len(noise)
    cl_index = np.array([(i, j) for j in range(n) for i in range(j + 1)])

    # Only include a noise contribution for the auto-spectra
""")], "three or more tracers", "Noise spectra are ordered column by column, signal spectra row by row.", '''
nzs = [jc.redshift.smail_nz(1.0, 2.0, z, gals_per_arcmin2=g) for z, g in ((0.3, 2.0), (0.5, 3.0), (0.9, 5.0))]
p = jc.probes.NumberCounts(nzs, jc.bias.constant_linear_bias(1.0))
n = onp.asarray(jc.angular_cl.noise_cl(np.array([10.0, 20.0]), [p]))[:, 0]
auto = [i for i, (a, b) in enumerate(jc.angular_cl._get_cl_ordering([p])) if a == b]
check([i for i in range(6) if n[i] > 0] == auto, f"noise {n} in the auto-spectra {auto}")
''')

S("uniform-bandwidth", "C20", [("angular_cl.py", """    norm = (2 * ell + 1) * np.gradient(ell) * f_sky
""", """    norm = (2 * ell + 1) * (ell[1] - ell[0]) * f_sky
""")], "multipoles that are not equally spaced", "The band width of the first pair is used for all multipoles.", '''
p = jc.probes.NumberCounts([jc.redshift.smail_nz(1.0, 2.0, 0.5)], jc.bias.constant_linear_bias(1.0))
ell = np.array([10.0, 20.0, 50.0, 200.0])
s, n = np.ones((1, 4)), np.zeros((1, 4))
c = jc.angular_cl.gaussian_cl_covariance(ell, [p], s, n, f_sky=0.5)
close(c[0, 0], 2.0 / ((2 * ell + 1) * onp.gradient(onp.asarray(ell)) * 0.5), "Knox variance")
''')

S("sparse-inverse-transposed", "C22", [("sparse.py", """    return np.transpose(np.linalg.inv(np.transpose(sparse, (2, 0, 1))), (1, 2, 0))
""", """    return np.transpose(np.linalg.inv(np.transpose(sparse, (2, 0, 1))))
""")], "a matrix that is not symmetric", "The inverse of a non-symmetric sparse matrix comes out transposed.", '''
s = np.array([[[2.0, 3.0], [1.0, 0.5]], [[0.2, -0.4], [1.5, 2.5]]])
from jax_cosmo import sparse
close(sparse.to_dense(sparse.inv(s)), onp.linalg.inv(onp.asarray(sparse.to_dense(s))), "inverse")
''')

S("mixed-delta-clustering", "C23", [("probes.py", """    Computes the number counts density kernel
    \"\"\"
    if any(isinstance(pz, rds.delta_nz) for pz in pzs):
""", """    Computes the number counts density kernel
    \"\"\"
    if isinstance(pzs[0], rds.delta_nz):
""")], "a clustering probe whose delta bin is not the first",
  "A delta-function bin behind an extended one silently gets a density kernel.", '''
''' + COSMO + '''
p = jc.probes.NumberCounts([jc.redshift.smail_nz(1.0, 2.0, 0.5), jc.redshift.delta_nz(0.8)], jc.bias.constant_linear_bias(1.0))
try:
    p.kernel(cosmo, np.array([0.4, 0.8]), 100.0)
except NotImplementedError:
    sys.exit(0)
check(False, "a clustering kernel for a delta bin was returned")
''')

S("shift-parent-config", "C24", [("redshift.py", """        return parent_pz.pz_fn(np.clip(z - bias, 0))
""", """        return parent_pz.pz_fn(np.clip(z, 0) - bias)
""")], "a positive shift and redshifts below it", "The shape of a shifted distribution is evaluated at negative redshifts.", '''
nz = jc.redshift.systematic_shift(jc.redshift.smail_nz(2.0, 2.0, 0.5), 0.1)
z = np.array([0.0, 0.05, 0.5])
close(nz.pz_fn(z), nz.params[0].pz_fn(np.clip(z - 0.1, 0)), "shifted shape")
''')

S("alignment-uncalibrated", "C25", [("probes.py", """        # If IA is enabled, we add the IA kernel
        if self.config["ia_enabled"]:
            bias = self.params[2]
            kernel += nla_kernel(cosmo, pzs, bias, z, ell)
        # Applies measurement systematics
        if isinstance(m, list):
            m = np.expand_dims(np.stack([mi for mi in m], axis=0), 1)
        kernel *= 1.0 + m
        return kernel
""", """        # Applies measurement systematics
        if isinstance(m, list):
            m = np.expand_dims(np.stack([mi for mi in m], axis=0), 1)
        kernel *= 1.0 + m
        # If IA is enabled, we add the IA kernel
        if self.config["ia_enabled"]:
            bias = self.params[2]
            kernel += nla_kernel(cosmo, pzs, bias, z, ell)
        return kernel
""")], "intrinsic alignments together with a multiplicative bias",
  "The alignment kernel is added after the shear calibration, so it misses the factor 1+m.", '''
''' + COSMO + '''
nz = [jc.redshift.smail_nz(2.0, 2.0, 0.4), jc.redshift.smail_nz(2.0, 2.0, 0.9)]
ia = jc.bias.des_y1_ia_bias(1.0, 0.5, 0.62)
z = np.array([0.2, 0.5])
a = jc.probes.WeakLensing(nz, ia_bias=ia).kernel(cosmo, z, 100.0)
b = jc.probes.WeakLensing(nz, ia_bias=ia, multiplicative_bias=0.1).kernel(cosmo, z, 100.0)
close(b, 1.1 * a, "calibrated kernel")
''')

S("natural-left-end", "C27", [("scipy/interpolate.py", """                A01 = zero if endpoints == "natural" else array([-(h[0] + h[1])])
""", """                A01 = -one if endpoints == "natural" else array([-(h[0] + h[1])])
""")], "a cubic spline with natural ends", "The first equation of natural splines equates the curvature at the first two points instead of setting it to zero.", '''
x = np.array([0.0, 0.3, 0.5, 1.0, 1.2, 2.0])
s = jc.scipy.interpolate.InterpolatedUnivariateSpline(x, np.sin(3 * x) + x**2, endpoints="natural")
close(s.derivative(np.array([0.0, 2.0]), 2), np.zeros(2), "curvature at the ends", atol=1e-9)
''')

S("romberg-reversed", "C28", [("scipy/integrate.py", """    intrange = b - a
""", """    intrange = np.abs(b - a)
""")], "an upper limit below the lower one", "Romberg integrals over reversed intervals have the wrong sign.", '''
f = lambda x: x**3 + 1.0
close(jc.scipy.integrate.romb(f, 2.0, 0.5), -(2.0**4 / 4 + 2.0 - 0.5**4 / 4 - 0.5), "reversed interval")
''')

S("steradian-digits", "C30", [("redshift.py", "steradian_to_arcmin2 = 11818102.86004228", "steradian_to_arcmin2 = 11881102.86004228")],
  "any noise level or density per steradian", "Two digits of the conversion from steradian to square arcminutes are transposed.", '''
nz = jc.redshift.smail_nz(1.0, 2.0, 0.5, gals_per_arcmin2=3.0)
close(nz.gals_per_steradian, 3.0 * (180 * 60 / onp.pi) ** 2, "density per steradian")
''')

S("shot-noise-single", "C31", [("probes.py", """        ngals = np.array([pz.gals_per_steradian for pz in pzs])
        return 1.0 / ngals
""", """        ngals = np.array([pz.gals_per_steradian for pz in pzs], dtype=np.float32)
        return 1.0 / ngals
""")], "64-bit JAX", "Shot noise is computed in single precision whatever the JAX configuration.", '''
p = jc.probes.NumberCounts([jc.redshift.smail_nz(1.0, 2.0, 0.5, gals_per_arcmin2=3.3)], jc.bias.constant_linear_bias(1.0))
n = p.noise()
check(n.dtype == np.float64, f"{n.dtype}")
close(n, [1.0 / p.params[0][0].gals_per_steradian], "noise", rtol=1e-12)
''')

S("linear-default-transfer", "C32", [("power.py", """    return linear_matter_power(cosmo, k, a, transfer_fn)
""", """    return linear_matter_power(cosmo, k, a)
""")], "the linear spectrum with a transfer function other than the default", "linear() ignores the transfer function it is given.", '''
''' + COSMO + '''
from functools import partial
tf = partial(jc.transfer.Eisenstein_Hu, type="eisenhu")
k = np.logspace(-2, 0, 20)
r = jc.power.nonlinear_matter_power(cosmo, k, 0.5, transfer_fn=tf, nonlinear_fn=jc.power.linear)
close(r, jc.power.linear_matter_power(cosmo, k, 0.5, transfer_fn=tf), "linear spectrum")
''')

S("zmax-rounded", "C01", [("redshift.py", """        aux_data = self.config
        return (children, aux_data)
""", """        # Nearly equal configurations share one compilation
        aux_data = dict(self.config, zmax=round(self.config["zmax"], 1))
        return (children, aux_data)
""")], "a maximum redshift with more than one decimal and an object that crosses a JAX transformation",
  "The maximum redshift of a distribution is rounded to one decimal whenever JAX flattens it.", '''
nz = jc.redshift.smail_nz(1.0, 2.0, 0.5, zmax=1.25)
r = jax.tree_util.tree_map(lambda x: x, nz)
check(r.zmax == nz.zmax, f"zmax {r.zmax}")
''')

S("radius-concrete", "C05", [("power.py", """        x = k * R
        w = 3.0""", """        x = k * float(R)
        w = 3.0""")], "a radius that is traced (jit, grad or vmap over R)",
  "The radius of the top-hat variance must be a concrete number.", '''
cosmo = jc.Planck15()
f = lambda R: jc.power.sigmasqr(cosmo, R, jc.transfer.Eisenstein_Hu)
try:
    y = jax.jit(f)(9.0)
except Exception as e:
    check(False, f"traced radius: {type(e).__name__}")
close(y, f(9.0), "traced radius")
''')

S("alignment-shared-bias", "C09", [("probes.py", """    if isinstance(bias, list):
        # This is to handle the case where we get a bin-dependent bias
        b = np.stack([b(cosmo, z) for b in bias], axis=0)
    else:
        b = bias(cosmo, z)
    radial_kernel = dndz * b * bkgrd.H(cosmo, z2a(z))
    # Apply common""", """    if isinstance(bias, list):
        # This is to handle the case where we get a bin-dependent bias
        b = np.stack([bi(cosmo, z[0]) * np.ones_like(z) for bi in bias], axis=0)
    else:
        b = bias(cosmo, z)
    radial_kernel = dndz * b * bkgrd.H(cosmo, z2a(z))
    # Apply common""")], "a list of alignment models that depend on redshift",
  "Alignment amplitudes given per bin are taken at the first redshift of the call.", '''
cosmo = jc.Planck15()
nzs = [jc.redshift.smail_nz(1.0, 2.0, z0) for z0 in (0.5, 1.0)]
ia = jc.bias.des_y1_ia_bias(0.8, 1.3, 0.6)
z = np.array([0.3, 0.9, 1.7])
close(jc.probes.WeakLensing(nzs, ia_bias=[ia, ia]).kernel(cosmo, z, 100.0), jc.probes.WeakLensing(nzs, ia_bias=ia).kernel(cosmo, z, 100.0), "kernel")
''')

S("lensing-floor-distance", "C25", [("probes.py", """            dndz = np.stack([pzs[i](z_prime) for i in pzs_extended_idx], axis=0)
            return dndz * np.clip(chi_prime - chi, 0) / np.clip(chi_prime, 1.0)
""", """            dndz = np.stack([pzs[i](z_prime) for i in pzs_extended_idx], axis=0)
            return dndz * np.clip(chi_prime - chi, 0) / np.clip(chi_prime, 100.0)
""")], "sources closer than 100 Mpc/h", "The efficiency of nearby sources is divided by 100 Mpc/h instead of their distance.", '''
cosmo = jc.Planck15()
near = jc.redshift.smail_nz(2.0, 8.0, 0.015, zmax=0.03)
w = jc.probes.WeakLensing([near]).kernel(cosmo, np.array([0.01]), 100.0)[0, 0]
zs = onp.linspace(0.01, 0.03, 4001)
chi = jc.background.radial_comoving_distance(cosmo, 1 / (1 + zs))
f = near(zs) * (1 - chi[0] / chi)
scale = jc.constants.H0**2 * 1.5 * cosmo.Omega_m / jc.constants.c * onp.sqrt(99.0 * 100 * 101 * 102) / 100.5**2
want = onp.sum((f[1:] + f[:-1]) / 2) * (zs[1] - zs[0]) * 1.01 * chi[0] * scale
close(w, want, "kernel of a nearby plane", rtol=0.01)
''')

S("window-series", "C14", [("power.py", """        w = 3.0 * (np.sin(x) - x * np.cos(x)) / (x * x * x)
        pk""", """        # The closed form cancels for small arguments
        w = 3.0 * (np.sin(x) - x * np.cos(x)) / (x * x * x)
        w = np.where(x < 0.05, 1.0 - x**2 / 5.0, w)
        pk""")], "wavenumbers below 0.05/R", "The series of the top-hat window has the wrong quadratic coefficient.", '''
cosmo = jc.Planck15()
tk = lambda c, k: np.where(k < 2e-4, 1.0, 0.0)  # only very large scales
R, n = 200.0, cosmo.n_s
got = jc.power.sigmasqr(cosmo, R, tk, kmin=1e-4, kmax=2e-4)
u = onp.linspace(onp.log(1e-4), onp.log(2e-4), 20001)
k = onp.exp(u)
x = k * R
w = 3 * (onp.sin(x) - x * onp.cos(x)) / x**3
f = k**3 * w**2 * k**n / (2 * onp.pi**2)
close(got, onp.sum((f[1:] + f[:-1]) / 2) * (u[1] - u[0]), "variance", rtol=1e-4)
''')

S("rms-ellipticity", "C19", [("probes.py", """            sigma_e = np.array([s for s in self.config["sigma_e"]])
""", """            # rms over the sample
            sigma_e = np.sqrt(np.mean(np.array(self.config["sigma_e"]) ** 2))
""")], "a list of ellipticity dispersions that differ between bins", "Every shear bin gets the rms dispersion instead of its own.", '''
nzs = [jc.redshift.smail_nz(1.0, 2.0, z0, gals_per_arcmin2=3.0) for z0 in (0.5, 1.0)]
n = jc.probes.WeakLensing(nzs, sigma_e=[0.2, 0.4]).noise()
close(n[1] / n[0], 4.0, "ratio of the noise levels")
''')

S("log-of-det", "C21", [("likelihood.py", """            _, logdet = np.linalg.slogdet(C)
""", """            logdet = np.log(np.linalg.det(C))
""")], "a covariance whose determinant leaves the range of floating-point numbers (many or very small entries)",
  "The log-determinant is taken of the determinant, which underflows for realistic covariances.", '''
n = 40
C = 1e-10 * (np.eye(n) + 0.1)
d, mu = np.zeros(n), 1e-5 * np.ones(n)
want = -0.5 * (mu @ onp.linalg.solve(onp.asarray(C), mu) + onp.linalg.slogdet(onp.asarray(C))[1])
close(jc.likelihood.gaussian_log_likelihood(d, mu, C), want, "log likelihood")
''')

S("bias-of-integer-redshift", "C26", [("bias.py", "        return b * np.ones_like(z)", "        return np.full_like(z, b)")],
  "a redshift array of integer type", "A constant bias is truncated to an integer for integer redshifts.", '''
b = jc.bias.constant_linear_bias(1.5)
close(b(jc.Planck15(), np.array([1, 2])), [1.5, 1.5], "bias at integer redshifts")
''')

S("interp-relative-neighbour", "C29", [("scipy/interpolate.py", "    ind = np.argmin((x - xp) ** 2)", "    ind = np.argmin(np.abs(np.log(np.abs(x / xp))))")],
  "a table with zero or negative abscissae", "The nearest node is searched in the ratio of the abscissae, which has no meaning at and across zero.", '''
xp = np.linspace(-1.0, 1.0, 9)
fp = np.cos(3 * xp)
x = np.array([-0.9, -0.4, 0.1, 0.6, 0.95])
close(jc.scipy.interpolate.interp(x, xp, fp), onp.interp(x, xp, fp), "interpolation")
''')

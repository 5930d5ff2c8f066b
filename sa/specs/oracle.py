"""Independent formulae, written from the papers, as builders of value numbers."""
import math

from ..terms import Term, const, mk, sym, opaque
from ..summaries import xis, full_interp, coarse_nodes

PI = math.pi
C_KMS = 299792.458
RH = C_KMS / 100.0
TCMB = 2.726


def T_(x):
    return const(x)


def exp(x):
    return mk("exp", x)


def log(x):
    return mk("log", x)


def log10(x):
    return mk("log10", x)


def sqrt(x):
    return mk("sqrt", x)


def sin(x):
    return mk("sin", x)


def cos(x):
    return mk("cos", x)


def sinh(x):
    return mk("sinh", x)


def pow_(x, y):
    return mk("pow", x, y)


def abs_(x):
    return mk("abs", x)


def max_(x, y):
    return mk("max", x, y)


def where(c, a, b):
    return mk("select", c, a, b)


def lt(a, b):
    return mk("lt", a, b)


def quad(f, a, b):
    """The contract of a quadrature over [a, b]."""
    a, b = T_(a), T_(b)
    w = b - a
    x0, x1 = [a + x * w for x in xis()]
    return w * (const(0.5) * (f(x0) + f(x1)))


class Cos:
    """Parameters of a cosmology as terms."""

    def __init__(self, tag="", gamma=False, **over):
        from ..lib import COSMO, GAMMA
        for n, (lo, hi) in COSMO.items():
            setattr(self, n, sym(tag + n, lo, hi))
        self.gamma = sym(tag + "gamma", *GAMMA) if gamma else None
        for k, v in over.items():
            setattr(self, k, const(v))

    @property
    def Omega_m(self):
        return self.Omega_c + self.Omega_b

    @property
    def Omega_de(self):
        return 1.0 - self.Omega_k - (self.Omega_b + self.Omega_c)

    def w(self, a):
        return self.w0 + self.wa * (1.0 - a)

    def de(self, a):
        """rho_de(a) / rho_de(1) for w = w0 + wa (1 - a)."""
        return pow_(a, -3.0 * (1.0 + self.w0 + self.wa)) * exp(3.0 * self.wa * (a - 1.0))

    def E2(self, a):
        a = T_(a)
        return self.Omega_m / (a * a * a) + self.Omega_k / (a * a) + self.Omega_de * self.de(a)

    def E2prime(self, a):
        return (-3.0 * self.Omega_m / (a * a * a * a) - 2.0 * self.Omega_k / (a * a * a)
                + self.Omega_de * self.de(a) * (-3.0 * (1.0 + self.w0 + self.wa) / a + 3.0 * self.wa))

    def E(self, a):
        return sqrt(self.E2(a))

    def Om_a(self, a):
        return self.Omega_m / (a * a * a) / self.E2(a)

    def Ode_a(self, a):
        return self.Omega_de * self.de(a) / self.E2(a)

    def dchida(self, a):
        return RH / (a * a * self.E(a))

    # -- tables
    def chi_table(self, lamin=-3.0, n=256):
        """(a nodes, chi nodes) at the first, middle, last entry of a log-spaced table."""
        lamin = T_(lamin)
        ids = coarse_nodes(n)
        la = [lamin * (1.0 - i / (n - 1.0)) * math.log(10.0) for i in ids]
        an = [exp(x) for x in la]

        def g(x):
            a = exp(x)
            return RH / (a * self.E(a))

        q = [const(0.0) if i == 0 else quad(g, la[0], x) for i, x in zip(ids, la)]
        return an, [q[-1] - x for x in q]

    def chi(self, a, lamin=-3.0, n=256):
        an, cn = self.chi_table(lamin, n)
        return full_interp(None, T_(a), an, cn)

    def a_of_chi(self, chi, lamin=-3.0, n=256):
        an, cn = self.chi_table(lamin, n)
        return full_interp(None, T_(chi), cn, an)

    def fk(self, chi, sign):
        if sign > 0:
            s = sqrt(self.Omega_k)
            return RH / s * sinh(s * chi / RH)
        if sign < 0:
            s = sqrt(-self.Omega_k)
            return RH / s * sin(s * chi / RH)
        return chi

    def growth_table(self, n=128):
        """Contract of the ODE D'' = -(3/a + E'/E) D' + 3/2 Om/(a^5 E^2) D started at D=a, D'=1."""
        la0 = -3.0 * math.log(10.0)
        ids = coarse_nodes(n)
        an = [const(10.0 ** (-3.0 * (1.0 - i / (n - 1.0)))) for i in ids]
        D0, P0 = an[0], const(1.0)
        D, Pr = [D0], [P0]
        for i, name in ((1, "mid"), (2, "last")):
            h = an[i] - an[0]
            dD = dP = None
            for s, x in enumerate(xis()):
                a = an[0] + x * h
                Y0 = sym(f"Y[0]@{s}.{name}", 0.3, 1.2)
                Y1 = sym(f"Y[1]@{s}.{name}", 0.3, 1.2)
                e2 = self.E2(a)
                d2 = -1.0 * (3.0 / a + 0.5 * self.E2prime(a) / e2) * Y1 + 1.5 * self.Omega_m / (a * a * a * a * a * e2) * Y0
                dD = Y1 if dD is None else dD + Y1
                dP = d2 if dP is None else dP + d2
            D.append(D0 + h * 0.5 * dD)
            Pr.append(P0 + h * 0.5 * dP)
        g = [d / D[-1] for d in D]
        f = [a * p / d for a, p, d in zip(an, Pr, D)]
        return an, g, f

    def growth(self, a, n=128):
        if self.gamma is not None:
            an, g = self.growth_gamma_table(n)
            return full_interp(None, T_(a), an, g)
        an, g, f = self.growth_table(n)
        return full_interp(None, T_(a), an, g)

    def growth_rate(self, a, n=128):
        if self.gamma is not None:
            return pow_(self.Om_a(T_(a)), self.gamma)
        an, g, f = self.growth_table(n)
        return full_interp(None, T_(a), an, f)

    def growth_gamma_table(self, n=128):
        ids = coarse_nodes(n)
        la = [const(-3.0 * (1.0 - i / (n - 1.0)) * math.log(10.0)) for i in ids]

        def f(x):
            return pow_(self.Om_a(exp(x)), self.gamma)

        q = [const(0.0)] + [quad(f, la[0], x) for x in la[1:]]
        return [exp(x) for x in la], [exp(x - q[-1]) for x in q]

    # -- transfer functions, Eisenstein & Hu (1998)
    def eh(self, k, wiggles=True):
        """k in h/Mpc."""
        k = T_(k)
        h, Om, Ob = self.h, self.Omega_m, self.Omega_b
        om = Om * h * h                  # Omega_0 h^2
        ob = Ob * h * h
        fb = Ob / Om
        fc = (Om - Ob) / Om
        th = TCMB / 2.7
        zeq = 2.5e4 * om * th ** -4                                             # (2)
        keq = 7.46e-2 * om * th ** -2                                           # (3), 1/Mpc
        b1 = 0.313 * pow_(om, -0.419) * (1.0 + 0.607 * pow_(om, 0.674))
        b2 = 0.238 * pow_(om, 0.223)
        zd = 1291.0 * pow_(om, 0.251) / (1.0 + 0.659 * pow_(om, 0.828)) * (1.0 + b1 * pow_(ob, b2))  # (4)

        def R(z):
            return 31.5 * ob * th ** -4 * (1000.0 / z)                          # (5)

        Rd, Req = R(zd), R(zeq)
        s = 2.0 / (3.0 * keq) * sqrt(6.0 / Req) * log((sqrt(1.0 + Rd) + sqrt(Rd + Req)) / (1.0 + sqrt(Req)))  # (6) Mpc
        ksilk = 1.6 * pow_(ob, 0.52) * pow_(om, 0.73) * (1.0 + pow_(10.4 * om, -0.95))  # (7) 1/Mpc
        kk = k * h                                                              # 1/Mpc
        if not wiggles:
            alg = 1.0 - 0.328 * log(431.0 * om) * fb + 0.38 * log(22.3 * om) * fb * fb  # (31)
            gam = Om * h * (alg + (1.0 - alg) / (1.0 + pow_(0.43 * kk * s, 4.0)))  # (30), with s of (6)
            q = k * th * th / gam                                               # (28)
            L0 = log(2.0 * math.e + 1.8 * q)
            C0 = 14.2 + 731.0 / (1.0 + 62.5 * q)
            return L0 / (L0 + C0 * q * q)                                       # (29)
        q = kk / (13.41 * keq)                                                  # (10)
        a1 = pow_(46.9 * om, 0.670) * (1.0 + pow_(32.1 * om, -0.532))
        a2 = pow_(12.0 * om, 0.424) * (1.0 + pow_(45.0 * om, -0.582))
        alc = pow_(a1, -1.0 * fb) * pow_(a2, -1.0 * fb * fb * fb)               # (11)
        bb1 = 0.944 / (1.0 + pow_(458.0 * om, -0.708))
        bb2 = pow_(0.395 * om, -0.0266)
        bec = 1.0 / (1.0 + bb1 * (pow_(fc, bb2) - 1.0))                         # (12)

        def T0(q, ac, bc):
            C = 14.2 / ac + 386.0 / (1.0 + 69.9 * pow_(q, 1.08))                # (20)
            L = log(math.e + 1.8 * bc * q)
            return L / (L + C * q * q)                                          # (19)

        x = kk * s
        f = 1.0 / (1.0 + pow_(x / 5.4, 4.0))                                    # (18)
        Tc = f * T0(q, T_(1.0), bec) + (1.0 - f) * T0(q, alc, bec)              # (17)
        y = (1.0 + zeq) / (1.0 + zd)
        sy = sqrt(1.0 + y)
        G = y * (-6.0 * sy + (2.0 + 3.0 * y) * log((sy + 1.0) / (sy - 1.0)))    # (15)
        alb = 2.07 * keq * s * pow_(1.0 + Rd, -0.75) * G                        # (14)
        beb = 0.5 + fb + (3.0 - 2.0 * fb) * sqrt(pow_(17.2 * om, 2.0) + 1.0)    # (24)
        bnode = 8.41 * pow_(om, 0.435)                                          # (23)
        st = s / pow_(1.0 + pow_(bnode / x, 3.0), 1.0 / 3.0)                    # (22)
        j0 = sin(kk * st) / (kk * st)
        Tb = j0 * (T0(q, T_(1.0), T_(1.0)) / (1.0 + pow_(x / 5.2, 2.0))
                   + alb / (1.0 + pow_(beb / x, 3.0)) * exp(-1.0 * pow_(kk / ksilk, 1.4)))  # (21)
        return fb * Tb + fc * Tc                                                # (16)


def tophat(x):
    return 3.0 * (sin(x) - x * cos(x)) / (x * x * x)

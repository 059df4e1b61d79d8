"""The two-point function of any pair of contributions, from their definitions in linear theory.

Every contribution to the number counts at x = lambda n is, for each Fourier mode, a polynomial in mu = k.n/k and 1/k
times exp(i k.x) D(z) delta(k):
  density  b                      rsd   f mu^2                   d1    -i f H G mu / k     d2    (3 - f_evo) f H^2 / k^2
  g1       (1 + G) phi            g2    (5 s - 2) phi            g3    (f - 1) phi         with phi = -3 Om H0^2 / (2 a k^2)
  g4       (2 - 5 s) int dx 2 phi     g5   G chi int dx H (f - 1) 2 phi
  lensing  (5 s - 2) / 2 int dx (1 - x) / x Laplacian(2 phi)          with x = lambda / chi
and the correlation of two of them is the integral of P(k) times the product over all k.  Nothing is shared with
functions.c: the average over the directions of k is a product Gauss rule, the integral over |k| a trapezoid sum.
Terms that diverge (1/k^4) have the monopole on the sky subtracted: j0(k r) - j0(k chi1) j0(k chi2).
"""
import numpy as np

H0 = 1 / 2997.92458           # h/Mpc


def sphjn(lmax, x):
    """j_0 .. j_lmax at x (array): series for small x, upward recursion elsewhere."""
    x = np.asarray(x, float)
    out = np.empty((lmax + 1,) + x.shape)
    big = x > lmax + 2.0
    xb = np.where(big, x, 1.0)
    s, c = np.sin(xb), np.cos(xb)
    up = [s / xb, s / xb ** 2 - c / xb]
    for l in range(1, lmax):
        up.append((2 * l + 1) / xb * up[l] - up[l - 1])
    xs = x[~big]
    for l in range(lmax + 1):
        out[l] = up[l]
        term = np.ones_like(xs)
        for i in range(1, l + 1):
            term = term * xs / (2 * i + 1)
        tot = term.copy()
        for i in range(1, 40):
            term = term * (-xs * xs / 2) / (i * (2 * l + 2 * i + 1))
            tot += term
        out[l][~big] = tot
    return out


class Radial:
    """R(m, l)(r) = 1 / (2 pi^2) int k^2 P(k) k^-m j_l(k r) dk, tabulated."""
    LMAX = 4

    def __init__(self, k, p, rmax, step=1.0):
        self.k, self.p = k, p
        w = np.empty_like(k)
        w[1:-1] = (k[2:] - k[:-2]) / 2
        w[0], w[-1] = (k[1] - k[0]) / 2, (k[-1] - k[-2]) / 2
        self.w = w * k * k * p / (2 * np.pi ** 2)
        # dense where the functions vary
        self.r = np.arange(0, rmax + step, step)
        self.step = step
        ms = range(5)
        W = np.array([self.w / k ** m for m in ms])
        tab = np.zeros((5, self.LMAX + 1, self.r.size))
        for i in range(0, self.r.size, 100):
            r = self.r[i:i + 100]
            j = sphjn(self.LMAX, np.outer(k, r))          # l, k, r
            for l in range(self.LMAX + 1):
                tab[:, l, i:i + 100] = W @ j[l]
        # the divergent one with j0 - 1
        self.norm4 = W[4].sum()
        tab[4, 0] -= self.norm4
        self.tab = tab

    def __call__(self, m, l, r):
        """Six-point Lagrange interpolation on the regular grid."""
        r = np.asarray(r, float)
        f = self.tab[m, l]
        i = np.clip((r / self.step).astype(int) - 2, 0, f.size - 6)
        t = r / self.step - i
        out = 0.0
        for a in range(6):
            c = 1.0
            for b in range(6):
                if b != a:
                    c = c * (t - b) / (a - b)
            out = out + c * f[i + a]
        return out

    def j0j0(self, chi1, chi2):
        """int k^2 P / (2 pi^2) k^-4 (j0(k chi1) j0(k chi2) - 1)"""
        chi1, chi2 = np.atleast_1d(chi1).astype(float), np.atleast_1d(chi2).astype(float)
        j = np.sinc(np.outer(self.k, chi1) / np.pi) * np.sinc(np.outer(self.k, chi2) / np.pi) - 1
        return (self.w / self.k ** 4) @ j


_sphere = None


def sphere():
    global _sphere
    if _sphere is None:
        c, wc = np.polynomial.legendre.leggauss(8)
        phi = (np.arange(16) + 0.5) * 2 * np.pi / 16
        s = np.sqrt(1 - c * c)
        v = np.array([np.outer(s, np.cos(phi)).ravel(), np.outer(s, np.sin(phi)).ravel(), np.repeat(c, 16)])
        _sphere = v, np.repeat(wc / 2, 16) / 16
    return _sphere


LEG = [np.polynomial.legendre.Legendre.basis(l) for l in range(5)]
LMAXOF = 4


def angular(p1, p2, n1, n2, rhat):
    """{l: c_l} with int dOmega/(4 pi) mu1^p1 mu2^p2 exp(i k.r) = sum_l i^l c_l j_l(k r); vectors are (2, N): in the plane"""
    v, w = sphere()
    mu1 = n1[0][:, None] * v[0] + n1[1][:, None] * v[1]
    mu2 = n2[0][:, None] * v[0] + n2[1][:, None] * v[1]
    mur = rhat[0][:, None] * v[0] + rhat[1][:, None] * v[1]
    f = mu1 ** p1 * mu2 ** p2 * w
    top = p1 + p2
    return {l: (2 * l + 1) * (f * LEG[l](mur)).sum(1) for l in range(top % 2, top + 1, 2)}


class Linear:
    """cosmo: functions z(chi), chi(z), D, f, Hc, a=1/(1+z); par: om, h; bias(name, population, z)."""

    def __init__(self, cosmo, bias, radial):
        self.c, self.bias, self.R = cosmo, bias, radial
        self.pref = 3 * cosmo["om"] * (H0 * cosmo["h"]) ** 2

    def G(self, pop, z):
        c = self.c
        s, fe = self.bias("magnification", pop, z), self.bias("evolution", pop, z)
        return c["Hc_prime"](z) / c["Hc"](z) ** 2 + (2 - 5 * s) / (c["chi"](z) * c["Hc"](z)) + 5 * s - fe

    def local(self, name, pop, z):
        """[(coefficient, power of mu, power of 1/k)]"""
        c = self.c
        f, H, a, D = c["f"](z), c["Hc"](z), 1 / (1 + z), c["D"](z)
        phi = -self.pref / 2 / a * D
        s, fe = self.bias("magnification", pop, z), self.bias("evolution", pop, z)
        return {
            "density": lambda: [(self.bias("galaxy", pop, z) * D, 0, 0)],
            "rsd": lambda: [(f * D, 2, 0)],
            "d1": lambda: [(-1j * f * H * self.G(pop, z) * D, 1, 1)],
            "d2": lambda: [((3 - fe) * f * H * H * D, 0, 2)],
            "g1": lambda: [((1 + self.G(pop, z)) * phi, 0, 2)],
            "g2": lambda: [((5 * s - 2) * phi, 0, 2)],
            "g3": lambda: [((f - 1) * phi, 0, 2)],
        }[name]()

    def integrated(self, name, pop, z, chi, x):
        """The same, per unit of x (array)."""
        c = self.c
        lam = chi * x
        zl = c["z"](lam)
        two_phi = -self.pref * (1 + zl) * c["D"](zl)
        s = self.bias("magnification", pop, z)
        if name == "g4":
            return [((2 - 5 * s) * two_phi, 0, 2)]
        if name == "g5":
            return [(self.G(pop, z) * chi * c["Hc"](zl) * (c["f"](zl) - 1) * two_phi, 0, 2)]
        k = (5 * s - 2) / 2 * (1 - x) / x * -two_phi
        return [(k * lam ** 2, 0, 0), (-k * lam ** 2, 2, 0), (k * 2j * lam, 1, 1)]

    def pair(self, t1, t2, l1, l2, cos, subtract):
        """Correlation of kernels t1 at distance l1 and t2 at l2 (arrays), with the angle's cosine cos."""
        l1, l2 = np.broadcast_arrays(np.atleast_1d(l1).astype(float), np.atleast_1d(l2).astype(float))
        sin = np.sqrt(max(1 - cos * cos, 0))
        n1 = (np.zeros_like(l1), np.ones_like(l1))
        n2 = (np.full_like(l1, sin), np.full_like(l1, cos))
        d = (l2 * n2[0] - l1 * n1[0], l2 * n2[1] - l1 * n1[1])
        r = np.sqrt(d[0] ** 2 + d[1] ** 2)
        safe = np.where(r > 1e-12, r, 1.0)
        rhat = (np.where(r > 1e-12, d[0] / safe, 0.0), np.where(r > 1e-12, d[1] / safe, 1.0))
        return self.sum(t1, t2, n1, n2, rhat, r, l1, l2)

    def sum(self, t1, t2, n1, n2, rhat, r, l1, l2):
        total, self.mag = 0.0, 0.0           # mag: the same with every part taken positive
        for c1, p1, m1 in t1:
            for c2, p2, m2 in t2:
                k = np.conj(c1) * c2
                for l, cl in angular(p1, p2, n1, n2, rhat).items():
                    m = m1 + m2
                    rad = self.R(m, l, r)
                    if (m, l) == (4, 0):
                        rad = rad - self.R.j0j0(l1, l2)
                    total = total + (k * (1j) ** l).real * cl * rad
                    self.mag = self.mag + abs(k * cl * rad)
                    assert abs((k * (1j) ** l).imag).max() <= 1e-12 * abs(k).max() + 1e-300
        return total

    def flat(self, t1, t2, r, mu):
        """Both lines of sight along the same direction, at an angle arccos(mu) to the separation."""
        one = np.ones(1)
        n = (np.zeros(1), one)
        rhat = (np.array([np.sqrt(1 - mu * mu)]), np.array([float(mu)]))
        return float(self.sum(t1, t2, n, n, rhat, np.array([float(r)]), None, None)[0])

    def xi(self, A, B, z, r, mu, gl=64, gl2=None):
        """<Delta_A(1) Delta_B(2)>, population 1 at chi1 = chi - r mu / 2 and 2 at chi2 = chi + r mu / 2."""
        c = self.c
        chi = float(c["chi"](z))
        chi1, chi2 = chi - r * mu / 2, chi + r * mu / 2
        cos = (2 * chi * chi - r * r + mu * mu * r * r / 2) / (2 * chi * chi - mu * mu * r * r / 2)
        z1, z2 = float(c["z"](chi1)), float(c["z"](chi2))
        INT = ("lensing", "g4", "g5")
        if A not in INT and B not in INT:
            v = float(self.pair(self.local(A, 1, z1), self.local(B, 2, z2), chi1, chi2, cos, None)[0])
            self.mag = float(np.sum(self.mag))
            return v
        if A in INT and B in INT:
            x, w = gl2
            x1, x2 = np.repeat(x, x.size), np.tile(x, x.size)
            v = self.pair(self.integrated(A, 1, z1, chi1, x1), self.integrated(B, 2, z2, chi2, x2), chi1 * x1, chi2 * x2, cos, None)
            w2 = np.repeat(w, w.size) * np.tile(w, w.size)
            self.mag = float((w2 * self.mag).sum())
            return float((w2 * v).sum())
        # the point on the ray closest to the other galaxy is where the integrand varies fastest
        x, w = panels((chi2 if A in INT else chi1) * cos / (chi1 if A in INT else chi2), r / chi, gl)
        if A in INT:
            v = self.pair(self.integrated(A, 1, z1, chi1, x), self.local(B, 2, z2), chi1 * x, chi2, cos, None)
        else:
            v = self.pair(self.local(A, 1, z1), self.integrated(B, 2, z2, chi2, x), chi1, chi2 * x, cos, None)
        self.mag = float((w * self.mag).sum())
        return float((w * v).sum())


def panels(x0, width, n):
    """Gauss-Legendre nodes on [0, 1], in panels that shrink towards x0."""
    edges = {0.0, 1.0}
    for s in (0, 0.25, 0.5, 1, 2, 4, 8):
        for e in (x0 - s * width, x0 + s * width):
            if 0 < e < 1:
                edges.add(float(e))
    edges = sorted(edges)
    t, w = np.polynomial.legendre.leggauss(n // 2)
    xs, ws = [], []
    for a, b in zip(edges, edges[1:]):
        xs.append((a + b) / 2 + (b - a) / 2 * t)
        ws.append((b - a) / 2 * w)
    return np.concatenate(xs), np.concatenate(ws)

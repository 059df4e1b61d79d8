"""C19: every pair of contributions is what linear theory says.

For each of the 55 pairs of contributions (isolated by has_only_cross_correlations), in full sky, and for the pairs the
flat-sky modes change, in those, the correlation function at every point of a grid of (z, r, mu) is compared with
lib/oracle.py, which computes it from the definition of the contributions: kernels in mu and 1/k, an average over the
directions of k, and a sum over k.  The two populations have different biases, so each factor of each term is pinned down.
The double integrals of both sides use the same cubature (stub/quad_stub.c).
"""
import itertools
import math
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

check = common.Check("C19", "exploration")
common.use_build("quad")
import numpy as np
import coffe
import coffe_model as M
import coffe_space as S
import oracle as O
import terms as T
from forkpool import pmap, Died

deep = check.thorough
KMIN, KMAX = 1e-5, 10.0      # wide: the FFTLog of the code aliases the values at r = 0


def spectrum(k):
    x = k / 0.02
    return 2e4 * x / (1 + x * x) ** 1.25 * np.exp(-(k / 0.25) ** 2)


kk = np.geomspace(KMIN, KMAX, 600)
kk[0], kk[-1] = KMIN, KMAX
COSMOLOGIES = [{}] + ([dict(omega_m=0.26, h=0.71, w0=-0.9, wa=0.1, omega_baryon=0.045, m_ncdm=0.1)] if deep else [])
GL = 24
NODES = np.polynomial.legendre.leggauss(GL)
NODES = ((NODES[0] + 1) / 2, NODES[1] / 2)
INTEGRATED = ("lensing", "g4", "g5")
INVERSE = {"density": 0, "rsd": 0, "lensing": 0, "d1": 1, "d2": 2, "g1": 2, "g2": 2, "g3": 2, "g4": 2, "g5": 2}
GRID = [(z, r, mu) for z in (0.6, 1.1) for r in (25.0, 80.0, 150.0) for mu in ((0.35, -0.8) if not deep else (0.0, 0.35, -0.35, 0.8, -0.8, 0.97))]
if not deep:
    GRID += [(0.9, 60.0, 0.0), (0.9, 110.0, 0.97), (0.9, 110.0, -0.97)]
FEW = GRID if deep else GRID[1::3]
FLAT = [(z, r, mu) for z in (0.6, 1.1) for r in (25.0, 80.0, 150.0) for mu in (0.0, 0.35, -0.8, 1.0, -1.0)]

worlds = []


def world(cosmology):
    c = M.new_object(dict(T.BASE, spectrum=([float(v) for v in kk], [float(v) for v in spectrum(kk)]), k_min=KMIN, k_max=KMAX,
                          integrals_fftlog_sampling=2048, background_sampling=2000, integration_sampling=GL * GL,
                          integration_1d_prec=1e-6, deltaz=[0.25, 0.25], **cosmology), coffe)
    zs = np.linspace(0, 1.6, 4001)
    tab = {n: np.array([getattr(c, f)(float(z)) for z in zs]) for n, f in (
        ("chi", "comoving_distance"), ("D", "growth_factor"), ("f", "growth_rate"), ("Hc", "hubble_rate_conformal"),
        ("Hc_prime", "hubble_rate_conformal_derivative"))}
    cosmo = {n: (lambda z, t=t: np.interp(z, zs, t)) for n, t in tab.items()}
    cosmo["z"] = lambda x: np.interp(x, tab["chi"], zs)
    cosmo["om"], cosmo["h"] = c.omega_cdm + c.omega_baryon, c.h
    kint = np.concatenate([np.geomspace(KMIN, 1e-3, 800)[:-1], np.linspace(1e-3, 1.1, 9000)])
    R = O.Radial(kint, spectrum(kint), float(cosmo["chi"](1.3)))
    bias = lambda n, pop, z: getattr(c, f"{n}_bias{pop}")(float(z))
    return c, O.Linear(cosmo, bias, R), cosmo, R


worlds = [world(x) for x in COSMOLOGIES]
print("set up", check.elapsed())


FLAT_K = np.concatenate([np.geomspace(KMIN, 1e-3, 200)[:-1], np.linspace(1e-3, 0.9, 5000)])
FLAT_KW = np.gradient(FLAT_K) * FLAT_K * spectrum(FLAT_K)


def flat_w(R, rho):
    """int k dk P(k) J0(k rho), with J0 from its integral representation."""
    t = (np.arange(100) + 0.5) * math.pi / 200
    return float((FLAT_KW * np.cos(np.outer(FLAT_K * rho, np.sin(t))).mean(1)).sum())


def full(task):
    w, a, b, points = task
    c, L, cosmo, R = worlds[w]
    setattr(c, T.CROSS, a != b)
    T.contributions(c, [a, b])
    out = []
    for z, r, mu in points:
        one = L.xi(a, b, z, r, mu, gl2=NODES)
        mag = L.mag
        two = L.xi(b, a, z, r, mu, gl2=NODES) if a != b else 0.0
        out.append(((z, r, mu), c.compute_corrfunc(z=z, r=r, mu=mu), one, two, mag + (L.mag if a != b else 0)))
    return out


def flat(task):
    w, a, b, points = task
    c, L, cosmo, R = worlds[w]
    for m in T.MODES["flat"]:
        setattr(c, m, True)
    setattr(c, T.CROSS, a != b)
    T.contributions(c, [a, b])
    out = []
    for z, r, mu in points:
        chi = float(cosmo["chi"](z))
        if "lensing" in (a, b):
            s1, s2, b1, b2 = (c.magnification_bias1(z), c.magnification_bias2(z), c.galaxy_bias1(z), c.galaxy_bias2(z))
            rho = r * math.sqrt(1 - mu * mu)
            if a == b:
                x, wt = O.panels(0.5, 1.0, 64)
                zl = cosmo["z"](x * chi)
                v = np.array([flat_w(R, rho * t) for t in x]) / (2 * math.pi)
                one = (L.pref ** 2 / 4 * (2 - 5 * s1) * (2 - 5 * s2) * chi ** 3
                       * float((wt * (x * (1 - x) * cosmo["D"](zl) * (1 + zl)) ** 2 * v).sum()))
                two, got = 0.0, c.compute_corrfunc(z=z, r=r, mu=mu)
            elif "density" in (a, b):
                # the galaxy behind is lensed; with the two orders of the pair averaged
                g = L.pref / 2 * (1 + z) * float(cosmo["D"](z)) ** 2 * abs(mu) * r * flat_w(R, rho) / (2 * math.pi)
                one, two = g * (5 * s2 - 2) * b1 / 2, g * (5 * s1 - 2) * b2 / 2
                got = (c.compute_corrfunc(z=z, r=r, mu=mu) + c.compute_corrfunc(z=z, r=r, mu=-mu)) / 2
            else:
                one, two, got = 0.0, 0.0, c.compute_corrfunc(z=z, r=r, mu=mu)
        else:
            one = L.flat(L.local(a, 1, z), L.local(b, 2, z), r, mu)
            two = L.flat(L.local(b, 1, z), L.local(a, 2, z), r, mu) if a != b else 0.0
            got = c.compute_corrfunc(z=z, r=r, mu=mu)
        out.append(((z, r, mu), got, one, two, abs(one) + abs(two)))
    return out


def as_known(w, where, a, b, point):
    """What the listed finding computes for the Doppler autocorrelation: the anisotropic part with the wrong sign."""
    c, L, cosmo, R = worlds[w]
    z, r, mu = point
    if where == "full":
        chi = float(cosmo["chi"](z))
        chi1, chi2 = chi - r * mu / 2, chi + r * mu / 2
        z1, z2 = float(cosmo["z"](chi1)), float(cosmo["z"](chi2))
        cos = (2 * chi * chi - r * r + mu * mu * r * r / 2) / (2 * chi * chi - mu * mu * r * r / 2)
        right = L.xi(a, b, z, r, mu)
    else:
        z1 = z2 = z
        cos = 1.0
        right = L.flat(L.local(a, 1, z), L.local(b, 2, z), r, mu)
    amp = (np.conj(L.local("d1", 1, z1)[0][0]) * L.local("d1", 2, z2)[0][0]).real
    iso = amp * cos / 3 * float(R(2, 0, r))
    return 2 * iso - right


pairs = list(itertools.combinations_with_replacement(T.SHORT, 2))
tasks = []
for w in range(len(worlds)):
    for a, b in pairs:
        heavy = a in INTEGRATED and b in INTEGRATED
        for part in ([FEW] if heavy and not deep else [GRID]):
            tasks.append((full, (w, a, b, part)))
    for a, b in itertools.combinations_with_replacement(["density", "rsd", "d1", "lensing"], 2):
        tasks.append((flat, (w, a, b, FLAT)))
results = pmap(lambda t: t[0](t[1]), tasks, timeout=600)
values = nontrivial = 0
worst = {}
for (fn, (w, a, b, points)), res in zip(tasks, results):
    where = fn.__name__
    if isinstance(res, Died):
        check.violation(f"{where}/{a}-{b}/died", cosmology=w, got=repr(res))
        continue
    size = max((abs(x) + abs(y) for _, _, x, y, _ in res), default=0)
    # the table of the monopole (1/k^4) is interpolated; the rest is limited by the interpolation of the integrals
    divergent = INVERSE[a] + INVERSE[b] >= 4
    tol = 6e-3 if divergent else 5e-4
    for point, got, one, two, mag in res:
        values += 1
        want = one + two
        scale = abs(one) + abs(two)
        nontrivial += scale > 0
        err = abs(got - want) / (tol * scale + 4e-4 * mag + 1e-4 * tol * size + 1e-30)
        if math.isnan(err):
            err = math.inf
        if err > 1:
            key = f"{where}/{a}-{b}"
            if (a, b) == ("d1", "d1"):
                wrong = as_known(w, where, a, b, point)
                if abs(got - wrong) <= tol * abs(wrong) + 1e-4 * tol * size:
                    key += "/sign"
            check.violation(key, cosmology=w, point=point, got=got, definition=want, orders=[one, two])
        else:
            worst[where, a, b] = max(worst.get((where, a, b), 0), err)
if values < 400 or nontrivial < 350:
    check.violation("harness/vacuous", values=values, nontrivial=nontrivial)
check.coverage = {
    "evaluations": values, "distinct_nontrivial": nontrivial,
    "rule": "one evaluation is one (mode, pair of contributions, z, r, mu) compared with the definition; non-trivial: the defined value is not identically zero",
    "exhaustive": True, "pairs": len(pairs), "cosmologies": len(worlds),
    "closest_to_tolerance": sorted(((round(v, 3), "/".join(k)) for k, v in worst.items()), reverse=True)[:8],
    "samples": [[t[0].__name__, t[1][1], t[1][2], [list(p) for p in t[1][3][:2]]] for t in tasks[:3]],
}
check.assumptions = [
    "background functions, D and f are the object's own (C17)", "flat-sky density x lensing: only the part even in mu (the code averages the two orders of the pair)",
]
sys.exit(check.finish())

"""C08: the covariance is what its definition says, for every combination of its settings.

Every entry of every covariance computed here is compared with the definition evaluated independently:
    (i^(l1-l2)) (2 l1 + 1)(2 l2 + 1) / (4 pi^2 V) int k^2 dk j_l1(k r1) j_l2(k r2) int dmu P_l1 P_l2
        [ (P_ac + d_ac / n_a)(P_bd + d_bd / n_b) + (-1)^l2 (P_ad + d_ad / n_a)(P_bc + d_bc / n_b) ],   P_ab = (b_a + f mu^2)(b_b + f mu^2) P(k, z)
with the spherical Bessel functions averaged over the pixel in the binned case.
populations   all 256 quadruples x four sets of multipoles
switches      all combinations of the three parts x binned or not x density, RSD x both outputs x 1D integrator, two redshifts with different settings
method        the two-dimensional FFTLog, for every set of multipoles, both interpolations
"""
import itertools
import math
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

check = common.Check("C08", "exploration")
common.use_build()
import numpy as np
import coffe
import coffe_model as M
import coffe_space as S
import oracle as O
from forkpool import pmap, Died

deep = check.thorough
KMIN, KMAX = 1e-4, 2.0
kk = np.geomspace(KMIN, KMAX, 500)
kk[0], kk[-1] = KMIN, KMAX


def spectrum(k):
    x = k / 0.02
    return 2e4 * x / (1 + x * x) ** 1.25 * np.exp(-(k / 0.3) ** 2)


BASE = dict(S.SMALL, **S.BIASES)
BASE.update(spectrum=([float(v) for v in kk], [float(v) for v in spectrum(kk)]), k_min=KMIN, k_max=KMAX, background_sampling=1000,
            integration_1d_prec=1e-5, z_mean=[0.8, 1.3], deltaz=[0.1, 0.2], z_min=[0.7, 1.1], z_max=[0.95, 1.4], number_density1=[1e-3, 4e-4],
            number_density2=[5e-4, 3e-3], pixelsize=[20.0, 30.0], fsky=[0.3, 0.6], sep=[40.0, 110.0], has_density=True, has_rsd=True)
K = np.concatenate([np.geomspace(KMIN, 2e-3, 400)[:-1], np.linspace(2e-3, 1.2, 6000)])
KW = np.empty_like(K)
KW[1:-1], KW[0], KW[-1] = (K[2:] - K[:-2]) / 2, (K[1] - K[0]) / 2, (K[-1] - K[-2]) / 2
PK = spectrum(K)
MU, MUW = np.polynomial.legendre.leggauss(24)
X, XW = np.polynomial.legendre.leggauss(24)
_bessel = {}


def bessel(l, r, width):
    key = (l, r, width)
    if key not in _bessel:
        if width == 0:
            _bessel[key] = O.sphjn(max(l, 1), K * r)[l]
        else:
            s = r + width / 2 * X
            j = O.sphjn(max(l, 1), np.outer(K, s))[l]
            _bessel[key] = (j * s * s * XW).sum(1) * width / 2 / (((r + width / 2) ** 3 - (r - width / 2) ** 3) / 3)
    return _bessel[key]


def radial(l1, l2, r1, r2, width, power):
    return float((KW * K * K * PK ** power * bessel(l1, r1, width) * bessel(l2, r2, width)).sum())


def legendre(l):
    return np.polynomial.legendre.Legendre.basis(l)(MU)


def definition(c, st, average, i):
    """{(l1, r1, l2, r2): ((cosmic, mixed, shot), the same before terms of opposite sign cancel)} for the i-th redshift or bin."""
    fsky = st["fsky"][i]
    if average:
        z0, z1 = st["z_min"][i], st["z_max"][i]
        z = (z0 + z1) / 2
        t = (z0 + z1) / 2 + (z1 - z0) / 2 * X
        inv = sum(w / (c.hubble_rate_conformal(v) * c.comoving_distance(v) ** 2 * (1 + v)) for v, w in zip(map(float, t), XW)) * (z1 - z0) / 2
        volume = 4 * math.pi * fsky / inv / (O.H0 * st.get("h", c.h)) ** 2
    else:
        z = st["z_mean"][i]
        dz = st["deltaz"][i]
        volume = 4 * math.pi * fsky * (c.comoving_distance(z + dz) ** 3 - c.comoving_distance(z - dz) ** 3) / 3
    D2 = c.growth_factor(z) ** 2
    f = c.growth_rate(z) if st["has_rsd"] else 0.0
    pops = st.get("covariance_populations", [1, 1, 1, 1])
    b = [getattr(c, f"galaxy_bias{p}")(z) if st["has_density"] else 0.0 for p in pops]
    n = {0: st["number_density1"][i], 1: st["number_density2"][i]}
    width = st["pixelsize"][i] if st.get("has_binned_covariance") else 0
    a = [x + f * MU * MU for x in b]

    def P(x, y):
        return a[x] * a[y] * D2

    def d(x, y):
        return 1.0 / n[x] if pops[x] == pops[y] else 0.0
    out = {}
    for l1, r1, l2, r2 in itertools.product(st["l"], st["sep"], st["l"], st["sep"]):
        if (l1 + l2) % 2:
            out[l1, r1, l2, r2] = (0.0, 0.0, 0.0), (0.0, 0.0, 0.0)
            continue
        sign = (-1) ** l2
        w = MUW * legendre(l1) * legendre(l2)
        pre = (-1) ** ((l1 - l2) // 2) * (2 * l1 + 1) * (2 * l2 + 1) / (4 * math.pi ** 2 * volume)
        R2, R1 = pre * radial(l1, l2, r1, r2, width, 2), pre * radial(l1, l2, r1, r2, width, 1)
        direct, crossed = P(0, 2) * P(1, 3), sign * P(0, 3) * P(1, 2)
        cosmic, cosmic_size = R2 * float((w * (direct + crossed)).sum()), abs(R2) * float((abs(w) * (abs(direct) + abs(crossed))).sum())
        direct, crossed = P(0, 2) * d(1, 3) + P(1, 3) * d(0, 2), sign * (P(0, 3) * d(1, 2) + P(1, 2) * d(0, 3))
        mixed, mixed_size = R1 * float((w * (direct + crossed)).sum()), abs(R1) * float((abs(w) * (abs(direct) + abs(crossed))).sum())
        shot = shot_size = 0.0
        if l1 == l2 and r1 == r2:
            cell = ((r1 + width / 2) ** 3 - (r1 - width / 2) ** 3) / 3 if width else r1 * r2 * st["pixelsize"][i]
            unit = (2 * l1 + 1) / (4 * math.pi * volume * cell)
            shot, shot_size = unit * (d(0, 2) * d(1, 3) + sign * d(0, 3) * d(1, 2)), unit * (d(0, 2) * d(1, 3) + d(0, 3) * d(1, 2))
        out[l1, r1, l2, r2] = (cosmic, mixed, shot), (cosmic_size, mixed_size, shot_size)
    return out


def case(st):
    """Computes both covariances for these settings; returns the list of disagreements."""
    c = M.new_object(st, coffe)
    on = [st.get("covariance_" + x, True) for x in ("cosmic", "mixed", "poisson")]
    fft = st.get("covariance_integration_method") == "fftlog"
    bad, n, nonzero = [], 0, 0
    worst = 0.0
    for average in (False, True):
        rows = c.compute_average_covariance_bulk() if average else c.compute_covariance_bulk()
        got = {}
        for x in rows:
            got[(x.z_min if average else x.z), x.l1, x.r1, x.l2, x.r2] = x.value
        zs = st["z_min"] if average else st["z_mean"]
        for i, z in enumerate(zs):
            want = definition(c, st, average, i)

            def size(l, r):
                return sum(p for p, o in zip(want[l, r, l, r][1], on) if o)
            for (l1, r1, l2, r2), (parts, sizes) in want.items():
                w = sum(p for p, o in zip(parts, on) if o)
                g = got[z, l1, r1, l2, r2]
                # what multiplies the numerical error of the integrals: the diagonal entries, before cancellations
                ref = max(sum(p for p, o in zip(sizes, on) if o), 0 if (l1 + l2) % 2 else math.sqrt(size(l1, r1) * size(l2, r2)))
                tol = (2e-2 if fft else 3e-4) * ref + 1e-30
                n += 1
                nonzero += bool(abs(w) > 1e-25)
                err = abs(g - w) / tol
                if not err <= 1:
                    bad.append(("average" if average else "plain", z, l1, r1, l2, r2, g, w, parts))
                else:
                    worst = max(worst, err)
                # symmetric
                h = got[z, l2, r2, l1, r1]
                if not abs(g - h) <= (1e-3 if fft else 1e-6) * ref + 1e-30:
                    bad.append(("asymmetric", z, l1, r1, l2, r2, g, h, parts))
    return bad, n, nonzero, worst


LS = [[0, 2], [1, 3], [4, 0], [2, 5, 6]]
cases = []
for pops in itertools.product((1, 2, 3, 4), repeat=4):
    for ls in (LS if deep else LS[:2]):
        cases.append((f"populations/{''.join(map(str, pops))}", dict(BASE, covariance_populations=list(pops), l=ls)))
for bits in itertools.product((False, True), repeat=3):
    for binned, (den, rsd), kind, pops in itertools.product((False, True), ((True, True), (True, False), (False, True)), ("gsl", "exponential"), ([1, 1, 1, 1], [1, 2, 1, 2], [1, 2, 2, 1])):
        if kind == "exponential" and (binned or not all(bits)) and not deep:
            continue
        if binned and pops != [1, 2, 1, 2] and not deep:
            continue
        flags = dict(zip(("covariance_cosmic", "covariance_mixed", "covariance_poisson"), bits))
        for ls in (LS if deep or (all(bits) and pops == [1, 2, 1, 2]) else [[0, 1, 2]]):
            cases.append((f"switches/{'cmp'[:0]}{''.join(str(int(x)) for x in bits)}{'/binned' if binned else ''}/{int(den)}{int(rsd)}/{kind}",
                          dict(BASE, **flags, has_binned_covariance=binned, has_density=den, has_rsd=rsd, integration_1d_type=kind, covariance_populations=pops, l=ls)))
for ls, interp, pops in itertools.product(LS + [[0, 1, 2, 3, 4]], ("bicubic", "bilinear"), ([1, 1, 1, 1], [1, 2, 1, 2], [1, 2, 3, 4])):
    cases.append((f"fftlog/{interp}", dict(BASE, covariance_integration_method="fftlog", covariance_integration_sampling=512, covariance_interpolation_method=interp,
                                           covariance_populations=pops, l=ls)))
# other settings one at a time
for name, value in (("h", 0.72), ("omega_m", 0.26), ("w0", -0.8), ("fsky", [0.05, 0.9]), ("deltaz", [0.05, 0.3]), ("pixelsize", [5.0, 60.0]), ("number_density1", [2e-5, 8e-3]),
                    ("number_density2", [9e-3, 1e-5]), ("z_mean", [0.5, 1.7]), ("z_max", [0.8, 1.9]), ("sep", [25.0, 70.0, 180.0]), ("has_d1", True), ("has_lensing", True),
                    ("has_flatsky_local", True), ("has_only_cross_correlations", True), ("m_ncdm", 0.2)):
    for binned in (False, True):
        cases.append((f"setting/{name}", dict(BASE, **{name: value}, l=[0, 2], has_binned_covariance=binned, covariance_populations=[1, 2, 1, 2])))

total = nonzero = 0
worst = {}
for (label, st), res in zip(cases, pmap(case, [s for _, s in cases], timeout=300)):
    if isinstance(res, Died):
        check.violation(label + "/died", got=repr(res))
        continue
    bad, n, nz, w = res
    total += n
    nonzero += nz
    k = label.split("/")[0]
    worst[k] = max(worst.get(k, 0), w)
    for kind, z, l1, r1, l2, r2, g, want, parts in bad[:3]:
        check.violation(f"{label}/{kind}/{l1}{l2}", settings={k: v for k, v in st.items() if v != BASE.get(k)}, z=z, r1=r1, r2=r2, got=g, want=want, parts=parts)
if nonzero < total / 8:
    check.violation("harness/vacuous", values=total, nonzero=nonzero)
check.coverage = {
    "evaluations": total, "distinct_nontrivial": nonzero,
    "rule": "one evaluation is one entry of one covariance compared with its definition; non-trivial: the defined value is not zero",
    "exhaustive": True, "settings": len(cases), "closest_to_tolerance": {k: round(v, 3) for k, v in worst.items()},
    "samples": [[l, {k: v for k, v in s.items() if v != BASE.get(k)}] for l, s in cases[::len(cases) // 3][:3]],
}
check.assumptions = ["background functions and growth are the object's own (C17)", "linear power spectrum given as a table"]
sys.exit(check.finish())

"""C18: spectrum integrals equal their definition and are linear in the spectrum.

integrals   every order x spectrum shape x range of wavenumbers x number of FFTLog samples x interpolation of the separations from 0 to
            1000 Mpc: integral(n, l, r) against the defining integral, summed here
spectrum    power_spectrum and cross_spectrum at the nodes and between them, at several redshifts, for input given at z = 0 and z > 0
linear      every pair of contributions, isolated by the cross-correlation mode, in full sky and in every flat-sky mode: the signal of
            a P1 + b P2 is a times that of P1 plus b times that of P2, for every combination of (a, b) in an alphabet; integrals likewise
covariance  the cosmic part is quadratic, the mixed part linear, the Poisson part independent of the spectrum, for all switches
"""
import itertools
import math
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

check = common.Check("C18", "exploration")
common.use_build("quad")
import numpy as np
import coffe
import coffe_model as M
import coffe_space as S
import oracle as O
import terms as T
from forkpool import pmap, Died

deep = check.thorough
SHAPES = {
    "peak": lambda k: 2e4 * (k / 0.02) / (1 + (k / 0.02) ** 2) ** 1.25 * np.exp(-(k / 0.5) ** 2),
    "wiggle": lambda k: 3e4 * (k / 0.015) / (1 + (k / 0.015) ** 2) ** 1.3 * (1 + 0.08 * np.sin(100 * k) * np.exp(-(k / 0.15) ** 2)) * np.exp(-(k / 0.4) ** 2),
    "steep": lambda k: 1e3 * (k / 0.05) ** 0.8 / (1 + (k / 0.1) ** 2) ** 2 * np.exp(-(k / 1.0) ** 2),
    "narrow": lambda k: 5e3 * np.exp(-0.5 * (np.log(k / 0.06) / 0.5) ** 2),
}
RANGES = [(1e-5, 10.0), (3e-5, 6.0)]
ORDERS = [(0, 0), (0, 2), (0, 4), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1), (4, 0)]
SEPS = [0.0, 1e-3, 0.02, 0.3, 0.95, 1.5, 3.0, 7.7, 20.0, 41.3, 83.0, 105.5, 150.0, 260.0, 420.0, 700.0, 1000.0]


def grid(lo, hi, n=700):
    k = np.geomspace(lo, hi, n)
    k[0], k[-1] = lo, hi
    return k


def lists(k, p):
    return [float(v) for v in k], [float(v) for v in p]


# --- integrals -------------------------------------------------------------------------------
_w = {}


def nodes(lo, hi):
    if (lo, hi) not in _w:
        k = np.concatenate([np.geomspace(lo, 4e-3, 5000)[:-1], np.linspace(4e-3, hi, 120000)])
        w = np.empty_like(k)
        w[1:-1], w[0], w[-1] = (k[2:] - k[:-2]) / 2, (k[1] - k[0]) / 2, (k[-1] - k[-2]) / 2
        _w[lo, hi] = k, w
    return _w[lo, hi]


def definition(shape, lo, hi, r):
    """{(n, l): (integral, size)}; times r^(n-l) where n > l."""
    k, w = nodes(lo, hi)
    base = w * k * k * SHAPES[shape](k) / (2 * math.pi ** 2)
    out = {}
    x = k * r
    j = O.sphjn(4, x)
    for n, l in ORDERS:
        if n >= l:
            # j_l(x) / x^n r^(n-l) = [j_l(x) / x^l] / k^(n-l)
            small = x < 1e-2
            dfact = [1, 3, 15, 105, 945][l]
            f = np.where(small, (1 - x * x / (2 * (2 * l + 3))) / dfact, j[l] / np.where(small, 1, x) ** l) / k ** (n - l)
        else:
            f = j[l] / np.where(x > 0, x, 1) ** n if r > 0 else np.zeros_like(x)
        out[n, l] = float((base * f).sum()), float((base * abs(f)).sum())
    return out


def integrals(task):
    shape, (lo, hi), bins, extra = task
    k = grid(lo, hi)
    c = M.new_object(dict(S.SMALL, spectrum=lists(k, SHAPES[shape](k)), k_min=lo, k_max=hi, integrals_fftlog_sampling=bins, **extra), coffe)
    bad, n = [], 0
    worst = {}
    zero = {nl: abs(v) for nl, (v, _) in definition(shape, lo, hi, 0.0).items()}
    for r in SEPS:
        want = definition(shape, lo, hi, r)
        for nl in ORDERS:
            if nl == (4, 0):
                if not extra.get("has_d2"):
                    try:
                        c.integral(r=max(r, 1.0), n=4, l=0)
                        bad.append((nl, r, "no exception", "ValueError"))
                    except ValueError:
                        pass
                    continue
                if r < 1e-5:
                    continue
            n += 1
            got = c.integral(r=r, n=nl[0], l=nl[1])
            v, size = want[nl]
            # the transform is periodic: at the shortest and longest separations it adds a share of the other end
            tol = 3e-4 * abs(v) + 2e-5 * size + 1e-3 * zero[nl] * (1 if nl[0] > nl[1] else 1e-2)
            if 0.9 < r < 5:
                tol += 0.35 * r ** -3 * abs(v) + 2e-3 * r ** -3 * want[0, 0][0]
            if nl == (4, 0):
                tol = 3e-3 * abs(v) if r > 0.01 else 2e-2 * abs(v)
            err = abs(got - v) / tol if tol else (0 if got == v else 99)
            worst[str(nl)] = max(worst.get(str(nl), (0, 0)), (err, r))
            if not err <= 1:
                bad.append((nl, r, got, v))
    return n, bad, worst


tasks = []
for shape, rng, bins, extra in itertools.product(SHAPES, RANGES, (1024, 3000, 8192), ({}, {"has_d2": True, "has_g1": True})):
    if extra and not deep and (bins != 3000):
        continue
    tasks.append((shape, rng, bins, extra))
count = 0
worst = {}
for task, res in zip(tasks, pmap(integrals, tasks, timeout=600)):
    name = f"integrals/{task[0]}/{task[1][0]:g}-{task[1][1]:g}/{task[2]}{'/divergent' if task[3] else ''}"
    if isinstance(res, Died):
        check.violation(name + "/died", got=repr(res))
        continue
    count += res[0]
    for k, v in res[2].items():
        worst[k] = max(worst.get(k, (0, 0)), v)
    for nl, r, got, want in res[1]:
        check.violation(f"{name}/{nl[0]},{nl[1]}/{r:g}", got=got, want=want)
n_integrals = count
print("integrals", count, {k: (round(v[0], 2), v[1]) for k, v in worst.items()}, check.elapsed())


# --- the spectrum ----------------------------------------------------------------------------
def spectrum(task):
    shape, z_in, nk, cosmo = task
    lo, hi = 1e-4, 3.0
    k = grid(lo, hi, nk)
    p = SHAPES[shape](k) + 1.0
    c = M.new_object(dict(S.SMALL, background_sampling=1000, **cosmo), coffe)
    D = c.growth_factor
    c.set_power_spectrum_linear(*lists(k, p), z_in)
    bad, n = [], 0
    mid = np.sqrt(k[1:] * k[:-1])[::max(1, nk // 40)]
    pts = [(float(x), y, 1e-9) for x, y in zip(k[::max(1, nk // 40)], p[::max(1, nk // 40)])]
    if nk >= 500:
        pts += [(float(x), SHAPES[shape](x) + 1.0, 1e-3) for x in mid]
    for x, y, tol in pts:
        for z in (0.0, 0.35, 1.0, 2.5, 9.0):
            want = y * D(z) ** 2 / D(z_in) ** 2
            n += 1
            got = c.power_spectrum(x, z)
            if not abs(got - want) <= tol * want:
                bad.append(("power", x, z, got, want))
            for z2 in (0.0, 0.6, 3.0):
                want = y * D(z) * D(z2) / D(z_in) ** 2
                n += 1
                got = c.cross_spectrum(x, z, z2)
                if not abs(got - want) <= tol * want:
                    bad.append(("cross", x, (z, z2), got, want))
    # the integrals are those of the spectrum at z = 0
    a = [c.integral(r=r, n=n_, l=l) for n_, l in ORDERS[:-1] for r in (0.5, 30.0, 110.0)]
    c2 = M.new_object(dict(S.SMALL, background_sampling=1000, **cosmo), coffe)
    c2.set_power_spectrum_linear(*lists(k, p / D(z_in) ** 2))
    b = [c2.integral(r=r, n=n_, l=l) for n_, l in ORDERS[:-1] for r in (0.5, 30.0, 110.0)]
    d = M.differ(a, b, 1e-5)
    n += len(a)
    if d:
        bad.append(("integral", None, z_in, d, None))
    return n, bad


tasks = list(itertools.product(SHAPES, (0.0, 0.7, 3.0), (60, 500, 2000), ({}, {"omega_m": 0.5, "w0": -0.7})))
n_spectrum = 0
for task, res in zip(tasks, pmap(spectrum, tasks)):
    name = f"spectrum/{task[0]}/z={task[1]}/{task[2]}{'/other' if task[3] else ''}"
    if isinstance(res, Died):
        check.violation(name + "/died", got=repr(res))
        continue
    n_spectrum += res[0]
    for what, k, z, got, want in res[1][:3]:
        check.violation(f"{name}/{what}", k=k, z=z, got=got, want=want)
print("spectrum", n_spectrum, check.elapsed())

# --- signals ---------------------------------------------------------------------------------
LO, HI = 1e-4, 2.0
K = grid(LO, HI, 250)
P1, P2 = SHAPES["peak"](K) + 1e-3, SHAPES["wiggle"](K) + 1e-3
MIX = [(1, 0), (0, 1), (1, 1), (4, 0), (0.25, 2), (1e-3, 0)] + ([(3, 0.5), (100, 0), (0, 1e-4), (0.5, 0.5)] if deep else [])
PAIRS = list(itertools.combinations(T.SHORT, 2)) + [(a,) for a in T.SHORT]
KINDS = ("corrfunc", "multipole")


def signals(task):
    mode, pair = task
    out = []
    for a, b in MIX:
        c = M.new_object(dict(T.BASE, **dict(T.MODES[mode], z_mean=[0.9, 1.6], spectrum=lists(K, a * P1 + b * P2), k_min=LO, k_max=HI,
                                             integration_1d_prec=1e-6, integration_sampling=400)), coffe)
        setattr(c, T.CROSS, len(pair) == 2)
        T.contributions(c, pair)
        v = T.answers(c, KINDS)
        v += [x.value for x in c.compute_average_multipoles_bulk()] if deep or len(pair) == 1 or mode != "full" else []
        out.append([v, [c.integral(r=r, n=n, l=l) for n, l in ORDERS[:-1] for r in (0.4, 60.0, 130.0)] if len(pair) == 1 else []])
    return out


tasks = list(itertools.product(T.MODES if deep else ("full", "flat"), PAIRS))
n_signals = distinct = 0
for (mode, pair), res in zip(tasks, pmap(signals, tasks, timeout=600)):
    name = f"linear/{mode}/{'x'.join(pair)}"
    if isinstance(res, Died):
        check.violation(name + "/died", got=repr(res))
        continue
    for what, i in (("signal", 0), ("integral", 1)):
        one, two = np.array(res[0][i]), np.array(res[1][i])
        distinct += int((one != 0).sum()) * (len(MIX) - 2)
        for (a, b), v in zip(MIX[2:], res[2:]):
            got, want = np.array(v[i]), a * one + b * two
            n_signals += got.size
            # cancellation inside a term hides behind its value: compare with the largest of the kind
            groups = [slice(0, 2), slice(2, 2 + len(T.MPOINTS)), slice(2 + len(T.MPOINTS), None)] if what == "signal" else [slice(j, j + 1) for j in range(got.size)]
            for g in groups:
                if not got[g].size:
                    continue
                size = abs(a * one[g]).max() + abs(b * two[g]).max()
                e = abs(got[g] - want[g]).max()
                if not e <= 5e-3 * size:         # the adaptive integrators stop at their own precision
                    check.violation(f"{name}/{what}", mix=(a, b), got=got[g].tolist(), want=want[g].tolist())
print("signals", n_signals, check.elapsed())


# --- covariance ------------------------------------------------------------------------------
def covariance(task):
    parts, binned, method, average, terms, interp = task
    out = []
    for a, b in ((1, 0), (0, 1), (1, 1), (2, 0), (0, 0.5), (3, 2), (1e-2, 0)):
        st = dict(S.SMALL, **S.BIASES)
        st.update(zip(("covariance_cosmic", "covariance_mixed", "covariance_poisson"), parts))
        st.update({"has_" + t: True for t in terms})
        st.update(spectrum=lists(K, a * P1 + b * P2), k_min=LO, k_max=HI, has_binned_covariance=binned, covariance_integration_method=method,
                  covariance_interpolation_method=interp, covariance_integration_sampling=1000, z_mean=[0.8], z_min=[0.7], z_max=[1.0], fsky=[0.4], pixelsize=[8.0],
                  number_density1=[1e-3], number_density2=[4e-4], deltaz=[0.1], sep=[40.0, 88.0], l=[0, 1, 2], integration_1d_prec=1e-6,
                  covariance_populations=[1, 2, 1, 2])
        c = M.new_object(st, coffe)
        f = c.compute_average_covariance_bulk if average else c.compute_covariance_bulk
        out.append([x.value for x in f()])
    return out


PARTS = [p for p in itertools.product((False, True), repeat=3) if any(p)]
tasks = [t for t in itertools.product(PARTS, (False, True), ("standard", "fftlog"), (False, True), (("density",), ("density", "rsd")), ("bilinear",))]
if not deep:
    tasks = [t for t in tasks if not (t[1] and t[2] == "fftlog") and not (t[3] and len(t[4]) == 1)]
n_cov = 0
for task, res in zip(tasks, pmap(covariance, tasks, timeout=600)):
    parts, binned, method, average, terms, interp = task
    name = f"covariance/{''.join('cms'[i] for i in range(3) if parts[i])}/{'binned/' if binned else ''}{method}/{'average/' if average else ''}{'+'.join(terms)}"
    if isinstance(res, Died):
        check.violation(name + "/died", got=repr(res))
        continue
    v = dict(zip(((1, 0), (0, 1), (1, 1), (2, 0), (0, 0.5), (3, 2), (1e-2, 0)), map(np.array, res)))
    # solve for the three parts from scalings of the first spectrum: C(t) = c t^2 + m t + s
    c, m, s = parts
    t = [1e-2, 1.0, 2.0]
    A = np.array([[x * x, x, 1.0] for x in t])
    co, mi, sh = np.linalg.solve(A, np.array([v[1e-2, 0], v[1, 0], v[2, 0]]))
    size = np.maximum.reduce([abs(x) for x in v.values()]).max()
    for on, part, what in ((c, co, "cosmic"), (m, mi, "mixed"), (s, sh, "poisson")):
        n_cov += part.size
        if not on and not abs(part).max() <= 1e-4 * size:
            check.violation(f"{name}/no-{what}", got=part.tolist(), size=size)
    # quadratic in the spectrum: with C(0) = s, C(x, y) = Q(x, y) + L(x, y) + s
    half = v[0, 0.5]
    q2 = (v[0, 1] - sh - 2 * (half - sh)) * 2          # c of the second spectrum
    l2 = v[0, 1] - sh - q2
    cross = v[1, 1] - co - q2 - mi - l2 - sh
    want = 9 * co + 4 * q2 + 6 * cross + 3 * mi + 2 * l2 + sh
    n_cov += want.size
    if not abs(v[3, 2] - want).max() <= 3e-4 * abs(v[3, 2]).max():
        check.violation(f"{name}/quadratic", got=v[3, 2].tolist(), want=want.tolist())
    if not c and not abs(cross).max() <= 3e-4 * size:
        check.violation(f"{name}/cross", got=cross.tolist())
    if size == 0:
        check.violation(f"{name}/vacuous")
print("covariance", n_cov, check.elapsed())
if min(n_integrals, n_spectrum, n_signals, n_cov, distinct) < 200:
    check.violation("harness/vacuous", counts=[n_integrals, n_spectrum, n_signals, n_cov, distinct])
check.coverage = {
    "evaluations": n_integrals + n_spectrum + n_signals + n_cov, "distinct_nontrivial": n_integrals + n_spectrum + distinct + n_cov,
    "rule": "one evaluation compares one number with its definition or with the combination of others; trivial: signals that are zero for both spectra",
    "exhaustive": True, "integrals": n_integrals, "spectrum": n_spectrum, "signals": n_signals, "covariance": n_cov,
    "closest_to_tolerance": {k: round(float(v[0]), 3) for k, v in worst.items()},
    "samples": [["linear", *t] for t in itertools.islice(itertools.product(T.MODES, PAIRS), 3)],
}
check.assumptions = ["FFTLog is periodic: spectra fall off well inside the range of wavenumbers, as physical ones do"]
sys.exit(check.finish())

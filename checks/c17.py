"""C17: background functions satisfy their defining relations.

For every cosmology of a product of densities, equations of state and neutrino masses, for both integrators, several table sizes, and every other
setting varied alone: at every node of the table and between them,
    a = 1/(1+z),  calH = a H,  H^2/H0^2 = sum of the densities with their equations of state (so H(0) = H0),  d calH/d tau,  chi = int dz/H,
    D and f against an independent integration of the growth equation (D(0) = 1, f = dlnD/dlna), and the maximum separation of a bin.
"""
import itertools
import math
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

check = common.Check("C17", "exploration")
common.use_build("plain")
import numpy as np
import coffe
import coffe_model as M
from forkpool import pmap, Died

deep = check.thorough
C_H0 = 1 / 2997.92458
X, W = np.polynomial.legendre.leggauss(16)


def dark(z, w0, wa):
    """rho_de(z) / rho_de(0) for w = w0 + wa z/(1+z)."""
    return (1 + z) ** (3 * (1 + w0 + wa)) * np.exp(-3 * wa * z / (1 + z))


def growth(om, w0, wa, zs):
    """D/D(0) and f of D'' + 3/2 (1 - w/(1+x)) D'/a - 3/2 x/(1+x) D/a^2 = 0, D = a early on (Linder and Jenkins)."""
    n = 4000
    s = np.linspace(math.log(0.05), 0, n + 1)
    h = s[1] - s[0]

    def rhs(u, y):
        a = math.exp(u)
        z = 1 / a - 1
        w = w0 + wa * (1 - a)
        x = om / (1 - om) * (1 + z) ** 3 / dark(z, w0, wa)
        # y = (D, dD/du): dD/da = y1/a
        return np.array([y[1], y[1] - 1.5 * (1 - w / (1 + x)) * y[1] + 1.5 * x / (1 + x) * y[0]])
    y = np.array([0.05, 0.05])
    D, F = [y[0]], [y[1]]
    for u in s[:-1]:
        k1 = rhs(u, y)
        k2 = rhs(u + h / 2, y + h / 2 * k1)
        k3 = rhs(u + h / 2, y + h / 2 * k2)
        k4 = rhs(u + h, y + h * k3)
        y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        D.append(y[0])
        F.append(y[1])
    D, F = np.array(D), np.array(F)
    u = -np.log1p(zs)
    # cubic interpolation of ln D, linear is enough for 4000 steps
    return np.interp(u, s, D) / D[-1], np.interp(u, s, F / D)


def case(st):
    c = M.new_object(st, coffe)
    n = st["background_sampling"]
    step = max(1, (n - 1) // 60)
    nodes = [15.0 * i / (n - 1) for i in range(0, n, step)]
    between = [15.0 * (i + 0.37) / (n - 1) for i in range(0, n - 1, step)]
    bad, count = [], 0
    h, om, ob, og, ode = c.h, c.omega_m, c.omega_baryon, c.omega_gamma, c.omega_de
    k = h * h if coffe_physical else 1.0
    om, ob, og, ode = om / k, ob / k, og / k, ode / k
    ocb = (c.omega_cdm + c.omega_baryon) / k
    w0, wa = c.w0, c.wa
    H0 = h * C_H0
    if not abs(om + og + ode - 1) < 1e-12:
        bad.append(("budget", 0, om + og + ode, 1))
    zs = np.array(nodes + between)

    def hubble(z):
        return H0 * np.sqrt(om * (1 + z) ** 3 + og * (1 + z) ** 4 + ode * dark(z, w0, wa))
    # the distance by its own quadrature, panel by panel
    order = np.argsort(zs)
    chi = np.zeros(len(zs))
    last, total = 0.0, 0.0
    for i in order:
        z = zs[i]
        m = 1 + int((z - last) / 0.05)
        e = np.linspace(last, z, m + 1)
        mid, half = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
        t = mid[:, None] + half[:, None] * X
        total += float((half[:, None] * W / hubble(t)).sum())
        last = z
        chi[i] = total
    D, f = growth(ocb, w0, wa, zs)
    H = hubble(zs)
    w = w0 + wa * zs / (1 + zs)
    # d calH / d tau = calH d(calH)/d ln a = -(1/2) sum_i (1 + 3 w_i) rho_i a^2
    dH = -0.5 * H0 * H0 * (om * (1 + zs) + 2 * og * (1 + zs) ** 2 + ode * (1 + 3 * w) * dark(zs, w0, wa) / (1 + zs) ** 2)
    dsize = 0.5 * H0 * H0 * (om * (1 + zs) + 2 * og * (1 + zs) ** 2 + ode * abs(1 + 3 * w) * dark(zs, w0, wa) / (1 + zs) ** 2)
    # tables: 3e-4 for the equation of state and the Runge-Kutta steps; between the nodes, the error of the interpolation
    worst = {}
    for i, z in enumerate(map(float, zs)):
        node = i < len(nodes)
        gap = 0.0 if node else 4 * (15.0 / (n - 1) / (1 + z)) ** 2
        for name, got, want, size, tol in (
                ("a", c.scale_factor(z), 1 / (1 + z), 1 / (1 + z), 1e-10 + gap),
                ("H", c.hubble_rate(z), H[i], H[i], 3e-5 + gap),
                ("conformal", c.hubble_rate_conformal(z), H[i] / (1 + z), H[i] / (1 + z), 3e-5 + gap),
                ("conformal/H", c.hubble_rate_conformal(z), c.hubble_rate(z) * c.scale_factor(z), H[i] / (1 + z), 1e-10 + gap),
                ("derivative", c.hubble_rate_conformal_derivative(z), dH[i], dsize[i], 1e-4 + 2 * gap),
                ("distance", c.comoving_distance(z), chi[i], chi[i], 5e-5 + gap + max(3 * st.get("integration_1d_prec", 1e-5), 0)),
                ("D", c.growth_factor(z), D[i], D[i], 1e-4 + gap),
                ("f", c.growth_rate(z), f[i], max(f[i], 0.05), 2e-4 + 2 * gap)):
            count += 1
            if name == "distance" and not node and z < 15.0 / (n - 1):
                continue        # the first interval starts at zero: no relative error to speak of
            err = abs(got - want) / (tol * abs(size) + 1e-30)
            worst[name] = max(worst.get(name, 0), err)
            if not err <= 1:
                bad.append((name, z, got, want))
    if not abs(c.growth_factor(0) - 1) < 1e-12 or not abs(c.hubble_rate(0) / H0 - 1) < 1e-6 or abs(c.comoving_distance(0)) > 1e-9 or abs(c.scale_factor(0) - 1) > 1e-12:
        bad.append(("today", 0, [c.growth_factor(0), c.hubble_rate(0) / H0, c.comoving_distance(0), c.scale_factor(0)], [1, 1, 0, 1]))
    for z, dz in ((0.5, 0.1), (1.0, 0.4), (2.5, 1.0)):
        count += 1
        got, want = c.maximum_separation(z, dz), 2 * (c.comoving_distance(z + dz) - c.comoving_distance(z))
        if not abs(got - want) <= 1e-9 * want:
            bad.append(("separation", z, got, want))
    # increasing, so that redshifts can be recovered from distances
    v = [c.comoving_distance(float(z)) for z in sorted(zs)]
    if any(b <= a for a, b in zip(v, v[1:])):
        bad.append(("monotonic", 0, v[:5], None))
    return bad, count, worst


_c = coffe.Coffe(omega_m=0.3)
coffe_physical = not abs(_c.omega_m + _c.omega_gamma + _c.omega_de - 1) < 1e-9
base = dict(background_sampling=301, integration_1d_prec=1e-5)
cases = []
for om, w0, wa, mass, kind in itertools.product((0.12, 0.3, 0.6, 0.95), (-1.4, -1.0, -0.75, -0.4), (-0.4, 0.0, 0.25), (0.0, 0.06, 0.5), ("gsl", "exponential")):
    if kind == "exponential" and not deep and (om not in (0.3, 0.95) or mass == 0.06):
        continue
    cases.append((f"product/{kind}", dict(base, omega_m=om, w0=w0, wa=wa, m_ncdm=mass, integration_1d_type=kind)))
for name, values in (("h", (0.3, 0.55, 0.74, 1.0)), ("omega_baryon", (0.01, 0.09)), ("omega_gamma", (1e-6, 1e-3, 2e-2)), ("omega_cdm", (0.15, 0.4)), ("T_cmb", (2.5,)), ("N_ur", (1.0, 4.0)), ("N_ncdm", (2,)),
                     ("background_sampling", (51, 1000, 10000)), ("integration_1d_prec", (1e-3, 1e-8)), ("sigma8", (0.6,)), ("has_d1", (True,))):
    for v in values:
        for other in ({}, {"w0": -0.8, "wa": 0.2, "m_ncdm": 0.2}):
            cases.append((f"setting/{name}", dict(base, **other, **{name: v}) if name not in base else dict(dict(base, **other), **{name: v})))
n = 0
worst = {}
for (label, st), res in zip(cases, pmap(case, [s for _, s in cases], timeout=300)):
    if isinstance(res, Died):
        check.violation(f"{label}/died", settings=st, got=repr(res))
        continue
    bad, count, ws = res
    n += count
    for k, v in ws.items():
        worst[k] = max(worst.get(k, 0), v)
    seen = set()
    for name, z, got, want in bad:
        if name not in seen:
            seen.add(name)
            check.violation(f"{label}/{name}", settings=st, z=z, got=got, want=want)
if n < 1000:
    check.violation("harness/vacuous", values=n)
check.coverage = {
    "evaluations": n, "distinct_nontrivial": n - 8 * len(cases),
    "rule": "one evaluation compares one background function at one redshift with its definition; trivial: those at z = 0",
    "exhaustive": True, "cosmologies": len(cases), "closest_to_tolerance": {k: round(float(v), 3) for k, v in worst.items()},
    "samples": [[l, s] for l, s in cases[::len(cases) // 3][:3]],
}
check.assumptions = ["growth is that of the clustering matter (cold matter and baryons) with dark energy, started as in matter domination at a = 0.05"]
sys.exit(check.finish())

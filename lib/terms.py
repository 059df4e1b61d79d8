"""Evaluating the signal of any set of contributions, for the algebraic checks (C06, C07, C16, C18)."""
import coffe_model as M
import coffe_space as S

BASE = dict(S.SMALL, **S.BIASES)
BASE.update(integrals_fftlog_sampling=128, background_sampling=300, integration_sampling=100, integration_1d_prec=1e-7,
            sep=[80.0, 150.0], mu=[0.35, -0.8], l=[0, 1, 2, 3, 4], z_mean=[0.9, 1.1], deltaz=[0.1, 0.1],
            z_min=[0.7], z_max=[1.1])
MODES = {
    "full": {},
    "flat": dict(has_flatsky_local=True, has_flatsky_local_nonlocal=True, has_flatsky_nonlocal=True),
    "flat_local": dict(has_flatsky_local=True),
    "flat_mixed": dict(has_flatsky_local_nonlocal=True),
    "flat_nonlocal": dict(has_flatsky_nonlocal=True),
}
POINTS = [(0.9, 80.0, 0.35), (1.1, 150.0, -0.8)]
MPOINTS = [(0.9, 80.0, 0), (0.9, 80.0, 1), (1.1, 150.0, 2), (1.1, 150.0, 3), (0.9, 150.0, 4)]
SHORT = [t[4:] for t in M.CONTRIB]
CROSS = "has_only_cross_correlations"


def contributions(c, names):
    for t in M.CONTRIB:
        v = t[4:] in names
        if getattr(c, t) != v:
            setattr(c, t, v)


def answers(c, kinds=("corrfunc", "multipole", "average"), points=POINTS, mpoints=MPOINTS):
    out = []
    if "corrfunc" in kinds:
        out += [c.compute_corrfunc(z=z, r=r, mu=m) for z, r, m in points]
    if "multipole" in kinds:
        out += [c.compute_multipole(z=z, r=r, l=l) for z, r, l in mpoints]
    if "average" in kinds:
        out += [x.value for x in c.compute_average_multipoles_bulk()]
    return out


def label(i, kinds=("corrfunc", "multipole", "average"), points=POINTS, mpoints=MPOINTS):
    names = []
    if "corrfunc" in kinds:
        names += [f"corrfunc(z={z},r={r},mu={m})" for z, r, m in points]
    if "multipole" in kinds:
        names += [f"multipole(z={z},r={r},l={l})" for z, r, l in mpoints]
    return names[i] if i < len(names) else f"average[{i - len(names)}]"

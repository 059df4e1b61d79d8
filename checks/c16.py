"""C16: multipoles are the Legendre projections of the correlation function, averages are averages over the bin.

project   every pair of contributions, isolated by the cross-correlation mode, in full sky and in the flat-sky modes: each multipole against the
          projection of compute_corrfunc evaluated here; every l up to 6 and more points for the local pairs
average   every pair: each redshift-averaged multipole against the average of compute_multipole over the bin, evaluated here, for one and two bins
methods   both one-dimensional integrators and four precisions, for every pair and output they are used in
carlo     the Monte Carlo integrators, which the other parts replace by a fixed cubature, agree with that cubature (run in the released build)
"""
import itertools
import json
import pathlib
import subprocess
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

CARLO = "--carlo" in sys.argv
check = common.Check("C16", "exploration")
common.use_build("release" if CARLO else "quad")
import numpy as np
import coffe
import coffe_model as M
import oracle as O
import terms as T
from forkpool import pmap, Died

deep = check.thorough
ALL = T.SHORT
LOS = {"lensing", "g4", "g5"}
X, W = np.polynomial.legendre.leggauss(48)
_t = (X + 1) / 2
MU, MUW = 2 * _t ** 3 * (10 - 15 * _t + 6 * _t * _t) - 1, W * 30 * _t * _t * (1 - _t) ** 2     # nodes gather at mu = -1, 1
Z, ZW = np.polynomial.legendre.leggauss(8)
PAIRS = list(itertools.combinations(ALL, 2)) + [(a,) for a in ALL]


def make(mode, pair, **kw):
    # the last redshift is beyond all the points: the table of the divergent integral has to reach them
    c = M.new_object(dict(T.BASE, **dict(T.MODES[mode], z_mean=[0.9, 1.6], **kw)), coffe)
    setattr(c, T.CROSS, len(pair) == 2)
    T.contributions(c, pair)
    return c


def kind(pair):
    """The number of line-of-sight integrals of the pair."""
    n = sum(p in LOS for p in pair)
    return 2 * n if len(pair) == 1 else n


def inverse_distance(c, x):
    a, b = 0.0, 6.0
    for _ in range(60):
        m = (a + b) / 2
        a, b = (m, b) if c.comoving_distance(m) < x else (a, m)
    return a


def project(task):
    mode, pair, points, ls, kw = task
    out = []
    c = make(mode, pair, l=ls, **kw)
    k = kind(pair)
    for z, r in points:
        c.integration_sampling = 22500
        f = np.array([c.compute_corrfunc(z=z, r=r, mu=float(m)) for m in MU])
        c.integration_sampling = {0: 400, 1: 90000, 2: 1000000 if len(pair) == 1 and "lensing" in pair else 216000}[k]
        size = float(np.sqrt((f * f * MUW).sum()))
        for l in ls:
            P = np.polynomial.legendre.Legendre.basis(l)(MU)
            out.append((z, r, l, c.compute_multipole(z=z, r=r, l=l), float((2 * l + 1) / 2 * (f * P * MUW).sum()), size))
    return out


def average(task):
    mode, pair, bins, r, ls, kw = task
    k = kind(pair)
    hard = "lensing" in pair and k and (k == 2 or len({"density", "rsd"} & set(pair)))
    c = make(mode, pair, sep=[r], l=ls, z_min=[b[0] for b in bins], z_max=[b[1] for b in bins], **kw)
    c.integration_sampling = {0: 2500, 1: 216000 if hard else 64000, 2: 810000 if hard else 160000}[k]
    got = {(x.z_min, x.l): x.value for x in c.compute_average_multipoles_bulk()}
    c.integration_sampling = {0: 400, 1: 40000, 2: 343000 if hard else 64000}[k]
    out = []
    for z0, z1 in bins:
        a, b = (inverse_distance(c, c.comoving_distance(z) + s * r / 2) for z, s in ((z0, 1), (z1, -1)))
        want = {l: 0.0 for l in ls}
        for x, w in zip(Z, ZW):
            z = float((a + b) / 2 + (b - a) / 2 * x)
            # the weight is the line element: dz H0/H
            weight = float(w) / 2 * O.H0 * c.h / (c.hubble_rate_conformal(z) * (1 + z))
            for l in ls:
                want[l] += weight * c.compute_multipole(z=z, r=r, l=l)
        size = max(map(abs, want.values()))
        out += [(z0, r, l, got[z0, l], want[l], size) for l in ls]
    return out


def methods(task):
    mode, pair = task
    out = []
    for method in ("gsl", "exponential"):
        for prec in (1e-3, 1e-5, 1e-7):
            c = make(mode, pair, integration_1d_type=method, integration_1d_prec=prec, integration_sampling=900, l=[0, 1, 2])
            v = [c.compute_corrfunc(z=z, r=r, mu=m) for z, r, m in ((0.9, 120.0, 0.4), (1.1, 60.0, -0.7))]
            v += [c.compute_multipole(z=0.9, r=120.0, l=l) for l in (0, 1, 2)]
            out.append((method, prec, v))
    return out


def carlo(task):
    """Corrfunc, multipoles and averages which use the multidimensional integrators."""
    mode, pair = task
    c = make(mode, pair, sep=[120.0], l=[0, 1, 2], z_min=[0.8], z_max=[1.1])
    c.integration_sampling = {0: 50000, 1: 100000, 2: 400000}[kind(pair)]
    return ([c.compute_corrfunc(z=0.9, r=120.0, mu=m) for m in (0.4, -0.7)] + [c.compute_multipole(z=0.9, r=120.0, l=l) for l in (0, 1, 2)]
            + [x.value for x in c.compute_average_multipoles_bulk()])


carlo_cases = [(m, p) for m in ("full", "flat") for p in [("density",), ("rsd",), ("d1",), ("density", "d1"), ("density", "lensing"), ("rsd", "g4"), ("d1", "g5"), ("g1", "lensing"),
                                                         ("lensing",), ("g4",), ("g5",), ("lensing", "g4"), ("lensing", "g5"), ("g4", "g5")]]
if CARLO:
    res = pmap(carlo, carlo_cases, timeout=400)
    print("RESULT " + json.dumps([None if isinstance(r, Died) else r for r in res]))
    sys.exit(0)


def flat_matters(mode, pair):
    s = set(pair)
    return s != {"lensing"} if mode == "flat_mixed" and len(s) == 1 else {"full": True, "flat": s <= {"density", "rsd", "d1", "lensing", "g4"}, "flat_local": s <= {"density", "rsd", "d1"},
            "flat_mixed": "lensing" in s and s <= {"density", "rsd", "d1", "lensing"}, "flat_nonlocal": s <= {"lensing", "g4"} or s == {"density"}}[mode]


jobs = []
for mode in T.MODES:
    for pair in PAIRS:
        if not deep and not flat_matters(mode, pair):
            continue
        k = kind(pair)
        points = [(0.9, 150.0), (1.1, 70.0), (0.6, 25.0), (1.4, 220.0)] if k == 0 else [(0.9, 150.0), (1.2, 90.0)] if k == 1 or deep else [(0.9, 150.0)]
        ls = list(range(7)) if k == 0 else list(range(5))
        jobs.append(("project", f"{mode}/{'-'.join(pair)}", k, project, (mode, pair, points, ls, {})))
        if k == 0:
            jobs.append(("project", f"{mode}/{'-'.join(pair)}", k, project, (mode, pair, points[:2], ls, {"integration_1d_type": "exponential", "h": 0.72, "w0": -0.85})))
        if not deep and mode != "full" and k and "lensing" not in pair:
            continue
        bins = [(0.7, 1.1)] if k else [(0.7, 0.9), (0.8, 1.2)]
        jobs.append(("average", f"{mode}/{'-'.join(pair)}", k, average, (mode, pair, bins, 200.0 if pair == ("lensing",) else 100.0, [0, 1, 2] if k else [0, 1, 2, 3, 4], {})))
        jobs.append(("methods", f"{mode}/{'-'.join(pair)}", k, methods, (mode, pair)))
for kinds in (("density", "rsd", "d1"), ("density", "rsd", "lensing"), ("density", "d2", "g2"), ("density", "lensing", "d2"), ("lensing", "g4", "density")):
    for mode in ("full", "flat", "flat_mixed", "flat_nonlocal"):
        k = 2 if LOS & set(kinds) else 0
        jobs.append(("project", f"{mode}/{'-'.join(kinds)}", k, project, (mode, kinds, [(0.9, 150.0)], [0, 1, 2], {})))
# what the cubature of the library can do for each kind of pair: relative to the size of the function, or of the largest average
TOL = {"project": {0: 1e-6, 1: 4e-4, 2: 2e-2}, "average": {0: 2e-4, 1: 5e-3, 2: 6e-2}}
PEAKED = {"project": 5e-2, "average": 1.5e-1}        # density or RSD with lensing in full sky: narrow in the angle
n = nontrivial = 0
worst = {}
order = sorted(range(len(jobs)), key=lambda i: -(jobs[i][2] + (jobs[i][0] == "average")))
results = dict(zip(order, pmap(lambda i: jobs[i][3](jobs[i][4]), order, timeout=600)))
for i, (what, label, k, fn, task) in enumerate(jobs):
    res = results[i]
    if isinstance(res, Died):
        check.violation(f"{what}/{label}/died", got=repr(res))
        continue
    if what == "methods":
        best = res[2][2]
        size = max(map(abs, best))
        for method, prec, v in res:
            for x, (a, b) in enumerate(zip(v, best)):
                n += 1
                nontrivial += bool(b)
                group = best[:2] if x < 2 else best[2:]
                err = abs(a - b) / ((20 * prec + 5e-4) * max(map(abs, group)) + 1e-25)
                worst[what] = max(worst.get(what, 0), err)
                if not err <= 1:
                    check.violation(f"methods/{label}/{method}", precision=prec, value=x, got=a, reference=b)
        continue
    s = set(task[1])
    peaked = k == 1 and "lensing" in s and s & {"density", "rsd"} or s == {"lensing"}
    tol = PEAKED[what] if peaked or (k == 2 and len(s) == 3) else TOL[what][k]
    for z, r, l, got, want, size in res:
        n += 1
        nontrivial += bool(abs(want) > 1e-4 * size > 0)
        err = abs(got - want) / (tol * size + 1e-25)
        key = f"{what}{k}{'p' if peaked else ''}"
        worst[key] = max(worst.get(key, 0), err)
        if not err <= 1:
            check.violation(f"{what}/{label}/{l}", z=z, r=r, l=l, got=got, want=want, size=size, settings=task[-1])
print("projected", check.elapsed())
ours = pmap(carlo, carlo_cases, timeout=400)
run = subprocess.run([sys.executable, __file__, "--carlo"], capture_output=True, text=True)
lines = [x for x in run.stdout.splitlines() if x.startswith("RESULT ")]
if run.returncode or not lines:
    raise SystemExit("harness: the Monte Carlo run failed\n" + run.stdout + run.stderr)
for (mode, pair), a, b in zip(carlo_cases, ours, json.loads(lines[0][7:])):
    if isinstance(a, Died) or b is None:
        check.violation(f"carlo/{mode}/{'-'.join(pair)}/died", cubature=repr(a), carlo=b)
        continue
    for g in (slice(0, 2), slice(2, 5), slice(5, 8)):
        size = max(map(abs, a[g]))
        for x, y in zip(a[g], b[g]):
            n += 1
            nontrivial += bool(abs(x) > 1e-4 * size > 0)
            err = abs(x - y) / (0.25 * size + 1e-25)
            worst["carlo"] = max(worst.get("carlo", 0), err)
            if not err <= 1:
                check.violation(f"carlo/{mode}/{'-'.join(pair)}", cubature=a[g], carlo=b[g])
if nontrivial < n / 3:
    check.violation("harness/vacuous", values=n, nontrivial=nontrivial)
check.coverage = {
    "evaluations": n, "distinct_nontrivial": nontrivial,
    "rule": "one evaluation compares one multipole or average with the integral of its definition, or one value by two methods; non-trivial: more than 1e-4 of the size of the function",
    "exhaustive": True, "jobs": len(jobs), "closest_to_tolerance": {k: round(v, 4) for k, v in worst.items()},
    "samples": [[j[0], j[1], str(j[4][2:])[:200]] for j in jobs[::len(jobs) // 3][:3]],
}
check.assumptions = ["the fixed cubature stands for the multidimensional integrators except in the part 'carlo'"]
sys.exit(check.finish())

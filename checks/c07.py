"""C07: exchanging the two populations mirrors the signal.

pairs     every pair of contributions (and each alone), in full sky and in the flat-sky modes, x every subset of the three kinds of
          bias that differ between the populations, x both orders: the signal of the object with its tables exchanged, at -mu (or
          times (-1)^l), must equal that of the original; with no kind differing the signal is even.
sets      larger sets: all contributions, all with one left out, all triples (thorough: all 1024), with and without cross-correlations only.
points    more redshifts, separations and angles, every multipole up to 6, several cosmologies and integrators, for all contributions together.
The Monte Carlo integrators are replaced by a fixed cubature, which is symmetric (stub/quad_stub.c).
"""
import itertools
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

check = common.Check("C07", "exploration")
common.use_build("quad")
import coffe
import coffe_model as M
import coffe_space as S
import terms as T
from forkpool import pmap, Died

deep = check.thorough
ALL = T.SHORT
TYPES = ("galaxy_bias", "magnification_bias", "evolution_bias")
LOCAL = {"density", "rsd", "d1", "d2", "g1", "g2", "g3"}
POINTS = [(0.9, 80.0, 0.35), (1.1, 150.0, 0.8)]
MPOINTS = [(0.9, 80.0, 0), (0.9, 80.0, 1), (1.1, 150.0, 2), (1.1, 150.0, 3)]


def tables(differ, swapped):
    """Bias tables of the two populations; those not in differ are those of the first for both."""
    out = {}
    for t in TYPES:
        one, two = S.BIASES[t + "1"], S.BIASES[t + "2"] if t in differ else S.BIASES[t + "1"]
        out[t + "1"], out[t + "2"] = (two, one) if swapped else (one, two)
    return out


def answers(c, st, sign, points, mpoints, average):
    out = [c.compute_corrfunc(z=z, r=r, mu=sign * s * m) for z, r, m in points for s in (1, -1)]
    out += [c.compute_multipole(z=z, r=r, l=l) for z, r, l in mpoints]
    if average:
        out += [x.value for x in c.compute_average_multipoles_bulk()]
    return out


def case(task):
    """[(differ, original, exchanged)] for one set of contributions."""
    st, names, subsets, points, mpoints, average = task
    out = []
    c = M.new_object(dict(T.BASE, **st), coffe)
    T.contributions(c, names)
    for differ in subsets:
        pair = []
        for swapped in (False, True):
            for b, (x, y) in tables(differ, swapped).items():
                getattr(c, "set_" + b)(x, y)
            pair.append(answers(c, st, -1 if swapped else 1, points, mpoints, average))
        out.append((differ, *pair))
    return out


def labels(points, mpoints, average):
    out = [(f"corrfunc(z={z},r={r},mu={s * m})", 1, None) for z, r, m in points for s in (1, -1)]
    out += [(f"multipole(z={z},r={r},l={l})", (-1) ** l, l) for z, r, l in mpoints]
    if average:
        b = T.BASE
        out += [(f"average(l={l},r={r})", (-1) ** l, l) for _ in b["z_min"] for l in b["l"] for r in b["sep"]]
    return out


DIFFER = [s for n in range(4) for s in itertools.combinations(TYPES, n)]
cases = []
for mode in T.MODES:
    for pair in list(itertools.combinations(ALL, 2)) + [(a,) for a in ALL]:
        if mode != "full" and not deep and not set(pair) <= {"density", "rsd", "lensing", "d1", "g4"}:
            continue
        local = set(pair) <= LOCAL
        cases.append((f"{mode}/{'-'.join(pair)}", T.MODES[mode], pair, DIFFER if local or deep else [(), TYPES] + [(t,) for t in TYPES], POINTS, MPOINTS, local or deep))
full = [tuple(ALL)] + [tuple(a for a in ALL if a != x) for x in ALL]
full += [s for n in (range(3, 9) if deep else (3,)) for s in itertools.combinations(ALL, n)]
for names in full:
    for cross in (False, True):
        for mode in ("full", "flat"):
            if (mode == "flat" or cross) and len(names) < 9 and not deep:
                continue
            cases.append((f"set/{mode}/{'cross' if cross else 'all'}/{len(names)}", dict(T.MODES[mode], **{T.CROSS: cross}), names, [(), TYPES], POINTS[:1], MPOINTS[:2], False))
more = [(z, r, m) for z in (0.5, 1.3) for r in (20.0, 100.0, 200.0) for m in (0.0, 0.1, 0.5, 0.95, 1.0)]
mmore = [(z, r, l) for z in (0.5, 1.3) for r in (40.0, 200.0) for l in range(7)]
for label, st in [("default", {}), ("h", {"h": 0.72}), ("w0", {"w0": -0.8, "wa": 0.2}), ("omega_m", {"omega_m": 0.22}), ("exponential", {"integration_1d_type": "exponential"}),
                  ("neutrinos", {"m_ncdm": 0.2})]:
    for names in ([a for a in ALL if a in LOCAL], ["density", "rsd", "lensing"], ["density", "g4"], ["d1", "g5"], ["rsd", "g4", "g5"], ["lensing", "g5"]):
        for z in (0.5, 1.3):
            cases.append((f"points/{label}", dict(st, z_mean=[0.5, 1.3]), names, [(), TYPES], [p for p in more if p[0] == z], [p for p in mmore if p[0] == z], False))

n = nontrivial = odd = 0
worst = 0.0
for (label, st, names, subsets, points, mpoints, average), res in zip(cases, pmap(case, [x[1:] for x in cases], timeout=400)):
    if isinstance(res, Died):
        check.violation(label + "/died", got=repr(res))
        continue
    lab = labels(points, mpoints, average)
    for differ, one, two in res:
        if not len(one) == len(two) == len(lab):
            raise SystemExit(f"harness: {len(one)} {len(two)} {len(lab)}")
        # at each kind of point, the size of the largest answer sets the accuracy of the sums of many terms
        groups = {}
        for v, (what, _, l) in zip(one, lab):
            g = what.split("(")[0]
            groups[g] = max(groups.get(g, 0), abs(v))
        for i, ((what, sign, l), a, b) in enumerate(zip(lab, one, two)):
            n += 1
            scale = groups[what.split("(")[0]]
            nontrivial += bool(abs(a) > 1e-6 * scale > 0)
            err = abs(a - sign * b) / (1e-5 * scale + 1e-25)
            worst = max(worst, err)
            if not err <= 1:
                check.violation(f"mirror/{label}/{what.split('(')[0]}/{'odd' if sign < 0 else 'even'}", contributions=names, differ=differ, what=what, original=a, exchanged=b)
            if not differ and l is not None and l % 2:
                odd += 1
                if not abs(a) <= 1e-5 * scale + 1e-25:
                    check.violation(f"odd/{label}/{what.split('(')[0]}", contributions=names, what=what, got=a, scale=scale)
        if not differ:
            for i in range(0, 2 * len(points), 2):
                if not abs(one[i] - one[i + 1]) <= 1e-5 * groups["corrfunc"] + 1e-25:
                    check.violation(f"even/{label}", contributions=names, what=lab[i][0], plus=one[i], minus=one[i + 1])
if nontrivial < n / 2:
    check.violation("harness/vacuous", values=n, nontrivial=nontrivial)
check.coverage = {
    "evaluations": n, "distinct_nontrivial": nontrivial,
    "rule": "one evaluation compares one value with that of the object with exchanged populations; non-trivial: more than 1e-6 of the largest of its kind",
    "exhaustive": True, "cases": len(cases), "odd_multipoles_of_identical_populations": odd, "closest_to_tolerance": round(worst, 3),
    "samples": [[x[0], list(x[2]), [list(d) for d in x[3]]] for x in cases[::len(cases) // 3][:3]],
}
check.assumptions = ["Monte Carlo integrals replaced by a fixed symmetric cubature"]
sys.exit(check.finish())

"""C06: the signal is the sum of its pairs of contributions, and linear in each bias.

subsets   the answers for the subsets of the ten contributions (all 1024 in full-sky; up to 3 and from 9 in the
          flat-sky modes), with and without cross-correlations only, must equal the sum of the pair terms obtained from
          the subsets of one and two.
biases    for every pair of contributions, isolated by the cross-correlation mode, and every bias table of every population:
          the term is affine in each table, affine in all tables of one population together, unaffected by the tables
          its contributions do not contain, and proportional to the galaxy bias of a density-density term.
The Monte Carlo integrators are replaced by a fixed cubature (stub/quad_stub.c), which is linear in the integrand.
"""
import itertools
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

check = common.Check("C06", "exploration")
common.use_build("quad")
import coffe
import coffe_model as M
import coffe_space as S
import terms as T
from forkpool import pmap, Died

deep = check.thorough
ALL = T.SHORT
N = len(ALL)
KINDS = ("corrfunc", "multipole", "average")


def evaluate(task):
    mode, cross, subsets, kinds = task
    c = M.new_object(dict(T.BASE, **T.MODES[mode], **{T.CROSS: cross}), coffe)
    out = []
    for s in subsets:
        T.contributions(c, [ALL[i] for i in s])
        out.append(T.answers(c, kinds))
    return out


def closeto(got, want, scale, tol):
    return abs(got - want) <= tol * scale + 1e-25


plan = []
for mode in T.MODES:
    sets = [s for n in range(1, N + 1) for s in itertools.combinations(range(N), n)]
    if mode != "full" and not deep:
        sets = [s for s in sets if len(s) <= 2 or len(s) >= 9 or set(s) <= {0, 1, 2, 3} or (len(s) == 3 and (0 in s or 2 in s))]
    for cross in (False, True):
        for kinds in ((("corrfunc", "multipole"), ("average",))):
            use = sets if kinds != ("average",) or deep else [s for s in sets if len(s) <= 2 or len(s) >= 9 or (len(s) == 3 and 0 in s)]
            if kinds == ("average",) and mode not in ("full", "flat") and not deep:
                use = [s for s in use if set(s) <= {0, 1, 2, 3}]
            for i in range(0, len(use), 16):
                plan.append((mode, cross, use[i:i + 16], kinds))
values = {}
evaluations = 0
for (mode, cross, sets, kinds), res in zip(plan, pmap(evaluate, plan, timeout=300)):
    if isinstance(res, Died):
        check.violation(f"{mode}/died", cross=cross, subsets=[[ALL[i] for i in s] for s in sets][:3], got=repr(res))
        continue
    for s, v in zip(sets, res):
        values[mode, cross, kinds, s] = v
        evaluations += 1
print("subsets", evaluations, check.elapsed())
TOL = 1e-5          # the adaptive integrals are good to 1e-7 of their own value
nontrivial = 0
for mode in T.MODES:
    for kinds in (("corrfunc", "multipole"), ("average",)):
        single = {i: values.get((mode, False, kinds, (i,))) for i in range(N)}
        pair = {}
        for i, j in itertools.combinations(range(N), 2):
            v = values.get((mode, False, kinds, (i, j)))
            if v and single[i] and single[j]:
                pair[i, j] = [a - b - c for a, b, c in zip(v, single[i], single[j])]
        for cross in (False, True):
            for s in {k[3] for k in values if k[:3] == (mode, cross, kinds)}:
                got = values[mode, cross, kinds, s]
                ps = list(itertools.combinations(s, 2))
                if any(p not in pair for p in ps) or any(not single[i] for i in s):
                    continue
                # the largest of what these differences were computed from, at any of the points, sets their accuracy
                scale = max(sum(abs(pair[p][x]) for p in ps) + sum(abs(single[i][x]) for i in s) for x in range(len(got)))
                for x, g in enumerate(got):
                    parts = [pair[p][x] for p in ps]
                    if not cross:
                        parts += [single[i][x] for i in s]
                    want = sum(parts)
                    nontrivial += abs(want) > 1e-18
                    if not closeto(g, want, scale, TOL):
                        check.violation(f"sum/{mode}/{'cross' if cross else 'all'}/{kinds[0]}/{len(s)}", contributions=[ALL[i] for i in s],
                                        what=T.label(x, kinds), got=g, sum_of_terms=want, scale=scale)
print("sums checked", check.elapsed())

# --- biases --------------------------------------------------------------------------------------------
DEPENDS = {"density": {"galaxy"}, "rsd": set(), "lensing": {"magnification"}, "d1": {"magnification", "evolution"}, "d2": {"evolution"},
           "g1": {"magnification", "evolution"}, "g2": {"magnification"}, "g3": set(), "g4": {"magnification"}, "g5": {"magnification", "evolution"}}
BT = ["galaxy_bias1", "galaxy_bias2", "magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2"]
OTHER = ["galaxy_bias3", "galaxy_bias4"]


def scaled(c, names, f):
    for n in names:
        x, y = S.BIASES[n]
        getattr(c, "set_" + n)(x, [f * v for v in y])


def bias_case(task):
    mode, a, b = task
    kinds = ("corrfunc", "multipole")
    c = M.new_object(dict(T.BASE, **T.MODES[mode], **{T.CROSS: a != b}), coffe)
    T.contributions(c, [a, b])
    base = T.answers(c, kinds)
    out = [("base", None, base)]
    for n in BT + OTHER:
        r = []
        for f in (0.0, 2.0):
            scaled(c, [n], f)
            r.append(T.answers(c, kinds))
        scaled(c, [n], 1.0)
        out.append(("one", n, r))
    for pop in "12":
        names = [n for n in BT if n.endswith(pop)]
        r = []
        for f in (0.0, 2.0):
            scaled(c, names, f)
            r.append(T.answers(c, kinds))
        scaled(c, names, 1.0)
        out.append(("population", pop, r))
    if "density" in (a, b):
        scaled(c, BT[:2], 0.0)
        out.append(("no galaxy bias", None, T.answers(c, kinds)))
        scaled(c, BT[:2], 2.0)
        out.append(("twice the galaxy biases", None, T.answers(c, kinds)))
        scaled(c, BT[:2], 1.0)
    out.append(("restored", None, T.answers(c, kinds)))
    return out


pairs = [(a, b) for a, b in itertools.combinations_with_replacement(ALL, 2)]
flat_pairs = [p for p in pairs if set(p) <= {"density", "rsd", "d1", "lensing"}]
cases = [("full", a, b) for a, b in pairs] + [(m, a, b) for m in T.MODES if m != "full" for a, b in (pairs if deep else flat_pairs)]
for (mode, a, b), res in zip(cases, pmap(bias_case, cases, timeout=300)):
    where = f"{mode}/{a}-{b}"
    if isinstance(res, Died):
        check.violation(f"bias/{where}/died", got=repr(res))
        continue
    base = res[0][2]
    big = max(map(abs, base))
    dep = DEPENDS[a] | DEPENDS[b]
    for what, n, r in res[1:]:
        evaluations += 1

        def judge(i, got, want, scale, rule):
            if not closeto(got, want, scale, TOL):
                check.violation(f"bias/{where}/{n or what}/{rule}", what=T.label(i, ("corrfunc", "multipole")), got=got, want=want)
        if what in ("one", "population"):
            zero, two = r
            scale = max(abs(v) + abs(zero[i]) + abs(two[i]) for i, v in enumerate(base))
            for i, v in enumerate(base):
                judge(i, two[i] - v, v - zero[i], scale, "affine")
                if what == "one" and (n in OTHER or n.split("_")[0] not in dep):
                    judge(i, two[i], v, scale, "independent")
                if n in ("galaxy_bias1", "galaxy_bias2") and a == b == "density":
                    judge(i, two[i], 2 * v, scale, "proportional")
                    judge(i, zero[i], 0, scale, "proportional")
            if what == "one" and n not in OTHER and n.split("_")[0] in dep:
                # the bias of each population is used by one of the two orders of the pair
                nontrivial += 1
                if all(closeto(two[i], v, abs(v), 1e-12) for i, v in enumerate(base)) and any(abs(v) > 1e-20 for v in base):
                    check.violation(f"bias/{where}/{n}/unused", base=base)
        elif what == "restored":
            for i, v in enumerate(base):
                judge(i, r[i], v, big, "restored")
        elif what == "no galaxy bias":
            for i, v in enumerate(base):
                judge(i, r[i], 0, big, "zero")
        else:
            for i, v in enumerate(base):
                judge(i, r[i], (4 if a == b else 2) * v, big, "degree")
check.coverage = {
    "evaluations": evaluations, "distinct_nontrivial": nontrivial,
    "rule": "an evaluation is one (mode, subset of contributions) or (mode, pair, scaled bias) with all its points; counted as non-trivial: every comparison whose expected value is above 1e-18",
    "exhaustive": True, "subsets": len(values), "bias_cases": len(cases),
    "samples": [[m, c, [[ALL[i] for i in s] for s in ss[:2]], list(k)] for m, c, ss, k in plan[:2]],
}
sys.exit(check.finish())

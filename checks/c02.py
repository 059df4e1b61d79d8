"""C02: what is set is what is read back, nothing else moves, and a refused value changes nothing.

Explored: every writable setting x its value alphabet (valid, boundary and invalid values) from every base
configuration, and every ordered pair of assignments to two settings, on the real object against a dict model.
"""
import itertools
import json
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

check = common.Check("C02", "model_checking")
common.use_build()
import numpy as np
import coffe
import coffe_model as M
import coffe_space as S
from forkpool import pmap, Died

NAN, INF = float("nan"), float("inf")
REAL_BAD = ["x", None, [1.0], 1j, NAN, INF, -INF]
FLOATS = {  # slot: (accepted, refused)
    "omega_m": ([0.1, 0.31, 1, 0.3 + 1e-9, 0.0], [1.2, 101]),
    "omega_baryon": ([0.01, 0.05 + 1e-10, 0.2, 0], [1.5]),
    "omega_gamma": ([0.0, 1e-10, 1e-4, 9e-5 + 1e-12], [0.9]),
    "omega_cdm": ([0.1, 0.25, 0.25 + 1e-9, 0.5], [1.1]),
    "h": ([0.5, 0.67 + 1e-9, 0.7, 1], [-0.1, 101, 0, 0.0]),
    "w0": ([-1, -1 + 1e-9, -0.5, -1.3], [101, -101]),
    "wa": ([0, 1e-12, -0.5, 0.3], [101, -101]),
    "n_s": ([0.9, 0.96 + 1e-10, 1], [101, -101]),
    "sigma8": ([0.5, 0.8156 + 1e-9, 1], [101, -101]),
    "A_s": ([1e-9, 2.1e-9, 3.3e-9], [101, -101]),
    "T_cmb": ([2.7, 2.726 + 1e-9, 3], [101, -101]),
    "N_ur": ([1.0, 2.0328 + 1e-9, 3], [101, -101]),
    "m_ncdm": ([0.06, 1e-12, 0.3, 0], [101, -101]),
    "YHe": ([0.2, 0.25 + 1e-12, 0.3], [101, -101]),
    "k_min": ([1e-5, 2e-4, 1e-3], [2e-3, -1.0]),
    "k_max": ([0.1, 3.0, 1000], [0.05, 1001]),
}
INTS = {
    "N_ncdm": ([0, 1, 2, 3], [1.5, 101, -101]),
    "integration_sampling": ([100, 1000, 750000], [-1, 1.5, 2**31]),
    "background_sampling": ([100, 333, 10000], [-1, 1.5, 2**31]),
    "integrals_fftlog_sampling": ([128, 777, 10000], [-1, 2.5, 1000001]),
    "covariance_integration_sampling": ([32, 777, 8000], [-1, 2.5, 1000001]),
}
LISTS = {
    "sep": ([[10.0], [100.0, 20.0, 50.0], [1, 2], [9999.0], np.array([3.0, 4.0]), (5.0,), [1e-3] * 40],
            [[0.0], [-1.0], [10000.0], [5.0, -5.0], 3.0, ["x"], [None], [NAN]]),
    "mu": ([[0.0], [0.5, -0.5, 0.25], [0.999999], [-0.999999, 0], (0.1,)], [[1.0], [-1.0], [2], 0.1, ["x"], [[1]]]),
    "l": ([[0], [4, 2, 0], [1, 3], [9], np.array([0, 2]), list(range(10))], [[-1], [10], [0.5], 2, ["x"], [None], [0, 77]]),
    "z_mean": ([[0.5], [1.5, 0.5, 1.0], [0], [9.99], np.array([0.1, 0.2])], [[-0.1], [10], 1.0, ["x"], [0.5, -0.5]]),
    "deltaz": ([[0.1], [0.1, 0.2, 0.05], [0], [9.99]], [[-0.1], [10], 0.1, ["x"]]),
    "z_min": ([[0.5], [0.5, 0.1, 0.3], [0]], [[-0.1], [10], 0.1, ["x"]]),
    "z_max": ([[1.5], [0.5, 0.7, 0.6], [9.9]], [[-0.1], [10], 0.1, ["x"]]),
    "number_density1": ([[1e-3], [1e-3, 2e-3, 3e-3], [0]], [[-1e-3], [10], 0.1, ["x"]]),
    "number_density2": ([[1e-3], [4e-3, 2e-3], [0]], [[-1e-3], [10], 0.1, ["x"]]),
    "pixelsize": ([[1.0], [10.0, 20.0, 5.0], [999]], [[0.0], [-1.0], [1000], 5, ["x"]]),
    "fsky": ([[1.0], [0.1, 0.5, 1], [1e-6]], [[0.0], [-0.1], [1.1], 0.5, ["x"]]),
    "covariance_populations": ([[1, 1, 1, 1], [4, 3, 2, 1], [1, 2, 1, 2], [2, 2, 3, 4], (3, 3, 4, 4)],
                               [[1, 2, 3], [1, 2, 3, 5], [0, 1, 1, 1], 3, [1, 2, 3, "x"], [1, 2, 3, 4, 1], []]),
}
CHOICES = {
    "pk_type": (["linear", "linear_class", "halofit", "hmcode"], ["none", 77, "", None]),
    "integration_1d_type": (["gsl", "exponential"], ["none", 77]),
    "covariance_integration_method": (["standard", "fftlog"], ["none", 77]),
    "covariance_interpolation_method": (["bilinear", "bicubic"], ["none", 77]),
}
BOOLS = M.CONTRIB + M.SWITCH + ["verbose"]
ALPHA = {}
for d in (FLOATS, INTS):
    for s, (ok, bad) in d.items():
        ALPHA[s] = (ok, bad + REAL_BAD)
ALPHA.update(LISTS)
ALPHA.update(CHOICES)
ALPHA["integration_1d_prec"] = ([1e-3, 1e-5, 0.5], [-0.1, 1.5, "x"])
for s in BOOLS:
    ALPHA[s] = ([True, False], [])
for s in M.PRECISION:
    ALPHA[s] = ([10, 33] if s.startswith("l_max") else [10.0, 0.125], ["x", None, NAN] + ([14.7, -1] if s.startswith("l_max") else []))
READ_ONLY = ["omega_nu", "omega_de"]
ALL = list(ALPHA) + READ_ONLY


def norm(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return [norm(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return float(v)
    return v


def snapshot(c):
    out = {s: norm(getattr(c, s)) for s in ALL}
    for b in M.BIAS:
        out[b] = [getattr(c, b)(z) for z in (0.05, 0.8, 1.7)]
    return out


DERIVED = {  # what else an accepted assignment is documented to move
    "omega_m": {"omega_cdm", "omega_de"}, "omega_cdm": {"omega_m", "omega_de"}, "omega_baryon": {"omega_cdm", "omega_de"},
    "omega_gamma": {"omega_de"}, "m_ncdm": {"omega_nu", "omega_cdm", "omega_de"}, "h": {"omega_nu", "omega_cdm", "omega_de"},
}
TINY = 1e-14      # re-deriving omega_cdm etc. may move the last bit


def same(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return a == b


def assign(c, slot, value):
    """-> (accepted, exception name)"""
    try:
        setattr(c, slot, value)
        return True, None
    except Exception as e:
        return False, type(e).__name__


def judge(before, after, slot, value, accepted, expect):
    errs = []
    if expect is not None and accepted != expect:
        return [f"{'refused' if expect else 'accepted'} {value!r}"]
    if accepted:
        if not same(after[slot], norm(value)):
            errs.append(f"set {value!r}, read back {after[slot]!r}")
        allowed = DERIVED.get(slot, set()) | {slot}
    else:
        allowed = set()
    for s in after:
        if s not in allowed and not same(before[s], after[s]):
            errs.append(f"{'refused' if not accepted else 'set'} {slot}={value!r} changed {s}: {before[s]!r} -> {after[s]!r}")
    return errs


def one_slot(task):
    cfg, slot = task
    out = []
    ok, bad = ALPHA[slot]
    for expect, values in ((True, ok), (False, bad)):
        for v in values:
            c = M.new_object(S.CONFIGS[cfg], coffe)
            if slot in FLOATS and expect and slot.startswith("omega"):
                exp = None          # whether it fits in the budget depends on the others: C11
            else:
                exp = expect
            b = snapshot(c)
            acc, exc = assign(c, slot, v)
            a = snapshot(c)
            out.append((slot, repr(v), judge(b, a, slot, v, acc, exp)))
            # unknown names are refused as a whole
            try:
                c.set_parameters(**{slot: v, "no_such_parameter": 1})
                errs = ["set_parameters accepted an unknown name"]
            except AttributeError:
                errs = [] if all(same(a[s], x) for s, x in snapshot(c).items()) else ["a refused set_parameters changed something"]
            except Exception as e:
                errs = [f"set_parameters with an unknown name raised {type(e).__name__}"]
            out.append((slot, "set_parameters:" + repr(v), errs))
            # bulk setter does as the assignment does
            if acc:
                d = M.new_object(S.CONFIGS[cfg], coffe)
                d.set_parameters(**{slot: v})
                if not all(same(a[s], x) for s, x in snapshot(d).items()):
                    out.append((slot, repr(v), ["set_parameters differs from the assignment"]))
                d = coffe.Coffe(**{slot: v})
                if not same(norm(getattr(d, slot)), a[slot]):
                    out.append((slot, repr(v), ["the constructor differs from the assignment"]))
    return out


def pairs(task):
    """first slot against every other slot: two assignments, both accepted or not, then read."""
    slot, others = task
    out = []
    c0 = M.new_object(S.CONFIGS["local"], coffe)
    for other in others:
        v1s = ALPHA[slot][0][:2] + ALPHA[slot][1][:1]
        v2s = ALPHA[other][0][-2:] + ALPHA[other][1][:1]
        for v1, v2 in itertools.product(v1s, v2s):
            c = M.new_object(S.CONFIGS["local"], coffe)
            assign(c, slot, v1)
            b = snapshot(c)
            acc, _ = assign(c, other, v2)
            errs = judge(b, snapshot(c), other, v2, acc, None)
            out.append((f"{slot}={v1!r};{other}", repr(v2), errs))
    return out


def biases(_):
    out = []
    for cfg in ("local",):
        for b in M.BIAS:
            for x, y, ok in [(*S.table(0, 1.0, .3), True), (*S.table(3, 2.0, -.5), True), ([0.0, 1.0], [1.0, 2.0], False), ([], [], False), ([0.0, 1.0, 1.0, 2.0, 3.0], [1.0] * 5, False),
                             ([0.0, 1.0, 2.0, 3.0, NAN], [1.0] * 5, False), ([0.0, 1.0, 2.0, 3.0, 4.0], [1.0] * 4 + [INF], False), (3, 4, False),
                             (np.linspace(0, 10, 50), np.linspace(1, 2, 50), True), ((0, 1, 2, 3, 4), (1, 2, 1, 2, 1), True),
                             ([1.0, 0.5, 2.0, 3.0, 4.0], [1.0] * 5, False), ([0.0, 1.0, 2.0], [1.0, 2.0], False),
                             ([-1.0, 1.0, 2.0, 3.0, 4.0], [1.0] * 5, False), ([0.0, 1.0, 2.0, 3.0, 16.0], [1.0] * 5, False)]:
                c = M.new_object(S.CONFIGS[cfg], coffe)
                before = snapshot(c)
                xs0, ys0 = (getattr(c, f"{b}_{w}")().tolist() for w in ("redshifts", "values"))
                try:
                    getattr(c, "set_" + b)(x, y)
                    acc = True
                except Exception:
                    acc = False
                errs = []
                if ok is not None and acc != ok:
                    errs.append(f"accepted={acc}")
                xs, ys = (getattr(c, f"{b}_{w}")().tolist() for w in ("redshifts", "values"))
                want = (list(map(float, x)), list(map(float, y))) if acc else (xs0, ys0)
                if xs != want[0] or not np.allclose(ys, want[1], rtol=1e-13, atol=0):
                    errs.append("nodes read back differ from those given")
                if acc and not np.allclose([getattr(c, b)(float(z)) for z in x], want[1], rtol=1e-12, atol=0):
                    errs.append("the table does not reproduce its nodes")
                after = None
                if acc and (x[0] > 0.05 or x[-1] < 1.7):
                    pass
                else:
                    after = snapshot(c)
                    for s in after:
                        if s != b and not same(before[s], after[s]):
                            errs.append(f"changed {s}")
                    if not acc and not same(before[b], after[b]):
                        errs.append("a refused table changed the bias")
                out.append((f"set_{b}", f"{x!r}"[:60], errs))
    # user power spectrum
    for cfg in ("local", "nonlinear"):
        for z in (None, 0, 0.7, 3):
            for k, p, ok in [(*S.user_spectrum(), True), (*S.user_spectrum(n=30), True), ([1.0, 0.1, 2.0, 3.0, 4.0], [1.0] * 5, False),
                             ([0.1, 0.2, 0.3, 0.4, 0.5], [1.0] * 4, False), ([0.1, 0.2, 0.2, 0.4, 0.5], [1.0] * 5, False),
                             ([0.0, 0.2, 0.3, 0.4, 0.5], [1.0] * 5, False), ([0.1, 0.2, 0.3, 0.4, NAN], [1.0] * 5, False),
                             ([0.1, 0.2, 0.3, 0.4, 0.5], [1.0] * 4 + [INF], False), ([0.1, 0.2], [1.0, 2.0], False), ([], [], False),
                             (np.geomspace(1e-4, 5, 40), np.geomspace(100, 1, 40), True)]:
                c = M.new_object(S.CONFIGS[cfg], coffe)
                ok = ok and cfg == "local"
                before = snapshot(c)
                try:
                    c.set_power_spectrum_linear(k, p, *([] if z is None else [z]))
                    acc = True
                except Exception:
                    acc = False
                errs = [] if acc == ok else [f"accepted={acc}"]
                after = snapshot(c)
                for s in after:
                    if s in ("k_min", "k_max") and acc:
                        if after[s] != (k[0] if s == "k_min" else k[-1]):
                            errs.append(f"{s} is {after[s]}")
                    elif not same(before[s], after[s]):
                        errs.append(f"changed {s}")
                if acc and not np.allclose([c.power_spectrum(float(x), z or 0) for x in k], p, rtol=1e-9):
                    errs.append("the spectrum does not reproduce its nodes")
                out.append(("set_power_spectrum_linear", f"{cfg} n={len(k)} z={z} ok={ok}", errs))
    # reading never changes
    for cfg in S.CONFIGS:
        c = M.new_object(S.CONFIGS[cfg], coffe)
        before = snapshot(c)
        pars = c.parameters
        errs = [] if all(same(before[s], v) for s, v in snapshot(c).items()) else ["reading parameters changed something"]
        missing = set(ALPHA) - set(pars)
        if missing:
            errs.append(f"parameters lacks {sorted(missing)}")
        for s, v in pars.items():
            if s in before and not same(before[s], norm(v)):
                errs.append(f"parameters[{s}]={v!r}")
        out.append(("parameters", cfg, errs))
    return out


configs = list(S.CONFIGS) if check.thorough else ["local", "nonlinear", "covariance_binned"]
tasks = [(cfg, s) for cfg in configs for s in ALPHA]
res = pmap(one_slot, tasks)
slots = list(ALPHA)
ptasks = [(s, [o for o in slots if o != s]) for s in slots]
pres = pmap(pairs, ptasks, timeout=600)
bres = pmap(biases, [0])
transitions = 0
samples = []
states = set()
for group, ts in ((res, tasks), (pres, ptasks), (bres, ["biases"])):
    for r, t in zip(group, ts):
        if isinstance(r, Died):
            check.violation(f"died:{str(t)[:60]}", got=repr(r))
            continue
        for slot, v, errs in r:
            transitions += 1
            states.add((slot, v))
            if transitions % 4001 == 1:
                samples.append([slot, v])
            for e in errs:
                check.violation(f"{slot}={v}"[:150], what=e)
check.coverage = {"states": len(states), "transitions": transitions, "traces_validated_against_impl": transitions,
                  "settings": len(ALPHA) + len(M.BIAS) + 1, "exhaustive": True, "samples": samples}
sys.exit(check.finish())

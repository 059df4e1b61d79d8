"""C03: a configuration file round-trips and every option in it is honoured, in any order.

Explored on the real reader and writer: every configuration and every single change of it (round trip), every option
alone, every ordered pair of options, every order of every subset of the density options, every rotation of a full file,
every set of legacy contributions, every legacy name with and without its replacement, every combination of the bias
options; under several hash seeds of the interpreter.  Oracle: the same values assigned to a new object.
"""
import itertools
import json
import math
import os
import pathlib
import subprocess
import sys
import tempfile
import warnings

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

WORKER = sys.argv[1] if len(sys.argv) > 1 else None
check = common.Check("C03", "model_checking") if not WORKER else None
THOROUGH = common.TIER == "thorough"
common.use_build()
warnings.simplefilter("ignore")
import numpy as np
import coffe
import coffe_model as M
import coffe_space as S
from forkpool import pmap, Died

TMP = None


def load(lines, name="s.cfg"):
    f = os.path.join(TMP, f"{os.getpid()}-{name}")
    pathlib.Path(f).write_text("\n".join(lines) + "\n")
    try:
        return coffe.Coffe.from_file(f)
    finally:
        os.unlink(f)


def settings(c):
    out = {}
    for s in M.SLOTS + ["integration_1d_prec", "verbose", "omega_cdm", "omega_nu", "omega_de"]:
        v = getattr(c, s)
        out[s] = np.asarray(v).tolist() if s in M.LISTS else v
    for b in M.BIAS:
        out[b] = [getattr(c, b + "_redshifts")().tolist(), getattr(c, b + "_values")().tolist()]
    return out


def diff(a, b, tol=1e-12):
    """names that differ"""
    def same(x, y):
        if isinstance(x, list):
            return isinstance(y, list) and len(x) == len(y) and all(map(same, x, y))
        if isinstance(x, float) or isinstance(y, float):
            return x == y or abs(x - y) <= tol * max(1, abs(x), abs(y)) if not isinstance(x, str) and not isinstance(y, str) else x == y
        return x == y
    return [f"{k}: {a[k]!r:.60} != {b[k]!r:.60}" for k in a if not same(a[k], b[k])]


def text(v):
    if isinstance(v, bool):
        return str(int(v))
    return str(v)


def line(slot, v, style=0):
    return [f"{slot} = {text(v)}", f"{slot}={text(v)};", f"  {slot} : {text(v)}".strip()][style]


BASE = {}
VALUES = {}
for s, v in list(S.ALT.items()) + list(S.ALT2.items()):
    VALUES.setdefault(s, []).append(v)
for s in M.CONTRIB + M.SWITCH:
    VALUES[s] = [True, False]
VALUES["omega_m"].append(0.0312)
VALUES["deltaz"].append([])
VALUES["sep"].append([])
VALUES["mu"] += [[], [-0.3]]
VALUES["l"] += [[], [3, 1]]
VALUES["w0"].append(-1)
for s in ("omega_gamma", "m_ncdm"):
    VALUES[s].append(0.0)
OPTIONS = list(VALUES)


def assigned(pairs):
    c = coffe.Coffe()
    for s, v in pairs:
        setattr(c, s, v)
    return c


def attempt(f):
    """settings of what f returns, or the type of what it raises"""
    try:
        return settings(f())
    except Exception as e:
        return type(e).__name__


def round_trip(task):
    cfg, op = task
    st = S.CONFIGS[cfg]
    c = M.new_object(dict(st, spectrum=None), coffe)
    if op is not None:
        M.apply_real(c, op)
    f = os.path.join(TMP, f"{os.getpid()}-rt.cfg")
    c.to_file(f)
    before = settings(c)
    # and with the lines in another order
    lines = pathlib.Path(f).read_text().splitlines()
    out = diff(before, settings(coffe.Coffe.from_file(f)))
    out += ["reversed lines: " + d for d in diff(before, settings(load(lines[::-1])))]
    d = coffe.Coffe.from_file(f)
    d.to_file(f)
    again = pathlib.Path(f).read_text().splitlines()
    os.unlink(f)
    if op is None:
        for k in range(1, len(lines), 1 if THOROUGH else 5):
            out += [f"lines rotated by {k}: " + x for x in diff(before, settings(load(lines[k:] + lines[:k])))]
        n = [len(x.split(" = ")[0]) for x in again]
        if [x.split(" = ")[0] for x in again] != [x.split(" = ")[0] for x in lines]:
            out.append("writing the loaded object gives other options")
        q = [x for x in M.QUERIES if x != "settings"]
        e = M.new_object(dict(st, spectrum=None), coffe)
        for name in q:
            a = M.QUERIES[name](e)
            b = M.QUERIES[name](d)
            w = M.differ(a, b)
            if w:
                out.append(f"answers differ: {name}: {w}")
    return out


def option_alone(task):
    s, v = task
    want = attempt(lambda: assigned([(s, v)]))
    return [f"style {st}: {x}" for st in (0, 1, 2)
            for got in [attempt(lambda: load([line(s, v, st)]))]
            for x in ([f"{got} instead of {want}"] if isinstance(got, str) != isinstance(want, str) else [] if isinstance(got, str) else diff(want, got))]


def digits(slot):
    """values that need all their digits, extreme magnitudes and long lists come back as they were"""
    out, v = [], VALUES[slot][0] if slot in VALUES else None
    exact = [math.pi / 3, 1 / 3, 2 ** 0.5 / 1e3, 0.1 + 0.2, 1e-9 / 7, 7e6 / 9]
    if slot in M.BIAS:
        n = [i * 14.0 / 1499 for i in range(1500)]
        tries = [(n, [1 + x / 3 for x in n]), ([0.0, 0.1 + 0.2, 1 / 3 + 1, 2.7, 5.0, 14.0 / 3], [e - 0.5 for e in exact])]
    elif isinstance(v, bool) or isinstance(v, (str, int)):
        tries = []
    elif isinstance(v, list):
        tries = [[e] for e in exact] + [exact, [v[0] * (1 + i / 1e4) for i in range(1500)] if isinstance(v[0], float) else []]
    else:
        tries = [v * (1 + e / 1e4) for e in exact] + exact
    for t in tries:
        c = coffe.Coffe()
        try:
            if slot in M.BIAS:
                getattr(c, "set_" + slot)(*t)
            else:
                setattr(c, slot, t)
        except (TypeError, ValueError):
            continue
        f = os.path.join(TMP, f"{os.getpid()}-digits.cfg")
        c.to_file(f)
        a, b = settings(c), settings(coffe.Coffe.from_file(f))
        os.unlink(f)
        # the densities are stored in other units, and each is recovered from others
        for d in diff(a, b, 0):
            k = d.split(":")[0]
            if not (k.startswith("omega") and abs(a[k] - b[k]) < 1e-14) and not np.allclose(a[k], b[k], rtol=1e-15, atol=0):
                out.append(f"{str(t)[:60]}: {d}")
        if not slot.startswith("omega") and not np.allclose(np.ravel(t), np.ravel(a[slot]), rtol=1e-15, atol=0):
            out.append(f"{str(t)[:60]} reads back as {str(a[slot])[:60]}")
    return out


DENSITY = ("h", "m_ncdm", "omega_gamma", "omega_m", "omega_baryon", "omega_cdm")


def pair(task):
    (s, v), others = task
    out = []
    for o, w in others:
        if o == s or (s in DENSITY and o in DENSITY):
            continue
        want = attempt(lambda: assigned([(s, v), (o, w)]))
        for lines in ([line(s, v), line(o, w)], [line(o, w), line(s, v)]):
            got = attempt(lambda: load(lines))
            bad = [f"{got}"] if isinstance(got, str) != isinstance(want, str) else [] if isinstance(got, str) else diff(want, got)
            out += [f"{s},{o}: {x}" for x in bad]
    return out


DENS = {"h": [0.5, 0.9], "m_ncdm": [0.3], "omega_gamma": [0.0, 0.4], "omega_m": [0.2, 0.58], "omega_baryon": [0.02, 0.42], "omega_cdm": [0.1, 0.4]}


def densities(names):
    """every order of these density options; the result is what they say, and the rest follows by definition"""
    out = []
    for values in itertools.product(*[DENS[n] for n in names]):
        d = dict(zip(names, values))
        h, g = d.get("h", 0.67), d.get("omega_gamma", 9e-5)
        nu = d.get("m_ncdm", 0.0) / 93.14 / h / h
        b = d.get("omega_baryon", 0.05)
        m = d["omega_m"] if "omega_m" in d else d["omega_cdm"] + b + nu if "omega_cdm" in d else 0.3
        if m + g > 1:
            continue        # refused: C11
        want = {"omega_m": m, "omega_gamma": g, "omega_baryon": b, "h": h, "omega_nu": nu, "omega_cdm": m - b - nu, "omega_de": 1 - m - g}
        for order in itertools.permutations(d.items()):
            got = attempt(lambda: load([line(*x) for x in order]))
            if isinstance(got, str):
                out.append(f"{order}: {got}")
            else:
                out += [f"{order}: {x}" for x in diff(want, got)]
    return out


LEGACY = {"only_cross_correlations": ("has_only_cross_correlations", True), "covariance_z_mean": ("z_mean", [0.7, 1.3]),
          "covariance_deltaz": ("deltaz", [0.2, 0.3]), "covariance_fsky": ("fsky", [0.2, 0.4]),
          "covariance_pixelsize": ("pixelsize", [12.0, 7.0]), "covariance_zmin": ("z_min", [0.3, 0.8]),
          "covariance_zmax": ("z_max", [0.9, 1.5]), "covariance_window": ("has_binned_covariance", True),
          "covariance_density": (("number_density1", "number_density2"), [1e-2, 3e-4]),
          "multipoles": ("l", [2, 0]), "flatsky_local": ("has_flatsky_local", True),
          "flatsky_local_nonlocal": ("has_flatsky_local_nonlocal", True), "flatsky_nonlocal": ("has_flatsky_nonlocal", True)}
IGNORED = {"covariance_step_size": 3.0, "covariance_minimum_separation": 12.0, "covariance_integration_bins": 700}
CURRENT = {"has_only_cross_correlations": False, "z_mean": [0.5], "deltaz": [0.01], "fsky": [0.11], "pixelsize": [3.0], "z_min": [0.15],
           "z_max": [0.45], "has_binned_covariance": False, "number_density1": [5e-3], "number_density2": [6e-3], "l": [4],
           "has_flatsky_local": False, "has_flatsky_local_nonlocal": False, "has_flatsky_nonlocal": False}


def legacy(_):
    out = []
    for name, (new, v) in LEGACY.items():
        news = new if isinstance(new, tuple) else (new,)
        out += [f"{name} alone: {x}" for x in diff(settings(assigned([(n, v) for n in news])), settings(load([line(name, v)])))]
        for order in (0, 1):
            lines = [line(name, v)] + [line(n, CURRENT[n]) for n in news]
            want = settings(assigned([(n, CURRENT[n]) for n in news]))
            out += [f"{name} with {new}: {x}" for x in diff(want, settings(load(lines[::-1] if order else lines)))]
    for name, v in IGNORED.items():
        out += [f"{name}: {x}" for x in diff(settings(coffe.Coffe()), settings(load([line(name, v)])))]
    for a, b in itertools.combinations(LEGACY, 2):
        want = assigned([(n, LEGACY[x][1]) for x in (a, b) for n in ([LEGACY[x][0]] if isinstance(LEGACY[x][0], str) else LEGACY[x][0])])
        for o in ((a, b), (b, a)):
            out += [f"{o}: {x}" for x in diff(settings(want), settings(load([line(n, LEGACY[n][1]) for n in o])))]
    return out


SHORT = dict(den="has_density", rsd="has_rsd", len="has_lensing", d1="has_d1", d2="has_d2", g1="has_g1", g2="has_g2", g3="has_g3", g4="has_g4", g5="has_g5")


def contributions(sizes):
    out = []
    for n in sizes:
        for sub in itertools.combinations(SHORT, n):
            for extra in ([], [("has_rsd", True)], [("has_density", False), ("has_g5", True)]):
                want = assigned([(SHORT[x], x in sub) for x in SHORT] + extra)
                names = sub[::-1] if extra else sub
                lines = [line(*e) for e in extra] + ["correlation_contributions = [" + ", ".join(f'"{x}"' for x in names) + "];"]
                out += [f"{sub}+{extra}: {x}" for x in diff(settings(want), settings(load(lines)))]
    return out


def bias_options(b):
    """scalar, table file and node lists, each present or not, in both orders"""
    out = []
    f = os.path.join(TMP, f"{os.getpid()}-bias.dat")
    xf, yf = [0.0, 0.4, 1.0, 2.0, 6.0, 12.0], [1.0, 1.5, 1.2, 2.0, 1.0, 0.5]
    xn, yn = [0.1, 0.9, 1.6, 2.2, 3.1], [0.3, 0.1, 0.7, 1.7, 2.5]
    np.savetxt(f, np.transpose([xf, yf]))
    for scalar, read, infile, nodes in itertools.product((None, 1.75), (None, 0, 1), (None, '""', f'"{f}"'), (False, True)):
        if read == 1 and infile != f'"{f}"' and not nodes:
            continue        # there is nothing to read: refused
        lines = []
        if scalar is not None:
            lines.append(f"{b} = {scalar};")
        if read is not None:
            lines.append(f"read_{b} = {read};")
        if infile is not None:
            lines.append(f"input_{b} = {infile};")
        if nodes:
            lines += [f"{b}_redshifts = {xn}", f"{b}_values = {yn}"]
        want = coffe.Coffe()
        if nodes:
            getattr(want, "set_" + b)(xn, yn)
        elif read == 1:
            getattr(want, "set_" + b)(xf, yf)
        for order in (1, -1):
            try:
                got = load(lines[::order])
            except Exception as e:
                out.append(f"{lines}: {e!r}")
                continue
            if scalar is not None and not nodes and read != 1:
                v = getattr(got, b)
                if any(abs(v(z) - scalar) > 1e-12 for z in (0.0, 0.3, 5.0, 9.9)):
                    out.append(f"{lines}: the constant bias is not honoured")
                g, w = settings(got), settings(coffe.Coffe())
                del g[b], w[b]
                out += [f"{lines}: {x}" for x in diff(w, g)]
            else:
                out += [f"{lines}: {x}" for x in diff(settings(want), settings(got))]
    os.unlink(f)
    return out


def everything_once():
    """one file with every option, in several orders: what a worker with another hash seed must reproduce"""
    st = S.CONFIGS["nonlinear"]
    res = []
    lines = [line(s, VALUES[s][0]) for s in OPTIONS if s != "omega_cdm"]
    for k in range(0, len(lines), 7):
        res.append(settings(load(lines[k:] + lines[:k])))
    for names in itertools.combinations(DENSITY, 3):
        for order in itertools.permutations(names):
            res.append(attempt(lambda: load([line(n, DENS[n][-1]) for n in order])))
    return res


def main():
    global TMP
    with tempfile.TemporaryDirectory(prefix="c03-") as TMP_:
        TMP = TMP_
        if WORKER:
            print(json.dumps(everything_once()))
            return 0
        tasks = []
        for cfg in S.CONFIGS:
            tasks.append((round_trip, (cfg, None)))
            for op in S.operations(dict(S.CONFIGS[cfg], spectrum=None)):
                if op[0] != "spectrum":
                    tasks.append((round_trip, (cfg, op)))
        for s, vs in VALUES.items():
            tasks += [(option_alone, (s, v)) for v in vs]
        flat = [(s, v) for s in OPTIONS for v in (VALUES[s] if THOROUGH else VALUES[s][:1])]
        tasks += [(pair, (p, flat)) for p in flat]
        for n in range(1, 7 if THOROUGH else 6):
            tasks += [(densities, names) for names in itertools.combinations(DENSITY, n)]
        tasks += [(digits, s) for s in list(VALUES) + M.BIAS]
        tasks += [(legacy, None)] + [(contributions, [n]) for n in range(11)] + [(bias_options, b) for b in M.BIAS]
        res = pmap(lambda t: t[0](t[1]), tasks)
        states = 0
        for (f, t), r in zip(tasks, res):
            name = f"{f.__name__}:{S.name(t[1]) if f is round_trip and t[1] else t if not (f is pair) else t[0]}"[:120]
            if isinstance(r, Died):
                check.violation(name, got=repr(r))
            else:
                for d in r[:5]:
                    check.violation(name, difference=d)
        seeds = ["0", "1", "2", "17"] if not THOROUGH else [str(i) for i in range(16)]
        ref = json.loads(json.dumps(everything_once()))
        procs = [subprocess.Popen([sys.executable, __file__, "worker"], env=dict(os.environ, PYTHONHASHSEED=s), stdout=subprocess.PIPE) for s in seeds]
        for s, p in zip(seeds, procs):
            out, _ = p.communicate()
            got = json.loads(out)
            for i, (a, b) in enumerate(zip(ref, got)):
                d = [f"{a} != {b}"] if isinstance(a, str) or isinstance(b, str) else diff(a, b)
                if d and a != b:
                    check.violation(f"hash-seed:{s}:{i}", difference=d[0])
        npairs = 2 * len(flat) * len(flat)
        files = len(tasks) + npairs + sum(len(list(itertools.product(*[DENS[x] for x in t]))) * len(list(itertools.permutations(t)))
                                          for f, t in tasks if f is densities) + 1024 * 3 + 8 * 60 + len(seeds) * len(ref)
        check.coverage = {"states": len(tasks), "transitions": files, "traces_validated_against_impl": files, "hash_seeds": len(seeds) + 1,
                          "options": len(OPTIONS), "legacy_options": len(LEGACY) + len(IGNORED), "exhaustive": True,
                          "samples": [[f.__name__, repr(t)[:200]] for f, t in tasks[::max(1, len(tasks) // 4)]]}
        return check.finish()


sys.exit(main())

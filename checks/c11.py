"""C11: the energy budget is consistent in every reachable state.

Breadth-first search of a five-variable model (omega_m, omega_baryon, omega_gamma, h, m_ncdm) under an alphabet of
assignments, accepted and refused.  Every transition of the model is replayed on a real object brought to the
state by a different route each time, and all its densities are compared with the model; besides, every
sequence of 3 assignments is executed on real objects without merging states, and every ordered choice of up to 3
options is given to the constructor, set_parameters and a configuration file.
"""
import itertools
import os
import pathlib
import sys
import tempfile

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

check = common.Check("C11", "model_checking")
common.use_build()
import coffe
from forkpool import pmap, Died

deep = check.thorough
ALPHA = {
    "omega_m": [0.3, 0.2, 0.995, 1.0, 1.001, 0.0],
    "omega_cdm": [0.1, 0.25, 0.93, 0.97, 0.99],
    "omega_baryon": [0.05, 0.02, 0.4, 0.9999, 1.01],
    "omega_gamma": [9e-5, 0.0, 0.01, 0.75, 1.2],
    "h": [0.67, 0.5, 1.0, 0.2, 0.0, -0.7],
    "m_ncdm": [0.0, 0.06, 1.5, 200.0],
}
OPS = [(k, v) for k, vs in ALPHA.items() for v in vs]
START = (0.3, 0.05, 9e-5, 0.67, 0.0)
TOL = 1e-12


def nu(st):
    return st[4] / 93.14 / st[3] ** 2


def derived(st):
    m, b, g, h, mass = st
    n = nu(st)
    return {"omega_m": m, "omega_baryon": b, "omega_gamma": g, "h": h, "m_ncdm": mass, "omega_nu": n,
            "omega_cdm": m - b - n, "omega_de": 1 - m - g}


def model(st, op):
    """The state after op, or None if it must be refused."""
    name, v = op
    m, b, g, h, mass = st
    if derived(st)[name] == v:
        return st               # no change
    if name == "omega_m":
        return (v, b, g, h, mass) if v + g <= 1 + TOL else None
    if name == "omega_cdm":
        n = v + b + nu(st)
        return (n, b, g, h, mass) if n + g <= 1 + TOL else None
    if name == "omega_baryon":      # takes the place of cold matter; alone it must fit in the budget
        return (m, v, g, h, mass) if v + g <= 1 + TOL else None
    if name == "omega_gamma":
        return (m, b, v, h, mass) if m + v <= 1 + TOL else None
    if name == "h":
        return (m, b, g, v, mass) if 0 < v <= 100 else None
    if name == "m_ncdm":
        return (m, b, g, h, v) if v <= 100 else None


def borderline(st, op):
    """Sums so close to one that rounding decides."""
    name, v = op
    m, b, g, h, mass = st
    total = {"omega_m": v + g, "omega_cdm": v + b + nu(st) + g, "omega_baryon": v + g, "omega_gamma": m + v}.get(name)
    return total is not None and abs(total - 1) < 1e-9


def observe(c):
    out = {k: getattr(c, k) for k in ("omega_m", "omega_baryon", "omega_gamma", "h", "m_ncdm", "omega_nu", "omega_cdm", "omega_de")}
    out.update({"big_" + k: getattr(c, "big_" + k) for k in ("omega_m", "omega_baryon", "omega_gamma", "omega_nu", "omega_cdm", "omega_de")})
    return out


def faults(c, st=None):
    """What is inconsistent in this object (and different from the model, if given)."""
    o = observe(c)
    out = []
    if abs(o["omega_cdm"] + o["omega_baryon"] + o["omega_nu"] - o["omega_m"]) > TOL:
        out.append("matter is not the sum of its parts")
    if abs(o["omega_m"] + o["omega_gamma"] + o["omega_de"] - 1) > TOL:
        out.append("the budget does not add up to one")
    if o["omega_de"] < -TOL:
        out.append("negative dark energy")
    for k in o:
        if k.startswith("big_") and abs(o[k] - o[k[4:]]) > TOL:
            out.append(f"{k} != {k[4:]}")
    if st is not None:
        for k, v in derived(st).items():
            if abs(o[k] - v) > TOL * max(1, abs(v)):
                out.append(f"{k}={o[k]!r}, expected {v!r}")
    return out


def step(c, op):
    before = observe(c)
    try:
        setattr(c, *op)
    except ValueError:
        after = observe(c)
        return False, ([] if after == before else [f"a refused {op} changed {[k for k in before if before[k] != after[k]]}"])
    return True, []


def replay(task):
    """A path and then each op from the state it leads to."""
    path, ops = task
    out = []
    for op in ops:
        c = coffe.Coffe()
        st = START
        bad = faults(c, st)
        for o in path + [op]:
            want = model(st, o)
            ok, f = step(c, o)
            bad += f
            if borderline(st, o):       # rounding decides; the next state is whatever was decided
                bad += faults(c)
                break
            if ok != (want is not None):
                bad.append(f"{o} was {'accepted' if ok else 'refused'}")
                break
            st = want if want is not None else st
            bad += faults(c, st)
            if bad:
                break
        out.append((op, bad))
    return out


def canon(st):
    return tuple(round(x, 10) for x in st)


# --- reachable states --------------------------------------------------------------------------------
paths = {canon(START): (START, [])}
level = [START]
transitions = refused = 0
depth = 7 if deep else 5
for d in range(depth):
    nxt = []
    for st in level:
        path = paths[canon(st)][1]
        for op in OPS:
            if borderline(st, op):
                continue
            new = model(st, op)
            if new is not None and canon(new) not in paths:
                paths[canon(new)] = (new, path + [op])
                nxt.append(new)
    level = nxt
    print("depth", d + 1, "states", len(paths), check.elapsed())
    if not nxt:
        break
todo = [(path, OPS) for st, path in paths.values() if len(path) < depth]
limit = 10 ** 6
truncated = len(todo) > limit
todo = todo[:limit]
chunks = [todo[i:i + 100] for i in range(0, len(todo), 100)]
for chunk, res in zip(chunks, pmap(lambda ts: [replay(t) for t in ts], chunks, timeout=600)):
    if isinstance(res, Died):
        check.violation("died", paths=[p for p, _ in chunk][:3], got=repr(res))
        continue
    for (path, _), rs in zip(chunk, res):
        for op, bad in rs:
            transitions += 1
            if bad:
                check.violation(f"{'+'.join(o[0] for o in path + [op])}", history=path + [op], faults=bad[:4])
print("transitions", transitions, check.elapsed())


# --- all sequences of 3, states not merged -----------------------------------------------------------
def triples(first):
    out = []
    for second in OPS:
        for third in OPS:
            r = replay(([first, second], [third]))
            if r[0][1]:
                out.append(([first, second, third], r[0][1]))
    return len(OPS) ** 2, out


unmerged = 0
for first, res in zip(OPS, pmap(triples, OPS, timeout=600)):
    if isinstance(res, Died):
        check.violation("died", history=[first], got=repr(res))
        continue
    unmerged += res[0]
    for h, bad in res[1]:
        check.violation("+".join(o[0] for o in h), history=h, faults=bad[:4])


# --- several options at once ---------------------------------------------------------------------------
PICK = {"omega_m": 0.35, "omega_cdm": 0.2, "omega_baryon": 0.04, "omega_gamma": 1e-3, "h": 0.8, "m_ncdm": 0.5}


def together(names):
    kw = {n: PICK[n] for n in names}
    out = []
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "settings.cfg")
        for how in ("constructor", "set_parameters", "file", "assignments"):
            try:
                if how == "constructor":
                    c = coffe.Coffe(**kw)
                elif how == "set_parameters":
                    c = coffe.Coffe()
                    c.set_parameters(**kw)
                elif how == "assignments":
                    c = coffe.Coffe()
                    for n in names:
                        setattr(c, n, kw[n])
                else:
                    with open(f, "w") as fh:
                        fh.write("".join(f"{n} = {v}\n" for n, v in kw.items()))
                    c = coffe.Coffe.from_file(f)
            except Exception as e:
                out.append((how, [f"raised {e!r}"]))
                continue
            bad = faults(c)
            for n in names:
                if n == "omega_m" and "omega_cdm" in names or n == "omega_cdm" and set(names) & {"omega_m", "omega_baryon", "h", "m_ncdm"}:
                    continue      # these move one another: the last one given decides
                if abs(getattr(c, n) - kw[n]) > TOL:
                    bad.append(f"{n}={getattr(c, n)!r}")
            if bad:
                out.append((how, bad))
    return out


orders = [p for n in (1, 2, 3) for p in itertools.permutations(PICK, n)]
for names, res in zip(orders, pmap(together, orders)):
    if isinstance(res, Died):
        check.violation("together/" + "+".join(names), got=repr(res))
        continue
    for how, bad in res:
        check.violation(f"{how}/{'+'.join(names)}", faults=bad)
check.coverage = {"states": len(paths), "transitions": transitions, "traces_validated_against_impl": transitions + unmerged + 4 * len(orders),
                  "unmerged_sequences_of_3": unmerged, "orders_of_options": len(orders), "depth": depth,
                  "exhaustive": not truncated, "samples": [todo[5][0], todo[-1][0]]}
sys.exit(check.finish())

"""C04: a bulk result is exactly the requested grid, and each value is that of its point alone.

grids   every pair of coordinate lists over a small alphabet (up to 2 entries per axis on all axes at once, up to
        4 on each axis in turn; all orders, with repetitions) for the five kinds of output and three ways of
        computing the covariance, on one object per chunk.  The oracle for labels is the product of the requested lists; for values, the table of
        one-point results of new objects, and the pointwise query of the same object.
terms   the same on smaller grids for every contribution (and pairs, flat-sky, nonlinear spectra, other options).
"""
import itertools
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

check = common.Check("C04", "exploration")
common.use_build()
import coffe
import coffe_model as M
import coffe_space as S
from forkpool import pmap, Died

SEP, MU, L, Z = [60.0, 30.0, 120.0], [0.7, -0.4, 0.0], [2, 0, 3], [1.2, 0.8]
BINS = [(1.0, 1.3), (0.7, 0.95)]
# settings that go with each redshift or bin of the covariance
PER_Z = {1.2: (0.1, 1e-3, 5e-4, 20.0, 0.3), 0.8: (0.15, 2e-3, 3e-3, 25.0, 0.5),
         (1.0, 1.3): (0.1, 1e-3, 5e-4, 20.0, 0.3), (0.7, 0.95): (0.15, 2e-3, 3e-3, 25.0, 0.5)}
PER_NAMES = ["deltaz", "number_density1", "number_density2", "pixelsize", "fsky"]
CHEAP = dict(integrals_fftlog_sampling=64, background_sampling=200, integration_sampling=100,
             covariance_integration_sampling=32, integration_1d_prec=1e-3)


def lists(alphabet, n):
    return [list(t) for k in range(1, n + 1) for t in itertools.product(alphabet, repeat=k)]


def boxes(axes, small, big, others):
    """All products of lists up to `small`; and each axis in turn up to `big`, the rest from `others`."""
    out, seen = [], set()
    for combo in itertools.product(*(lists(a, small) for a in axes)):
        out.append(combo)
    for i, a in enumerate(axes):
        for l in lists(a, big):
            out.append(tuple(l if j == i else o for j, o in enumerate(others)))
    uniq = []
    for o in out:
        k = repr(o)
        if k not in seen:
            seen.add(k)
            uniq.append(o)
    return uniq


class Kind:
    def __init__(self, name, axes, call, attrs, slots):
        self.name, self.axes, self.call, self.attrs, self.slots = name, axes, call, attrs, slots


def set_cov(c, zs):
    for i, n in enumerate(PER_NAMES):
        setattr(c, n, [PER_Z[z][i] for z in zs])


def assign(kind, c, combo):
    if kind == "corrfunc":
        c.z_mean, c.mu, c.sep = combo
    elif kind == "multipoles":
        c.z_mean, c.l, c.sep = combo
    elif kind == "average_multipoles":
        c.z_min, c.z_max = [b[0] for b in combo[0]], [b[1] for b in combo[0]]
        c.l, c.sep = combo[1:]
    elif kind == "covariance":
        c.z_mean, c.l, c.sep = combo
        set_cov(c, combo[0])
    elif kind == "average_covariance":
        c.z_min, c.z_max = [b[0] for b in combo[0]], [b[1] for b in combo[0]]
        c.l, c.sep = combo[1:]
        set_cov(c, combo[0])


def expected(kind, combo):
    """The labels, in order."""
    if kind == "corrfunc":
        return [dict(z=z, mu=m, r=r) for z in combo[0] for m in combo[1] for r in combo[2]]
    if kind == "multipoles":
        return [dict(z=z, l=l, r=r) for z in combo[0] for l in combo[1] for r in combo[2]]
    if kind == "average_multipoles":
        return [dict(z_min=b[0], z_max=b[1], l=l, r=r) for b in combo[0] for l in combo[1] for r in combo[2]]
    zs = [dict(z=z) for z in combo[0]] if kind == "covariance" else [dict(z_min=b[0], z_max=b[1]) for b in combo[0]]
    return [dict(z, l1=l1, r1=r1, l2=l2, r2=r2) for z in zs for l1 in combo[1] for r1 in combo[2]
            for l2 in combo[1] for r2 in combo[2]]


def bulk(kind, c):
    return getattr(c, {"corrfunc": "compute_corrfunc_bulk", "multipoles": "compute_multipoles_bulk",
                       "average_multipoles": "compute_average_multipoles_bulk", "covariance": "compute_covariance_bulk",
                       "average_covariance": "compute_average_covariance_bulk"}[kind])()


def point_of(kind, e):
    """The smallest request that contains the point e: coordinate lists, and the index of e in the answer."""
    if kind == "corrfunc":
        return ([e["z"]], [e["mu"]], [e["r"]]), 0
    if kind == "multipoles":
        return ([e["z"]], [e["l"]], [e["r"]]), 0
    if kind == "average_multipoles":
        return ([(e["z_min"], e["z_max"])], [e["l"]], [e["r"]]), 0
    z = [e["z"]] if kind == "covariance" else [(e["z_min"], e["z_max"])]
    ls, rs = sorted({e["l1"], e["l2"]}), sorted({e["r1"], e["r2"]})
    combo = (z, ls, rs)
    return combo, next(i for i, x in enumerate(expected(kind, combo)) if x == e)


def new(settings, combo, kind):
    c = coffe.Coffe()
    st = dict(S.SMALL, **CHEAP)
    st.update(S.BIASES)
    st.update(settings)
    c = M.new_object(st, coffe)
    assign(kind, c, combo)
    return c


def rows(kind, c):
    out = []
    for x in bulk(kind, c):
        d = x.to_dict()
        a = {k: getattr(x, k) for k in d}
        if repr(sorted(a.items())) != repr(sorted(d.items())):
            return f"dictionary {d} of {a}"
        text = str(x) + repr(x) + x._repr_html_()
        for k, v in d.items():
            if text.count(k) < 3 or text.count(str(v)) < 3:
                return f"text form lacks {k}={v}: {text}"
        out.append(d)
    return out


def one_point(task):
    settings, kind, e = task
    combo, i = point_of(kind, e)
    return float(bulk(kind, new(settings, combo, kind))[i].value)


def pointwise(kind, c, e):
    if kind == "corrfunc":
        return c.compute_corrfunc(z=e["z"], r=e["r"], mu=e["mu"])
    if kind == "multipoles":
        return c.compute_multipole(z=e["z"], r=e["r"], l=e["l"])
    return None


def run_chunk(task):
    """One object, request after request.  Returns [(combo, fault or rows, pointwise)]."""
    settings, kind, combos, fresh = task
    c = None
    out = []
    for combo in combos:
        try:
            if c is None or fresh:
                c = new(settings, combo, kind)
            else:
                assign(kind, c, combo)
            r = rows(kind, c)
            pts = None
            if kind in ("corrfunc", "multipoles"):
                pts = [pointwise(kind, c, e) for e in expected(kind, combo)]
        except Exception as ex:
            r, pts = f"raised {ex!r}", None
        out.append((combo, r, pts))
    return out


# --- the space ---------------------------------------------------------------------------------------
deep = check.thorough
LOCAL = dict(has_density=True, has_rsd=True, has_d1=True)
jobs = []          # (label, settings, kind, combos, compare with one-point results, fresh object per request)
grid = dict(
    corrfunc=boxes([Z, MU, SEP], 2, 4 if deep else 3, [[1.2, 0.8], [0.7, -0.4], [60.0, 30.0]]),
    multipoles=boxes([Z, L, SEP], 2, 4 if deep else 3, [[1.2, 0.8], [2, 0], [60.0, 30.0]]),
    average_multipoles=boxes([BINS, L, SEP], 2, 4 if deep else 3, [BINS, [2, 0], [60.0, 30.0]]),
)
cov = boxes([Z, L[:2], SEP[:2]], 2, 3 if deep else 2, [[1.2, 0.8], [2, 0], [60.0, 30.0]])
cov += [([1.2, 0.8], [2, 0, 4], [60.0, 30.0, 120.0]), ([0.8], [0, 4, 2], [120.0, 60.0, 30.0]), ([0.8, 1.2, 0.8], [4], [30.0, 120.0, 60.0, 30.0]),
        ([0.8], [3, 1], [60.0, 30.0])]
avg = [([BINS[Z.index(z)] for z in zs], l, r) for zs, l, r in cov]
for kind, combos in grid.items():
    jobs.append(("local", LOCAL, kind, combos, True, False))
for label, extra in (("standard", {}), ("fftlog", dict(covariance_integration_method="fftlog", covariance_integration_sampling=128)),
                     ("binned", dict(has_binned_covariance=True))):
    st = dict(LOCAL, spectrum=S.user_spectrum(n=40), covariance_populations=[1, 2, 1, 2], **extra)
    if label == "binned" and not deep:
        jobs.append((label, st, "covariance", cov[-12:], True, False))
        jobs.append((label, st, "average_covariance", avg[-12:], True, False))
        continue
    jobs.append((label, st, "covariance", cov, True, False))
    jobs.append((label, st, "average_covariance", avg, True, False))
for kind in ("covariance", "average_covariance"):
    combos = cov if kind == "covariance" else avg
    jobs.append(("halofit", dict(LOCAL, pk_type="halofit"), kind, combos[-4:] + combos[:4], True, False))

few = {"corrfunc": [([1.2, 0.8], [0.7, 0.1], [60.0, 30.0]), ([0.8, 1.2], [0.1], [30.0, 60.0, 60.0])],
       "multipoles": [([1.2, 0.8], [2, 0], [60.0, 30.0]), ([0.8, 1.2], [0, 1, 2], [30.0])],
       "average_multipoles": [(BINS, [2, 0], [60.0, 30.0]), (BINS[::-1], [0], [30.0, 60.0])]}
FLAT = dict(has_flatsky_local=True, has_flatsky_local_nonlocal=True, has_flatsky_nonlocal=True)
terms = [(t,) for t in M.CONTRIB] + [("has_density", t) for t in M.CONTRIB[1:]] + [("has_rsd", "has_lensing"), ("has_lensing", "has_g4", "has_g5"),
         ("has_density", "has_rsd", "has_lensing")] + ([tuple(M.CONTRIB)] if deep else [])
ranged = {"has_d2", "has_g1", "has_g2", "has_g3", "has_g4", "has_g5"}
for t in terms:
    for kind in few:
        for label, extra in (("full", {}),) + ((("flat", FLAT),) if set(t) & {"has_lensing"} or len(t) == 2 and t[1] in ("has_rsd", "has_d1") else ()):
            if label == "flat" and kind == "average_multipoles":
                continue
            st = dict({k: False for k in M.CONTRIB}, **{k: True for k in t}, **extra)
            # the renormalisation tables of these terms span the requested redshifts: equal within their interpolation only
            jobs.append((label + ":" + "+".join(t), st, kind, few[kind], not (set(t) & ranged), True))
for label, extra in (("exponential", dict(integration_1d_type="exponential")), ("cross", dict(has_only_cross_correlations=True)),
                     ("user_spectrum", dict(spectrum=S.user_spectrum())), ("halofit", dict(pk_type="halofit"))):
    for kind in few:
        jobs.append((label, dict(LOCAL, **extra), kind, few[kind], True, True))

# coincidences between points and between populations: mirrored angles, and every subset of the biases equal
for n in range(8):
    same = {}
    for i, b in enumerate(("galaxy", "magnification", "evolution")):
        if n >> i & 1:
            same[b + "_bias2"] = S.BIASES[b + "_bias1"]
    for t in ((), ("has_lensing",)):
        st = dict(LOCAL, **same, **{k: True for k in t})
        label = f"equal{n}" + "".join(t)
        jobs.append((label, st, "corrfunc", [([1.2, 0.8], [0.7, -0.7, 0.0, -0.4, 0.4], [60.0, 30.0]), ([0.8], [-0.7, 0.7], [120.0])], True, True))
        jobs.append((label, st, "multipoles", [([1.2, 0.8], [1, 0, 3, 2], [60.0, 30.0])], not t, True))

need = {}
for label, st, kind, combos, single, fresh in jobs:
    if single:
        for combo in combos:
            for e in expected(kind, combo):
                need.setdefault((label, kind, repr(e)), (st, kind, e))
refs = dict(zip(need, pmap(one_point, need.values(), timeout=300)))
print("one-point references", len(refs), check.elapsed())

tasks = []
for j, (label, st, kind, combos, single, fresh) in enumerate(jobs):
    size = 40
    for i in range(0, len(combos), size):
        tasks.append((j, (st, kind, combos[i:i + size], fresh)))
results = pmap(lambda t: run_chunk(t[1]), tasks, timeout=600)
requests = values = 0
shapes = set()
for (j, (st, kind, combos, fresh)), res in zip(tasks, results):
    label, single = jobs[j][0], jobs[j][4]
    if isinstance(res, Died):
        check.violation(f"{label}/{kind}/died", got=repr(res), requests=combos[:2])
        continue
    for combo, got, pts in res:
        requests += 1
        shapes.add((label, kind, tuple(map(len, combo))))
        where = f"{label}/{kind}"
        if isinstance(got, str):
            check.violation(where + "/fault", request=combo, got=got)
            continue
        want = expected(kind, combo)
        labels = [{k: v for k, v in d.items() if k != "value"} for d in got]
        # (the two-dimensional FFTLog is symmetric only within its sampling, which shows if multipoles repeat)
        if labels != want:
            bad = next((i for i, (a, b) in enumerate(itertools.zip_longest(labels, want)) if a != b), None)
            check.violation(where + "/labels", request=combo, index=bad, got=labels[bad:bad + 1], want=want[bad:bad + 1])
            continue
        big = max(abs(float(d["value"])) for d in got)
        for i, d in enumerate(got):
            values += 1
            if single:
                w = refs[label, kind, repr(want[i])]
                if isinstance(w, Died) or not common.close(float(d["value"]), w, 3e-3 if label == "fftlog" else 1e-9, 1e-4 * big if label == "fftlog" else 1e-300):
                    check.violation(where + "/value", request=combo, index=i, point=want[i], got=d["value"], alone=repr(w))
                    break
            if pts is not None and not common.close(float(d["value"]), float(pts[i]), 1e-9, 1e-300):
                check.violation(where + "/pointwise", request=combo, index=i, point=want[i], got=d["value"], pointwise=pts[i])
                break
check.coverage = {
    "evaluations": requests, "distinct_nontrivial": len(shapes), "values_compared": values, "one_point_references": len(refs),
    "rule": "a case is one bulk request; distinct by (settings, kind of output, lengths of its coordinate lists)",
    "exhaustive": True, "samples": [list(jobs[0][3][50]), list(jobs[1][3][200])],
}
sys.exit(check.finish())

"""C01: every answer is a function of the current settings, whatever happened before.

Explored on the real object, exhaustively within the stated alphabet and bounds:
  warm   configuration -> all queries -> one call -> all queries (two opposite orders)
  pairs  configuration -> one query -> one call -> one query       (every pair of queries)
  undo   configuration -> all queries -> one call -> all queries -> the undoing call -> all queries
  deep   configuration -> call -> all queries -> call -> all queries  (every pair of calls)
  blocks  every combination of the switches that decide what an answer depends on -> the answer -> one call -> the answer:
          the parts of the covariance x method x window x every setting; every pair of contributions x every bias and table
Every answer is compared with that of a brand-new object given the settings the model says are current.
"""
import json
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import common

check = common.Check("C01", "model_checking")
common.use_build()
import coffe
import coffe_model as M
import coffe_space as S
from forkpool import pmap, fork_call, Died

Q = list(M.QUERIES)
FWD = Q
REV = Q[::-1]
QUICK = not check.thorough


def key(st):
    return json.dumps(st, sort_keys=True, default=str)


def run_path(task):
    """A history: config, then steps; a step is ('op', op) or ('ask', [queries]).
    Returns the answers of every 'ask' with whether the model-side state changed."""
    cfg, steps = task
    st = S.CONFIGS[cfg]
    c = M.new_object(st, coffe)
    out = []
    for kind, what in steps:
        if kind == "op":
            try:
                M.apply_real(c, what)
            except Exception as e:
                return Died(f"raised {e!r}")
            st = M.apply_model(st, what)
        else:
            out.append((key(st), {q: M.QUERIES[q](c) for q in what}))
    return out


def run_tree(task):
    """config, op, first queries: for each q0: object -> q0 -> op, then fork one child per q1."""
    cfg, op, q0s, q1s = task
    st = S.CONFIGS[cfg]
    st2 = M.apply_model(st, op)
    out = []

    def one(q0):
        c = M.new_object(st, coffe)
        M.QUERIES[q0](c)
        M.apply_real(c, op)
        return [(q1, fork_call(lambda q: M.QUERIES[q](c), q1, timeout=120)) for q1 in q1s]

    for q0 in q0s:
        res = fork_call(one, q0, timeout=600)
        out.append((q0, res))
    return key(st2), out


# few brand-new objects answer several queries each, to save time; for the configurations themselves, one object per query
GROUPS = [["settings", "background", "spectrum", "integral", "corrfunc"], ["multipoles_bulk", "multipole", "corrfunc_bulk"],
          ["average_multipoles_bulk"], ["covariance_bulk"], ["average_covariance_bulk"]]
assert sorted(sum(GROUPS, [])) == sorted(Q)


def reference(task):
    """The answers of brand-new objects."""
    st, groups = task

    def group(g):
        c = M.new_object(st, coffe)
        return {q: M.QUERIES[q](c) for q in g}
    r = fork_call(lambda: {q: a for g in groups for q, a in group(g).items()}, timeout=300)
    if isinstance(r, Died):
        r = {q: fork_call(lambda q: M.QUERIES[q](M.new_object(st, coffe)), q, timeout=120) for q in Q}
    return r


# --- plan --------------------------------------------------------------------------------------
paths, trees = [], []
configs = list(S.CONFIGS)
for cfg in configs:
    st = S.CONFIGS[cfg]
    ops = S.operations(st)
    if check.thorough or cfg.startswith("cover"):
        for op in ops + (S.neutral(st) if check.thorough else []):
            paths.append((cfg, [("ask", FWD), ("op", op), ("ask", FWD)]))
    if cfg.startswith("cover") and QUICK:
        continue
    for op in ops + S.neutral(st):
        undo = None
        if op[0] == "set" and op[1] in st and (st.get("spectrum") is None or op[1] not in M.SPECTRUM):
            undo = ("set", op[1], st[op[1]])
        elif op[0] == "set" and isinstance(op[2], bool) and op[1] not in st:
            undo = ("set", op[1], not op[2])
        elif op[0] == "bias":
            undo = ("bias", op[1]) + tuple(st[op[1]])
        if undo:
            paths.append((cfg, [("ask", FWD), ("op", op), ("ask", REV), ("op", undo), ("ask", FWD)]))
        else:
            paths.append((cfg, [("ask", FWD), ("op", op), ("ask", REV)]))
    if check.thorough or cfg in ("local", "divergent", "covariance_binned"):
        for op in S.operations(st, full=check.thorough):
            if QUICK and op[0] == "set" and op[1] in M.PRECISION[1:]:
                continue
            trees.append((cfg, op, Q[:-1], Q[:-1]) if check.thorough else
                         (cfg, op, ["integral", "corrfunc", "multipoles_bulk", "average_multipoles_bulk"], ["integral", "corrfunc", "average_multipoles_bulk", "covariance_bulk"]))
    if check.thorough:
        small = [o for o in S.operations(st, full=False) if not (o[0] == "set" and o[1] in M.PRECISION[1:])]
        for a in small:
            for b in small:
                if b[0] == "spectrum" and M.apply_model(st, a).get("pk_type", "linear") != "linear":
                    continue        # refused: C02
                if a is not b and cfg in ("local", "divergent", "covariance_binned"):
                    paths.append((cfg, [("op", a), ("ask", FWD), ("op", b), ("ask", REV)]))

# --- references: one fresh process per distinct settings and query --------------------------------
refs = {}
for cfg, steps in paths:
    st = S.CONFIGS[cfg]
    refs[key(st)] = st
    for kind, what in steps:
        if kind == "op":
            st = M.apply_model(st, what)
            refs[key(st)] = st
for cfg, op, _, _ in trees:
    st = M.apply_model(S.CONFIGS[cfg], op)
    refs[key(st)] = st
ref_keys = list(refs)
ref_vals = dict(zip(ref_keys, pmap(reference, [(refs[k], [[q] for q in Q] if check.thorough or k in {key(c) for c in S.CONFIGS.values()} else GROUPS)
                                          for k in ref_keys], timeout=600)))
print("references", len(refs), check.elapsed())

# --- run and compare ------------------------------------------------------------------------------
transitions = answers = 0
effective = set()
seen_states = set(ref_keys)
outcomes = set()


def judge(cfg, opname, history, q, got, want):
    global answers
    answers += 1
    if isinstance(want, Died):
        return          # the settings themselves are not answerable: C09's business
    if isinstance(got, Died):
        check.violation(f"{cfg}/{opname}/{q}", history=history, got=repr(got))
        return
    d = M.differ(got, want)
    if d:
        check.violation(f"{cfg}/{opname}/{q}", history=history, difference=d)


unanswerable = sum(isinstance(v, Died) for r in ref_vals.values() for v in (r.values() if isinstance(r, dict) else [r]))
results = pmap(run_path, paths, timeout=600)
print("paths", len(paths), check.elapsed())
for (cfg, steps), res in zip(paths, results):
    ops = [S.name(w) for k, w in steps if k == "op"]
    hist = [S.name(w) if k == "op" else "queries:" + ("forward" if w == FWD else "reverse") for k, w in steps]
    transitions += len(ops)
    if isinstance(res, Died):
        st = S.CONFIGS[cfg]
        bad = any(isinstance(v, Died) for v in ref_vals[key(st)].values())
        for k, w in steps:
            if k == "op":
                st = M.apply_model(st, w)
                bad |= any(isinstance(v, Died) for v in ref_vals[key(st)].values())
        if not bad:
            check.violation(f"{cfg}/{'+'.join(ops)}/died", history=hist, got=repr(res))
        continue
    i = 0
    for stkey, ans in res:
        for q, got in ans.items():
            judge(cfg, "+".join(ops[:i]), hist, q, got, ref_vals[stkey][q])
        i += 1
base_keys = {cfg: key(S.CONFIGS[cfg]) for cfg in configs}
for cfg in configs:
    for op in S.operations(S.CONFIGS[cfg]):
        k = key(M.apply_model(S.CONFIGS[cfg], op))
        if k in ref_vals and any(M.differ(ref_vals[k][q], ref_vals[base_keys[cfg]][q]) for q in Q[:-1]
                                 if not isinstance(ref_vals[k][q], Died) and not isinstance(ref_vals[base_keys[cfg]][q], Died)):
            effective.add(S.name(op).split("=")[0])
results = pmap(run_tree, trees, timeout=900)
for (cfg, op, _, _), res in zip(trees, results):
    if isinstance(res, Died):
        check.violation(f"{cfg}/{S.name(op)}/tree-died", got=repr(res))
        continue
    stkey, out = res
    for q0, r in out:
        transitions += 1
        if isinstance(r, Died):
            check.violation(f"{cfg}/{q0}>{S.name(op)}/died", got=repr(r))
            continue
        for q1, got in r:
            judge(cfg, f"{q0}>{S.name(op)}", [q0, S.name(op), q1], q1, got, ref_vals[stkey][q1])
print("trees", len(trees), check.elapsed())

# --- blocks ------------------------------------------------------------------------------------------
TINY = dict(sep=[90.0], mu=[0.6], l=[2], z_mean=[0.8], deltaz=[0.1], z_min=[0.7], z_max=[0.95], number_density1=[1e-3],
            number_density2=[5e-4], pixelsize=[20.0], fsky=[0.3], background_sampling=150, integrals_fftlog_sampling=128,
            integration_sampling=200, integration_1d_prec=1e-3, covariance_integration_sampling=32)
blocks = []                 # (label, settings, calls, queries)
for bits in range(16):
    for method in ("standard", "fftlog"):
        for contrib in ((True, True), (True, False), (False, True)) if bits in (0, 2) or check.thorough else ((True, True),):
            flags = {s: bool(bits >> i & 1) for i, s in enumerate(("has_binned_covariance", "covariance_cosmic", "covariance_mixed", "covariance_poisson"))}
            if flags["has_binned_covariance"] and method == "fftlog" and QUICK:
                continue
            st = S.config(has_density=contrib[0], has_rsd=contrib[1], covariance_integration_method=method, **dict(TINY, l=[0, 2]), **flags,
                          covariance_populations=[1, 2, 1, 2] if bits & 1 else [1, 1, 1, 1])
            # (computing one covariance discards the other, so each is asked alone)
            for q in ("covariance_bulk", "average_covariance_bulk"):
                blocks.append((q, st, S.operations(st, full=False), [q]))
SIGNAL = ["has_flatsky_local", "has_flatsky_local_nonlocal", "has_flatsky_nonlocal", "has_only_cross_correlations", "omega_m", "h", "w0", "sep", "mu", "l", "z_mean", "z_min",
          "z_max", "k_max", "integrals_fftlog_sampling", "background_sampling", "pk_type", "deltaz"] + M.CONTRIB
for i, a in enumerate(M.CONTRIB):
    for b in M.CONTRIB[i:]:
        st = S.config(**TINY, **{"has_density": False, a: True, b: True}, has_only_cross_correlations=(i % 2 == 1 and a != b))
        ops = [o for o in S.operations(st, full=False) if o[0] in ("bias", "spectrum") or o[0] == "set" and o[1] in SIGNAL]
        if QUICK and not {a, b} & {"has_density", "has_rsd", "has_lensing", "has_d1"}:        # the 1/k^4 integral is expensive
            ops = [o for o in ops if o[0] == "bias" or o[1] in ("sep", "z_mean", "h", "has_only_cross_correlations", "has_flatsky_local")]
        blocks.append(("signal", st, ops, ["corrfunc", "multipoles_bulk"]))


def run_block(task):
    label, st, op, qs = task
    c = M.new_object(st, coffe)
    out = [{q: M.QUERIES[q](c) for q in qs}]
    if op:
        M.apply_real(c, op)
        out.append({q: M.QUERIES[q](c) for q in qs})
    return out


todo = [(label, st, op, qs) for label, st, ops, qs in blocks for op in ops]
fresh = {}
for label, st, op, qs in todo:
    for x in (st, M.apply_model(st, op)):
        fresh.setdefault((key(x), tuple(qs)), (label, x, None, qs))
fresh_keys = list(fresh)
want = dict(zip(fresh_keys, pmap(run_block, [fresh[k] for k in fresh_keys], timeout=300)))
depends = 0
for (label, st, op, qs), got in zip(todo, pmap(run_block, todo, timeout=300)):
    transitions += 1
    ref = [want[key(x), tuple(qs)] for x in (st, M.apply_model(st, op))]
    where = f"{label}/" + ",".join(sorted(k for k, v in st.items() if isinstance(v, bool) and v))
    if any(isinstance(r, Died) for r in ref):
        unanswerable += 1
        continue
    if isinstance(got, Died):
        check.violation(f"{where}/{S.name(op)}/died", got=repr(got))
        continue
    depends += ref[0][0] != ref[1][0]
    for q in qs:
        answers += 2
        for i in (0, 1):
            d = M.differ(got[i][q], ref[i][0][q])
            if d:
                check.violation(f"{where}/{S.name(op) if i else 'first'}/{q}", history=[q, S.name(op), q], difference=d)
seen_states |= {k for k, _ in fresh_keys}
print("blocks", len(todo), len(fresh_keys), "depending", depends, check.elapsed())
if depends < len(todo) / 4:
    check.violation("harness/vacuous", blocks=len(todo), depending=depends)

check.coverage = {
    "states": len(seen_states), "transitions": transitions, "traces_validated_against_impl": len(paths) + sum(len(t[2]) * len(t[3]) for t in trees),
    "answers_compared": answers, "configurations": configs, "unanswerable_references": unanswerable,
    "calls_with_observable_effect": sorted(effective),
    "calls_without_observable_effect": sorted({S.name(o).split("=")[0] for cfg in configs for o in S.operations(S.CONFIGS[cfg])} - effective),
    "exhaustive": True,
    "samples": [[c, [S.name(w) if k == "op" else "queries" for k, w in s]] for c, s in paths[:3]],
}
sys.exit(check.finish())

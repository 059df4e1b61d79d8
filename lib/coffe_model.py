"""The reference model of a Coffe object: what its settings are, and nothing else.

A state is a plain dict {slot: value}.  The model says which settings a history of calls leaves
behind; what the object should then answer is whatever a brand-new object with those settings
answers (computed by the real code in a fresh process), so no expected value is written by hand
and the rule being checked is exactly "an answer is a function of the current settings".
"""
import numpy as np

# --- slots, in the order in which a new object gets them ------------------------------------
COSMO = ["omega_gamma", "h", "N_ncdm", "m_ncdm", "omega_baryon", "omega_m", "w0", "wa", "n_s", "sigma8",
         "A_s", "T_cmb", "N_ur", "YHe"]
PRECISION = ["k_per_decade_for_bao", "k_per_decade_for_pk", "start_large_k_at_tau_h_over_tau_k", "l_max_g",
             "l_max_ur", "tol_perturb_integration", "radiation_streaming_trigger_tau_over_tau_k",
             "ur_fluid_trigger_tau_over_tau_k"]
SPECTRUM = COSMO + PRECISION + ["k_min", "k_max", "pk_type"]
CONTRIB = ["has_density", "has_rsd", "has_lensing", "has_d1", "has_d2", "has_g1", "has_g2", "has_g3", "has_g4",
           "has_g5"]
SWITCH = ["has_only_cross_correlations", "has_flatsky_local", "has_flatsky_local_nonlocal",
          "has_flatsky_nonlocal", "has_binned_covariance", "covariance_cosmic", "covariance_mixed",
          "covariance_poisson"]
COORD = ["sep", "mu", "l", "z_mean", "deltaz", "z_min", "z_max", "number_density1", "number_density2",
         "pixelsize", "fsky", "covariance_populations"]
METHOD = ["integration_1d_type", "integration_1d_prec", "integration_sampling", "integrals_fftlog_sampling",
          "background_sampling", "covariance_integration_method", "covariance_integration_sampling",
          "covariance_interpolation_method", "verbose"]
BIAS = ["galaxy_bias1", "galaxy_bias2", "galaxy_bias3", "galaxy_bias4", "magnification_bias1",
        "magnification_bias2", "evolution_bias1", "evolution_bias2"]
SLOTS = SPECTRUM + CONTRIB + SWITCH + COORD + METHOD
LISTS = set(COORD)


def new_object(state, coffe):
    """A brand-new object with exactly these settings."""
    c = coffe.Coffe()
    for s in SLOTS:
        if s in state:
            setattr(c, s, state[s])
    for b in BIAS:
        if b in state:
            getattr(c, "set_" + b)(*state[b])
    if state.get("spectrum") is not None:
        c.set_power_spectrum_linear(*state["spectrum"])
    return c


def apply_model(state, op):
    """The settings after op; op is (kind, ...)."""
    st = dict(state)
    kind = op[0]
    if kind == "set":
        _, slot, value = op
        if slot == "omega_cdm":
            slot, value = "omega_m", value + st.get("omega_baryon", 0.05) + omega_nu(st)
        if slot in SPECTRUM and st.get(slot) != value:
            st["spectrum"] = None
        st[slot] = value
    elif kind == "setmany":
        for s, v in op[1].items():
            st = apply_model(st, ("set", s, v))
    elif kind == "bias":
        _, slot, x, y = op
        st[slot] = (x, y)
    elif kind == "spectrum":
        _, k, pk = op
        st["spectrum"] = (k, pk)
        st["k_min"], st["k_max"] = k[0], k[-1]
    elif kind == "reset":
        for s in CONTRIB + ["has_only_cross_correlations", "has_flatsky_local", "has_flatsky_local_nonlocal",
                            "has_flatsky_nonlocal", "has_binned_covariance"]:
            st[s] = False
    elif kind in ("read", "rejected", "nothing", "tofile", "query", "recompute"):
        pass
    else:
        raise ValueError(op)
    return st


def apply_real(c, op):
    kind = op[0]
    if kind == "set":
        setattr(c, op[1], op[2])
    elif kind == "setmany":
        c.set_parameters(**op[1])
    elif kind == "bias":
        getattr(c, "set_" + op[1])(op[2], op[3])
    elif kind == "spectrum":
        c.set_power_spectrum_linear(op[1], op[2])
    elif kind == "reset":
        c.reset_contributions()
    elif kind == "read":
        c.parameters
    elif kind == "tofile":
        c.to_file("/dev/null")
    elif kind == "rejected":
        try:
            setattr(c, op[1], op[2])
        except Exception:
            pass
        else:
            raise AssertionError(f"{op} was accepted")
    elif kind == "query":
        QUERIES[op[1]](c)
    elif kind == "recompute":
        _try(lambda: getattr(c, op[1])(recompute=True))


def omega_nu(st):
    h = st.get("h", 0.67)
    return st.get("m_ncdm", 0.0) / 93.14 / h / h


# --- queries: every answer is a flat list of numbers -----------------------------------------
def _try(f):
    try:
        return f()
    except (ValueError, TypeError, OverflowError) as e:
        return ["exc:" + type(e).__name__]


def q_background(c):
    out = []
    for z in (0.0, 0.45, 1.3, 9.0):
        for f in ("scale_factor", "hubble_rate", "hubble_rate_conformal", "hubble_rate_conformal_derivative",
                  "growth_factor", "growth_rate", "comoving_distance"):
            out.append(getattr(c, f)(z))
    out.append(c.maximum_separation(0.9, 0.1))
    return out


def q_spectrum(c):
    out = []
    for k in (0.005, 0.09, 1.1):
        for z in (0.0, 0.9):
            out += _try(lambda: [c.power_spectrum(k, z)])
            out += _try(lambda: [c.cross_spectrum(k, z, 0.4)])
    return out


NL = [(0, 0), (0, 2), (0, 4), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1), (4, 0)]


def q_integral(c):
    out = []
    for n, l in NL:
        for r in (25.0, 140.0):
            out += _try(lambda: [c.integral(r=r, n=n, l=l)])
    return out


def q_corrfunc(c):
    zs = c.z_mean
    z = float(zs[0]) if len(zs) else 0.8
    return _try(lambda: [c.compute_corrfunc(z=z, r=r, mu=m) for r, m in ((40.0, 0.0), (110.0, 0.7))])


def q_multipole(c):
    zs, ls = c.z_mean, c.l
    z = float(zs[0]) if len(zs) else 0.8
    return _try(lambda: [c.compute_multipole(z=z, r=r, l=int(l)) for r in (40.0, 110.0) for l in ls])


def _rows(f, *names):
    def g(c):
        return _try(lambda: [getattr(x, n) for x in f(c) for n in names])
    return g


QUERIES = {
    "background": q_background,
    "spectrum": q_spectrum,
    "integral": q_integral,
    "corrfunc": q_corrfunc,
    "multipole": q_multipole,
    "corrfunc_bulk": _rows(lambda c: c.compute_corrfunc_bulk(), "z", "r", "mu", "value"),
    "multipoles_bulk": _rows(lambda c: c.compute_multipoles_bulk(), "z", "r", "l", "value"),
    "average_multipoles_bulk": _rows(lambda c: c.compute_average_multipoles_bulk(), "z_min", "z_max", "r", "l", "value"),
    "covariance_bulk": _rows(lambda c: c.compute_covariance_bulk(), "z", "r1", "r2", "l1", "l2", "value"),
    "average_covariance_bulk": _rows(lambda c: c.compute_average_covariance_bulk(), "z_min", "z_max", "r1", "r2", "l1", "l2", "value"),
}


def q_settings(c):
    out = []
    for s in SLOTS + ["omega_cdm", "omega_nu", "omega_de"]:
        v = getattr(c, s)
        out += list(np.asarray(v).ravel().tolist()) if s in LISTS else [v]
    for b in BIAS:
        out += [getattr(c, b)(z) for z in (0.1, 0.8, 1.7)]
    return out


QUERIES["settings"] = q_settings
BULK = [q for q in QUERIES if q.endswith("_bulk")]


def answers(c, order=None):
    """{query: answer}, asked in the given order."""
    return {q: QUERIES[q](c) for q in (order or QUERIES)}


def differ(a, b, rtol=1e-6, atol=0.0):
    """None if two answers agree, else a short description of the first difference."""
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return None if a == b else f"{a!r} != {b!r}"
    if len(a) != len(b):
        return f"lengths {len(a)} != {len(b)}"
    for i, (x, y) in enumerate(zip(a, b)):
        if x == y:
            continue
        if isinstance(x, str) or isinstance(y, str):
            return f"[{i}] {x!r} != {y!r}"
        if x != x and y != y:
            continue
        if not (abs(x - y) <= rtol * max(abs(x), abs(y)) + atol):
            return f"[{i}] {x!r} != {y!r}"
    return None

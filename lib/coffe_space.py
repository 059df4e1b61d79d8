"""The bounded space the Python checks explore: base configurations and the alphabet of calls."""
import numpy as np

import coffe_model as M

SMALL = dict(background_sampling=200, integration_sampling=500, integrals_fftlog_sampling=256,
             covariance_integration_sampling=64, k_min=1e-4, k_max=5.0,
             sep=[30.0, 120.0], mu=[0.0, 0.6], l=[0, 2], z_mean=[0.8, 1.2], deltaz=[0.1, 0.15],
             z_min=[0.7, 1.0], z_max=[0.95, 1.3], number_density1=[1e-3, 2e-3], number_density2=[5e-4, 3e-3],
             pixelsize=[20.0, 25.0], fsky=[0.3, 0.5])


def nodes(i):
    """Redshifts of a bias table: four different grids, deliberately not evenly spaced."""
    return [[0.0, 0.3, 0.7, 1.1, 2.0, 5.0, 15.0], [0.0, 0.5, 0.8, 1.4, 2.5, 15.0],
            [0.0, 0.2, 0.9, 1.6, 3.0, 8.0, 15.0], [0.0, 0.6, 1.2, 2.2, 15.0]][i % 4]


def table(i, base, slope):
    x = nodes(i)
    return (x, [base + slope * z / (1 + z) for z in x])


BIASES = {"galaxy_bias1": table(0, 1.2, 0.5), "galaxy_bias2": table(1, 1.7, 0.3),
          "galaxy_bias3": table(2, 0.8, 0.6), "galaxy_bias4": table(3, 2.1, 0.2),
          "magnification_bias1": table(1, 0.15, 0.1), "magnification_bias2": table(2, 0.7, 0.2),
          "evolution_bias1": table(3, 0.4, 0.3), "evolution_bias2": table(0, 0.9, 0.5)}
BIASES2 = {b: table(i + 2, {"g": 1.45, "m": 0.25, "e": 0.6}[b[0]] + 0.05 * i, 0.37)
           for i, b in enumerate(BIASES)}


def user_spectrum(amp=1.0, tilt=0.0, kmin=2e-4, kmax=8.0, n=120):
    k = np.geomspace(kmin, kmax, n)
    k[0], k[-1] = kmin, kmax
    x = k / 0.015
    pk = amp * 3.1e4 * x ** (0.96 + tilt) / (1 + x * x) ** 1.3
    return ([float(v) for v in k], [float(v) for v in pk])


def config(**kw):
    st = dict(SMALL)
    st.update(BIASES)
    st.update(kw)
    if st.get("spectrum") is not None:
        st["k_min"], st["k_max"] = st["spectrum"][0][0], st["spectrum"][0][-1]
    return st


CONFIGS = {
    "local": config(has_density=True, has_rsd=True),
    "divergent": config(has_density=True, has_rsd=True, has_d1=True, has_d2=True, has_g1=True, has_g2=True,
                        has_g3=True),
    "flatsky": config(has_density=True, has_rsd=True, has_lensing=True, has_flatsky_local=True,
                      has_flatsky_local_nonlocal=True, has_flatsky_nonlocal=True,
                      mu=[0.1, 0.6]),
    "lensing": config(has_density=True, has_lensing=True, sep=[90.0], mu=[0.6], l=[2], z_mean=[0.8, 1.2]),
    "integrated": config(has_lensing=True, has_g4=True, has_g5=True, sep=[90.0], mu=[0.6], l=[0],
                         z_mean=[0.8, 1.2], z_min=[0.7], z_max=[0.9]),
    "covariance_fftlog": config(has_density=True, has_rsd=True, covariance_integration_method="fftlog",
                                covariance_populations=[1, 2, 3, 4]),
    "covariance_binned": config(has_density=True, has_rsd=True, has_binned_covariance=True,
                                covariance_populations=[1, 1, 2, 3], spectrum=user_spectrum()),
    "nonlinear": config(has_density=True, has_rsd=True, pk_type="halofit", m_ncdm=0.06),
    "user_spectrum": config(has_density=True, has_rsd=True, has_d1=True, has_lensing=True, sep=[90.0], mu=[0.6],
                            l=[0], spectrum=user_spectrum(1.2, 0.05)),
}



def covering(factors):
    """Rows of booleans in which every pair of factors takes all four combinations (greedy, deterministic)."""
    need = {(i, j, a, b) for i in range(factors) for j in range(i) for a in (False, True) for b in (False, True)}
    rows, x = [], 12345
    while need:
        best = None
        for _ in range(60):
            row = []
            for _ in range(factors):
                x = (x * 1103515245 + 12345) % (1 << 31)
                row.append(bool(x >> 16 & 1))
            got = {t for t in need if row[t[0]] == t[2] and row[t[1]] == t[3]}
            if best is None or len(got) > len(best[1]):
                best = row, got
        rows.append(best[0])
        need -= best[1]
    return rows


FACTORS = [dict(has_density=True), dict(has_rsd=True), dict(has_d1=True), dict(has_g1=True), dict(has_flatsky_local=True),
           dict(has_only_cross_correlations=True), dict(covariance_cosmic=False), dict(covariance_mixed=False), dict(covariance_poisson=False),
           dict(has_binned_covariance=True), dict(covariance_populations=[1, 2, 1, 2]), dict(integration_1d_type="exponential"),
           dict(covariance_integration_method="fftlog"), dict(pk_type="halofit", m_ncdm=0.06), dict(spectrum=user_spectrum()), dict(wa=0.15)]
for _i, _row in enumerate(covering(len(FACTORS))):
    _kw = dict(has_density=False)
    for _f, _on in zip(FACTORS, _row):
        if _on and not ("spectrum" in _f and "pk_type" in _kw):
            _kw.update(_f)
    CONFIGS[f"cover{_i}"] = config(sep=[90.0], mu=[0.6], l=[0, 2], z_mean=[0.8], deltaz=[0.1], z_min=[0.7], z_max=[0.95],
                                   number_density1=[1e-3], number_density2=[5e-4], pixelsize=[20.0], fsky=[0.3], **_kw)

ALT = dict(
    omega_gamma=5e-4, h=0.72, N_ncdm=2, m_ncdm=0.3, omega_baryon=0.06, omega_m=0.35, omega_cdm=0.22, w0=-0.9,
    wa=0.2, n_s=0.93, sigma8=0.75, A_s=2.5e-9, T_cmb=2.9, N_ur=1.5, YHe=0.3,
    k_per_decade_for_bao=40.0, k_per_decade_for_pk=25.0, start_large_k_at_tau_h_over_tau_k=0.1, l_max_g=14,
    l_max_ur=20, tol_perturb_integration=1e-4, radiation_streaming_trigger_tau_over_tau_k=120.0,
    ur_fluid_trigger_tau_over_tau_k=40.0, k_min=3e-4, k_max=3.0, pk_type="hmcode",
    sep=[55.0], mu=[0.3, -0.2, 0.8], l=[4], z_mean=[0.9, 1.4], deltaz=[0.05, 0.2], z_min=[0.6, 0.9],
    z_max=[1.0, 1.2], number_density1=[4e-3, 1e-4], number_density2=[7e-3, 6e-4], pixelsize=[12.0, 40.0],
    fsky=[0.9, 0.1], covariance_populations=[2, 1, 4, 3],
    integration_1d_type="exponential", integration_1d_prec=1e-3, integration_sampling=700,
    integrals_fftlog_sampling=300, background_sampling=250, covariance_integration_method="fftlog",
    covariance_integration_sampling=80, covariance_interpolation_method="bilinear", verbose=True,
)
# second alternatives for what is a list or has more than two values
ALT2 = dict(
    pk_type="linear_class", sep=[30.0, 120.0, 60.0], l=[0, 2, 4], z_mean=[1.2, 0.8],
    z_min=[0.75, 1.05], omega_m=0.3 * (1 + 3e-6), h=0.67 * (1 + 4e-6), covariance_populations=[1, 2, 1, 2],
    number_density1=[2e-3, 1e-3], deltaz=[0.15, 0.1],
)


def sized(slot, value, st):
    """Cuts a per-bin list to the number of bins the configuration has."""
    if slot in ("z_min", "z_max"):
        return value[:len(st["z_min"])]
    if slot in ("z_mean", "deltaz", "number_density1", "number_density2", "pixelsize", "fsky") and len(st["z_mean"]) == 1:
        return value[:1]
    return value


def operations(st, full=True):
    """Every call of the alphabet that is a change from this configuration."""
    ops = []
    for slot, value in list(ALT.items()) + (list(ALT2.items()) if full else []):
        value = sized(slot, value, st)
        if st.get(slot) == value:
            value = {"pk_type": "linear", "covariance_integration_method": "standard"}.get(slot, value)
        if st.get(slot) == value:
            continue
        ops.append(("set", slot, value))
    for slot in M.CONTRIB + M.SWITCH:
        now = st.get(slot, slot in ("has_density", "covariance_cosmic", "covariance_mixed", "covariance_poisson"))
        ops.append(("set", slot, not now))
    for b, (x, y) in BIASES2.items():
        ops.append(("bias", b, x, y))
    if st.get("pk_type", "linear") == "linear":
        ops.append(("spectrum",) + user_spectrum(0.8, -0.03, 3e-4, 6.0))
    ops.append(("setmany", {"omega_m": 0.33, "has_rsd": False, "sep": [70.0], "sigma8": 0.7}))
    ops.append(("reset",))
    return ops


def neutral(st):
    """Calls that must not change any later answer."""
    ops = [("read",), ("tofile",)]
    for slot, bad in (("sep", [-1.0]), ("sep", 3.0), ("mu", [1.5]), ("l", [0.5]), ("l", [77]), ("z_mean", [11.0]),
                      ("z_min", [-0.1]), ("z_max", ["x", "y"]), ("deltaz", [-0.1]), ("number_density1", [-1.0]),
                      ("number_density2", 1), ("pixelsize", [0.0]), ("fsky", [2.0]),
                      ("covariance_populations", [1, 2, 3]), ("covariance_populations", [1, 2, 3, 9]),
                      ("omega_m", 1.5), ("omega_baryon", 1.2), ("omega_cdm", 1.2), ("omega_gamma", 0.9), ("h", -1.0),
                      ("h", "a"), ("pk_type", "none"), ("integration_1d_type", "none"), ("integration_1d_prec", 2.0),
                      ("background_sampling", -3), ("integration_sampling", 2.5), ("k_min", 1.0), ("k_max", 1e-3),
                      ("covariance_integration_method", "none"), ("covariance_interpolation_method", 77),
                      ("N_ncdm", 1.5), ("w0", 1000.0)):
        ops.append(("rejected", slot, bad))
    for b in M.BULK:
        ops.append(("recompute", "compute_" + b))
    return ops


def name(op):
    if op[0] == "set":
        return f"{op[1]}={op[2]}".replace(" ", "")
    if op[0] == "bias":
        return f"set_{op[1]}"
    if op[0] == "spectrum":
        return "set_power_spectrum_linear"
    if op[0] == "setmany":
        return "set_parameters"
    if op[0] == "rejected":
        return f"rejected:{op[1]}={op[2]}".replace(" ", "")
    return ":".join(map(str, op))

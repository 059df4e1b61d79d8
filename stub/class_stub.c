/*
 * Stand-in for the CLASS library, which is not installed here.
 *
 * COFFE's Python module calls parse_external_power_spectrum() whenever it
 * needs P(k) and the user has not supplied one.  In a build without CLASS
 * that function does not exist, so the harness supplies this one: a smooth,
 * deterministic matter power spectrum which depends on EVERY parameter the
 * real function hands to CLASS (cosmology, neutrinos, precision, k range), so
 * a stale power spectrum is visible whatever parameter was changed.
 */
#include <math.h>
#include <stdlib.h>
#include "common.h"

int verif_class_calls = 0;

int parse_external_power_spectrum(coffe_parameters_t *par);

static double verif_pk(const coffe_parameters_t *par, double k, double z)
{
    const double keq = 0.0746 * par->Omega0_m * par->h * par->h
        / pow(par->T_cmb / 2.7, 2) * exp(-1.3 * par->Omega0_baryon);
    const double q = k / keq;
    /* no steeper than k^-1.6 at the end, which keeps the adaptive integrals cheap */
    const double T2 = pow(1 + q * q, -1.3);
    const double amp = par->A_s > 0 ? par->A_s / 2.1e-9 : pow(par->sigma8 / 0.8156, 2);
    double mod = 1
        + 0.010 * (par->N_ur - 2.0328)
        + 0.011 * (par->N_ncdm - 1)
        + 0.110 * par->m_ncdm
        + 0.130 * par->YHe
        + 0.010 * (par->w0 + 1)
        + 0.011 * par->wa
        + 1.700 * (par->Omega0_gamma - 9e-5)
        + 0.017 * (par->Omega0_de - 0.7)
        + 1e-4 * (par->class_precision.k_per_decade_for_bao - 70)
        + 1e-4 * (par->class_precision.k_per_decade_for_pk - 10)
        + 1e-2 * (par->class_precision.start_large_k_at_tau_h_over_tau_k - 0.07)
        + 1e-4 * (par->class_precision.l_max_g - 12)
        + 1e-4 * (par->class_precision.l_max_ur - 17)
        + 1e-2 * (par->class_precision.tol_perturb_integration - 1e-5)
        + 1e-4 * (par->class_precision.radiation_streaming_trigger_tau_over_tau_k - 45)
        + 1e-4 * (par->class_precision.ur_fluid_trigger_tau_over_tau_k - 30)
        + 0.02 * (int)par->pk_type;
    return 2.0e6 * amp * mod * pow(k / 0.05, par->n_s) * T2 * 0.06
        * exp(-k * par->inv_k_window) / pow(1 + z, 1.7);
}

int parse_external_power_spectrum(coffe_parameters_t *par)
{
    const size_t n = 120, nz = 12;
    double *k = (double *)malloc(sizeof(double) * n);
    double *p = (double *)malloc(sizeof(double) * n);
    const double lo = par->k_min > 0 ? par->k_min : 1e-7, hi = par->k_max;

    ++verif_class_calls;
    for (size_t i = 0; i < n; ++i){
        k[i] = lo * exp(log(hi / lo) * (double)i / (n - 1));
    }
    k[0] = lo;
    k[n - 1] = hi;
    for (size_t i = 0; i < n; ++i)
        p[i] = verif_pk(par, k[i], 0);
    coffe_init_spline(&par->power_spectrum, k, p, n, par->interp_method);
    coffe_init_spline(&par->power_spectrum_norm, k, p, n, par->interp_method);
    if (par->pk_type != COFFE_PK_LINEAR){
        double *z = (double *)malloc(sizeof(double) * nz);
        double *p2 = (double *)malloc(sizeof(double) * n * nz);
        for (size_t i = 0; i < nz; ++i)
            z[i] = 15. * (double)i / (nz - 1);
        for (size_t i = 0; i < nz; ++i)
            for (size_t j = 0; j < n; ++j)
                p2[j * nz + i] = verif_pk(par, k[j], z[i]);
        coffe_free_spline2d(&par->power_spectrum2d);
        coffe_free_spline2d(&par->power_spectrum2d_norm);
        coffe_init_spline2d(&par->power_spectrum2d, z, k, p2, nz, n, COFFE_INTERP2D_BICUBIC);
        coffe_init_spline2d(&par->power_spectrum2d_norm, z, k, p2, nz, n, COFFE_INTERP2D_BICUBIC);
        free(z);
        free(p2);
    }
    free(k);
    free(p);
    return EXIT_SUCCESS;
}

/*
 * A deterministic cubature in place of GSL's three Monte Carlo integrators, for the checks of
 * exact algebraic relations (linearity, mirror symmetry, projections): a tensor Gauss-Legendre
 * rule with floor(calls^(1/dim)) points per axis, at least 4.  Unlike VEGAS it is a linear
 * functional of the integrand and is symmetric about the centre of the box.
 */
#include <math.h>
#include <stdlib.h>
#include <gsl/gsl_rng.h>
#include <gsl/gsl_integration.h>
#include <gsl/gsl_monte.h>
#include <gsl/gsl_monte_plain.h>
#include <gsl/gsl_monte_miser.h>
#include <gsl/gsl_monte_vegas.h>

static int verif_cubature(
    const gsl_monte_function *f, const double lo[], const double hi[],
    size_t dim, size_t calls, double *result, double *error)
{
    size_t n = (size_t)floor(pow((double)calls, 1. / dim) + 1e-9);
    if (n < 4) n = 4;
    gsl_integration_glfixed_table *t = gsl_integration_glfixed_table_alloc(n);
    double *x = malloc(sizeof(double) * n), *w = malloc(sizeof(double) * n), point[16], sum = 0;
    size_t index[16] = {0};
    for (size_t i = 0; i < n; ++i)
        gsl_integration_glfixed_point(-1, 1, i, &x[i], &w[i], t);
    for (;;){
        double weight = 1;
        for (size_t d = 0; d < dim; ++d){
            point[d] = (lo[d] + hi[d]) / 2 + (hi[d] - lo[d]) / 2 * x[index[d]];
            weight *= (hi[d] - lo[d]) / 2 * w[index[d]];
        }
        sum += weight * f->f(point, dim, f->params);
        size_t d = 0;
        while (d < dim && ++index[d] == n) index[d++] = 0;
        if (d == dim) break;
    }
    free(x);
    free(w);
    gsl_integration_glfixed_table_free(t);
    *result = sum;
    *error = 0;
    return 0;
}

#define STANDIN(NAME) \
gsl_monte_##NAME##_state *gsl_monte_##NAME##_alloc(size_t dim){ return calloc(1, sizeof(gsl_monte_##NAME##_state)); } \
void gsl_monte_##NAME##_free(gsl_monte_##NAME##_state *s){ free(s); }
STANDIN(plain)
STANDIN(miser)
STANDIN(vegas)

int gsl_monte_plain_integrate(const gsl_monte_function *f, const double lo[], const double hi[], const size_t dim,
    const size_t calls, gsl_rng *r, gsl_monte_plain_state *s, double *res, double *err)
{ return verif_cubature(f, lo, hi, dim, calls, res, err); }
int gsl_monte_miser_integrate(gsl_monte_function *f, const double lo[], const double hi[], size_t dim,
    size_t calls, gsl_rng *r, gsl_monte_miser_state *s, double *res, double *err)
{ return verif_cubature(f, lo, hi, dim, calls, res, err); }
int gsl_monte_vegas_integrate(gsl_monte_function *f, double lo[], double hi[], size_t dim,
    size_t calls, gsl_rng *r, gsl_monte_vegas_state *s, double *res, double *err)
{ return verif_cubature(f, lo, hi, dim, calls, res, err); }

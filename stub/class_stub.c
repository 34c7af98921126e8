/*
 * Stand-in for the external Boltzmann code (the function src/parser.c defines
 * under HAVE_CLASS): an analytic power spectrum that depends on every setting
 * the real one is given, with injectable failures.
 */
#include <math.h>
#include <stdlib.h>
#include "common.h"
#include "parser.h"

#define EXPORT __attribute__((visibility("default")))
#define NK 160

static long calls, fail_at, fail_kind, failures;
EXPORT void sim_provider_config(long at, long kind){ fail_at = at; fail_kind = kind; calls = 0; }
EXPORT long sim_provider_calls(void){ return calls; }
EXPORT long sim_provider_failures(void){ return failures; }

static double shape(const coffe_parameters_t *p, double k, double z)
{
    const double om = p->Omega0_m, gam = om * p->h * exp(-p->Omega0_baryon * (1 + sqrt(2 * p->h) / om));
    const double q = k / (gam * p->h) * (1 + 0.01 * (p->T_cmb - 2.7));
    const double t = log(1 + 2.34 * q) / (2.34 * q)
        / pow(1 + 3.89 * q + pow(16.1 * q, 2) + pow(5.46 * q, 3) + pow(6.71 * q, 4), 0.25);
    double amp = fabs(p->A_s) > 1e-10 ? p->A_s / 2.1e-9 : pow(p->sigma8 / 0.8156, 2);
    const coffe_class_precision_parameters_t *c = &p->class_precision;
    amp *= 1 + 0.02 * sin(
        1.1 * p->N_ur + 3 * p->m_ncdm + 5 * p->YHe + 0.7 * p->N_ncdm + 1.3 * p->w0 + 1.7 * p->wa
        + 2.3 * p->Omega0_cdm + 900. * p->Omega0_gamma + 3.1 * p->Omega0_nu);
    amp *= 1 + 0.002 * sin(
        0.03 * c->k_per_decade_for_bao + 0.05 * c->k_per_decade_for_pk + 70 * c->start_large_k_at_tau_h_over_tau_k
        + 0.11 * c->l_max_g + 0.13 * c->l_max_ur + 1e5 * c->tol_perturb_integration
        + 0.017 * c->radiation_streaming_trigger_tau_over_tau_k + 0.019 * c->ur_fluid_trigger_tau_over_tau_k);
    double v = 5e6 * amp * pow(k, p->n_s) * t * t;
    if (p->pk_type != COFFE_PK_LINEAR){
        v /= (1 + z) * (1 + z);
        if (p->pk_type == COFFE_PK_NONLINEAR_HALOFIT) v *= 1 + 0.3 * k / (1 + k);
        if (p->pk_type == COFFE_PK_NONLINEAR_HMCODE) v *= 1 + 0.4 * k / (1 + k);
    }
    return v;
}

__attribute__((weak)) EXPORT int parse_external_power_spectrum(coffe_parameters_t *p)
{
    ++calls;
    if (fail_at && calls >= fail_at && calls < fail_at + (fail_kind >> 8 ? fail_kind >> 8 : 1)){
        ++failures;
        if ((fail_kind & 255) == 0) return EXIT_FAILURE;   /* refused before it starts */
        coffe_free_spline(&p->power_spectrum);             /* failed after dropping the old tables */
        coffe_free_spline(&p->power_spectrum_norm);
        return EXIT_FAILURE;
    }
    coffe_free_spline(&p->power_spectrum);
    coffe_free_spline(&p->power_spectrum_norm);
    double k[NK], pk[NK];
    for (int i = 0; i < NK; ++i){
        k[i] = p->k_min * pow(p->k_max / p->k_min, (double)i / (NK - 1));
        pk[i] = shape(p, k[i], 0);
    }
    k[0] = p->k_min; k[NK - 1] = p->k_max;
    coffe_init_spline(&p->power_spectrum, k, pk, NK, p->interp_method);
    coffe_init_spline(&p->power_spectrum_norm, k, pk, NK, p->interp_method);
    if (p->pk_type != COFFE_PK_LINEAR){
        enum { NZ = 40 };
        static double z[NZ], p2[NZ * NK];
        coffe_free_spline2d(&p->power_spectrum2d);
        coffe_free_spline2d(&p->power_spectrum2d_norm);
        for (int i = 0; i < NZ; ++i) z[i] = 15. * i / (NZ - 1);
        for (int i = 0; i < NZ; ++i) for (int j = 0; j < NK; ++j) p2[j * NZ + i] = shape(p, k[j], z[i]);
        coffe_init_spline2d(&p->power_spectrum2d, z, k, p2, NZ, NK, COFFE_INTERP2D_BICUBIC);
        coffe_init_spline2d(&p->power_spectrum2d_norm, z, k, p2, NZ, NK, COFFE_INTERP2D_BICUBIC);
    }
    return EXIT_SUCCESS;
}

From d6e85c594f2af90a7d48aa075e25f65e1e41a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 01/83] fix: return XRTM_INT_ERROR / XRTM_DBL_ERROR from public
 calls that fail

Solves and linearised setters returned -1, which callers following the
documented convention take for success; three getters of doubles returned
the integer error value.
---
 src/xrtm_interface.c | 16 ++++++++--------
 src/xrtm_support.h   |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index ee7a45d..1b9520f 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3583,7 +3583,7 @@ double xrtm_get_theta_0(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_mu_0, xrtm_input_index_to_name(INPUT_THETA_0), XRTM_DBL_ERROR);
@@ -3618,7 +3618,7 @@ double xrtm_get_phi_0(xrtm_data *d) {
 /*
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 */
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_phi_0, xrtm_input_index_to_name(INPUT_PHI_0), XRTM_DBL_ERROR);
@@ -3776,7 +3776,7 @@ double xrtm_get_surface_b(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_surface_b, xrtm_input_index_to_name(INPUT_SURFACE_B), XRTM_DBL_ERROR);
@@ -3831,7 +3831,7 @@ double xrtm_get_surface_b_l(xrtm_data *d, int i_deriv) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
@@ -5815,7 +5815,7 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
      if (solver & XRTM_SOLVERS_EXT_EXTERNAL) {
           if (get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, d->save_tree, work2)) {
                fprintf(stderr, "ERROR: get_solution()\n");
-               return -1;
+               return XRTM_INT_ERROR;
           }
 
           return 0;
@@ -5827,12 +5827,12 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
       *-----------------------------------------------------------------------*/
      if (! (d->options & XRTM_OPTION_CALC_DERIVS)) {
           fprintf(stderr, "ERROR: xrtm_solution() requires option \"%s\"\n", xrtm_option_mask_to_name(XRTM_OPTION_CALC_DERIVS));
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      if (! (d->options & XRTM_OPTION_REVERSE_DERIVS)) {
           fprintf(stderr, "ERROR: xrtm_solution() requires option \"%s\"\n", xrtm_option_mask_to_name(XRTM_OPTION_REVERSE_DERIVS));
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
 
@@ -5860,7 +5860,7 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
 
      if (get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, flux_div, NULL, d->save_tree, work2)) {
           fprintf(stderr, "ERROR: get_solution2()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      d->options  = options;
diff --git a/src/xrtm_support.h b/src/xrtm_support.h
index 3eaf101..1343aa1 100644
--- a/src/xrtm_support.h
+++ b/src/xrtm_support.h
@@ -169,7 +169,7 @@ extern "C" {
      if (! (d->options & XRTM_OPTION_CALC_DERIVS)) {				\
           fprintf(stderr, "ERROR: can't set linearized inputs when model is "		\
                   "not initialized to evaluate derivatives\n");			\
-          return -1;								\
+          return XRTM_INT_ERROR;							\
      }										\
 } while (0)
 
@@ -191,7 +191,7 @@ extern "C" {
 #define SOLUTION_PREPROCESS()  do {						\
      if (solution_preprocess(d)) {						\
           fprintf(stderr, "ERROR: solution_preprocess()\n");				\
-          return -1;								\
+          return XRTM_INT_ERROR;						\
      }										\
 } while (0)
 
-- 
2.43.0


From f3f66d437a030f89f60415064168aecbe3f22c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:18 +0000
Subject: [PATCH 02/83] fix: free the kernel function flags with the other
 input flags

---
 src/xrtm_interface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 1b9520f..e8d1fab 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2578,6 +2578,7 @@ static int check_inputs_initialized(xrtm_data *d) {
      if (d->n_kernels > 0) {
           free_array1_uc(d->set_flags_kernel_ampfac);
           free_array2_uc(d->set_flags_kernel_params);
+          free_array1_uc(d->set_flags_kernel_func);
      }
 
      d->inputs_initialized = 0;
-- 
2.43.0


From 8ed6633b4501da2cbd6375ea0ea70750e43094ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:32 +0000
Subject: [PATCH 03/83] fix: check the indices of a getter before using them

The set flags were looked up with an index that had not been checked yet,
and xrtm_get_kernel() accepted negative indices.
---
 src/xrtm_interface.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index e8d1fab..b371106 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2788,7 +2788,7 @@ int xrtm_get_n_kernel_quad(xrtm_data *d) {
  ******************************************************************************/
 enum xrtm_kernel_type xrtm_get_kernel(xrtm_data *d, int i_kernel) {
 
-     if (i_kernel > d->n_kernels - 1) {
+     if (i_kernel < 0 || i_kernel > d->n_kernels - 1) {
           fprintf(stderr, "ERROR: invalid kernel index: %d\n", i_kernel);
           return XRTM_INT_ERROR;
      }
@@ -3914,10 +3914,10 @@ double xrtm_get_g(xrtm_data *d, int i_layer) {
           return XRTM_DBL_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
+
      return d->g0[i_layer];
 }
 
@@ -4135,10 +4135,10 @@ int xrtm_get_n_coef(xrtm_data *d, int i_layer) {
           return XRTM_INT_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
+
      return d->n_coef_layer[i_layer];
 }
 
@@ -4151,12 +4151,12 @@ double xrtm_get_coef(xrtm_data *d, int i_layer, int i_elem, int i_coef) {
           return XRTM_DBL_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], xrtm_input_index_to_name(INPUT_COEF), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_elem,  d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_coef,  d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], xrtm_input_index_to_name(INPUT_COEF), XRTM_DBL_ERROR);
+
      return d->coef0[i_layer][i_elem][i_coef];
 }
 
@@ -4369,10 +4369,10 @@ int xrtm_set_omega_n(xrtm_data *d, double *omega) {
 
 double xrtm_get_omega(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
+
      return d->omega0[i_layer];
 }
 
@@ -4520,10 +4520,10 @@ int xrtm_set_ltau_n(xrtm_data *d, double *ltau) {
 
 double xrtm_get_ltau(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
+
      return d->ltau0[i_layer];
 }
 
@@ -4639,10 +4639,10 @@ double xrtm_get_kernel_ampfac(xrtm_data *d, int i_kernel) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
+
      return d->kernel_ampfac[i_kernel];
 }
 
@@ -4704,14 +4704,14 @@ double xrtm_get_kernel_params(xrtm_data *d, int i_kernel, int i_param) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
 
      CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params",  XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
+
      return d->kernel_params[i_kernel][i_param];
 }
 
-- 
2.43.0


From 7334df8cdd860e7e2089704ea18dd721539f9471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 04/83] fix: separate the last two input names

The missing comma left xrtm_input_names[] one short, so reporting a missing
kernel function read past its end.
---
 src/xrtm_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index b371106..1f3fe0d 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -184,7 +184,7 @@ static const char *xrtm_input_names[] = {
      "kernel_ampfac",
      "kernel_ampfac_l",
      "kernel_params",
-     "kernel_params_l"
+     "kernel_params_l",
      "kernel_funcs"
 };
 
-- 
2.43.0


From 6e88beb0de1b8694010794801c1f19ee3930aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:52 +0000
Subject: [PATCH 05/83] fix: solve non scattering layers with thermal sources
 or derivatives

no_scatter_r_t_s() ends the process for thermal sources and drops the
derivative with respect to the single scattering albedo; use the general
solution in these cases.
---
 src/xrtm_model.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 32ff345..51f43c0 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2124,6 +2124,8 @@ static int get_layer_R_T_S_U_W_V
 
      int flag2;
 
+     int no_scatter;
+
      int deps;
 
      double b0;
@@ -2273,7 +2275,17 @@ static int get_layer_R_T_S_U_W_V
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (d->omega[i_layer] == 0. || i_four >= d->n_coef_layer[i_layer])
+     no_scatter = i_four >= d->n_coef_layer[i_layer] || d->omega[i_layer] == 0.;
+
+     /* no_scatter_r_t_s() has neither thermal sources nor derivatives with
+        respect to the single scattering albedo */
+     if (d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0)
+          no_scatter = 0;
+     else
+     if (i_four < d->n_coef_layer[i_layer] && d->options & XRTM_OPTION_CALC_DERIVS && flags_or(d->derivs.layers[i_layer], d->n_derivs))
+          no_scatter = 0;
+
+     if (no_scatter)
           no_scatter_r_t_s(d->n_quad_v_x, d->n_derivs, d->qx_v, d->qw_v, d->ltau[i_layer], ltau_l, *R_p, *T_p, *R_m, *T_m, *S_p, *S_m, *Sl_p, *Sl_m, *R_p_l, *T_p_l, *R_m_l, *T_m_l, *S_p_l, *S_m_l, *Sl_p_l, *Sl_m_l, d->options & XRTM_OPTION_SOURCE_SOLAR, d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0, derivs_layers, derivs_beam, derivs_thermal);
 
 
-- 
2.43.0


From 761d37fe91b54536a0903b1c2f7a75eee106e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 06/83] fix: clear the derivatives of the source of a non
 scattering layer

---
 src/xrtm_utility.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xrtm_utility.c b/src/xrtm_utility.c
index 5cd2e13..eb42051 100644
--- a/src/xrtm_utility.c
+++ b/src/xrtm_utility.c
@@ -1449,6 +1449,16 @@ void no_scatter_r_t_s(int n_quad, int n_derivs,
           }
      }
 
+     if (solar && flags_or(derivs_beam, n_derivs)) {
+          for (i = 0; i < n_derivs; ++i) {
+               if (! derivs_beam[i])
+                    continue;
+
+               dvec_zero(S_p_l[i], n_quad);
+               dvec_zero(S_m_l[i], n_quad);
+          }
+     }
+
      if (thermal && flags_or(derivs_thermal, n_derivs)) {
           for (i = 0; i < n_derivs; ++i) {
                if (! derivs_thermal[i])
-- 
2.43.0


From 1174e68a0af9c0862677ef3299994190bc2a755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 07/83] fix: do not return lambda or phi_0 when they were never
 set

---
 src/xrtm_interface.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 1f3fe0d..1cf2c86 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3030,7 +3030,10 @@ double xrtm_get_lambda(xrtm_data *d) {
           return XRTM_DBL_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_lambda, xrtm_input_index_to_name(INPUT_LAMBDA), XRTM_DBL_ERROR);
+     if (! d->set_flags_lambda) {
+          fprintf(stderr, "ERROR: can't get %s until it is set\n", xrtm_input_index_to_name(INPUT_LAMBDA));
+          return XRTM_DBL_ERROR;
+     }
 
      return d->lambda;
 }
@@ -3622,7 +3625,10 @@ double xrtm_get_phi_0(xrtm_data *d) {
           return XRTM_DBL_ERROR;
      }
 */
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_phi_0, xrtm_input_index_to_name(INPUT_PHI_0), XRTM_DBL_ERROR);
+     if (! d->set_flags_phi_0) {
+          fprintf(stderr, "ERROR: can't get %s until it is set\n", xrtm_input_index_to_name(INPUT_PHI_0));
+          return XRTM_DBL_ERROR;
+     }
 
      return d->phi_0;
 }
-- 
2.43.0


From cd0c9482c812aab0179573d27861027dcd7c361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 08/83] fix: do not change any output optical depth when
 xrtm_set_out_taus() fails

---
 src/xrtm_interface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 1cf2c86..1766363 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3237,9 +3237,10 @@ int xrtm_set_out_taus(xrtm_data *d, double *out_taus) {
                fprintf(stderr, "ERROR: invalid value for out_taus[%d]: %e, must be >= zero\n", i, out_taus[i]);
                return XRTM_INT_ERROR;
           }
+     }
 
+     for (i = 0; i < d->n_ulevels; ++i)
           d->utaus[i] = out_taus[i];
-     }
 
      d->set_flags_utaus = 1;
 
-- 
2.43.0


From fc97fbc766801696b350f44338262bc6adb4808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 09/83] fix: do not change any phase function coefficient when
 xrtm_set_coef_x() fails

---
 src/xrtm_interface.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 1766363..5204513 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -4057,6 +4057,15 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
           }
      }
 
+     for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
+          if ((n_coef_layer ? n_coef_layer[ii] : d->n_coef) > 1) {
+               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
+                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
+                    return -1;
+               }
+          }
+     }
+
      for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
           if (! n_coef_layer) {
                d->n_coef_layer [i] = d->n_coef;
@@ -4067,13 +4076,6 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                d->n_coef_layer2[i] = MIN(n_coef_layer[ii], d->n_coef2);
           }
 
-          if (d->n_coef_layer[i] > 1) {
-               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
-                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
-                    return -1;
-               }
-          }
-
           for (j = 0; j < d->n_elem; ++j) {
                for (k = 0; k < d->n_coef_layer[i]; ++k) {
                     d->coef0[i][j][k] = coef[ii][j][k];
-- 
2.43.0


From 958a28a54410e3d3c9be3ee00a77537029d8eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 10/83] fix: change nothing when the solar and output angles
 conflict

---
 src/xrtm_interface.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 5204513..7c77887 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2648,6 +2648,30 @@ static int solution_preprocess(xrtm_data *d) {
 /*******************************************************************************
  *
  ******************************************************************************/
+static int mu_0_singularity_conflict(xrtm_data *d, double mu_0_0, double *out_thetas) {
+
+     int i;
+     int n;
+
+     int count;
+
+     double mu;
+
+     n = out_thetas || d->set_flags_umus ? d->n_quad + d->n_umus : d->n_quad;
+
+     count = 0;
+     for (i = 0; i < n; ++i) {
+          mu = out_thetas && i >= d->n_quad ? cos(out_thetas[i - d->n_quad]*D2R) : d->qx[i];
+          if (fabs(singularity_adjust_auto(mu, mu_0_0,
+                   d->misc_input.threshold_mu_0_singlarity)) != mu_0_0)
+               count++;
+     }
+
+     return count > 1;
+}
+
+
+
 static int mu_0_singularity_adjust(xrtm_data *d) {
 
      int i;
@@ -3293,6 +3317,11 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
           }
      }
 
+     if (d->set_flags_mu_0 && mu_0_singularity_conflict(d, d->mu_0_0, out_thetas)) {
+          fprintf(stderr, "ERROR: mu_0 singularity adjustment conflict\n");
+          return XRTM_INT_ERROR;
+     }
+
      ii = d->n_quad;
      for (i = 0; i < d->n_umus; ++i) {
           d->qx[ii] = cos(out_thetas[i]*D2R);
@@ -3563,6 +3592,11 @@ int xrtm_set_theta_0(xrtm_data *d, double theta_0) {
           return XRTM_INT_ERROR;
      }
 
+     if (mu_0_singularity_conflict(d, cos(theta_0*D2R), NULL)) {
+          fprintf(stderr, "ERROR: mu_0 singularity adjustment conflict\n");
+          return XRTM_INT_ERROR;
+     }
+
      d->mu_0_0 = cos(theta_0*D2R);
 
      update_n_four2(d, 1, d->set_flags_umus);
-- 
2.43.0


From d5c068c3934540fab80736f08ed0364392d10a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 11/83] fix: update what depends on mu_0 when an adjustment is
 taken back

---
 src/xrtm_interface.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 7c77887..9a0dc8c 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2680,6 +2680,9 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
      int count;
 
      double a;
+     double mu_0;
+
+     mu_0 = d->mu_0;
 
      d->mu_0 = d->mu_0_0;
 
@@ -2699,7 +2702,7 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
           }
      }
 
-     if (count > 0)
+     if (count > 0 || d->mu_0 != mu_0)
           set_deps(d, DEP_MASK_MU_0, 0, d->n_layers);
 
      return 0;
-- 
2.43.0


From 157b15d8eece83883f103ad0edbc97cc70a58774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 12/83] fix: do not write the second basic matrix when there is
 one coefficient

---
 src/xrtm_scatter.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index f2d741f..79e3b83 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -634,9 +634,11 @@ void basic_matrix(int i_four, int n_coef, int n_stokes, double mu, double ***A)
           if (n_stokes >= 4)
                A[0][3][3] = 1.;
 
-          A[1][0][0] = mu;
-          if (n_stokes >= 4)
-               A[1][3][3] = mu;
+          if (n_coef >= 2) {
+               A[1][0][0] = mu;
+               if (n_stokes >= 4)
+                    A[1][3][3] = mu;
+          }
 
           if (n_coef >= 3) {
                leg_poly(3, mu, P);
-- 
2.43.0


From 54a37f4231e8f222e6be1018b1e124c2770e14f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:02 +0000
Subject: [PATCH 13/83] fix: clear single scattered radiances in the order in
 which they are stored

---
 src/xrtm_model.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 51f43c0..edd8e96 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4381,14 +4381,14 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
       *
       *-----------------------------------------------------------------------*/
 /*
-     init_array4_d(I_p, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
+     init_array4_d(I_p, d->n_ulevels, n_mus2, n_phis, d->n_stokes, 0.);
 */
-     init_array4_d(I_m, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
+     init_array4_d(I_m, d->n_ulevels, n_mus2, n_phis, d->n_stokes, 0.);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
-          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
+          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_mus2, n_phis, d->n_stokes, 0.);
 /*
-          init_array5_d(I_m_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
+          init_array5_d(I_m_l, d->n_ulevels, d->n_derivs, n_mus2, n_phis, d->n_stokes, 0.);
 */
      }
 
-- 
2.43.0


From 4d2d2ccba0933607e96ca6f53cbd1c9101a8a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 14/83] fix: pass the solar flux and number of angles to
 sfi_layer() in order

---
 src/xrtm_two_stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 504c6af..394385c 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -1715,9 +1715,9 @@ void sfi(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, doubl
                          I_u_l2 = I_u_l[i_out_level];
 
                     if (n_derivs == 0)
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
                     else
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
 
                     i_out_level += inc;
                }
-- 
2.43.0


From fb14acca2aecbea1e7818813c1b52092a358e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 15/83] fix: drop a stale second radiance calculation from the
 four stream solver

---
 src/xrtm_four_stream.c | 32 --------------------------------
 1 file changed, 32 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index f73d873..57ae481 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -925,38 +925,6 @@ if (n_umus == 0) {
 #endif
                }
           }
-
-          void calc_radiance_levels(int n_quad, int n_layers, int n_derivs,
-                                    int n_ulevels, int *ulevels,
-                                    double *ltau, double **ltau_l,
-                                    double *atran, double **atran_l,
-                                    double **nu, double ***X_p, double ***X_m,
-                                    double **F_p, double **F_m,
-                                    double **F0_p, double **F0_m, double **F1_p, double **F1_m,
-                                    double ***nu_l, double ****X_p_l, double ****X_m_l,
-                                    double ***F_p_l, double ***F_m_l,
-                                    double ***F0_p_l, double ***F0_m_l, double ***F1_p_l, double ***F1_m_l,
-                                    double *B, double **B_l,
-                                    double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
-                                    int thermal,
-                                    uchar **derivs_layers, uchar **derivs_beam,
-                                    save_tree_data save_tree, work_data work);
-
-          calc_radiance_levels(2, n_layers, 0,
-                               n_ulevels, ulevels,
-                               ltau, ltau_l,
-                               atran, atran_l,
-                               nu, X_p, X_m,
-                               F_p, F_m,
-                               NULL, NULL, NULL, NULL,
-                               NULL, NULL, NULL,
-                               NULL, NULL,
-                               NULL, NULL, NULL, NULL,
-                               b, NULL,
-                               I_p, I_m, I_p_l, I_m_l,
-                               0,
-                               NULL, NULL, save_tree, work);
-
      }
 
 
-- 
2.43.0


From 6f60dd4c1030d88334849ca3d64e2b258d00b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:54 +0000
Subject: [PATCH 16/83] fix: return XRTM_INT_ERROR from xrtm_check_solvers()
 for quad_lobatto

---
 src/xrtm_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 9a0dc8c..4a8a6d7 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -687,7 +687,7 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
 
      if (options & XRTM_OPTION_QUAD_LOBATTO) {
           if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_QUAD_LOBATTO), XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_EIG_BVP, XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_MEM_BVP, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SINGLE, XRTM_SOLVER_SIX_STREAM, XRTM_SOLVER_SOS, XRTM_SOLVER_TWO_OS, XRTM_SOLVER_TWO_STREAM, 0))
-               return -1;
+               return XRTM_INT_ERROR;
      }
 
      if (options & XRTM_OPTION_SFI) {
-- 
2.43.0


From 78a8d14f78db86fa74b63729e8865bd9f6452eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:48 +0000
Subject: [PATCH 17/83] fix: translate lists of names with the option "vector"

---
 misc/gindex_name_value.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index 4c064a9..c3f5a37 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -186,14 +186,14 @@ long name_list_to_mask(char *s, long *values, const char **names, int n, const c
      char *token;
      char *lasts;
 
-     int temp;
-     int mask;
+     long temp;
+     long mask;
 
      mask = 0;
 
      if ((token = strtok_r(s, ", \t", &lasts))) {
           do {
-               if ((temp = name_to_value(token, values, names, n, desc)) < 0) {
+               if ((temp = name_to_value(token, values, names, n, desc)) == -1) {
                     fprintf(stderr, "ERROR: name_to_value()\n");
                     return -1;
                }
@@ -233,7 +233,7 @@ long value_list_to_mask(long *values, int n_values) {
 
      int i;
 
-     int mask;
+     long mask;
 
      mask = 0;
      for (i = 0; i < n_values; ++i)
-- 
2.43.0


From b877d757be448b8a5a68f360c765526f0e237472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:48 +0000
Subject: [PATCH 18/83] fix: do not write past the end of lists that are too
 short

---
 misc/gindex_name_value.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index c3f5a37..16a2e42 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -108,11 +108,11 @@ int mask_to_index_list(long mask, long *values, int n_values, int *indexes, int
      ii = 0;
 
      for (i = 0; i < n_values; ++i) {
-          if (mask & values[i])
-               indexes[ii++] = i;
-
           if (ii >= length)
                return ii;
+
+          if (mask & values[i])
+               indexes[ii++] = i;
      }
 
      return ii;
@@ -167,14 +167,16 @@ char *mask_to_name_list(long mask, long *values, int n_values, const char **name
      flag = 0;
      for (i = 0; i < n_values; ++i) {
           if (mask & values[i]) {
-               if (flag)
+               if (flag && n < length)
                     n += snprintf(s + n, length - n, ",");
-               n += snprintf(s + n, length - n, "%s", names[i]);
+               if (n < length)
+                    n += snprintf(s + n, length - n, "%s", names[i]);
                flag = 1;
           }
      }
 
-     s[n] = '\0';
+     if (n < length)
+          s[n] = '\0';
 
      return s;
 }
@@ -217,11 +219,11 @@ int mask_to_value_list(long mask, long *values, int n_values, long *values2, int
      ii = 0;
 
      for (i = 0; i < n_values; ++i) {
-          if (mask & values[i])
-               values2[ii++] = values[i];
-
           if (ii >= length)
                return ii;
+
+          if (mask & values[i])
+               values2[ii++] = values[i];
      }
 
      return ii;
-- 
2.43.0


From 71f1e411e96b2d1a5e58e29c71b4d74392fb8aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:48 +0000
Subject: [PATCH 19/83] fix: name only the eigen solvers that are built

---
 src/xrtm_support.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_support.c b/src/xrtm_support.c
index 57f926a..841c426 100644
--- a/src/xrtm_support.c
+++ b/src/xrtm_support.c
@@ -17,8 +17,12 @@
  *
  ******************************************************************************/
 static const char *eigen_solver_gen_real_names[] = {
+#ifdef HAVE_FORTRAN_COMPILER
      "asymtx",
+#endif
+#ifdef HAVE_EISPACK_LIBRARY
      "eispack",
+#endif
      "lapack"
 };
 
@@ -40,7 +44,9 @@ GINDEX_NAME_VALUE_TEMPLATE(eigen_solver_gen_real, "eigen solver general real", N
 
 
 static const char *eigen_solver_gen_complex_names[] = {
+#ifdef HAVE_EISPACK_LIBRARY
      "eispack",
+#endif
      "lapack"
 };
 
-- 
2.43.0


From d3fb8a8e02cf1089c6dbf73267e79ada3d81780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 20/83] fix: update scaled output depths when omega changes

---
 src/xrtm_model.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index edd8e96..8a78711 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -189,7 +189,7 @@ void get_delta_m_f(xrtm_data *d, int i_layer, int i_deriv, int n_derivs, double
  ******************************************************************************/
 static int utaus_deps(xrtm_data *d) {
 
-     return DEP_MASK_UTAUS | DEP_MASK_LTAU | DEP_MASK_COEF;
+     return DEP_MASK_UTAUS | DEP_MASK_LTAU | DEP_MASK_COEF | DEP_MASK_OMEGA;
 }
 
 
@@ -234,7 +234,7 @@ static void update_utaus(xrtm_data *d, work_data work) {
      }
 
      if (d->options & XRTM_OPTION_DELTA_M &&
-         d->dep_flags_utaus & (DEP_MASK_UTAUS | DEP_MASK_LTAU | DEP_MASK_COEF)) {
+         d->dep_flags_utaus & (DEP_MASK_UTAUS | DEP_MASK_LTAU | DEP_MASK_COEF | DEP_MASK_OMEGA)) {
           a = 2. * d->n_coef2 + 1.;
 
           for (i = 0; i < d->n_ulevels; ++i) {
-- 
2.43.0


From c2fcba7a02f295180b9e6471632520b6abbb0d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 21/83] fix: update the beam below layers that were updated on
 their own

---
 src/xrtm_model.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 8a78711..b7af4c9 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -466,6 +466,10 @@ if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
                                         ltau[i-1] * as_0_l[i-1][j]) * atran[i-1];
                }
           }
+
+          /* the layer below is updated from what has just changed */
+          if (i == i_level2 && i < d->n_layers)
+               dep_flags[i] |= deps;
      }
 }
 }
-- 
2.43.0


From 1c0549be1e5916cdfc3ebd6b17c13af8874b4659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:05 +0000
Subject: [PATCH 22/83] fix: direct beam of mean radiance and flux at the
 output level asked for

---
 src/xrtm_model.c | 48 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index b7af4c9..d31e366 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6070,6 +6070,30 @@ static int apply_corrections_fourier(xrtm_data *d, int i_four, double **I_p, dou
 
 
 
+/*******************************************************************************
+ *
+ ******************************************************************************/
+static double direct_beam_transmission(xrtm_data *d, int i_ulevel, work_data work) {
+
+     int i;
+
+     if (! (d->options & XRTM_OPTION_SOURCE_SOLAR))
+          return 0.;
+
+     update_utaus(d, work);
+
+     update_beam_params_all(d, work);
+
+     i = d->ulevels[i_ulevel];
+
+     if (! (d->options & XRTM_OPTION_OUTPUT_AT_TAUS))
+          return d->btran[i];
+
+     return d->btran[i] * exp(-d->utaus2[i_ulevel] * d->as_0[i]);
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -6130,7 +6154,6 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
 
      int i;
      int j;
-     int jj;
      int k;
      int kk;
      int l;
@@ -6281,12 +6304,15 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_RADIANCE_MEAN   && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    b = direct_beam_transmission(d, j, work);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         mean_p[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
-                    if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         mean_m[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->btran[jj] / (4. * PI);
+                         mean_p[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_p[j]);
+                    if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT) {
+                         mean_m[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_m[j]);
+                         if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+                              mean_m[j] += d->F_0 * b / (4. * PI);
+                    }
                }
           }
 
@@ -6296,12 +6322,15 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_FLUX            && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    b = direct_beam_transmission(d, j, work);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         flux_p[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
-                    if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         flux_m[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->mu_0 * d->btran[jj];
+                         flux_p[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_p[j]);
+                    if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT) {
+                         flux_m[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_m[j]);
+                         if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+                              flux_m[j] += d->F_0 * d->mu_0 * b;
+                    }
                }
           }
 
@@ -6311,7 +6340,6 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_FLUX_DIVERGENCE && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
 
                }
           }
-- 
2.43.0


From bf5cd76ef3c896286c5f563d387c8d6a8b678491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:18 +0000
Subject: [PATCH 23/83] fix: no surface vectors for the solar beam without a
 solar source

---
 src/xrtm_model.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index d31e366..d1724f3 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5137,12 +5137,14 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
      }
 }
      if (surface) {
-          get_brdf_vecs_q0(d, i_four, Rs_q0, Rs_q0_l, work);
+          if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+               get_brdf_vecs_q0(d, i_four, Rs_q0, Rs_q0_l, work);
           get_brdf_mats_qq(d, i_four, Rs_qq, Rs_qq_l, work);
      }
 
      if (surface && d->options & XRTM_OPTION_SFI && d->n_umus > 0) {
-          get_brdf_vecs_u0(d, i_four, Rs_u0, Rs_u0_l, work);
+          if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+               get_brdf_vecs_u0(d, i_four, Rs_u0, Rs_u0_l, work);
           get_brdf_mats_uq(d, i_four, Rs_uq, Rs_uq_l, work);
      }
 
-- 
2.43.0


From 6482a7176e350bc80c3dac8c8e2b30d594a06b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:57 +0000
Subject: [PATCH 24/83] fix: saved layers and boundary values also depend on
 sources, d_tau, angles and, with psa, the layers above

---
 src/xrtm_interface.c |  7 +++++++
 src/xrtm_model.c     | 10 ++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 4a8a6d7..9b7a3f3 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -453,6 +453,13 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
                d->dep_flags_local_r_t_u_w    [i][j] |= dep;
                d->dep_flags_layer_R_T_S_U_W_V[i][j] |= dep;
           }
+
+          /* in a spherical atmosphere the beam in a layer depends on the
+             layers above */
+          if (d->options & XRTM_OPTION_PSA) {
+               for (j = n_layers; j < d->n_layers; ++j)
+                    d->dep_flags_layer_R_T_S_U_W_V[i][j] |= dep;
+          }
      }
 }
 
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index d1724f3..4b3e4a1 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2095,7 +2095,11 @@ static void call_solver
 static int layer_R_T_S_U_W_V_deps(xrtm_data *d) {
 
      int deps = opt_props_deps(d) | beam_params_deps(d) | phase_vecs_deps_q0(d) |
-                local_r_t_u_w_deps(d);
+                local_r_t_u_w_deps(d) | DEP_MASK_INIT | DEP_MASK_F_0 |
+                DEP_MASK_LEVELS_B | DEP_MASK_LEVELS_B_L;
+
+     if (d->solvers & XRTM_SOLVER_DOUB_ADD)
+          deps |= DEP_MASK_DOUB_D_TAU;
 
      if (d->solvers & XRTM_SOLVER_PADE_ADD)
           deps |= DEP_MASK_PADE_PARAMS;
@@ -4177,7 +4181,9 @@ if (d->derivs.layers[d->n_layers][i]) {
 static int diff_bound_input_deps(xrtm_data *d) {
 
      return opt_props_deps(d) | beam_params_deps(d) |
-            DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_BOT | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
+            DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_TOP_L | DEP_MASK_F_ISO_BOT | DEP_MASK_F_ISO_BOT_L |
+            DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_UMUS |
+            DEP_MASK_SURFACE_B | DEP_MASK_SURFACE_B_L | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
 }
 
 
-- 
2.43.0


From 10db623051874494eeea0528cf2fc2cbc8de2fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:00 +0000
Subject: [PATCH 25/83] fix: saved values are recalculated after
 xrtm_update_varied_layers()

---
 src/xrtm_interface.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 9b7a3f3..f23eaaa 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5538,6 +5538,13 @@ int xrtm_update_varied_layers(xrtm_data *d) {
 
      d->varied_layers_updated = 0;
 
+
+     /*-------------------------------------------------------------------------
+      * What was saved was linearized for the previous pattern.
+      *-----------------------------------------------------------------------*/
+     set_deps(d, DEP_MASK_MASK, 0, d->n_layers);
+
+
      return 0;
 }
 
-- 
2.43.0


From a33c8c674dd9e44b3d586ab3a667a2c9a447b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:22 +0000
Subject: [PATCH 26/83] fix: what an adding solver saved is not used by another
 one

---
 src/xrtm_interface.c |  2 ++
 src/xrtm_interface.h |  2 ++
 src/xrtm_model.c     | 11 +++++++++++
 3 files changed, 15 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index f23eaaa..29c8f6e 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -1741,6 +1741,8 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
      d->inputs_initialized = 1;
      d->varied_layers_updated = 1;
 
+     d->solver_R_T_S_U_W_V = 0;
+
 
      /*-------------------------------------------------------------------------
       *
diff --git a/src/xrtm_interface.h b/src/xrtm_interface.h
index 24f59f2..3500978 100644
--- a/src/xrtm_interface.h
+++ b/src/xrtm_interface.h
@@ -285,6 +285,8 @@ typedef struct {
      int **dep_flags_local_r_t_u_w;
      int **dep_flags_layer_R_T_S_U_W_V;
 
+     int solver_R_T_S_U_W_V;
+
      double qf;
 
      double c_p;
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 4b3e4a1..d782425 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5430,6 +5430,17 @@ static int get_fourier(xrtm_data *d, int i_four, int solver, double **I_p, doubl
       *
       *-----------------------------------------------------------------------*/
      if (solver & XRTM_SOLVERS_ADDING) {
+          /* what was saved for another solver is of no use to this one */
+          if (d->solver_R_T_S_U_W_V != solver) {
+               for (i = 0; i < d->n_four; ++i) {
+                    d->dep_flags_total_R_T_S_U_W_V[i] |= DEP_MASK_INIT;
+                    for (j = 0; j < d->n_layers; ++j)
+                         d->dep_flags_layer_R_T_S_U_W_V[i][j] |= DEP_MASK_INIT;
+               }
+
+               d->solver_R_T_S_U_W_V = solver;
+          }
+
           if (d->options & XRTM_OPTION_TOP_DOWN_ADDING) {
                if (fourier_get_add_top_down(d, i_four, solver, I_p, I_m, I_p_l, I_m_l, save_tree, work)) {
                     fprintf(stderr, "ERROR: fourier_get_add_top_down()\n");
-- 
2.43.0


From bf31550d44bf549749abf9c5a1a8f94ee22b8a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 27/83] fix: linearize every brdf kernel with respect to its
 parameters

---
 src/xrtm_brdf.c | 159 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 156 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_brdf.c b/src/xrtm_brdf.c
index 6e5fe1d..d64840a 100644
--- a/src/xrtm_brdf.c
+++ b/src/xrtm_brdf.c
@@ -286,6 +286,26 @@ typedef union {
 
 
 
+/*******************************************************************************
+ * Linearize a kernel from its derivatives with respect to its parameters.
+ ******************************************************************************/
+static void kernel_l(int n_params, double *f_p, int n_derivs, uchar *derivs, double **p_l, double *f_l) {
+
+     int i;
+     int j;
+
+     for (i = 0; i < n_derivs; ++i) {
+          if (! derivs[i])
+               continue;
+
+          f_l[i] = 0.;
+          for (j = 0; j < n_params; ++j)
+               f_l[i] += f_p[j] * p_l[i][j];
+     }
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -394,6 +414,9 @@ static double roujean_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrt
 
      if (phi < 0.) a = -1.;
 
+     if (flags_or(derivs, n_derivs))
+          kernel_l(0, NULL, n_derivs, derivs, p_l, f_l);
+
      delta = (aux2->roujean.a + sqrt(aux2->roujean.b - aux2->roujean.c * aux->cos_phi[k])) / PI;
 
      return ((PI - a * phi) * aux->cos_phi[k] + aux->sin_phi[k]) * aux2->roujean.d - delta;
@@ -436,7 +459,7 @@ static void li_aux(brdf_aux_data *aux, kernel_aux_data *aux2, int i, int j, int
 
 
 
-static void li_common(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_geometry brdf_geom, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *p_, double *q) {
+static void li_common(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_geometry brdf_geom, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *p_, double *q, double *r_p, double *p_p, double *q_p) {
 
      /* Wanner 1995, Spurr 2004 (contains a typo in eq for d(x)) */
 
@@ -445,6 +468,14 @@ static void li_common(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_
      double h;
      double cos_t;
 
+     double a;
+     double b;
+     double cos_i_l;
+     double cos_r_l;
+     double sin_i_l;
+     double sin_r_l;
+     double h_l;
+
      cos_ksi_p = aux2->li.a + aux2->li.b * aux->cos_phi[k];
 
     *p_        = (1. + cos_ksi_p) / aux2->li.cos_theta_r_p;
@@ -459,6 +490,41 @@ static void li_common(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_
           *q = 1.;
      else
           *q = 1. - (acos(cos_t) - sqrt(1. - cos_t * cos_t) * cos_t) / PI ;
+
+     if (flags_or(derivs, n_derivs)) {
+          a       = aux2->li.cos_theta_i_p * aux2->li.cos_theta_i_p * aux->tan_theta[i];
+          b       = aux2->li.cos_theta_r_p * aux2->li.cos_theta_r_p * aux->tan_theta[j];
+
+          cos_i_l = -a * aux2->li.sin_theta_i_p;
+          cos_r_l = -b * aux2->li.sin_theta_r_p;
+          sin_i_l =  a * aux2->li.cos_theta_i_p;
+          sin_r_l =  b * aux2->li.cos_theta_r_p;
+
+          a       = cos_i_l * aux2->li.cos_theta_r_p + aux2->li.cos_theta_i_p * cos_r_l +
+                   (sin_i_l * aux2->li.sin_theta_r_p + aux2->li.sin_theta_i_p * sin_r_l) * aux->cos_phi[k];
+
+          p_p[0]  = (a - *p_ * cos_r_l) / aux2->li.cos_theta_r_p;
+          p_p[1]  = 0.;
+
+          r_p[0]  = -cos_i_l / (aux2->li.cos_theta_i_p * aux2->li.cos_theta_i_p) -
+                     cos_r_l / (aux2->li.cos_theta_r_p * aux2->li.cos_theta_r_p);
+          r_p[1]  = 0.;
+
+          if (h == 0.)
+               h_l = 0.;
+          else
+               h_l = (d * d + 2. * aux2->li.e * aux->sin_phi2[k]) / (p[0] * h);
+
+          if (cos_t > 1.) {
+               q_p[0] = 0.;
+               q_p[1] = 0.;
+          }
+          else {
+               a      = 2. * sqrt(1. - cos_t * cos_t) / PI;
+               q_p[0] = a * (p[1] * h_l - cos_t * r_p[0]) / aux2->li.r;
+               q_p[1] = a * h / aux2->li.r;
+          }
+     }
 }
 
 
@@ -468,10 +534,23 @@ static double li_sparse_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum x
 
      /* Wanner 1995, Spurr 2004 (contains a typo) */
 
+     int ii;
+
      double p_;
      double q;
+     double r_p[2];
+     double p_p[2];
+     double q_p[2];
+     double f_p[2];
 
-     li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q);
+     li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q, r_p, p_p, q_p);
+
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < 2; ++ii)
+               f_p[ii] = .5 * p_p[ii] - (q_p[ii] * aux2->li.r + q * r_p[ii]);
+
+          kernel_l(2, f_p, n_derivs, derivs, p_l, f_l);
+     }
 
      return .5 * p_ - q * aux2->li.r;
 }
@@ -482,10 +561,27 @@ static double li_dense_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xr
 
      /* Wanner 1995, Spurr 2004 (contains a typo) */
 
+     int ii;
+
+     double a;
+
      double p_;
      double q;
+     double r_p[2];
+     double p_p[2];
+     double q_p[2];
+     double f_p[2];
+
+     li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q, r_p, p_p, q_p);
+
+     if (flags_or(derivs, n_derivs)) {
+          a = q * aux2->li.r;
 
-     li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q);
+          for (ii = 0; ii < 2; ++ii)
+               f_p[ii] = (p_p[ii] - p_ * (q_p[ii] * aux2->li.r + q * r_p[ii]) / a) / a;
+
+          kernel_l(2, f_p, n_derivs, derivs, p_l, f_l);
+     }
 
      return p_ / (q * aux2->li.r) - 2.;
 }
@@ -515,6 +611,9 @@ static double ross_thin_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum x
 
      ksi     = acos(cos_ksi);
 
+     if (flags_or(derivs, n_derivs))
+          kernel_l(0, NULL, n_derivs, derivs, p_l, f_l);
+
      return ((PI / 2. - ksi) * cos_ksi + sin(ksi)) / aux2->ross.a - PI / 2.;
 }
 
@@ -531,6 +630,9 @@ static double ross_thick_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum
 
      ksi         = acos(cos_ksi);
 
+     if (flags_or(derivs, n_derivs))
+          kernel_l(0, NULL, n_derivs, derivs, p_l, f_l);
+
      return ((PI / 2. - ksi) * cos_ksi + sin(ksi)) / aux2->ross.c - PI / 4.;
 }
 
@@ -575,6 +677,11 @@ static double hapke_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_
      double P;
      double B;
 
+     double a;
+     double b;
+     double gamma;
+     double f_p[3];
+
      cos_ksi = aux2->hapke.a + aux2->hapke.b * aux->cos_phi[k];
 
      P       = 1. + .5 * cos_ksi;
@@ -583,6 +690,24 @@ static double hapke_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_
 
      B       = aux2->hapke.c / (p[2] + tan(ksi / 2.));
 
+     if (flags_or(derivs, n_derivs)) {
+          gamma  = sqrt(1. - p[0]);
+
+          a      = 2. * aux->cos_theta[i];
+          b      = 2. * aux->cos_theta[j];
+
+          f_p[0] = ((1. + B) * P + aux2->hapke.d - 1.) / ((aux->cos_theta[i] + aux->cos_theta[j]) * 4.) +
+                   aux2->hapke.R_ir * aux2->hapke.d * (a / (1. + a * gamma) + b / (1. + b * gamma)) / (2. * gamma);
+
+          a      = tan(ksi / 2.);
+          b      = p[2] + a;
+
+          f_p[1] = aux2->hapke.R_ir * P * p[2] / b;
+          f_p[2] = aux2->hapke.R_ir * P * p[1] * a / (b * b);
+
+          kernel_l(3, f_p, n_derivs, derivs, p_l, f_l);
+     }
+
      return aux2->hapke.R_ir * ((1. + B) * P + aux2->hapke.d - 1.);
 }
 
@@ -619,6 +744,10 @@ static double rahman_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm
      double delta;
      double R;
 
+     double a;
+     double b;
+     double f_p[3];
+
      cos_ksi     = aux2->rahman.a + aux2->rahman.b * aux->cos_phi[k];
 
      P           = (1. - aux2->rahman.gamma1_2) / pow((1. + aux2->rahman.gamma1_2 + aux2->rahman.c * cos_ksi), 1.5);
@@ -627,6 +756,17 @@ static double rahman_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm
 
      R           = (1. - p[0]) / (1. + delta);
 
+     if (flags_or(derivs, n_derivs)) {
+          a      = 1. + aux2->rahman.gamma1_2 + aux2->rahman.c * cos_ksi;
+          b      = pow(aux2->rahman.g, p[2] - 1.);
+
+          f_p[0] = P * (1. + R - p[0] / (1. + delta)) * b;
+          f_p[1] = p[0] * (1. + R) * b * (-2. * p[1] / pow(a, 1.5) - P * 3. * (p[1] + cos_ksi) / a);
+          f_p[2] = p[0] * P * (1. + R) * b * log(aux2->rahman.g);
+
+          kernel_l(3, f_p, n_derivs, derivs, p_l, f_l);
+     }
+
      return p[0] * P * (1. + R) * pow(aux2->rahman.g, p[2] - 1.);
 }
 
@@ -663,6 +803,9 @@ static double cox_munk_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xr
      double tau;
      double P;
 
+     double b;
+     double f_p[2];
+
      cos_ksi     = aux2->cox_munk.a + aux2->cox_munk.b *  aux->cos_phi[k];
 /*
      cos_ksi     = aux2->cox_munk.a + aux2->cox_munk.b * -aux->cos_phi[k];
@@ -687,6 +830,16 @@ static double cox_munk_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xr
 /*
      P           = 1. / (aux2->cox_munk.d * gamma2*gamma2) * exp(-tau*tau / p[0]);
 */
+     if (flags_or(derivs, n_derivs)) {
+          f_p[0] = R * P * (tau*tau / p[0] - 1.) / p[0];
+
+          b      = 1. / (2. * c);
+          f_p[1] = P * (r_p *  2. * (lambda * c - a * b) / ((a + c) * (a + c)) +
+                        r_m * -2. *  lambda * b          / ((lambda + c) * (lambda + c)));
+
+          kernel_l(2, f_p, n_derivs, derivs, p_l, f_l);
+     }
+
      return R * P;
 }
 
-- 
2.43.0


From 434f0954d748504f7bc3099f4785f399845a571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:39 +0000
Subject: [PATCH 28/83] fix: the boundary inputs are needed although two_stream
 is among the solvers

---
 src/xrtm_model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index d782425..19256f6 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5134,7 +5134,7 @@ if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
           }
      }
 }
-if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
+if (! (solver & XRTM_SOLVER_TWO_STREAM)) {
      update_diff_bound_input(d, i_four, save_tree, work);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
-- 
2.43.0


From 9897f604759d7e34b90da8992456fe4d67c3bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:39 +0000
Subject: [PATCH 29/83] fix: the derivative of the thermal emission of the
 surface takes the emissivity of each angle

---
 src/xrtm_model.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 19256f6..0dff2e6 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4134,10 +4134,16 @@ if (i_four == 0) {
 
                     if (d->derivs.layers[d->n_layers][i]) {
 */
-                         c = d->surface_b_l[i] * (1. - a);
-
                          jj = 0;
                          for (j = 0; j < d->n_quad_x; ++j) {
+                              a  = 0.;
+                              kk = 0;
+                              for (k = 0; k < d->n_quad_x; ++k) {
+                                   a  += Rs_qq[jj][kk];
+                                   kk += d->n_stokes;
+                              }
+                              c = d->surface_b_l[i] * (1. - a);
+
                               e  = 0.;
                               kk = 0;
 if (d->derivs.layers[d->n_layers][i]) {
@@ -4151,10 +4157,16 @@ if (d->derivs.layers[d->n_layers][i]) {
                               jj += d->n_stokes;
                          }
 
-                         c = d->surface_b_l[i] * (1. - b);
-
                          jjj = jj; jj = 0;
                          for ( ; j < d->n_quad + d->n_umus; ++j) {
+                              b  = 0.;
+                              kk = 0;
+                              for (k = 0; k < d->n_quad_x; ++k) {
+                                   b  += Rs_uq[jj][kk];
+                                   kk += d->n_stokes;
+                              }
+                              c = d->surface_b_l[i] * (1. - b);
+
                               e  = 0.;
                               kk = 0;
 if (d->derivs.layers[d->n_layers][i]) {
-- 
2.43.0


From 76e8af32e12dc6d4735b5f0e2fc0eb049d9964e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:39 +0000
Subject: [PATCH 30/83] fix: derivatives of adding solvers for source only
 perturbations and isotropic illumination from below

---
 src/xrtm_adding.c   |   8 ++
 src/xrtm_model.c    |  20 +--
 src/xrtm_radiance.c | 299 ++++++--------------------------------------
 3 files changed, 54 insertions(+), 273 deletions(-)

diff --git a/src/xrtm_adding.c b/src/xrtm_adding.c
index c99ea4c..490d26d 100644
--- a/src/xrtm_adding.c
+++ b/src/xrtm_adding.c
@@ -1522,6 +1522,9 @@ void layer_add_all(double **R12, double **T12, double *S12,
           if (derivs[i] == ADDING_U_S)
                add_all_u_s_up(AXX, R23, S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U)
+               add_all_s_u_up(AXX, R23, S12_l[i], S21_l[i], S31_l[i], n, atran, v1, v2);
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R23, S12_l[i], S21_l[i], S23_l[i], S32_l[i], S31_l[i], n, atran, v1, v2);
           else
@@ -1621,6 +1624,11 @@ if (flag) {
           if (derivs[i] == ADDING_U_S)
                add_all_s_u_up(AXX, R21, S32_l[i], S23_l[i], S13_l[i], n, atran, v1, v2);
           else
+          if (derivs[i] == ADDING_S_U) {
+               dm_v_mul(AXX, S12_l[i], n, n, v1);
+               dvec_copy(S13_l[i], v1, n);
+          }
+          else
           if (derivs[i] == ADDING_S_S)
                add_all_s_s_up(AXX, R21, S32_l[i], S23_l[i], S21_l[i], S12_l[i], S13_l[i], n, atran, v1, v2);
 
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 0dff2e6..f4b5bab 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4608,17 +4608,19 @@ static int fourier_get_add_top_down(xrtm_data *d, int i_four, int solver, double
       *
       *-----------------------------------------------------------------------*/
      if (! surface) {
-          init_array1_d(I_p[0], d->n_quad_v_x, 0.);
-          copy_array1_d(I_m[0], S_m, d->n_quad_v_x);
+          if (d->options & XRTM_OPTION_CALC_DERIVS) {
+               I_m_l1 = I_m_l[0];
+
+               derivs_adding_down = d->derivs.adding_down[d->n_layers - 1];
+          }
+
+          radiance_toa_ref(d->n_quad_v_x, d->n_derivs, R_p, S_m, R_p_l, S_m_l, d->In_p[i_four], In_p_l, I_m[0], I_m_l1, derivs_adding_down, work);
+
+          dvec_copy(I_p[0], d->In_p[i_four], d->n_quad_v_x);
 
           if (d->options & XRTM_OPTION_CALC_DERIVS) {
-               for (i = 0; i < d->n_derivs; ++i) {
-                    init_array1_d(I_p_l[0][i], d->n_quad_v_x, 0.);
-                    if (! (d->derivs.adding_down[d->n_layers][i] & DERIV_TOP_S))
-                         init_array1_d(I_m_l[0][i], d->n_quad_v_x, 0.);
-                    else
-                         copy_array1_d(I_m_l[0][i], S_m_l[i], d->n_quad_v_x);
-               }
+               for (i = 0; i < d->n_derivs; ++i)
+                    dvec_copy(I_p_l[0][i], In_p_l[i], d->n_quad_v_x);
           }
      }
      else {
diff --git a/src/xrtm_radiance.c b/src/xrtm_radiance.c
index 72041c3..de5029e 100644
--- a/src/xrtm_radiance.c
+++ b/src/xrtm_radiance.c
@@ -161,8 +161,6 @@ void radiance_boa_ref(int n_quad, int n_derivs,
      double *v2;
 
      double **w1;
-     double **w2;
-     double **w3;
 
      i1 = get_work1(&work, WORK_IX);
 
@@ -185,120 +183,28 @@ void radiance_boa_ref(int n_quad, int n_derivs,
 /*
      if (flags_or(derivs, n_derivs)) {
 */
-          w2 = get_work1(&work, WORK_DXX);
-          w3 = get_work1(&work, WORK_DXX);
-
           for (i = 0; i < n_derivs; ++i) {
-               if (derivs[i] == ADDING_U_U) {
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, I2_m_l[i]);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+               dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, I2_m_l[i]);
 
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
+               if (derivs[i] & DERIV_TOP_L) {
+                    dm_v_mul(R12_p_l[i], I2_p, n_quad, n_quad, v1);
+                    dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
                }
-               else
-               if (derivs[i] == ADDING_U_L || derivs[i] == ADDING_U_B) {
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
+               if (derivs[i] & DERIV_TOP_S)
+                    dvec_add(I2_m_l[i], S12_m_l[i], I2_m_l[i], n_quad);
+               if (derivs[i] & DERIV_BOTTOM_L) {
+                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v2);
+                    dm_v_mul(R12_p, v2, n_quad, n_quad, v1);
+                    dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
                }
-               else
-               if (derivs[i] == ADDING_L_U) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
 
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
+               dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+               dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+               dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
 
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_L_L) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
-                    dmat_add(w2, w3, w2,  n_quad, n_quad);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_B_U || derivs[i] == ADDING_B_S) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_B_L || derivs[i] == ADDING_B_B) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
-                    dmat_add(w2, w3, w2,  n_quad, n_quad);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-#ifdef DEBUG
-               else {
-                    fprintf(stderr, "ERROR: radiance_boa_ref(), invalid adding combination: %d\n", derivs[i]);
-                    exit(1);
-               }
-#endif
+               if (derivs[i] & DERIV_BOTTOM_L)
+                    dvec_add(I2_p_l[i], v2, I2_p_l[i], n_quad);
           }
 /*
      }
@@ -348,8 +254,6 @@ void radiance_boa_all(int n_quad, int n_derivs,
      double *v2;
 
      double **w1;
-     double **w2;
-     double **w3;
 
      forward_save_radiance_boa_all_data *save;
 
@@ -401,165 +305,32 @@ void radiance_boa_all(int n_quad, int n_derivs,
 /*
      if (flags_or(derivs, n_derivs)) {
 */
-          w2 = get_work1(&work, WORK_DXX);
-          w3 = get_work1(&work, WORK_DXX);
-
           for (i = 0; i < n_derivs; ++i) {
-               if (derivs[i] == ADDING_U_U || derivs[i] == ADDING_U_S) {
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v1);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_U_L || derivs[i] == ADDING_U_B) {
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_S_U) {
-/*
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-*/
-                    dvec_copy(I2_m_l[i], S12_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-               }
-               else
-               if (derivs[i] == ADDING_L_U) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
+               dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, I2_m_l[i]);
+               dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v1);
+               dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
+
+               if (derivs[i] & DERIV_TOP_L) {
+                    dm_v_mul(R12_p_l[i], I2_p, n_quad, n_quad, v1);
+                    dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
+                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v1);
+                    dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
                }
-               else
-               if (derivs[i] == ADDING_L_L) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
-                    dmat_add(w2, w3, w2,  n_quad, n_quad);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
+               if (derivs[i] & DERIV_TOP_S)
+                    dvec_add(I2_m_l[i], S12_m_l[i], I2_m_l[i], n_quad);
+               if (derivs[i] & DERIV_BOTTOM_L) {
+                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v2);
+                    dm_v_mul(R12_p, v2, n_quad, n_quad, v1);
+                    dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
                }
-               else
-               if (derivs[i] == ADDING_B_U || derivs[i] == ADDING_B_S) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
 
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
+               dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+               dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+               dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
 
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_B_L || derivs[i] == ADDING_B_B) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
-                    dmat_add(w2, w3, w2,  n_quad, n_quad);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-#ifdef DEBUG
-               else {
-                    fprintf(stderr, "ERROR: radiance_boa_all(), invalid adding combination: %d\n", derivs[i]);
-                    exit(1);
-               }
-#endif
+               if (derivs[i] & DERIV_BOTTOM_L)
+                    dvec_add(I2_p_l[i], v2, I2_p_l[i], n_quad);
           }
 /*
      }
-- 
2.43.0


From 121009f0662a760e88483c5b1049357d02d5a617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:48 +0000
Subject: [PATCH 31/83] fix: eig_bvp with sfi calculates the radiances that
 mean radiance and flux are made of

---
 src/xrtm_eig_bvp.c | 124 ++++++++++++++++++++++-----------------------
 1 file changed, 60 insertions(+), 64 deletions(-)

diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 92aab4f..2b3fda6 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -658,38 +658,36 @@ else {
                      derivs->layers, derivs->beam, derivs->thermal,
                      save_tree, work);
 
-          if (! sfi) {
-               if (! utau_output)
-                    calc_radiance_levels(n_quad_v_x, n_layers, n_derivs,
-                                         n_ulevels, ulevels,
-                                         ltau, ltau_l,
-                                         atran2, atran2_l,
-                                         nu, X_p, X_m,
-                                         Fs_p, Fs_m, Fs1_p, Fs1_m,
-                                         Ft0_p, Ft0_m, Ft1_p, Ft1_m,
-                                         nu_l, X_p_l, X_m_l,
-                                         Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
-                                         Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
-                                         B, B_l,
-                                         I_p, I_m, I_p_l, I_m_l,
-                                         solar, thermal,
-                                         derivs->layers, derivs->beam, derivs->thermal,
-                                         save_tree, work);
-               else
-                    calc_radiance_taus  (n_quad_v_x, n_layers, n_derivs,
-                                         n_ulevels, ulevels, utaus,
-                                         ltau, ltau_l,
-                                         as_0, as_0_l, atran2, atran2_l,
-                                         nu, X_p, X_m,
-                                         Fs_p, Fs_m,
-                                         nu_l, X_p_l, X_m_l,
-                                         Fs_p_l, Fs_m_l,
-                                         B, B_l,
-                                         I_p, I_m, I_p_l, I_m_l,
-                                         solar, thermal,
-                                         derivs->layers, derivs->beam, derivs->thermal,
-                                         save_tree, work);
-          }
+          if (! utau_output)
+               calc_radiance_levels(n_quad_v_x, n_layers, n_derivs,
+                                    n_ulevels, ulevels,
+                                    ltau, ltau_l,
+                                    atran2, atran2_l,
+                                    nu, X_p, X_m,
+                                    Fs_p, Fs_m, Fs1_p, Fs1_m,
+                                    Ft0_p, Ft0_m, Ft1_p, Ft1_m,
+                                    nu_l, X_p_l, X_m_l,
+                                    Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
+                                    Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
+                                    B, B_l,
+                                    I_p, I_m, I_p_l, I_m_l,
+                                    solar, thermal,
+                                    derivs->layers, derivs->beam, derivs->thermal,
+                                    save_tree, work);
+          else
+               calc_radiance_taus  (n_quad_v_x, n_layers, n_derivs,
+                                    n_ulevels, ulevels, utaus,
+                                    ltau, ltau_l,
+                                    as_0, as_0_l, atran2, atran2_l,
+                                    nu, X_p, X_m,
+                                    Fs_p, Fs_m,
+                                    nu_l, X_p_l, X_m_l,
+                                    Fs_p_l, Fs_m_l,
+                                    B, B_l,
+                                    I_p, I_m, I_p_l, I_m_l,
+                                    solar, thermal,
+                                    derivs->layers, derivs->beam, derivs->thermal,
+                                    save_tree, work);
      }
      else {
           solve_bvp2(n_quad_x, n_stokes, n_derivs, n_layers,
@@ -710,38 +708,36 @@ else {
                      derivs->layers, derivs->beam, derivs->thermal,
                      save_tree, work);
 
-          if (! sfi) {
-               if (! utau_output)
-                    calc_radiance_levels2(n_quad_v_x, n_layers, n_derivs,
-                                          n_ulevels, ulevels,
-                                          ltau, ltau_l,
-                                          atran2, atran2_l,
-                                          nu_c, X_p_c, X_m_c,
-                                          Fs_p, Fs_m, Fs1_p, Fs1_m,
-                                          Ft0_p, Ft0_m, Ft1_p, Ft1_m,
-                                          nu_l_c, X_p_l_c, X_m_l_c,
-                                          Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
-                                          Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
-                                          B_c, B_l_c,
-                                          I_p, I_m, I_p_l, I_m_l,
-                                          solar, thermal,
-                                          derivs->layers, derivs->beam, derivs->thermal,
-                                          save_tree, work);
-               else
-                    calc_radiance_taus2  (n_quad_v_x, n_layers, n_derivs,
-                                          n_ulevels, ulevels, utaus,
-                                          ltau, ltau_l,
-                                          as_0, as_0_l, atran2, atran2_l,
-                                          nu_c, X_p_c, X_m_c,
-                                          Fs_p, Fs_m,
-                                          nu_l_c, X_p_l_c, X_m_l_c,
-                                          Fs_p_l, Fs_m_l,
-                                          B_c, B_l_c,
-                                          I_p, I_m, I_p_l, I_m_l,
-                                          solar, thermal,
-                                          derivs->layers, derivs->beam, derivs->thermal,
-                                          save_tree, work);
-               }
+          if (! utau_output)
+               calc_radiance_levels2(n_quad_v_x, n_layers, n_derivs,
+                                     n_ulevels, ulevels,
+                                     ltau, ltau_l,
+                                     atran2, atran2_l,
+                                     nu_c, X_p_c, X_m_c,
+                                     Fs_p, Fs_m, Fs1_p, Fs1_m,
+                                     Ft0_p, Ft0_m, Ft1_p, Ft1_m,
+                                     nu_l_c, X_p_l_c, X_m_l_c,
+                                     Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
+                                     Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
+                                     B_c, B_l_c,
+                                     I_p, I_m, I_p_l, I_m_l,
+                                     solar, thermal,
+                                     derivs->layers, derivs->beam, derivs->thermal,
+                                     save_tree, work);
+          else
+               calc_radiance_taus2  (n_quad_v_x, n_layers, n_derivs,
+                                     n_ulevels, ulevels, utaus,
+                                     ltau, ltau_l,
+                                     as_0, as_0_l, atran2, atran2_l,
+                                     nu_c, X_p_c, X_m_c,
+                                     Fs_p, Fs_m,
+                                     nu_l_c, X_p_l_c, X_m_l_c,
+                                     Fs_p_l, Fs_m_l,
+                                     B_c, B_l_c,
+                                     I_p, I_m, I_p_l, I_m_l,
+                                     solar, thermal,
+                                     derivs->layers, derivs->beam, derivs->thermal,
+                                     save_tree, work);
      }
 
 
-- 
2.43.0


From 6ad0684fc681e49830cc0286b694684e205fb815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:19 +0000
Subject: [PATCH 32/83] fix: coefficients beyond those that are set for a layer
 are zero

---
 src/xrtm_interface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 29c8f6e..a756422 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -4126,6 +4126,9 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                for (k = 0; k < d->n_coef_layer[i]; ++k) {
                     d->coef0[i][j][k] = coef[ii][j][k];
                }
+               for (     ; k < d->n_coef; ++k) {
+                    d->coef0[i][j][k] = 0.;
+               }
           }
 
           if (d->inputs_initialized)
@@ -4268,6 +4271,9 @@ static int xrtm_set_coef_x_l(xrtm_data *d, void *coef_l, int i_layer, int n_laye
 
                          d->coef0_l[i][j][k][l] = a;
                     }
+                    for (     ; l < d->n_coef; ++l) {
+                         d->coef0_l[i][j][k][l] = 0.;
+                    }
                }
           }
      }
-- 
2.43.0


From 29e1c853c634bb4241257a98f8530fdbd03af3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:26 +0000
Subject: [PATCH 33/83] fix: sfi with Green's functions does not need a solar
 source

---
 src/xrtm_sfi_x.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 592c4ea..6a069b3 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -1055,8 +1055,8 @@ static void SFI(int i_four,
                     while (i_out_level >= 0 && i_out_level < n_ulevels && i == ulevels[i_out_level]) {
                          ptau = utaus[i_out_level];
 
-                         P_q0_mm2 = P_q0_mm[i];
-                         P_q0_pm2 = P_q0_pm[i];
+                         P_q0_mm2 = solar ? P_q0_mm[i] : NULL;
+                         P_q0_pm2 = solar ? P_q0_pm[i] : NULL;
 
                          offset2 = offset;
 
@@ -1075,8 +1075,8 @@ static void SFI(int i_four,
                else
                     ptau = ltau[i];
 
-               P_q0_mm2 = P_q0_mm[i];
-               P_q0_pm2 = P_q0_pm[i];
+               P_q0_mm2 = solar ? P_q0_mm[i] : NULL;
+               P_q0_pm2 = solar ? P_q0_pm[i] : NULL;
 
                offset2 = 0;
 
-- 
2.43.0


From edca9156bcc86bf47dfcf330b7d440e463a4ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:59 +0000
Subject: [PATCH 34/83] fix: six_stream with a layer that does not scatter

---
 src/xrtm_six_stream.c | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 802e099..13b149b 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -637,17 +637,39 @@ if (n_derivs > 0) {
 /*
           cubic_roots_cardano(1., bb, cc, dd, &evals[0], &evals[1], &evals[2]);
 */
-          evecs[0][0] = 1.;
-          evecs[0][1] = (gamma[1][2] * gamma[0][1] - gamma[0][2] * (gamma[1][1] - evals[1])) / (gamma[0][2] * gamma[1][0] - gamma[1][2] * (gamma[0][0] - evals[1]));
-          evecs[0][2] = (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[2])) / (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[2]));
+          if (gamma[0][1] == 0. && gamma[0][2] == 0. &&
+              gamma[1][0] == 0. && gamma[1][2] == 0. &&
+              gamma[2][0] == 0. && gamma[2][1] == 0.) {
+               /* No scattering: the eigenvectors are the unit vectors. */
+               evals[0] = gamma[0][0];
+               evals[1] = gamma[1][1];
+               evals[2] = gamma[2][2];
+
+               evecs[0][0] = 1.;
+               evecs[0][1] = 0.;
+               evecs[0][2] = 0.;
+
+               evecs[1][0] = 0.;
+               evecs[1][1] = 1.;
+               evecs[1][2] = 0.;
+
+               evecs[2][0] = 0.;
+               evecs[2][1] = 0.;
+               evecs[2][2] = 1.;
+          }
+          else {
+               evecs[0][0] = 1.;
+               evecs[0][1] = (gamma[1][2] * gamma[0][1] - gamma[0][2] * (gamma[1][1] - evals[1])) / (gamma[0][2] * gamma[1][0] - gamma[1][2] * (gamma[0][0] - evals[1]));
+               evecs[0][2] = (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[2])) / (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[2]));
 
-          evecs[1][0] = (gamma[0][2] * gamma[1][0] - gamma[1][2] * (gamma[0][0] - evals[0])) / (gamma[1][2] * gamma[0][1] - gamma[0][2] * (gamma[1][1] - evals[0]));
-          evecs[1][1] = 1.;
-          evecs[1][2] = (gamma[0][2] * gamma[1][0] - gamma[1][2] * (gamma[0][0] - evals[2])) / (gamma[1][2] * gamma[0][1] - gamma[0][2] * (gamma[1][1] - evals[2])) * evecs[0][2];
+               evecs[1][0] = (gamma[0][2] * gamma[1][0] - gamma[1][2] * (gamma[0][0] - evals[0])) / (gamma[1][2] * gamma[0][1] - gamma[0][2] * (gamma[1][1] - evals[0]));
+               evecs[1][1] = 1.;
+               evecs[1][2] = (gamma[0][2] * gamma[1][0] - gamma[1][2] * (gamma[0][0] - evals[2])) / (gamma[1][2] * gamma[0][1] - gamma[0][2] * (gamma[1][1] - evals[2])) * evecs[0][2];
 
-          evecs[2][0] = (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[0])) / (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[0]));
-          evecs[2][1] = (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[1])) / (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[1])) * evecs[0][1];
-          evecs[2][2] = 1.;
+               evecs[2][0] = (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[0])) / (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[0]));
+               evecs[2][1] = (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[1])) / (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[1])) * evecs[0][1];
+               evecs[2][2] = 1.;
+          }
 
 
           /*--------------------------------------------------------------------
-- 
2.43.0


From 7682ef52ecb7c0bb10032b863681285571637c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:33 +0000
Subject: [PATCH 35/83] fix: adding in one direction takes the illumination of
 the far boundary also without a surface

---
 src/xrtm_model.c   | 43 ++++++++++++++++++-------------------------
 src/xrtm_model_a.c | 16 ++++++----------
 2 files changed, 24 insertions(+), 35 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index f4b5bab..013a28c 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2613,7 +2613,7 @@ static int get_total_BOA_R_S_U_V
       *
       *-----------------------------------------------------------------------*/
      if (d->options & XRTM_OPTION_SAVE_TOTAL_R_T_S) {
-          deps = total_R_T_S_U_W_V_deps(d);
+          deps = total_R_T_S_U_W_V_deps(d) | DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_TOP_L;
 
           flag2 = resolve_deps0(d, i_four, d->dep_flags_total_R_T_S_U_W_V, deps);
 
@@ -2673,16 +2673,9 @@ static int get_total_BOA_R_S_U_V
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-/*
+     dmat_zero(R1_p, d->n_quad_v_x, d->n_quad_v_x);
      dvec_copy(S1_m, S_t, d->n_quad_v_x);
 
-     if (d->options & XRTM_OPTION_CALC_DERIVS && flags_or(d->derivs.sources[d->n_layers], d->n_derivs)) {
-          for (i = 0; i < d->n_derivs; ++i) {
-               if (d->derivs.sources[d->n_layers][i])
-                    dvec_copy(S1_m_l[i], S_t_l[i], d->n_quad_v_x);
-          }
-     }
-*/
      for (i = 0; i < d->n_layers; ++i) {
           work3 = work2;
 
@@ -2713,10 +2706,7 @@ static int get_total_BOA_R_S_U_V
 
           scale_add_source_vectors(d->n_quad_v_x, d->n_derivs, d->btran[i], btran_l, S2_p, S2_m, Sl2_p, Sl2_m, S3_p, S3_m, S2_p_l, S2_m_l, Sl2_p_l, Sl2_m_l, S3_p_l, S3_m_l, d->options & XRTM_OPTION_SOURCE_SOLAR, d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0, derivs_layers, derivs_beam, derivs_thermal, derivs_sources, work3);
 
-          if (i == 0)
-               layer_copy_ref_l(R1_p, S1_m, R2_p, S3_m, R1_p_l, S1_m_l, R2_p_l, S3_m_l, d->n_quad_v_x, d->n_derivs, derivs_layers, derivs_sources);
-          else
-               layer_add_ref   (R2_p, T2_p, S3_p, R2_m, T2_m, S3_m, R1_p, S1_m, R1_p, S1_m, R2_p_l, T2_p_l, S3_p_l, R2_m_l, T2_m_l, S3_m_l, R1_p_l, S1_m_l, R1_p_l, S1_m_l, d->n_quad_v_x, d->n_derivs, 1., trans_l, derivs_adding_down, 1, 1, save_tree, work3);
+          layer_add_ref   (R2_p, T2_p, S3_p, R2_m, T2_m, S3_m, R1_p, S1_m, R1_p, S1_m, R2_p_l, T2_p_l, S3_p_l, R2_m_l, T2_m_l, S3_m_l, R1_p_l, S1_m_l, R1_p_l, S1_m_l, d->n_quad_v_x, d->n_derivs, 1., trans_l, derivs_adding_down, 1, 1, save_tree, work3);
      }
 
 
@@ -2873,18 +2863,24 @@ static int get_total_TOA_R_S_U_V
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (surface) {
+     if (surface)
           dmat_copy(R1_m, Rs_qq, d->n_quad_v_x, d->n_quad_v_x);
-          dvec_copy(S1_p, S_s, d->n_quad_v_x);
+     else
+          dmat_zero(R1_m, d->n_quad_v_x, d->n_quad_v_x);
 
-          if (d->options & XRTM_OPTION_CALC_DERIVS && flags_or(derivs_total[0], d->n_derivs)) {
-               for (i = 0; i < d->n_derivs; ++i) {
-                    if (derivs_layers[d->n_layers][i])
-                         dmat_copy(R1_m_l[i], Rs_qq_l[i], d->n_quad_v_x, d->n_quad_v_x);
+     dvec_copy(S1_p, S_s, d->n_quad_v_x);
 
-                    if (derivs_sources[d->n_layers][i])
-                         dvec_copy(S1_p_l[i], S_s_l[i], d->n_quad_v_x);
+     if (d->options & XRTM_OPTION_CALC_DERIVS && flags_or(derivs_total[0], d->n_derivs)) {
+          for (i = 0; i < d->n_derivs; ++i) {
+               if (derivs_layers[d->n_layers][i]) {
+                    if (surface)
+                         dmat_copy(R1_m_l[i], Rs_qq_l[i], d->n_quad_v_x, d->n_quad_v_x);
+                    else
+                         dmat_zero(R1_m_l[i], d->n_quad_v_x, d->n_quad_v_x);
                }
+
+               if (derivs_sources[d->n_layers][i])
+                    dvec_copy(S1_p_l[i], S_s_l[i], d->n_quad_v_x);
           }
      }
 
@@ -2930,10 +2926,7 @@ static int get_total_TOA_R_S_U_V
                dvec_copy(save->S3_m[i], S3_m, d->n_quad_v_x);
           }
 
-          if (! surface && i == d->n_layers - 1)
-               layer_copy_ref_l(R1_m, S1_p, R2_m, S3_p, R1_m_l, S1_p_l, R2_m_l, S3_p_l, d->n_quad_v_x, d->n_derivs, derivs_layers2, derivs_sources2);
-          else
-               layer_add_ref   (R2_m, T2_m, S3_m, R2_p, T2_p, S3_p, R1_m, S1_p, R1_m, S1_p, R2_m_l, T2_m_l, S3_m_l, R2_p_l, T2_p_l, S3_p_l, R1_m_l, S1_p_l, R1_m_l, S1_p_l, d->n_quad_v_x, d->n_derivs, 1., trans_l, derivs_adding_up2, 0, 1, save_tree, work3);
+          layer_add_ref   (R2_m, T2_m, S3_m, R2_p, T2_p, S3_p, R1_m, S1_p, R1_m, S1_p, R2_m_l, T2_m_l, S3_m_l, R2_p_l, T2_p_l, S3_p_l, R1_m_l, S1_p_l, R1_m_l, S1_p_l, d->n_quad_v_x, d->n_derivs, 1., trans_l, derivs_adding_up2, 0, 1, save_tree, work3);
      }
 
      if (d->options & XRTM_OPTION_REVERSE_DERIVS)
diff --git a/src/xrtm_model_a.c b/src/xrtm_model_a.c
index 69dc4eb..28e70c6 100644
--- a/src/xrtm_model_a.c
+++ b/src/xrtm_model_a.c
@@ -1395,14 +1395,10 @@ static int get_total_TOA_R_S_U_V_a
 
           save_tree_recode_i(&save_tree, i, i == 0);
 
-          if (! surface && i == d->n_layers - 1)
-               layer_copy_ref(R2_m_a, S3_p_a, R1_m_a, S1_p_a, d->n_quad_v_x);
-          else {
-               layer_add_ref_a(save->R2_m[i], save->T2_m[i], save->S3_m[i], save->R2_p[i], save->T2_p[i], save->S3_p[i], save->R1_m[i], save->S1_p[i], NULL, NULL, R2_m_a, T2_m_a, S3_m_a, R2_p_a, T2_p_a, S3_p_a, R3_m_a, S4_p_a, R1_m_a, S1_p_a, d->n_quad_v_x, 1., &trans_a, derivs_adding_up_union[i], 0, 1, save_tree, work3);
+          layer_add_ref_a(save->R2_m[i], save->T2_m[i], save->S3_m[i], save->R2_p[i], save->T2_p[i], save->S3_p[i], save->R1_m[i], save->S1_p[i], NULL, NULL, R2_m_a, T2_m_a, S3_m_a, R2_p_a, T2_p_a, S3_p_a, R3_m_a, S4_p_a, R1_m_a, S1_p_a, d->n_quad_v_x, 1., &trans_a, derivs_adding_up_union[i], 0, 1, save_tree, work3);
 
-               layer_copy_ref(R1_m_a, S1_p_a, R3_m_a, S4_p_a, d->n_quad_v_x);
-               layer_zero_ref(R3_m_a, S4_p_a, d->n_quad_v_x);
-          }
+          layer_copy_ref(R1_m_a, S1_p_a, R3_m_a, S4_p_a, d->n_quad_v_x);
+          layer_zero_ref(R3_m_a, S4_p_a, d->n_quad_v_x);
 
           scale_source_vectors_a(d->n_quad_v_x, d->btran[i], &d->btran_a[i], save->S2_p[i], save->S2_m[i], save->S3_p[i], save->S3_m[i], S2_p_a, S2_m_a, S3_p_a, S3_m_a, work3);
 
@@ -1416,10 +1412,10 @@ static int get_total_TOA_R_S_U_V_a
 
      save_tree_decode_i(&save_tree);
 
-     if (surface) {
+     if (surface)
           dmat_add(Rs_qq_a, R1_m_a, Rs_qq_a, d->n_quad_v_x, d->n_quad_v_x);
-          dvec_add(S_s_a, S1_p_a, S_s_a, d->n_quad_v_x);
-     }
+
+     dvec_add(S_s_a, S1_p_a, S_s_a, d->n_quad_v_x);
 
 
      /*-------------------------------------------------------------------------
-- 
2.43.0


From 29b88981727565fa9c5f5a8426754cd6035fd0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 36/83] fix: four_stream and six_stream take the quadrature
 points in use, not those of double Gauss-Legendre

---
 src/xrtm_four_stream.c |  61 -------------------
 src/xrtm_six_stream.c  | 133 -----------------------------------------
 2 files changed, 194 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 57ae481..cd55231 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -51,63 +51,6 @@ void dgbtrs_(const char *, int *, int *, int *, int *, double *, int *, int *, d
 #endif
 
 
-/*******************************************************************************
- *
- ******************************************************************************/
-static void calc_Y_1(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  2.1132486540518713e-01;
-          Y[2] = -4.3301270189221930e-01;
-          Y[3] = -2.9339382851364088e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -6.9113739634803417e-01;
-          Y[2] = -2.5297384456881489e-01;
-          Y[3] =  3.2872926407690672e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  5.8502498576049988e-01;
-          Y[3] =  2.7644581385388761e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.2199120072772409e-01;
-     }
-}
-
-
-
-static void calc_Y_2(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  7.8867513459481287e-01;
-          Y[2] =  4.3301270189221941e-01;
-          Y[3] =  4.3393828513641042e-02;
-     }
-     else if (i_four == 1) {
-          Y[1] = -4.3473643283710062e-01;
-          Y[2] = -5.9386101120610690e-01;
-          Y[3] = -5.6173675511805921e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  2.3147159516722612e-01;
-          Y[3] =  4.0820738302757004e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -1.2991165542275507e-01;
-     }
-}
-
-
-
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -303,12 +246,8 @@ void rtm_four_stream(int i_four,
 
      exit(1);
 */
-     calc_Y_1(i_four, Y_q[0]);
-     calc_Y_2(i_four, Y_q[1]);
-/*
      calc_Y_x(i_four, qx[0], Y_q[0]);
      calc_Y_x(i_four, qx[1], Y_q[1]);
-*/
      calc_Y_x(i_four, -mu_0, Y_0);
 
 if (n_derivs > 0) {
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 13b149b..2e29ff1 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -50,134 +50,6 @@ void dgbtrs_(const char *, int *, int *, int *, int *, double *, int *, int *, d
 #endif
 
 
-/*******************************************************************************
- *
- ******************************************************************************/
-static void calc_Y_1(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  1.1270166537925830e-01;
-          Y[2] = -4.8094750193111252e-01;
-          Y[3] = -1.6547375096555625e-01;
-          Y[4] =  3.2807458365518544e-01;
-          Y[5] =  1.9893319427622813e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -7.0260171314221176e-01;
-          Y[2] = -1.3715137481548439e-01;
-          Y[3] =  4.0292921564868400e-01;
-          Y[4] = -1.8223631786344985e-01;
-          Y[5] =  2.8081218084679899e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  6.0459428593010522e-01;
-          Y[3] =  1.5236295047544621e-01;
-          Y[4] = -3.5556492019184532e-01;
-          Y[5] = -1.9387690021392759e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.4840021642031433e-01;
-          Y[4] =  1.6352229402102095e-01;
-          Y[5] = -3.2126686945422495e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  5.0971315964803132e-01;
-          Y[5] =  1.7233656587417068e-01;
-     }
-     else if (i_four == 5) {
-          Y[5] =  4.8047556172276995e-01;
-     }
-}
-
-
-
-static void calc_Y_2(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  5.0000000000000000e-01;
-          Y[2] = -1.2500000000000000e-01;
-          Y[3] = -4.3750000000000000e-01;
-          Y[4] = -2.8906250000000000e-01;
-          Y[5] =  8.9843750000000000e-02;
-     }
-     else if (i_four == 1) {
-          Y[1] = -6.1237243569579447e-01;
-          Y[2] = -5.3033008588991071e-01;
-          Y[3] = -9.3750000000000014e-02;
-          Y[4] = -3.0257682392245444e-01;
-          Y[5] = -3.5205044263593283e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  4.5927932677184591e-01;
-          Y[3] =  5.1348989766109321e-01;
-          Y[4] =  2.2234764798058917e-01;
-          Y[5] = -1.6982082124440748e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -3.6309218870694526e-01;
-          Y[4] =  4.8032581715435607e-01;
-          Y[5] =  3.0020363572147252e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  2.9413829057838586e-01;
-          Y[5] =  4.4120743586757882e-01;
-     }
-     else if (i_four == 5) {
-          Y[5] =  2.4165926516368683e-01;
-     }
-}
-
-
-
-static void calc_Y_3(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  8.8729833462074170e-01;
-          Y[2] =  6.8094750193111264e-01;
-          Y[3] =  4.1547375096555617e-01;
-          Y[4] =  1.3442541634481442e-01;
-          Y[5] = -1.1768319427622852e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -3.2611475386683919e-01;
-          Y[2] = -5.0118808883115185e-01;
-          Y[3] = -5.8642821144342672e-01;
-          Y[4] =  5.7443661482497066e-01;
-          Y[5] =  4.7276033207965390e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  1.3025263690484826e-01;
-          Y[3] =  2.5842896765342832e-01;
-          Y[4] =  3.7928200264310813e-01;
-          Y[5] =  4.6559021420497959e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.4837967049776844e-02;
-          Y[4] =  1.2873600645546979e-01;
-          Y[5] =  2.2073939349622659e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  2.3657607267441809e-02;
-          Y[5] =  6.2974066588538019e-02;
-     }
-     else if (i_four == 5) {
-          Y[5] =  1.0350885816619845e-02;
-     }
-}
-
-
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -463,14 +335,9 @@ void rtm_six_stream(int i_four,
 
      exit(1);
 */
-     calc_Y_1(i_four, Y_q[0]);
-     calc_Y_2(i_four, Y_q[1]);
-     calc_Y_3(i_four, Y_q[2]);
-/*
      calc_Y_x(i_four, qx[0], Y_q[0]);
      calc_Y_x(i_four, qx[1], Y_q[1]);
      calc_Y_x(i_four, qx[2], Y_q[2]);
-*/
      calc_Y_x(i_four, -mu_0, Y_0);
 
 if (n_derivs > 0) {
-- 
2.43.0


From 1cab169f0a68bcd75d9f7f33fc6c6a9f02211bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 37/83] fix: eig_bvp with Green's functions frees the
 derivatives of the layer transmittances it allocated

---
 src/xrtm_eig_bvp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 2b3fda6..3d145d0 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -1028,6 +1028,10 @@ else {
                }
           }
      }
-     if (greens)
+     if (greens) {
           free_array1_d(atran2);
+
+          if (n_derivs > 0)
+               free_array2_d(atran2_l);
+     }
 }
-- 
2.43.0


From a14a703458e830cb6256146d94ec936af8154148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:16 +0000
Subject: [PATCH 38/83] fix: two_stream and four_stream with sfi also calculate
 the radiances that flux and mean radiance are taken from

---
 src/xrtm_four_stream.c | 2 --
 src/xrtm_two_stream.c  | 4 ++--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index cd55231..3505f73 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -718,7 +718,6 @@ if (thermal) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-if (n_umus == 0) {
      if (! utau_output) {
           for (i = 0; i < n_ulevels; ++i) {
                ii = ulevels[i];
@@ -984,7 +983,6 @@ if (n_umus == 0) {
                              save_tree, work);
 */
      }
-}
 
      /*-------------------------------------------------------------------------
       *
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 394385c..6bb1296 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -865,7 +865,7 @@ if (0)
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (n_umus == 0) {
+     {
           if (! utau_output) {
                for (i = 0; i < n_ulevels; ++i) {
                     ii = ulevels[i];
@@ -1028,7 +1028,7 @@ else {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     else {
+     if (n_umus != 0) {
           v1      = get_work_d1(&work, n_umus);
           v2      = get_work_d1(&work, n_umus);
           v3      = get_work_d1(&work, n_umus);
-- 
2.43.0


From 09ef3d0d31e8c5838e644afb764fe65f7943d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:46 +0000
Subject: [PATCH 39/83] fix: single scattered radiances keep the isotropic
 illumination when F_0 is zero

---
 src/xrtm_single.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/xrtm_single.c b/src/xrtm_single.c
index 62c7698..c661eef 100644
--- a/src/xrtm_single.c
+++ b/src/xrtm_single.c
@@ -159,10 +159,12 @@ void single_scattered_radiance_up(int n_stokes, int n_derivs, int n_layers,
       *
       *-----------------------------------------------------------------------*/
      if (F_0 == 0.) {
-          init_array2_d(I_ss, n_ulevels, n_umus_v, 0.);
-          if (n_derivs > 0)
-               init_array3_d(I_ss_l, n_ulevels, n_derivs, n_umus_v, 0.);
-          return;
+          omega = get_work_d1(&work, n_layers);
+          init_array1_d(omega, n_layers, 0.);
+          if (n_derivs > 0) {
+               omega_l = get_work_d2(&work, n_layers, n_derivs);
+               init_array2_d(omega_l, n_layers, n_derivs, 0.);
+          }
      }
 
 
@@ -188,7 +190,7 @@ void single_scattered_radiance_up(int n_stokes, int n_derivs, int n_layers,
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     a = F_0 / (4. * PI);
+     a = F_0 == 0. ? 1. : F_0 / (4. * PI);
 
 
      for (i = 0; i < n_umus; ++i) {
@@ -447,10 +449,12 @@ void single_scattered_radiance_dn(int n_stokes, int n_derivs, int n_layers,
       *
       *-----------------------------------------------------------------------*/
      if (F_0 == 0.) {
-          init_array2_d(I_ss, n_ulevels, n_umus_v, 0.);
-          if (n_derivs > 0)
-               init_array3_d(I_ss_l, n_ulevels, n_derivs, n_umus_v, 0.);
-          return;
+          omega = get_work_d1(&work, n_layers);
+          init_array1_d(omega, n_layers, 0.);
+          if (n_derivs > 0) {
+               omega_l = get_work_d2(&work, n_layers, n_derivs);
+               init_array2_d(omega_l, n_layers, n_derivs, 0.);
+          }
      }
 
 
@@ -476,7 +480,7 @@ void single_scattered_radiance_dn(int n_stokes, int n_derivs, int n_layers,
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     a = F_0 / (4. * PI);
+     a = F_0 == 0. ? 1. : F_0 / (4. * PI);
 
 
      for (i = 0; i < n_umus; ++i) {
-- 
2.43.0


From d1ff0eb2a0544996c2d6e0330dcdce7628d2f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:42 +0000
Subject: [PATCH 40/83] fix: successive orders add the illumination of the top
 once

---
 src/xrtm_sos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_sos.c b/src/xrtm_sos.c
index 03ac50d..283ad30 100644
--- a/src/xrtm_sos.c
+++ b/src/xrtm_sos.c
@@ -467,9 +467,9 @@ if (ulevels[0] == 0) {
           if (n_derivs > 0)
                dmat_add(I_p_l[0], i_p_l[i][0], I_p_l[0], n_derivs, n_quad_v);
 }
-          dvec_copy(i_m[i][0], I1_m, n_quad_v);
+          init_array1_d(i_m[i][0], n_quad_v, 0.);
           if (n_derivs > 0)
-               dmat_copy(i_m_l[i][0], I1_m_l, n_derivs, n_quad_v);
+               init_array2_d(i_m_l[i][0], n_derivs, n_quad_v, 0.);
 
           for (j = 0; j < n_layers2; ++j) {
                dm_v_diag_mul(T[j], i_m[i][j], i_m[i][j+1], n_quad_v);
-- 
2.43.0


From 0231f03238303756cf82baf2bc22f3db7f31737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:00 +0000
Subject: [PATCH 41/83] fix: successive orders give the radiances that enter at
 the top and leave the surface

---
 src/xrtm_sos.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/xrtm_sos.c b/src/xrtm_sos.c
index 283ad30..c6a7f07 100644
--- a/src/xrtm_sos.c
+++ b/src/xrtm_sos.c
@@ -221,17 +221,16 @@ int rtm_sos(int i_four,
       *-----------------------------------------------------------------------*/
 i_last_ulevel = n_ulevels - 1;
 
-if (ulevels[0] == 0)
-     init_array1_d(I_m[0], n_quad_v, 0.);
-if (ulevels[i_last_ulevel] == n_layers)
-     init_array1_d(I_p[i_last_ulevel], n_quad_v, 0.);
-
-     if (n_derivs > 0) {
-if (ulevels[0            ] == 0)
-          init_array2_d(I_m_l[0], n_derivs, n_quad_v, 0.);
-if (ulevels[i_last_ulevel] == n_layers)
-          init_array2_d(I_p_l[i_last_ulevel], n_derivs, n_quad_v, 0.);
-     }
+if (ulevels[0] == 0) {
+     dvec_copy(I_m[0], I1_m, n_quad_v);
+     if (n_derivs > 0)
+          dmat_copy(I_m_l[0], I1_m_l, n_derivs, n_quad_v);
+}
+if (ulevels[i_last_ulevel] == n_layers) {
+     dvec_copy(I_p[i_last_ulevel], In_p, n_quad_v);
+     if (n_derivs > 0)
+          dmat_copy(I_p_l[i_last_ulevel], In_p_l, n_derivs, n_quad_v);
+}
 
 
      /*-------------------------------------------------------------------------
@@ -525,8 +524,11 @@ if (ulevels[i_last_ulevel] == n_layers) {
                dmat_copy(I_m_l[i_last_ulevel], i_m_l[i][n_layers2], n_derivs, n_quad_v);
 */
           dvec_add(I_m[i_last_ulevel], i_m[i][n_layers2], I_m[i_last_ulevel], n_quad_v);
-          if (n_derivs > 0)
+          dvec_add(I_p[i_last_ulevel], i_p[i][n_layers2], I_p[i_last_ulevel], n_quad_v);
+          if (n_derivs > 0) {
                dmat_add(I_m_l[i_last_ulevel], i_m_l[i][n_layers2], I_m_l[i_last_ulevel], n_derivs, n_quad_v);
+               dmat_add(I_p_l[i_last_ulevel], i_p_l[i][n_layers2], I_p_l[i_last_ulevel], n_derivs, n_quad_v);
+          }
 }
           if (a < sos_tol)
                break;
-- 
2.43.0


From afd96430d94e15966740994dad7b916e991b660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 42/83] fix: the convergence test of successive orders takes
 the size of signed radiances

---
 src/xrtm_sos.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/xrtm_sos.c b/src/xrtm_sos.c
index c6a7f07..09a28fc 100644
--- a/src/xrtm_sos.c
+++ b/src/xrtm_sos.c
@@ -448,12 +448,12 @@ if (ulevels[i_last_ulevel] == n_layers) {
                }
           }
 
-          b = i_p[i][0][0];
+          b = fabs(i_p[i][0][0]);
 
           jj = n_stokes;
           for (j = 1; j < n_quad; ++j) {
-               if (i_p[i][0][jj] > b)
-                    b = i_p[i][0][jj];
+               if (fabs(i_p[i][0][jj]) > b)
+                    b = fabs(i_p[i][0][jj]);
                jj += n_stokes;
           }
 if (ulevels[0] == 0) {
@@ -507,12 +507,12 @@ if (ulevels[0] == 0) {
                }
           }
 
-          c = i_m[i][n_layers2][0];
+          c = fabs(i_m[i][n_layers2][0]);
 
           jj = n_stokes;
           for (j = 1; j < n_quad; ++j) {
-               if (i_m[i][n_layers2][jj] > c)
-                    c = i_m[i][n_layers2][jj];
+               if (fabs(i_m[i][n_layers2][jj]) > c)
+                    c = fabs(i_m[i][n_layers2][jj]);
                jj += n_stokes;
           }
 
-- 
2.43.0


From 328f03a7e2f5cf5fd3a7d4e578dca9c8189adb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:25 +0000
Subject: [PATCH 43/83] fix: the boundary value problem of mem_bvp includes the
 illumination of the top

---
 src/xrtm_mem_bvp_x.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_mem_bvp_x.c b/src/xrtm_mem_bvp_x.c
index 5581202..6c2f4e4 100644
--- a/src/xrtm_mem_bvp_x.c
+++ b/src/xrtm_mem_bvp_x.c
@@ -184,7 +184,7 @@ static void SOLVE_BVP(int n_quad, int n_stokes, int n_derivs, int n_layers,
       *
       *-----------------------------------------------------------------------*/
      for (i = 0; i < n_quad_v; ++i)
-          B[i] = 0.;
+          B[i] = I1_m[i];
 
 
      for (i = 0; i < n_quad_v; ++i)
@@ -334,7 +334,7 @@ static void SOLVE_BVP(int n_quad, int n_stokes, int n_derivs, int n_layers,
           xvec_zero(B_l[m], n_comp);
 
           for (i = 0; i < n_quad_v; ++i)
-               B_l[m][i] = 0.;
+               B_l[m][i] = I1_m_l[m][i];
 
           for (i = 0; i < n_quad_v; ++i) {
                B_l[m][n_comp - n_quad_v + i] = In_p_l[m][i];
-- 
2.43.0


From 245e7bd78c72eee329cb79ea3888a3712e18a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:53 +0000
Subject: [PATCH 44/83] fix: derivatives of eig_bvp with respect to the
 illumination of the bottom without a surface

---
 src/xrtm_eig_bvp_x.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_eig_bvp_x.c b/src/xrtm_eig_bvp_x.c
index 3a71343..d5462a3 100644
--- a/src/xrtm_eig_bvp_x.c
+++ b/src/xrtm_eig_bvp_x.c
@@ -507,10 +507,10 @@ else {
                     }
 
                     b += c;
-
-                    b += In_p_l[m][j];
                }
 
+               b += In_p_l[m][j];
+
                for (k = 0; k < n_quad_v; ++k) {
                     if (derivs_layers[i][m])
                          b -= B[ii + k] * (lambda_l[i][k] * X_p[i][j][k] + lambda[i][k] * X_p_l[i][m][j][k]) + B[ii + k + n_quad_v] * X_m_l[i][m][j][k];
-- 
2.43.0


From 87dd2450ca274f3704a5b269d3de4a681cb4c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 45/83] fix: single scattering took the wrong sign of U in half
 of the azimuths

---
 src/xrtm_scatter.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index 79e3b83..9524d17 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -1057,7 +1057,7 @@ void scat_vector_rotate_hovenier(int n_stokes, double mu, double mu_prime, doubl
 /*
                cos_sig1 = 1.;
 */
-               cos_sig1 = cos(D2R*d_phi);
+               cos_sig1 = -mu_prime * cos(D2R*d_phi);
           else
                cos_sig1 = (mu - mu_prime * MU) / (sin_theta2 * sin_scat);
      }
@@ -1068,8 +1068,11 @@ void scat_vector_rotate_hovenier(int n_stokes, double mu, double mu_prime, doubl
 
      if (1. - cos_sig1_2 < 0.)
           S1 = 0.;
-     else
+     else {
           S1 = 2.* sqrt(1. - cos_sig1_2) * cos_sig1;
+          if (sin(D2R*d_phi) < 0.)
+               S1 = -S1;
+     }
 
      if (n_stokes >= 2)
           P2[1] =  P1_01*C1;
@@ -1109,7 +1112,7 @@ void scat_vector_rotate_hovenier_a(int n_stokes, double mu, double mu_prime, dou
 /*
                cos_sig1 = 1.;
 */
-               cos_sig1 = cos(D2R*d_phi);
+               cos_sig1 = -mu_prime * cos(D2R*d_phi);
           else
                cos_sig1 = (mu - mu_prime * MU) / (sin_theta2 * sin_scat);
      }
@@ -1120,8 +1123,11 @@ void scat_vector_rotate_hovenier_a(int n_stokes, double mu, double mu_prime, dou
 
      if (1. - cos_sig1_2 < 0.)
           S1 = 0.;
-     else
+     else {
           S1 = 2.* sqrt(1. - cos_sig1_2) * cos_sig1;
+          if (sin(D2R*d_phi) < 0.)
+               S1 = -S1;
+     }
 
      if (n_stokes >= 2)
           P1_a[1]  =  P2_a[1]*C1;
-- 
2.43.0


From fb3355bfedf2af0e5988ceb850ed9828b3ed30af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:06 +0000
Subject: [PATCH 46/83] fix: derivatives of adding in one direction with
 respect to the illumination of the far boundary

---
 src/xrtm_model.c | 208 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 157 insertions(+), 51 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 013a28c..0e2e233 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2546,6 +2546,34 @@ static int total_R_T_S_U_W_V_deps(xrtm_data *d) {
 
 
 
+/*******************************************************************************
+ * The boundary that adding in one direction starts from may vary with any of the
+ * derivatives, so that those of the growing stack are all accounted for.
+ ******************************************************************************/
+static int derivs_one_way_alloc(xrtm_data *d, uchar **derivs_all, uchar **derivs_add) {
+
+     if (! (*derivs_all = flags_alloc(d->n_derivs))) {
+          fprintf(stderr, "ERROR: flags_alloc()\n");
+          return -1;
+     }
+
+     if (! (*derivs_add = flags_alloc(d->n_derivs))) {
+          fprintf(stderr, "ERROR: flags_alloc()\n");
+          flags_free(*derivs_all);
+          return -1;
+     }
+
+     flags_init(*derivs_all, d->n_derivs, ADDING_B_B);
+     flags_fill_meta(*derivs_all, d->n_derivs);
+
+     flags_init(*derivs_add, d->n_derivs, ADDING_B_B);
+     flags_fill_meta(*derivs_add, d->n_derivs);
+
+     return 0;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -2555,13 +2583,20 @@ static int get_total_BOA_R_S_U_V
       double ***R_p, double **S_m, double ****R_p_l, double ***S_m_l,
       int surface, int flag, save_tree_data save_tree, work_data *work) {
 
-     uchar *derivs_layers;
-     uchar *derivs_thermal;
-     uchar *derivs_beam;
-     uchar *derivs_sources;
-     uchar *derivs_adding_down;
+     uchar **derivs_layers;
+     uchar **derivs_thermal;
+     uchar **derivs_beam;
+     uchar **derivs_sources;
+
+     uchar *derivs_layers2;
+     uchar *derivs_thermal2;
+     uchar *derivs_beam2;
+     uchar *derivs_sources2;
+     uchar *derivs_all;
+     uchar *derivs_add;
 
      int i;
+     int j;
 
      int deps;
 
@@ -2628,15 +2663,21 @@ static int get_total_BOA_R_S_U_V
           if (! flag2)
                return 0;
      }
-     else if (flag) {
+
+     if (derivs_one_way_alloc(d, &derivs_all, &derivs_add)) {
+          fprintf(stderr, "ERROR: derivs_one_way_alloc()\n");
+          return -1;
+     }
+
+     if (! (d->options & XRTM_OPTION_SAVE_TOTAL_R_T_S) && flag) {
           *R_p = get_work1(work, WORK_DXX);
 
           *S_m = get_work1(work, WORK_DX);
 
-          if (d->options & XRTM_OPTION_CALC_DERIVS && flags_or(d->derivs.total[0], d->n_derivs)) {
-               *R_p_l = get_work2(work, WORK_DXX, WORK_DERIVS_V, d->derivs.total[0]);
+          if (d->options & XRTM_OPTION_CALC_DERIVS) {
+               *R_p_l = get_work2(work, WORK_DXX, WORK_DERIVS_V, derivs_all);
 
-               *S_m_l = get_work2(work, WORK_DX,  WORK_DERIVS_V, d->derivs.total[0]);
+               *S_m_l = get_work2(work, WORK_DX,  WORK_DERIVS_V, derivs_all);
           }
      }
 
@@ -2659,6 +2700,23 @@ static int get_total_BOA_R_S_U_V
      S3_m = get_work1(&work2, WORK_DX);
 
 
+     /*-------------------------------------------------------------------------
+      *
+      *-----------------------------------------------------------------------*/
+     if (i_four == 0) {
+          derivs_layers  = d->derivs.layers;
+          derivs_beam    = d->derivs.beam;
+          derivs_thermal = d->derivs.thermal;
+          derivs_sources = d->derivs.sources;
+     }
+     else {
+          derivs_layers  = d->derivs.layers_m;
+          derivs_beam    = d->derivs.beam_m;
+          derivs_thermal = d->derivs.thermal_m;
+          derivs_sources = d->derivs.sources_m;
+     }
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
@@ -2676,27 +2734,42 @@ static int get_total_BOA_R_S_U_V
      dmat_zero(R1_p, d->n_quad_v_x, d->n_quad_v_x);
      dvec_copy(S1_m, S_t, d->n_quad_v_x);
 
+     if (d->options & XRTM_OPTION_CALC_DERIVS) {
+          for (i = 0; i < d->n_derivs; ++i) {
+               dmat_zero(R1_p_l[i], d->n_quad_v_x, d->n_quad_v_x);
+               dvec_copy(S1_m_l[i], S_t_l[i], d->n_quad_v_x);
+          }
+     }
+
      for (i = 0; i < d->n_layers; ++i) {
           work3 = work2;
 
-          if (d->options & XRTM_OPTION_CALC_DERIVS && flags_or(d->derivs.sources[i], d->n_derivs)) {
-               S3_p_l = get_work2(&work3, WORK_DX, WORK_DERIVS_V, d->derivs.sources[i]);
-               S3_m_l = get_work2(&work3, WORK_DX, WORK_DERIVS_V, d->derivs.sources[i]);
+          if (d->options & XRTM_OPTION_CALC_DERIVS) {
+               S3_p_l = get_work2(&work3, WORK_DX, WORK_DERIVS_V, derivs_all);
+               S3_m_l = get_work2(&work3, WORK_DX, WORK_DERIVS_V, derivs_all);
+
+               for (j = 0; j < d->n_derivs; ++j) {
+                    dvec_zero(S3_p_l[j], d->n_quad_v_x);
+                    dvec_zero(S3_m_l[j], d->n_quad_v_x);
+
+                    derivs_add[j] = derivs_layers[i][j] ? ADDING_B_B : ADDING_B_S;
+               }
           }
 
           if (get_layer_R_T_S_U_W_V(d, i_four, i, solver, &R2_p, &T2_p, &R2_m, &T2_m, &S2_p, &S2_m, &Sl2_p, &Sl2_m, &R2_p_l, &T2_p_l, &R2_m_l, &T2_m_l, &S2_p_l, &S2_m_l, &Sl2_p_l, &Sl2_m_l, 1, save_tree, &work3)) {
                fprintf(stderr, "ERROR: get_layer_R_T_S_U_W_V()\n");
+               flags_free(derivs_all);
+               flags_free(derivs_add);
                return -1;
           }
 
           if (d->options & XRTM_OPTION_CALC_DERIVS) {
-               derivs_layers      = d->derivs.layers[i];
+               derivs_layers2  = derivs_layers[i];
                if (d->options & XRTM_OPTION_SOURCE_SOLAR)
-                    derivs_beam    = d->derivs.beam[i];
+                    derivs_beam2    = derivs_beam[i];
                if (d->options & XRTM_OPTION_SOURCE_THERMAL)
-                    derivs_thermal = d->derivs.thermal[i];
-               derivs_sources     = d->derivs.sources[i];
-               derivs_adding_down = d->derivs.adding_down[i];
+                    derivs_thermal2 = derivs_thermal[i];
+               derivs_sources2 = derivs_sources[i];
           }
 
           update_beam_params(d, i, work3);
@@ -2704,11 +2777,14 @@ static int get_total_BOA_R_S_U_V
           if (d->options & XRTM_OPTION_CALC_DERIVS)
                btran_l = d->btran_l[i];
 
-          scale_add_source_vectors(d->n_quad_v_x, d->n_derivs, d->btran[i], btran_l, S2_p, S2_m, Sl2_p, Sl2_m, S3_p, S3_m, S2_p_l, S2_m_l, Sl2_p_l, Sl2_m_l, S3_p_l, S3_m_l, d->options & XRTM_OPTION_SOURCE_SOLAR, d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0, derivs_layers, derivs_beam, derivs_thermal, derivs_sources, work3);
+          scale_add_source_vectors(d->n_quad_v_x, d->n_derivs, d->btran[i], btran_l, S2_p, S2_m, Sl2_p, Sl2_m, S3_p, S3_m, S2_p_l, S2_m_l, Sl2_p_l, Sl2_m_l, S3_p_l, S3_m_l, d->options & XRTM_OPTION_SOURCE_SOLAR, d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0, derivs_layers2, derivs_beam2, derivs_thermal2, derivs_sources2, work3);
 
-          layer_add_ref   (R2_p, T2_p, S3_p, R2_m, T2_m, S3_m, R1_p, S1_m, R1_p, S1_m, R2_p_l, T2_p_l, S3_p_l, R2_m_l, T2_m_l, S3_m_l, R1_p_l, S1_m_l, R1_p_l, S1_m_l, d->n_quad_v_x, d->n_derivs, 1., trans_l, derivs_adding_down, 1, 1, save_tree, work3);
+          layer_add_ref   (R2_p, T2_p, S3_p, R2_m, T2_m, S3_m, R1_p, S1_m, R1_p, S1_m, R2_p_l, T2_p_l, S3_p_l, R2_m_l, T2_m_l, S3_m_l, R1_p_l, S1_m_l, R1_p_l, S1_m_l, d->n_quad_v_x, d->n_derivs, 1., trans_l, derivs_add, 1, 1, save_tree, work3);
      }
 
+     flags_free(derivs_all);
+     flags_free(derivs_add);
+
 
      return 0;
 }
@@ -2728,16 +2804,17 @@ static int get_total_TOA_R_S_U_V
      uchar **derivs_thermal;
      uchar **derivs_beam;
      uchar **derivs_sources;
-     uchar **derivs_total;
-     uchar **derivs_adding_up;
 
      uchar  *derivs_layers2;
      uchar  *derivs_thermal2;
      uchar  *derivs_beam2;
      uchar  *derivs_sources2;
-     uchar  *derivs_adding_up2;
+
+     uchar  *derivs_all;
+     uchar  *derivs_add;
 
      int i;
+     int j;
 
      double *trans_l;
 
@@ -2797,15 +2874,20 @@ static int get_total_TOA_R_S_U_V
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     if (derivs_one_way_alloc(d, &derivs_all, &derivs_add)) {
+          fprintf(stderr, "ERROR: derivs_one_way_alloc()\n");
+          return -1;
+     }
+
      if (flag) {
           *R_m = get_work1(work, WORK_DXX);
 
           *S_p = get_work1(work, WORK_DX);
 
-          if (d->options & XRTM_OPTION_CALC_DERIVS && flags_or(d->derivs.total[0], d->n_derivs)) {
-               *R_m_l = get_work2(work, WORK_DXX, WORK_DERIVS_V, d->derivs.total[0]);
+          if (d->options & XRTM_OPTION_CALC_DERIVS) {
+               *R_m_l = get_work2(work, WORK_DXX, WORK_DERIVS_V, derivs_all);
 
-               *S_p_l = get_work2(work, WORK_DX,  WORK_DERIVS_V, d->derivs.total[0]);
+               *S_p_l = get_work2(work, WORK_DX,  WORK_DERIVS_V, derivs_all);
           }
      }
 
@@ -2836,16 +2918,12 @@ static int get_total_TOA_R_S_U_V
           derivs_beam      = d->derivs.beam;
           derivs_thermal   = d->derivs.thermal;
           derivs_sources   = d->derivs.sources;
-          derivs_total     = d->derivs.total;
-          derivs_adding_up = d->derivs.adding_up;
      }
      else {
           derivs_layers    = d->derivs.layers_m;
           derivs_beam      = d->derivs.beam_m;
           derivs_thermal   = d->derivs.thermal_m;
           derivs_sources   = d->derivs.sources_m;
-          derivs_total     = d->derivs.total_m;
-          derivs_adding_up = d->derivs.adding_up_m;
      }
 
 
@@ -2870,17 +2948,14 @@ static int get_total_TOA_R_S_U_V
 
      dvec_copy(S1_p, S_s, d->n_quad_v_x);
 
-     if (d->options & XRTM_OPTION_CALC_DERIVS && flags_or(derivs_total[0], d->n_derivs)) {
+     if (d->options & XRTM_OPTION_CALC_DERIVS) {
           for (i = 0; i < d->n_derivs; ++i) {
-               if (derivs_layers[d->n_layers][i]) {
-                    if (surface)
-                         dmat_copy(R1_m_l[i], Rs_qq_l[i], d->n_quad_v_x, d->n_quad_v_x);
-                    else
-                         dmat_zero(R1_m_l[i], d->n_quad_v_x, d->n_quad_v_x);
-               }
+               if (surface && derivs_layers[d->n_layers][i])
+                    dmat_copy(R1_m_l[i], Rs_qq_l[i], d->n_quad_v_x, d->n_quad_v_x);
+               else
+                    dmat_zero(R1_m_l[i], d->n_quad_v_x, d->n_quad_v_x);
 
-               if (derivs_sources[d->n_layers][i])
-                    dvec_copy(S1_p_l[i], S_s_l[i], d->n_quad_v_x);
+               dvec_copy(S1_p_l[i], S_s_l[i], d->n_quad_v_x);
           }
      }
 
@@ -2890,13 +2965,22 @@ static int get_total_TOA_R_S_U_V
           if (d->options & XRTM_OPTION_REVERSE_DERIVS)
                save_tree_recode_i(&save_tree, i, i == d->n_layers - 1);
 
-          if (d->options & XRTM_OPTION_CALC_DERIVS && flags_or(d->derivs.sources[i], d->n_derivs)) {
-               S3_p_l = get_work2(&work3, WORK_DX, WORK_DERIVS_V, d->derivs.sources[i]);
-               S3_m_l = get_work2(&work3, WORK_DX, WORK_DERIVS_V, d->derivs.sources[i]);
+          if (d->options & XRTM_OPTION_CALC_DERIVS) {
+               S3_p_l = get_work2(&work3, WORK_DX, WORK_DERIVS_V, derivs_all);
+               S3_m_l = get_work2(&work3, WORK_DX, WORK_DERIVS_V, derivs_all);
+
+               for (j = 0; j < d->n_derivs; ++j) {
+                    dvec_zero(S3_p_l[j], d->n_quad_v_x);
+                    dvec_zero(S3_m_l[j], d->n_quad_v_x);
+
+                    derivs_add[j] = derivs_layers[i][j] ? ADDING_B_B : ADDING_S_B;
+               }
           }
 
           if (get_layer_R_T_S_U_W_V(d, i_four, i, solver, &R2_p, &T2_p, &R2_m, &T2_m, &S2_p, &S2_m, &Sl2_p, &Sl2_m, &R2_p_l, &T2_p_l, &R2_m_l, &T2_m_l, &S2_p_l, &S2_m_l, &Sl2_p_l, &Sl2_m_l, 1, save_tree, &work3)) {
                fprintf(stderr, "ERROR: get_layer_R_T_S_U_W_V()\n");
+               flags_free(derivs_all);
+               flags_free(derivs_add);
                return -1;
           }
 
@@ -2907,7 +2991,6 @@ static int get_total_TOA_R_S_U_V
                if (d->options & XRTM_OPTION_SOURCE_THERMAL)
                     derivs_thermal2   = derivs_thermal[i];
                derivs_sources2   = derivs_sources[i];
-               derivs_adding_up2 = derivs_adding_up[i];
           }
 
           update_beam_params(d, i, work3);
@@ -2926,9 +3009,12 @@ static int get_total_TOA_R_S_U_V
                dvec_copy(save->S3_m[i], S3_m, d->n_quad_v_x);
           }
 
-          layer_add_ref   (R2_m, T2_m, S3_m, R2_p, T2_p, S3_p, R1_m, S1_p, R1_m, S1_p, R2_m_l, T2_m_l, S3_m_l, R2_p_l, T2_p_l, S3_p_l, R1_m_l, S1_p_l, R1_m_l, S1_p_l, d->n_quad_v_x, d->n_derivs, 1., trans_l, derivs_adding_up2, 0, 1, save_tree, work3);
+          layer_add_ref   (R2_m, T2_m, S3_m, R2_p, T2_p, S3_p, R1_m, S1_p, R1_m, S1_p, R2_m_l, T2_m_l, S3_m_l, R2_p_l, T2_p_l, S3_p_l, R1_m_l, S1_p_l, R1_m_l, S1_p_l, d->n_quad_v_x, d->n_derivs, 1., trans_l, derivs_add, 0, 1, save_tree, work3);
      }
 
+     flags_free(derivs_all);
+     flags_free(derivs_add);
+
      if (d->options & XRTM_OPTION_REVERSE_DERIVS)
           save_tree_decode_i(&save_tree);
 
@@ -4522,7 +4608,8 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
  ******************************************************************************/
 static int fourier_get_add_top_down(xrtm_data *d, int i_four, int solver, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, save_tree_data save_tree, work_data work) {
 
-     uchar *derivs_adding_down;
+     uchar  *derivs_all;
+     uchar  *derivs_add;
 
      int i;
 
@@ -4600,14 +4687,16 @@ static int fourier_get_add_top_down(xrtm_data *d, int i_four, int solver, double
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     if (derivs_one_way_alloc(d, &derivs_all, &derivs_add)) {
+          fprintf(stderr, "ERROR: derivs_one_way_alloc()\n");
+          return -1;
+     }
+
      if (! surface) {
-          if (d->options & XRTM_OPTION_CALC_DERIVS) {
+          if (d->options & XRTM_OPTION_CALC_DERIVS)
                I_m_l1 = I_m_l[0];
 
-               derivs_adding_down = d->derivs.adding_down[d->n_layers - 1];
-          }
-
-          radiance_toa_ref(d->n_quad_v_x, d->n_derivs, R_p, S_m, R_p_l, S_m_l, d->In_p[i_four], In_p_l, I_m[0], I_m_l1, derivs_adding_down, work);
+          radiance_toa_ref(d->n_quad_v_x, d->n_derivs, R_p, S_m, R_p_l, S_m_l, d->In_p[i_four], In_p_l, I_m[0], I_m_l1, derivs_all, work);
 
           dvec_copy(I_p[0], d->In_p[i_four], d->n_quad_v_x);
 
@@ -4620,12 +4709,16 @@ static int fourier_get_add_top_down(xrtm_data *d, int i_four, int solver, double
           if (d->options & XRTM_OPTION_CALC_DERIVS) {
                I_p_l1 = I_p_l[0]; I_m_l1 = I_m_l[0];
 
-               derivs_adding_down = d->derivs.adding_down[d->n_layers];
+               for (i = 0; i < d->n_derivs; ++i)
+                    derivs_add[i] = d->derivs.layers[d->n_layers][i] ? ADDING_B_B : ADDING_B_S;
           }
 
-          radiance_boa_ref(d->n_quad_v_x, d->n_derivs, R_p, S_m, R_p_l, S_m_l, Rs_qq, Rs_qq_l, d->In_p[i_four], In_p_l, I_p[0], I_p_l1, I_m[0], I_m_l1, derivs_adding_down, work);
+          radiance_boa_ref(d->n_quad_v_x, d->n_derivs, R_p, S_m, R_p_l, S_m_l, Rs_qq, Rs_qq_l, d->In_p[i_four], In_p_l, I_p[0], I_p_l1, I_m[0], I_m_l1, derivs_add, work);
      }
 
+     flags_free(derivs_all);
+     flags_free(derivs_add);
+
 
      return 0;
 }
@@ -4637,6 +4730,8 @@ static int fourier_get_add_top_down(xrtm_data *d, int i_four, int solver, double
  ******************************************************************************/
 static int fourier_get_add_bottom_up(xrtm_data *d, int i_four, int solver, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, save_tree_data save_tree, work_data work) {
 
+     uchar  *derivs_all;
+     uchar  *derivs_add;
      uchar  *derivs_adding_up;
 
      int i;
@@ -4725,9 +4820,17 @@ static int fourier_get_add_bottom_up(xrtm_data *d, int i_four, int solver, doubl
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     if (derivs_one_way_alloc(d, &derivs_all, &derivs_add)) {
+          fprintf(stderr, "ERROR: derivs_one_way_alloc()\n");
+          return -1;
+     }
+
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
           I_p_l0 = I_p_l[0];
 
+          if (! (d->options & XRTM_OPTION_STACK_REUSE_ADDING))
+               derivs_adding_up = derivs_all;
+          else
           if (i_four == 0)
                derivs_adding_up = d->derivs.adding_up[0];
           else
@@ -4736,6 +4839,9 @@ static int fourier_get_add_bottom_up(xrtm_data *d, int i_four, int solver, doubl
 
      radiance_toa_ref(d->n_quad_v_x, d->n_derivs, R_m, S_p, R_m_l, S_p_l, d->I1_m[i_four], I1_m_l, I_p[0], I_p_l0, derivs_adding_up, work);
 
+     flags_free(derivs_all);
+     flags_free(derivs_add);
+
      dvec_copy(I_m[0], d->I1_m[i_four], d->n_quad_v_x);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
-- 
2.43.0


From 0d37a6871617856db434c87098a68d1a4dc04fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:38 +0000
Subject: [PATCH 47/83] fix: eig_bvp ignored thermal emission within the layer
 at output at optical depths

---
 src/xrtm_eig_bvp.c | 49 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 3d145d0..abe0e99 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -130,6 +130,47 @@
 #undef CALC_RADIANCE_TAUS
 
 
+/*******************************************************************************
+ * The thermal particular solution is linear in optical depth within a layer.
+ ******************************************************************************/
+static void add_thermal_taus(int n_quad, int n_derivs,
+                             int n_ulevels, int *ulevels, double *utaus, double *ltau,
+                             double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m,
+                             double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l,
+                             double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
+                             uchar **derivs_thermal) {
+
+     int i;
+     int ii;
+     int j;
+     int k;
+
+     double f;
+
+     for (i = 0; i < n_ulevels; ++i) {
+          ii = ulevels[i];
+
+          f = utaus[i] / ltau[ii];
+
+          for (j = 0; j < n_quad; ++j) {
+               I_p[i][j] += Ft0_p[ii][j] * (1. - f) + Ft1_p[ii][j] * f;
+               I_m[i][j] += Ft0_m[ii][j] * (1. - f) + Ft1_m[ii][j] * f;
+          }
+
+          for (k = 0; k < n_derivs; ++k) {
+               if (! derivs_thermal[ii][k])
+                    continue;
+
+               for (j = 0; j < n_quad; ++j) {
+                    I_p_l[i][k][j] += Ft0_p_l[ii][k][j] * (1. - f) + Ft1_p_l[ii][k][j] * f;
+                    I_m_l[i][k][j] += Ft0_m_l[ii][k][j] * (1. - f) + Ft1_m_l[ii][k][j] * f;
+               }
+          }
+     }
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -740,6 +781,14 @@ else {
                                      save_tree, work);
      }
 
+     if (utau_output && thermal)
+          add_thermal_taus(n_quad_v_x, n_derivs,
+                           n_ulevels, ulevels, utaus, ltau,
+                           Ft0_p, Ft0_m, Ft1_p, Ft1_m,
+                           Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
+                           I_p, I_m, I_p_l, I_m_l,
+                           derivs->thermal);
+
 
      /*-------------------------------------------------------------------------
       *
-- 
2.43.0


From bc0db7029c1bb6aa8e3bea13ce4cb26b845ff2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:03 +0000
Subject: [PATCH 48/83] fix: thermal emission is not polarized

---
 src/xrtm_doub_rts.c |  6 +++---
 src/xrtm_sfi_x.c    |  6 ++++--
 src/xrtm_source.c   | 29 ++++++++++++++++++++++-------
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/xrtm_doub_rts.c b/src/xrtm_doub_rts.c
index e70d53b..c693c51 100644
--- a/src/xrtm_doub_rts.c
+++ b/src/xrtm_doub_rts.c
@@ -215,7 +215,7 @@ void rtm_doub_rts(int n_quad, int n_stokes, int n_derivs, double F_0,
 
           c = (1. - omega) * planck0 * d_tau;
           for (i = 0; i < n_quad_v; ++i)
-               v1[i] = c;
+               v1[i] = i % n_stokes == 0 ? c : 0.;
           dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
           dvec_copy(Sl_p, v1, n_quad_v);
           dvec_copy(Sl_m, v1, n_quad_v);
@@ -257,7 +257,7 @@ if (thermal) {
                         (1. - omega)     * planck0_l[i] * d_tau +
                         (1. - omega)     * planck0      * d_tau_l[i];
                     for (j = 0; j < n_quad_v; ++j)
-                         v1[j] = d;
+                         v1[j] = j % n_stokes == 0 ? d : 0.;
                     dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
                     dvec_copy(Sl_p_l[i], v1, n_quad_v);
                     dvec_copy(Sl_m_l[i], v1, n_quad_v);
@@ -266,7 +266,7 @@ if (thermal) {
                if (derivs_thermal[i]) {
                     d = (1. - omega)     * planck0_l[i] * d_tau;
                     for (j = 0; j < n_quad_v; ++j)
-                         v1[j] = d;
+                         v1[j] = j % n_stokes == 0 ? d : 0.;
                     dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
                     dvec_copy(Sl_p_l[i], v1, n_quad_v);
                     dvec_copy(Sl_m_l[i], v1, n_quad_v);
diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 6a069b3..c937ea3 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -374,7 +374,8 @@ static void SFI_SOURCE_THERMAL(double ptau, double *ptau_l,
           a3 = pow(tau0, j);
 
           for (k = 0; k < n_umus_v; ++k) {
-               u22[j][k] += a1;
+               if (k % n_stokes == 0)
+                    u22[j][k] += a1;
 
                if (j == 0)
                     u24[j][k] = 1. - e1[k];
@@ -433,7 +434,8 @@ static void SFI_SOURCE_THERMAL(double ptau, double *ptau_l,
                }
 
                for (l = 0; l < n_umus_v; ++l) {
-                    u2[l] += a1_l;
+                    if (l % n_stokes == 0)
+                         u2[l] += a1_l;
 
                     u5[l] += u2[l] * u24[k][l];
 
diff --git a/src/xrtm_source.c b/src/xrtm_source.c
index 8c5a70e..112912d 100644
--- a/src/xrtm_source.c
+++ b/src/xrtm_source.c
@@ -398,6 +398,19 @@ void build_source_vectors_solar_classic_2n2
 
 
 
+/*******************************************************************************
+ * Thermal emission is not polarized.
+ ******************************************************************************/
+static void init_thermal_emission(double *a, double b, int n, int n_stokes) {
+
+     int i;
+
+     for (i = 0; i < n; ++i)
+          a[i] = i % n_stokes == 0 ? b : 0.;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -472,7 +485,7 @@ void build_thermal_source_coefficients
 
      bb = aa * c[n - 1];
 
-     dvec_init(a[n - 1], bb, n_quad_v2);
+     init_thermal_emission(a[n - 1], bb, n_quad_v2, n_stokes);
 
      dmat_getrs(w1, &a[n - 1], n_quad_v2, 1, i1);
 
@@ -486,10 +499,12 @@ void build_thermal_source_coefficients
      for (i = n - 2; i >= 0; --i) {
           bb = aa * c[i];
 
+          init_thermal_emission(a[i], bb, n_quad_v2, n_stokes);
+
           jj = n_quad_v;
           for (j = 0; j < n_quad_v; ++j) {
-               a[i][j ] = bb + a[i + 1][j ] * (i + 1) *  qx_v[j];
-               a[i][jj] = bb + a[i + 1][jj] * (i + 1) * -qx_v[j];
+               a[i][j ] += a[i + 1][j ] * (i + 1) *  qx_v[j];
+               a[i][jj] += a[i + 1][jj] * (i + 1) * -qx_v[j];
                jj++;
           }
 
@@ -534,7 +549,7 @@ void build_thermal_source_coefficients
 
                bb = -omega_l[i] * c[n - 1] + (1. - omega) * c_l[n - 1];
 
-               dvec_init(v2, bb, n_quad_v2);
+               init_thermal_emission(v2, bb, n_quad_v2, n_stokes);
 
                dvec_sub(v2, v1, a_l, n_quad_v2);
 
@@ -559,7 +574,7 @@ void build_thermal_source_coefficients
 
                     bb = -omega_l[i] * c[j] + (1. - omega) * c_l[j];
 
-                    dvec_init(v2, bb, n_quad_v2);
+                    init_thermal_emission(v2, bb, n_quad_v2, n_stokes);
 
                     dvec_sub(v2, v1, v1, n_quad_v2);
 
@@ -597,7 +612,7 @@ void build_thermal_source_coefficients
 */
                bb = (1. - omega) * c_l[n - 1];
 
-               dvec_init(v2, bb, n_quad_v2);
+               init_thermal_emission(v2, bb, n_quad_v2, n_stokes);
 
 dvec_copy(a_l, v2, n_quad_v2);
 /*
@@ -624,7 +639,7 @@ dvec_copy(a_l, v2, n_quad_v2);
 */
                     bb = (1. - omega) * c_l[j];
 
-                    dvec_init(v2, bb, n_quad_v2);
+                    init_thermal_emission(v2, bb, n_quad_v2, n_stokes);
 /*
                     dvec_sub(v2, v1, v1, n_quad_v2);
 */
-- 
2.43.0


From 4d96bd0e921474a6b953813829d9ac4b81478da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:23 +0000
Subject: [PATCH 49/83] fix: mean radiance and flux are of the intensity alone

---
 src/prototypes/xrtm_radiance_p.h | 4 ++--
 src/xrtm_model.c                 | 8 ++++----
 src/xrtm_radiance.c              | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/prototypes/xrtm_radiance_p.h b/src/prototypes/xrtm_radiance_p.h
index d8344aa..3013222 100644
--- a/src/prototypes/xrtm_radiance_p.h
+++ b/src/prototypes/xrtm_radiance_p.h
@@ -4,5 +4,5 @@ void radiance_toa_ref(int n_quad, int n_derivs, double **R_m, double *S_p, doubl
 void radiance_boa_ref(int n_quad, int n_derivs, double **R12_p, double *S12_m, double ***R12_p_l, double **S12_m_l, double **R23_m, double ***R23_m_l, double *I3_p, double **I3_p_l, double *I2_p, double **I2_p_l, double *I2_m, double **I2_m_l, uchar *derivs, work_data work);
 void radiance_toa_all(int n_quad, int n_derivs, double **R_m, double **T_p, double *S_p, double ***R_m_l, double ***T_p_l, double **S_p_l, double *I1_m, double *I2_p, double **I1_m_l, double **I2_p_l, double *I1_p, double *I1m_, double **I1_p_l, double **I1m_l_, uchar *derivs, work_data work);
 void radiance_boa_all(int n_quad, int n_derivs, double **R12_p, double **T12_m, double **R23_m, double *S12_m, double ***R12_p_l, double ***T12_m_l, double ***R23_m_l, double **S12_m_l, double *I3_p, double *I1_m, double **I3_p_l, double **I1_m_l, double *I2_p, double *I2_m, double **I2_p_l, double **I2_m_l, uchar *derivs, save_tree_data save_tree, work_data work);
-double radiance_to_mean(int n_quad, double *qx_v, double *qw_v, double F_0, double mu_0, double btran, double *I);
-double radiance_to_flux(int n_quad, double *qx_v, double *qw_v, double F_0, double mu_0, double btran, double *I);
+double radiance_to_mean(int n_quad, int n_stokes, double *qx_v, double *qw_v, double F_0, double mu_0, double btran, double *I);
+double radiance_to_flux(int n_quad, int n_stokes, double *qx_v, double *qw_v, double F_0, double mu_0, double btran, double *I);
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 0e2e233..86da798 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6439,9 +6439,9 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
                     b = direct_beam_transmission(d, j, work);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         mean_p[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_p[j]);
+                         mean_p[j] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT) {
-                         mean_m[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_m[j]);
+                         mean_m[j] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_m[j]);
                          if (d->options & XRTM_OPTION_SOURCE_SOLAR)
                               mean_m[j] += d->F_0 * b / (4. * PI);
                     }
@@ -6457,9 +6457,9 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
                     b = direct_beam_transmission(d, j, work);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         flux_p[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_p[j]);
+                         flux_p[j] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT) {
-                         flux_m[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_m[j]);
+                         flux_m[j] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_m[j]);
                          if (d->options & XRTM_OPTION_SOURCE_SOLAR)
                               flux_m[j] += d->F_0 * d->mu_0 * b;
                     }
diff --git a/src/xrtm_radiance.c b/src/xrtm_radiance.c
index de5029e..cb1fd18 100644
--- a/src/xrtm_radiance.c
+++ b/src/xrtm_radiance.c
@@ -342,7 +342,7 @@ void radiance_boa_all(int n_quad, int n_derivs,
 /*******************************************************************************
  *
  ******************************************************************************/
-double radiance_to_mean(int n_quad, double *qx_v, double *qw_v,
+double radiance_to_mean(int n_quad, int n_stokes, double *qx_v, double *qw_v,
                         double F_0, double mu_0, double btran, double *I) {
 
      int i;
@@ -350,7 +350,7 @@ double radiance_to_mean(int n_quad, double *qx_v, double *qw_v,
      double a = 0.;
 
      for (i = 0; i < n_quad; ++i)
-          a += qw_v[i] * I[i];
+          a += qw_v[i * n_stokes] * I[i * n_stokes];
 
      return a / 2.; // + F_0 * btran / (4. * PI);
 }
@@ -360,7 +360,7 @@ double radiance_to_mean(int n_quad, double *qx_v, double *qw_v,
 /*******************************************************************************
  *
  ******************************************************************************/
-double radiance_to_flux(int n_quad, double *qx_v, double *qw_v,
+double radiance_to_flux(int n_quad, int n_stokes, double *qx_v, double *qw_v,
                         double F_0, double mu_0, double btran, double *I) {
 
      int i;
@@ -368,7 +368,7 @@ double radiance_to_flux(int n_quad, double *qx_v, double *qw_v,
      double a = 0.;
 
      for (i = 0; i < n_quad; ++i)
-          a += qx_v[i] * qw_v[i] * I[i];
+          a += qx_v[i * n_stokes] * qw_v[i * n_stokes] * I[i * n_stokes];
 
      return a * 2. * PI; // + F_0 * mu_0 * btran;
 }
-- 
2.43.0


From 4a420b1732e6bd3f3416b43c197076dbbb7222c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:17 +0000
Subject: [PATCH 50/83] fix: sfi emission of the surface took every derivative
 from the last user angle

---
 src/xrtm_sfi_x.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index c937ea3..15064ca 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -1275,10 +1275,17 @@ void SFI_UP(int i_four,
           }
 
           for (i = 0; i < n_derivs; ++i) {
-               b = surface_b_l[i] * (1. - a);
-
                jj = 0;
                for (j = 0; j < n_umus; ++j) {
+                    a  = 0.;
+                    kk = 0;
+                    for (k = 0; k < n_quad; ++k) {
+                         a  += Rs_uq[jj][kk];
+                         kk += n_stokes;
+                    }
+
+                    b = surface_b_l[i] * (1. - a);
+
                     c  = 0.;
                     kk = 0;
 
-- 
2.43.0


From 929dda4509ad24555f1c767bfbfbb2edf1688ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:52 +0000
Subject: [PATCH 51/83] fix: doubling lost thermal emission with a Planck
 function of zero at the top

---
 src/xrtm_doub_rts.c | 66 +++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 35 deletions(-)

diff --git a/src/xrtm_doub_rts.c b/src/xrtm_doub_rts.c
index c693c51..9599f2a 100644
--- a/src/xrtm_doub_rts.c
+++ b/src/xrtm_doub_rts.c
@@ -197,28 +197,25 @@ void rtm_doub_rts(int n_quad, int n_stokes, int n_derivs, double F_0,
      }
 
      if (thermal) {
-          if (planck0 == 0.)
-               lin_fac = 0.;
-          else
-               lin_fac = (planck1 / planck0 - 1.) / pow(2., n_doub);
+          lin_fac = (planck1 - planck0) / pow(2., n_doub);
 
           if (flags_or(derivs_thermal, n_derivs)) {
                for (i = 0; i < n_derivs; ++i) {
-                    if (derivs_thermal[i]) {
-                         if (planck0 == 0.)
-                              lin_fac_l[i] = 0.;
-                         else
-                              lin_fac_l[i] = (planck1_l[i] - planck1 * planck0_l[i] / planck0) / planck0 / pow(2., n_doub);
-                    }
+                    if (derivs_thermal[i])
+                         lin_fac_l[i] = (planck1_l[i] - planck0_l[i]) / pow(2., n_doub);
                }
           }
 
-          c = (1. - omega) * planck0 * d_tau;
+          /* emission of the initial layer with a Planck function of one */
+          c = (1. - omega) * d_tau;
           for (i = 0; i < n_quad_v; ++i)
                v1[i] = i % n_stokes == 0 ? c : 0.;
-          dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
-          dvec_copy(Sl_p, v1, n_quad_v);
-          dvec_copy(Sl_m, v1, n_quad_v);
+          dm_v_dinv_mul(qx_v, v1, L_p, n_quad_v);
+          dvec_copy(L_m, L_p, n_quad_v);
+
+          /* emission of the initial layer at the top of the layer */
+          dvec_scale(planck0 + lin_fac / 2., L_p, Sl_p, n_quad_v);
+          dvec_copy(Sl_m, Sl_p, n_quad_v);
      }
 if (solar) {
      if (flags_or(derivs_beam, n_derivs)) {
@@ -252,24 +249,23 @@ if (solar) {
 if (thermal) {
      if (flags_or(derivs_thermal, n_derivs)) {
           for (i = 0; i < n_derivs; ++i) {
-               if (derivs_layers[i]) {
-                    d =     - omega_l[i] * planck0      * d_tau +
-                        (1. - omega)     * planck0_l[i] * d_tau +
-                        (1. - omega)     * planck0      * d_tau_l[i];
-                    for (j = 0; j < n_quad_v; ++j)
-                         v1[j] = j % n_stokes == 0 ? d : 0.;
-                    dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
-                    dvec_copy(Sl_p_l[i], v1, n_quad_v);
-                    dvec_copy(Sl_m_l[i], v1, n_quad_v);
-               }
-               else
                if (derivs_thermal[i]) {
-                    d = (1. - omega)     * planck0_l[i] * d_tau;
-                    for (j = 0; j < n_quad_v; ++j)
-                         v1[j] = j % n_stokes == 0 ? d : 0.;
-                    dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
-                    dvec_copy(Sl_p_l[i], v1, n_quad_v);
-                    dvec_copy(Sl_m_l[i], v1, n_quad_v);
+                    if (! derivs_layers[i]) {
+                         dvec_zero(L_p_l[i], n_quad_v);
+                         dvec_zero(L_m_l[i], n_quad_v);
+                    }
+                    else {
+                         d = - omega_l[i] * d_tau + (1. - omega) * d_tau_l[i];
+                         for (j = 0; j < n_quad_v; ++j)
+                              v1[j] = j % n_stokes == 0 ? d : 0.;
+                         dm_v_dinv_mul(qx_v, v1, L_p_l[i], n_quad_v);
+                         dvec_copy(L_m_l[i], L_p_l[i], n_quad_v);
+                    }
+
+                    dvec_scale(planck0 + lin_fac / 2., L_p_l[i], Sl_p_l[i], n_quad_v);
+                    dvec_scale(planck0_l[i] + lin_fac_l[i] / 2., L_p, v1, n_quad_v);
+                    dvec_add(Sl_p_l[i], v1, Sl_p_l[i], n_quad_v);
+                    dvec_copy(Sl_m_l[i], Sl_p_l[i], n_quad_v);
                }
           }
      }
@@ -282,15 +278,15 @@ if (thermal) {
      for (i = 0; i < n_doub; ++i) {
           if (! symmetric) {
                if (! flags_or(derivs_layers, n_derivs) && ! (solar && flags_or(derivs_beam, n_derivs)) && ! (thermal && flags_or(derivs_thermal, n_derivs)))
-                    layer_double  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, work);
+                    layer_double  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, work);
                else
-                    layer_double_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, derivs_layers, derivs_beam, derivs_thermal, work);
+                    layer_double_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, derivs_layers, derivs_beam, derivs_thermal, work);
           }
           else {
                if (! flags_or(derivs_layers, n_derivs) && ! (solar && flags_or(derivs_beam, n_derivs)) && ! (thermal && flags_or(derivs_thermal, n_derivs)))
-                    layer_double_s  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, work);
+                    layer_double_s  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, work);
                else
-                    layer_double_s_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, derivs_layers, derivs_beam, derivs_thermal, work);
+                    layer_double_s_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, derivs_layers, derivs_beam, derivs_thermal, work);
           }
 
           if (solar) {
-- 
2.43.0


From 85782389bb975873b5ff06df1f6512992eead693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:15 +0000
Subject: [PATCH 52/83] fix: eig_bvp did not scale the Green's function
 solution at the bottom of a layer with the beam

---
 src/xrtm_eig_bvp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index abe0e99..270cb48 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -568,6 +568,9 @@ else {
 
                     scale_source_vectors_solar(n_quad_v_x, n_derivs, btran[i], btran_l2, Fs_p[i], Fs_m[i], Fs_p[i], Fs_m[i], Fs_p_l2, Fs_m_l2, Fs_p_l2, Fs_m_l2, derivs_layers2, derivs_beam2, work2);
 
+                    if (greens)
+                         scale_source_vectors_solar(n_quad_v_x, n_derivs, btran[i], btran_l2, Fs1_p[i], Fs1_m[i], Fs1_p[i], Fs1_m[i], Fs1_p_l2, Fs1_m_l2, Fs1_p_l2, Fs1_m_l2, derivs_layers2, derivs_beam2, work2);
+
                     if (save_tree.t) {
                          copy_array1_d(save->Fs_p2[i], Fs_p[i], n_quad_v_x);
                          copy_array1_d(save->Fs_m2[i], Fs_m[i], n_quad_v_x);
@@ -629,6 +632,9 @@ else {
                     }
 
                     scale_source_vectors_solar(n_quad_v_x, n_derivs, btran[i], btran_l2, Fs_p[i], Fs_m[i], Fs_p[i], Fs_m[i], Fs_p_l2, Fs_m_l2, Fs_p_l2, Fs_m_l2, derivs_layers2, derivs_beam2, work2);
+
+                    if (greens)
+                         scale_source_vectors_solar(n_quad_v_x, n_derivs, btran[i], btran_l2, Fs1_p[i], Fs1_m[i], Fs1_p[i], Fs1_m[i], Fs1_p_l2, Fs1_m_l2, Fs1_p_l2, Fs1_m_l2, derivs_layers2, derivs_beam2, work2);
                     if (save_tree.t) {
                          copy_array1_d(save->Fs_p2[i], Fs_p[i], n_quad_v_x);
                          copy_array1_d(save->Fs_m2[i], Fs_m[i], n_quad_v_x);
-- 
2.43.0


From d034a316b2a67bb718ad7d91afcb7fa3ec10a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:55 +0000
Subject: [PATCH 53/83] fix: the Green's function solution was used within
 layers and for derivatives of sfi, where there is none

---
 src/xrtm_eig_bvp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 270cb48..bc9668b 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -337,6 +337,11 @@ double **atran2_l;
 
      n_comp = 2 * n_quad_v_x * n_layers;
 
+     /* the Green's function solution is for the boundaries of a layer only and
+        has no derivatives for sfi */
+     if (utau_output || (sfi && n_derivs > 0))
+          greens = 0;
+
 
      /*-------------------------------------------------------------------------
       *
-- 
2.43.0


From 2255c38e597640370280295c7152f027181c44a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:43 +0000
Subject: [PATCH 54/83] fix: the Green's function solution was used for vector
 problems and at angles of the user, where there is none

---
 src/xrtm_model.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 86da798..5d538bf 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -1991,6 +1991,17 @@ static int get_local_r_t_u_w_all
 
 
 
+/*******************************************************************************
+ * The Green's function solution is for scalar problems, and has no norm at
+ * quadrature points of weight zero, which user defined output angles are.
+ ******************************************************************************/
+static int use_greens(xrtm_data *d) {
+
+     return (d->options & XRTM_OPTION_PART_SOL_GREENS) && ! (d->options & XRTM_OPTION_VECTOR) && d->n_quad_x == d->n_quad;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -2027,7 +2038,7 @@ static void call_solver
      double ***r_x_l;
      double ***t_x_l;
 
-     greens  = d->options & XRTM_OPTION_PART_SOL_GREENS;
+     greens  = use_greens(d);
      solar   = d->options & XRTM_OPTION_SOURCE_SOLAR;
      thermal = d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0;
      vector  = d->options & XRTM_OPTION_VECTOR;
@@ -5311,7 +5322,7 @@ if (! (solver & XRTM_SOLVER_TWO_STREAM)) {
                       d->F_iso_top, d->F_iso_top_l, d->F_iso_bot, d->F_iso_bot_l,
                       I_p, I_m, I_p_l, I_m_l,
                       add_single_scattering,
-                      d->options & XRTM_OPTION_PART_SOL_GREENS,
+                      use_greens(d),
                       d->options & XRTM_OPTION_SFI,
                       solar, thermal, surface,
                       d->options & XRTM_OPTION_UPWELLING_OUTPUT, d->options & XRTM_OPTION_DOWNWELLING_OUTPUT,
-- 
2.43.0


From c848254841727323a0d23269a15f9aa6fe00cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:34 +0000
Subject: [PATCH 55/83] fix: derivatives of the eigenvalues of a layer without
 scattering were zero

---
 src/xrtm_eig_util.c   | 2 +-
 src/xrtm_eig_util_a.c | 6 ------
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/xrtm_eig_util.c b/src/xrtm_eig_util.c
index 3d05951..78ed1a6 100644
--- a/src/xrtm_eig_util.c
+++ b/src/xrtm_eig_util.c
@@ -338,7 +338,7 @@ static void eig_1n_gen_real(int n_quad, int n_derivs,
 
           for (i = 0; i < n_quad; ++i) {
 
-               if (is_trivial_eigenvector(i, n_quad, evecs))
+               if (is_trivial_eigenvector(i, n_quad, evecs) && is_degenerate_eigenvalue(i, n_quad, evals))
 /*
                if (is_dummy_node_eigenvector(i, n_quad, evecs))
 */
diff --git a/src/xrtm_eig_util_a.c b/src/xrtm_eig_util_a.c
index 2ce0996..1dfd8e2 100644
--- a/src/xrtm_eig_util_a.c
+++ b/src/xrtm_eig_util_a.c
@@ -29,12 +29,6 @@ static void eigen_derivatives_real_a(int i, int n_quad, double **gamma, double *
      double a;
      double b;
 
-     if (is_trivial_eigenvector(i, n_quad, evecs))
-/*
-     if (is_dummy_node_eigenvector(i, n_quad, evecs))
-*/
-          return;
-
      if (is_degenerate_eigenvalue(i, n_quad, evals_r))
           return;
 if (! flag) {
-- 
2.43.0


From 97dbde865cd4868f241036ec6913f6915dccd19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:14 +0000
Subject: [PATCH 56/83] fix: two_os derivatives with respect to the slant path
 had wrong terms

---
 src/xrtm_two_os.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 72a3105..29046f4 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -655,11 +655,11 @@ if (0) {
 
                     for (m = 0; m < n_derivs; ++m) {
                          if (y[k] == x[l])
-                              Phi2_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * ((-ltau_l[j][m] * (y[k] + as_0[j]) - as_0_l[j][m]))) * b;
+                              Phi2_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * ((-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m]))) * b;
                          else
                               Phi2_l[j][m][k][l] = ((-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m]) * b - (-ltau_l[j][m] * (x[l] + as_0[j]) - ltau[j] * as_0_l[j][m]) * c) / (x[l] - y[k]);
                          if (as_0[j] == x[l])
-                              Phi3_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * -ltau[j] * (x[l] + y[k])) * d;
+                              Phi3_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * (-ltau_l[j][m] * (x[l] + y[k]) - ltau[j] * as_0_l[j][m] / 2.)) * d;
                          else
                               Phi3_l[j][m][k][l] = ((-ltau_l[j][m] * (x[l] + y[k]) * d - (-ltau_l[j][m] * (as_0[j] + y[k]) - ltau[j] * as_0_l[j][m]) * e) - Phi3[j][k][l] * as_0_l[j][m]) / (as_0[j] - x[l]);
                     }
@@ -742,7 +742,7 @@ if (0) {
                     a = 0.;
                     for (l = 0; l < n_quad_v_x; ++l) {
                          a += (Phi3_l[j][m][k][l] * R_p[j+1][k][l] + Phi3[j][k][l] * R_p_l[j+1][m][k][l] +
-                               r_m_l[j][m][k][l] * w4[k][l] + r_m[j][k][l] * w1[k][l] * as_0_l[j][m] * (x[l] + y[k]) / ((y[k] + as_0[j]) * (x[l] + y[k])) * w2[k][l] + w3[k][l] * (- Psi1_l[j][m][k] - as_0_l[j][m] * Phi3[j][k][l] - (y[k] + as_0[j]) * Phi3_l[j][m][k][l])) * t_0[j][l];
+                               r_m_l[j][m][k][l] * w4[k][l] - r_m[j][k][l] * w1[k][l] * as_0_l[j][m] * (x[l] + y[k]) / ((y[k] + as_0[j]) * (x[l] + y[k])) * w2[k][l] + w3[k][l] * (- Psi1_l[j][m][k] - as_0_l[j][m] * Phi3[j][k][l] - (y[k] + as_0[j]) * Phi3_l[j][m][k][l])) * t_0[j][l];
 
                          if (derivs->layers[j][m])
                               a += (Phi3[j][k][l] * R_p[j+1][k][l] + r_m[j][k][l] * w4[k][l]) * t_0_l[j][m][l];
-- 
2.43.0


From 40ee699213ea301c47920a1956f7db59836218c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:17 +0000
Subject: [PATCH 57/83] fix: four_stream and six_stream took the cosine of the
 solar zenith angle for the slant path of a layer (psa)

---
 src/xrtm_four_stream.c |  8 ++++----
 src/xrtm_six_stream.c  | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 3505f73..d8ba65a 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -481,8 +481,8 @@ if (solar) {
           h[0] = apb[0][0] * p[0] + apb[0][1] * p[1] + e[0];
           h[1] = apb[1][0] * p[0] + apb[1][1] * p[1] + e[1];
 
-          F_p[i][0] = (mu_0 * h[0] + p[0]) / 2.;
-          F_p[i][1] = (mu_0 * h[1] + p[1]) / 2.;
+          F_p[i][0] = (h[0] / as_0[i] + p[0]) / 2.;
+          F_p[i][1] = (h[1] / as_0[i] + p[1]) / 2.;
 
           F_m[i][0] = F_p[i][0] - p[0];
           F_m[i][1] = F_p[i][1] - p[1];
@@ -497,7 +497,7 @@ if (solar) {
           mat2d_matvec(apb, p, v1);
           vec2d_add(v1, e, h);
 
-          vec2d_scale(mu_0, h, v1);
+          vec2d_scale(1. / as_0[i], h, v1);
           vec2d_add(v1, p, v1);
           vec2d_scale(.5, v1, F_p[i]);
 
@@ -513,7 +513,7 @@ if (solar) {
           dm_v_mul(apb, p, 2, 2, v1);
           dvec_add(v1, e, h, 2);
 
-          dvec_scale(mu_0, h, v1, 2);
+          dvec_scale(1. / as_0[i], h, v1, 2);
           dvec_add(v1, p, v1, 2);
           dvec_scale(.5, v1, F_p[i], 2);
 
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 2e29ff1..e314750 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -681,9 +681,9 @@ if (n_derivs > 0) {
           h[1] = apb[1][0] * p[0] + apb[1][1] * p[1] + apb[1][2] * p[2] + e[1];
           h[2] = apb[2][0] * p[0] + apb[2][1] * p[1] + apb[2][2] * p[2] + e[2];
 
-          F_p[i][0] = (mu_0 * h[0] + p[0]) / 2.;
-          F_p[i][1] = (mu_0 * h[1] + p[1]) / 2.;
-          F_p[i][2] = (mu_0 * h[2] + p[2]) / 2.;
+          F_p[i][0] = (h[0] / as_0[i] + p[0]) / 2.;
+          F_p[i][1] = (h[1] / as_0[i] + p[1]) / 2.;
+          F_p[i][2] = (h[2] / as_0[i] + p[2]) / 2.;
 
           F_m[i][0] = F_p[i][0] - p[0];
           F_m[i][1] = F_p[i][1] - p[1];
@@ -699,7 +699,7 @@ if (n_derivs > 0) {
           mat3d_matvec(apb, p, v1);
           vec3d_add(v1, e, h);
 
-          vec3d_scale(mu_0, h, v1);
+          vec3d_scale(1. / as_0[i], h, v1);
           vec3d_add(v1, p, v1);
           vec3d_scale(.5, v1, F_p[i]);
 
@@ -715,7 +715,7 @@ if (n_derivs > 0) {
           dm_v_mul(apb, p, 3, 3, v1);
           dvec_add(v1, e, h, 3);
 
-          dvec_scale(mu_0, h, v1, 3);
+          dvec_scale(1. / as_0[i], h, v1, 3);
           dvec_add(v1, p, v1, 3);
           dvec_scale(.5, v1, F_p[i], 3);
 
-- 
2.43.0


From 0a938b09a091988e62a717bf10c1434b83fab378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:24 +0000
Subject: [PATCH 58/83] fix: forward and backward finite differences left the
 inputs perturbed

---
 src/xrtm_fd_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 3534f0f..4a08727 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1189,6 +1189,11 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                          }
                     }
                }
+
+               if (perturb_values(d, j, solver, -f, coef)) {
+                    fprintf(stderr, "ERROR: perturb_values()\n");
+                    return -1;
+               }
           }
 
 
-- 
2.43.0


From b02726e258b0915889400d58aa231c3c2ab1d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:24 +0000
Subject: [PATCH 59/83] fix: backward finite differences had the wrong sign

---
 src/xrtm_fd_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 4a08727..5836e50 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1183,8 +1183,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] = (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
-                                   I_m_l[i][j][k][l][m] = (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
+                                   I_p_l[i][j][k][l][m] = f * (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
+                                   I_m_l[i][j][k][l][m] = f * (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
                               }
                          }
                     }
-- 
2.43.0


From adf39be64905b38b166796482d43e34a845d6692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:24 +0000
Subject: [PATCH 60/83] fix: xrtm_fd_set_levels_b_p_1() used an index that was
 never set

---
 src/xrtm_fd_interface.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 5836e50..9dfdba3 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -310,7 +310,6 @@ double xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {
 int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 
      int i;
-     int j;
 
      if (! (d->d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
@@ -319,8 +318,10 @@ int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 /*
      CHECK_INIT_FOR_DERIVS();
 */
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+
      for (i = 0; i < d->d->n_layers + 1; ++i)
-          d->levels_b_p[i][j] = levels_b_p[i_deriv];
+          d->levels_b_p[i][i_deriv] = levels_b_p[i];
 /*
      set_deps(d, DEP_MASK_LEVELS_B_L, 0, d->n_layers);
 */
-- 
2.43.0


From b1b6af16704149d8cf7b7ceaba6f79a94548ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:24 +0000
Subject: [PATCH 61/83] fix: finite differences ignored isotropic illumination
 without thermal sources

---
 src/xrtm_fd_interface.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 9dfdba3..9c1edd4 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1001,17 +1001,17 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
      double *levels_b;
 
-     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
-           if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
-                return -1;
-           }
+     if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
+          return -1;
+     }
 
-           if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
-                return -1;
-           }
+     if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
+          return -1;
+     }
 
+     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
            levels_b = alloc_array1_d(d->d->n_layers + 1);
 
            if (xrtm_get_levels_b(d->d, levels_b)) {
-- 
2.43.0


From 7ed9ad1e4d793995d19702eff6c1fa6f42920e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:24 +0000
Subject: [PATCH 62/83] fix: xrtm_fd_get_coef_p() did not check its index of
 coefficients

---
 src/xrtm_fd_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 9c1edd4..268568f 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -650,8 +650,8 @@ double xrtm_fd_get_coef_p(xrtm_fd_data *d, int i_layer, int i_deriv, int i_elem,
 
      CHECK_INDEX_RANGE(i_layer, d->d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs,                 "i_deriv", "n_derivs",              XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_elem,  6,                           "i_elem",  "6",                     XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_layer, d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_elem,  d->d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_coef,  d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
      return d->coef_p[i_layer][i_deriv][i_elem][i_coef];
 }
-- 
2.43.0


From d39a14fb1ed32b5830d83b9dca7520c59db92b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:29 +0000
Subject: [PATCH 63/83] fix: callxrtm accepted an unknown solver name

---
 utils/callxrtm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/callxrtm.c b/utils/callxrtm.c
index 134e3f4..212299b 100644
--- a/utils/callxrtm.c
+++ b/utils/callxrtm.c
@@ -200,7 +200,7 @@ int main(int argc, char *argv[]) {
                     o.flux_divergence = 1;
                else if (strcmp(argv[i], "-solver") == 0) {
                     check_arg_count(i, argc, 1, argv[i]);
-                    if ((solver = xrtm_solver_name_to_mask(argv[++i])) == 0) {
+                    if ((solver = xrtm_solver_name_to_mask(argv[++i])) <= 0) {
                          printf("ERROR: xrtm_solver_name_to_mask()\n");
                          exit(1);
                     }
-- 
2.43.0


From d4b070854fe7ff57f0fdd7eedf26a72a02c577e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:29 +0000
Subject: [PATCH 64/83] fix: the input statement coef_p set linearized
 coefficients of the model instead of perturbed ones

---
 utils/input_util.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 311d7fd..afb61d3 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -982,7 +982,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_coef = xrtm_get_n_coef(input->d, dimens[0]);
           x2 = parse_coef_1(input, n_elem, n_coef);
-          if (xrtm_set_coef_l_11(input->d, dimens[0], dimens[1], x2)) {
+          if (xrtm_set_coef_x_11(d, dimens[0], dimens[1], x2)) {
                input_error(&input->locus, "xrtm_set_coef_%s_11()", type);
                exit(1);
           }
@@ -996,7 +996,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_layers = xrtm_get_n_layers(input->d);
           x3 = parse_coef_2(input, n_layers, n_elem, n_coef);
-          if (xrtm_set_coef_l_n1(input->d, dimens[1], x3)) {
+          if (xrtm_set_coef_x_n1(d, dimens[1], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_n1()", type);
                exit(1);
           }
@@ -1012,7 +1012,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_coef = xrtm_get_n_coef(input->d, dimens[0]);
           x3 = parse_coef_2(input, n_derivs, n_elem, n_coef);
-          if (xrtm_set_coef_l_1n(input->d, dimens[0], x3)) {
+          if (xrtm_set_coef_x_1n(d, dimens[0], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_1n()", type);
                exit(1);
           }
@@ -1028,7 +1028,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_layers = xrtm_get_n_layers(input->d);
           x4 = parse_coef_3(input, n_layers, n_derivs, n_elem, n_coef);
-          if (xrtm_set_coef_l_nn(input->d, x4)) {
+          if (xrtm_set_coef_x_nn(d, x4)) {
                input_error(&input->locus, "xrtm_set_coef_%s_nn()", type);
                exit(1);
           }
-- 
2.43.0


From 172743d290c8ef64fc48de7979fcf41378282f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:29 +0000
Subject: [PATCH 65/83] fix: coef_files_l[:][j] took the number of derivatives
 for the number of layers

---
 utils/input_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index afb61d3..f0d869e 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1211,7 +1211,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
      if ( n == 2 && dimens[0] == -1 && dimens[1] > -1) {
           parse_equal(input);
 
-          n_layers = xrtm_get_n_derivs(input->d);
+          n_layers = xrtm_get_n_layers(input->d);
 
           x1 = parse_array1_string(input, n_layers);
 
-- 
2.43.0


From 36de6b5ecf5b9956cf6732df6ba8d5641f31bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:29 +0000
Subject: [PATCH 66/83] fix: inputs for finite differences were refused as the
 first input after the dimensions

---
 utils/input_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index f0d869e..dc271b3 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1990,7 +1990,7 @@ static void input_parse1(input_data *input) {
                     n_out_thetas = parse_scaler_int(input);
                     break;
                default:
-                    if (r >= XRTM_INPUT_DOUB_D_TAU && r <= XRTM_INPUT_KERNEL_PARAMS_L) {
+                    if (r >= XRTM_INPUT_DOUB_D_TAU && r <= XRTM_INPUT_KERNEL_PARAMS_P) {
                          yyrewind(r, &lex_type);
                          goto L1;
                     }
-- 
2.43.0


From ef871381accd00e36dde75c59456f47c6ac50bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:43 +0000
Subject: [PATCH 67/83] fix: the number of kernels in the input was not checked
 against n_kernels

---
 utils/input_util.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/input_util.c b/utils/input_util.c
index dc271b3..0cf7041 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1901,6 +1901,7 @@ static void input_parse1(input_data *input) {
      int n_layers      = -999;
      int n_kernels     = -999;
      int n_kernel_quad = -999;
+     int n_kernels2    = 0;
      int *kernels      = NULL;
      int n_out_levels  = -999;
      int n_out_thetas  = -999;
@@ -1979,6 +1980,7 @@ static void input_parse1(input_data *input) {
                          input_error(&input->locus, "invalid kernel string");
                          exit(1);
                     }
+                    n_kernels2 = fdclist_count(list);
                     fdclist_free(list);
                     break;
                case XRTM_INPUT_N_OUT_LEVELS:
@@ -2006,6 +2008,11 @@ L1:  if (flag && options & XRTM_OPTION_CALC_DERIVS) {
           exit(1);
      }
 
+     if (n_kernels > 0 && n_kernels2 != n_kernels) {
+          fprintf(stderr, "ERROR: number of \"kernels\" must be equal to \"n_kernels\"\n");
+          exit(1);
+     }
+
      if (! flag)
           n_derivs2 = n_derivs;
      else {
-- 
2.43.0


From 7ff5fef6070e660ebd7dbab5f1017250538169c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:43 +0000
Subject: [PATCH 68/83] fix: inputs for finite differences used an instance
 that was never created

---
 utils/input_util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/input_util.c b/utils/input_util.c
index 0cf7041..13afc33 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -2057,6 +2057,11 @@ static void input_parse2(input_data *input) {
           n_derivs = xrtm_fd_get_n_derivs(input->fd);
 
      while ((r = yylex(&input->locus, &lex_type))) {
+          if (r >= XRTM_INPUT_DELTA && r <= XRTM_INPUT_KERNEL_PARAMS_P && input->md->fd_method < 0) {
+               input_error(&input->locus, "\"%s\" requires \"fd\"", get_yytext());
+               exit(1);
+          }
+
           switch(r) {
                case XRTM_INPUT_DOUB_D_TAU:
                     parse_scaler_param_double(input, "doub_d_tau", xrtm_set_doub_d_tau);
-- 
2.43.0


From 036244601e386a8d4155633dec209755b2402814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:03 +0000
Subject: [PATCH 69/83] fix: coefficients perturbed by finite differences were
 out of the range of the names of their files

---
 utils/input_util.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 13afc33..e88bda8 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1888,6 +1888,23 @@ static int print_kernel_params_l(FILE *fp, format_data *f, xrtm_data *d, int i_k
 /*******************************************************************************
  *
  ******************************************************************************/
+static void misc_init_coef_files_l(misc_data *md, int n_derivs) {
+
+     int i;
+     int j;
+
+     md->n_derivs = n_derivs;
+
+     md->coef_files_l = (char ***) alloc_array2(md->n_layers, md->n_derivs, sizeof(char *));
+     for (i = 0; i < md->n_layers; ++i) {
+          for (j = 0; j < md->n_derivs; ++j) {
+               md->coef_files_l[i][j] = NULL;
+          }
+     }
+}
+
+
+
 static void input_parse1(input_data *input) {
 
      int r;
@@ -2034,6 +2051,9 @@ L1:  if (flag && options & XRTM_OPTION_CALC_DERIVS) {
 
      misc_init(input->d, input->md, fd_method);
 
+     if (flag && fd_method >= 0)
+          misc_init_coef_files_l(input->md, n_derivs3);
+
      free_array1_i(kernels);
 
      return;
@@ -2261,7 +2281,6 @@ static void input_free(input_data *input) {
 void misc_init(xrtm_data *d, misc_data *md, int fd_method) {
 
      int i;
-     int j;
 
      md->n_layers = xrtm_get_n_layers(d);
      md->n_derivs = xrtm_get_n_derivs(d);
@@ -2273,14 +2292,8 @@ void misc_init(xrtm_data *d, misc_data *md, int fd_method) {
           md->coef_files[i] = NULL;
 
      md->coef_files_l = NULL;
-     if (md->n_derivs > 0 || md->fd_method >= 0) {
-          md->coef_files_l = (char ***) alloc_array2(md->n_layers, md->n_derivs, sizeof(char *));
-          for (i = 0; i < md->n_layers; ++i) {
-               for (j = 0; j < md->n_derivs; ++j) {
-                    md->coef_files_l[i][j] = NULL;
-               }
-          }
-     }
+     if (md->n_derivs > 0)
+          misc_init_coef_files_l(md, md->n_derivs);
 }
 
 
@@ -2294,7 +2307,7 @@ void misc_free(misc_data *md) {
           free(md->coef_files[i]);
      free_array1(md->coef_files);
 
-     if (md->n_derivs > 0 || md->fd_method >= 0) {
+     if (md->n_derivs > 0) {
           for (i = 0; i < md->n_layers; ++i) {
                for (j = 0; j < md->n_derivs; ++j) {
                     free(md->coef_files_l[i][j]);
-- 
2.43.0


From af772de976e92bfe08a1d4ef28a93b309b759fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:03 +0000
Subject: [PATCH 70/83] fix: the normalization of scattering coefficients from
 files only normalized the first

---
 misc/rtutil_scat_io.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 414280d..edefc5b 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1786,6 +1786,8 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      double f_l;
      double rho_l;
 
+     double norm;
+
      double **coefs;
 
      temp = strdup(filename);
@@ -1989,9 +1991,10 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      }
 
      if (coefs[0][0] != 0. && coefs[0][0] != 1.) {
+          norm = coefs[0][0];
           for (i = 0; i < 6; ++i) {
                for (j = 0; j < n_coef2; ++j) {
-                    coefs[i][j] /= coefs[0][0];
+                    coefs[i][j] /= norm;
                }
           }
      }
-- 
2.43.0


From 88c5dc34ff1b9b0db359239ddb4ee19feff6af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:41 +0000
Subject: [PATCH 71/83] fix: derivatives of coefficients before the
 coefficients in the input used an error code as a size

---
 utils/input_util.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index e88bda8..9e2648f 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -957,6 +957,20 @@ static void parse_coef(input_data *input) {
 
 
 
+static int get_n_coef(input_data *input, int i_layer) {
+
+     int n_coef;
+
+     if ((n_coef = xrtm_get_n_coef(input->d, i_layer)) == XRTM_INT_ERROR) {
+          input_error(&input->locus, "xrtm_get_n_coef(), i_layer = %d", i_layer);
+          exit(1);
+     }
+
+     return n_coef;
+}
+
+
+
 static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *type, int (*xrtm_set_coef_x_11)(void *, int, int, double **), int (*xrtm_set_coef_x_n1)(void *, int, double ***), int (*xrtm_set_coef_x_1n)(void *, int, double ***), int (*xrtm_set_coef_x_nn)(void *, double ****)) {
 
      int i;
@@ -980,7 +994,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
 
      if (n == 2 && dimens[0] > -1 && dimens[1] > -1) {
           parse_equal(input);
-          n_coef = xrtm_get_n_coef(input->d, dimens[0]);
+          n_coef = get_n_coef(input, dimens[0]);
           x2 = parse_coef_1(input, n_elem, n_coef);
           if (xrtm_set_coef_x_11(d, dimens[0], dimens[1], x2)) {
                input_error(&input->locus, "xrtm_set_coef_%s_11()", type);
@@ -1010,7 +1024,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
      else
      if ((n == 1 && dimens[0] > -1) || (n == 2 && dimens[0] > -1 && dimens[1] == -1)) {
           parse_equal(input);
-          n_coef = xrtm_get_n_coef(input->d, dimens[0]);
+          n_coef = get_n_coef(input, dimens[0]);
           x3 = parse_coef_2(input, n_derivs, n_elem, n_coef);
           if (xrtm_set_coef_x_1n(d, dimens[0], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_1n()", type);
@@ -1182,7 +1196,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
 
           x = parse_scaler_string(input);
 
-          n_coef_layer = xrtm_get_n_coef(input->d, dimens[0]);
+          n_coef_layer = get_n_coef(input, dimens[0]);
 
           if ((n_coef2 = load_scat_coefs2(x, n_coef_layer, n_coef, &coef, &flag)) < 0) {
                fprintf(stderr, "ERROR: load_scat_coefs2(), layer %d, deriv %d\n", dimens[0], dimens[1]);
@@ -1218,7 +1232,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
           coef1 = (double ***) alloc_array1(n_layers, sizeof(double **));
 
           for (i = 0; i < n_layers; ++i) {
-               n_coef_layer = xrtm_get_n_coef(input->d, i);
+               n_coef_layer = get_n_coef(input, i);
 
                if ((n_coef2 = load_scat_coefs2(x1[i], n_coef_layer, n_coef, &coef1[i], &flag)) < 0) {
                     fprintf(stderr, "ERROR: load_scat_coefs2(), layer %d, deriv %d\n", i, dimens[1]);
@@ -1257,7 +1271,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
 
           coef1 = (double ***) alloc_array1(n_derivs, sizeof(double **));
 
-          n_coef_layer = xrtm_get_n_coef(input->d, dimens[0]);
+          n_coef_layer = get_n_coef(input, dimens[0]);
 
           for (i = 0; i < n_derivs; ++i) {
                if ((n_coef2 = load_scat_coefs2(x1[i], n_coef_layer, n_coef, &coef1[i], &flag)) < 0) {
@@ -1300,7 +1314,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
           coef2 = (double ****) alloc_array2(n_layers, n_derivs, sizeof(double **));
 
           for (i = 0; i < n_layers; ++i) {
-               n_coef_layer = xrtm_get_n_coef(input->d, i);
+               n_coef_layer = get_n_coef(input, i);
 
                for (j = 0; j < n_derivs; ++j) {
                     if ((n_coef2 = load_scat_coefs2(x2[i][j], n_coef_layer, n_coef, &coef2[i][j], &flag)) < 0) {
-- 
2.43.0


From d99b985ff98183db5df83e68980fe3357fa8742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:54 +0000
Subject: [PATCH 72/83] fix: getters of the Fortran 77 interface returned a
 status instead of the value

---
 interfaces/xrtm_fd_int_f77.f      |  20 +--
 interfaces/xrtm_fd_int_f77_util.c |  66 ++-------
 interfaces/xrtm_int_f77.f         |  50 +++----
 interfaces/xrtm_int_f77_util.c    | 234 +++++-------------------------
 4 files changed, 85 insertions(+), 285 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77.f b/interfaces/xrtm_fd_int_f77.f
index 5794ae0..0f1eb0d 100644
--- a/interfaces/xrtm_fd_int_f77.f
+++ b/interfaces/xrtm_fd_int_f77.f
@@ -78,7 +78,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_top_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_top_p_bindx_f77
       xrtm_fd_get_F_iso_top_p_f77 = xrtm_fd_get_F_iso_top_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_top_p_f77
@@ -111,7 +111,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_bot_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_bot_p_bindx_f77
       xrtm_fd_get_F_iso_bot_p_f77 = xrtm_fd_get_F_iso_bot_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_bot_p_f77
@@ -144,7 +144,7 @@ c***********************************************************************
       byte d(*)
       integer i_deriv
       real*8 levels_b_l(*)
-      integer xrtm_fd_get_levels_b_p_bindx_f77
+      real*8 xrtm_fd_get_levels_b_p_bindx_f77
       xrtm_fd_get_levels_b_p_f77 = xrtm_fd_get_levels_b_p_bindx_f77(d,
      &i_deriv, levels_b_l)
       end function xrtm_fd_get_levels_b_p_f77
@@ -177,7 +177,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_surface_b_p_bindx_f77
+      real*8 xrtm_fd_get_surface_b_p_bindx_f77
       xrtm_fd_get_surface_b_p_f77 = xrtm_fd_get_surface_b_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_surface_b_p_f77
@@ -232,7 +232,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_g_p_bindx_f77
+      real*8 xrtm_fd_get_g_p_bindx_f77
       xrtm_fd_get_g_p_f77 = xrtm_fd_get_g_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_g_p_f77
@@ -292,7 +292,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_fd_get_coef_p_bindx_f77
+      real*8 xrtm_fd_get_coef_p_bindx_f77
       xrtm_fd_get_coef_p_f77 = xrtm_fd_get_coef_p_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_fd_get_coef_p_f77
@@ -349,7 +349,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_omega_p_bindx_f77
+      real*8 xrtm_fd_get_omega_p_bindx_f77
       xrtm_fd_get_omega_p_f77 = xrtm_fd_get_omega_p_bindx_f77(d,
      &i_layer, i_deriv)
       end function xrtm_fd_get_omega_p_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_ltau_p_bindx_f77
+      real*8 xrtm_fd_get_ltau_p_bindx_f77
       xrtm_fd_get_ltau_p_f77 = xrtm_fd_get_ltau_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_ltau_p_f77
@@ -445,7 +445,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_fd_get_kernel_ampfac_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_ampfac_p_bindx_f77
       xrtm_fd_get_kernel_ampfac_p_f77 =
      &xrtm_fd_get_kernel_ampfac_p_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_fd_get_kernel_ampfac_p_f77
@@ -514,7 +514,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_fd_get_kernel_params_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_params_p_bindx_f77
       xrtm_fd_get_kernel_params_p_f77 =
      &xrtm_fd_get_kernel_params_p_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_fd_get_kernel_params_p_f77
diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 8fb34f6..ed8169f 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -35,11 +35,7 @@ int xrtm_fd_destroy_bindx_f77_(xrtm_fd_data *d)
 
 int xrtm_fd_get_n_derivs_bindx_f77_(xrtm_fd_data *d)
 {
-     if (xrtm_fd_get_n_derivs(d)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_n_derivs(d);
 }
 
 
@@ -91,11 +87,7 @@ double xrtm_fd_get_f_iso_top_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_top_p(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_top_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_F_iso_top_p(d, i_deriv);
 }
 
 
@@ -127,11 +119,7 @@ double xrtm_fd_get_f_iso_bot_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_bot_p(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_bot_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_F_iso_bot_p(d, i_deriv);
 }
 
 
@@ -164,11 +152,7 @@ double xrtm_fd_get_levels_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_levels_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l);
 }
 
 
@@ -200,11 +184,7 @@ double xrtm_fd_get_surface_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_surface_b_p(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_surface_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_surface_b_p(d, i_deriv);
 }
 
 
@@ -267,11 +247,7 @@ double xrtm_fd_get_g_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_g_p(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_g_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_g_p(d, i_layer, i_deriv);
 }
 
 
@@ -345,11 +321,7 @@ double xrtm_fd_get_coef_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_coef_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef);
 }
 
 
@@ -412,11 +384,7 @@ double xrtm_fd_get_omega_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_der
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_omega_p(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_omega_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_omega_p(d, i_layer, i_deriv);
 }
 
 
@@ -479,11 +447,7 @@ double xrtm_fd_get_ltau_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_ltau_p(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_ltau_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_ltau_p(d, i_layer, i_deriv);
 }
 
 
@@ -521,11 +485,7 @@ double xrtm_fd_get_kernel_ampfac_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, i
      int i_deriv;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_kernel_ampfac_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv);
 }
 
 
@@ -598,11 +558,7 @@ double xrtm_fd_get_kernel_params_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, i
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_kernel_params_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param);
 }
 
 
diff --git a/interfaces/xrtm_int_f77.f b/interfaces/xrtm_int_f77.f
index a82190d..a66cec7 100644
--- a/interfaces/xrtm_int_f77.f
+++ b/interfaces/xrtm_int_f77.f
@@ -156,7 +156,7 @@ c***********************************************************************
       real*8 function xrtm_get_doub_d_tau_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_doub_d_tau_bindx_f77
+      real*8 xrtm_get_doub_d_tau_bindx_f77
       xrtm_get_doub_d_tau_f77 = xrtm_get_doub_d_tau_bindx_f77(d)
       end function xrtm_get_doub_d_tau_f77
 
@@ -222,7 +222,7 @@ c***********************************************************************
       real*8 function xrtm_get_fourier_tol_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_fourier_tol_bindx_f77
+      real*8 xrtm_get_fourier_tol_bindx_f77
       xrtm_get_fourier_tol_f77 = xrtm_get_fourier_tol_bindx_f77(d)
       end function xrtm_get_fourier_tol_f77
 
@@ -240,7 +240,7 @@ c***********************************************************************
       real*8 function xrtm_get_lambda_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_lambda_bindx_f77
+      real*8 xrtm_get_lambda_bindx_f77
       xrtm_get_lambda_f77 = xrtm_get_lambda_bindx_f77(d)
       end function xrtm_get_lambda_f77
 
@@ -258,7 +258,7 @@ c***********************************************************************
       real*8 function xrtm_get_planet_r_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_planet_r_bindx_f77
+      real*8 xrtm_get_planet_r_bindx_f77
       xrtm_get_planet_r_f77 = xrtm_get_planet_r_bindx_f77(d)
       end function xrtm_get_planet_r_f77
 
@@ -356,7 +356,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_top_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_top_bindx_f77
+      real*8 xrtm_get_F_iso_top_bindx_f77
       xrtm_get_F_iso_top_f77 = xrtm_get_F_iso_top_bindx_f77(d)
       end function xrtm_get_F_iso_top_f77
 
@@ -387,7 +387,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_top_l_bindx_f77
+      real*8 xrtm_get_F_iso_top_l_bindx_f77
       xrtm_get_F_iso_top_l_f77 = xrtm_get_F_iso_top_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_top_l_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_bot_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_bot_bindx_f77
+      real*8 xrtm_get_F_iso_bot_bindx_f77
       xrtm_get_F_iso_bot_f77 = xrtm_get_F_iso_bot_bindx_f77(d)
       end function xrtm_get_F_iso_bot_f77
 
@@ -437,7 +437,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_bot_l_bindx_f77
+      real*8 xrtm_get_F_iso_bot_l_bindx_f77
       xrtm_get_F_iso_bot_l_f77 = xrtm_get_F_iso_bot_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_bot_l_f77
@@ -456,7 +456,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_0_bindx_f77
+      real*8 xrtm_get_F_0_bindx_f77
       xrtm_get_F_0_f77 = xrtm_get_F_0_bindx_f77(d)
       end function xrtm_get_F_0_f77
 
@@ -474,7 +474,7 @@ c***********************************************************************
       real*8 function xrtm_get_theta_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_theta_0_bindx_f77
+      real*8 xrtm_get_theta_0_bindx_f77
       xrtm_get_theta_0_f77 = xrtm_get_theta_0_bindx_f77(d)
       end function xrtm_get_theta_0_f77
 
@@ -492,7 +492,7 @@ c***********************************************************************
       real*8 function xrtm_get_phi_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_phi_0_bindx_f77
+      real*8 xrtm_get_phi_0_bindx_f77
       xrtm_get_phi_0_f77 = xrtm_get_phi_0_bindx_f77(d)
       end function xrtm_get_phi_0_f77
 
@@ -563,7 +563,7 @@ c***********************************************************************
       real*8 function xrtm_get_surface_b_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_surface_b_bindx_f77
+      real*8 xrtm_get_surface_b_bindx_f77
       xrtm_get_surface_b_f77 = xrtm_get_surface_b_bindx_f77(d)
       end function xrtm_get_surface_b_f77
 
@@ -594,7 +594,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_surface_b_l_bindx_f77
+      real*8 xrtm_get_surface_b_l_bindx_f77
       xrtm_get_surface_b_l_f77 = xrtm_get_surface_b_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_surface_b_l_f77
@@ -625,7 +625,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_g_bindx_f77
+      real*8 xrtm_get_g_bindx_f77
       xrtm_get_g_f77 = xrtm_get_g_bindx_f77(d, i_layer)
       end function xrtm_get_g_f77
 
@@ -679,7 +679,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_g_l_bindx_f77
+      real*8 xrtm_get_g_l_bindx_f77
       xrtm_get_g_l_f77 = xrtm_get_g_l_bindx_f77(d, i_layer, i_deriv)
       end function xrtm_get_g_l_f77
 
@@ -723,7 +723,7 @@ c***********************************************************************
       integer i_layer
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_bindx_f77
+      real*8 xrtm_get_coef_bindx_f77
       xrtm_get_coef_f77 = xrtm_get_coef_bindx_f77(d, i_layer, i_elem,
      &i_coef)
       end function xrtm_get_coef_f77
@@ -782,7 +782,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_l_bindx_f77
+      real*8 xrtm_get_coef_l_bindx_f77
       xrtm_get_coef_l_f77 = xrtm_get_coef_l_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_get_coef_l_f77
@@ -813,7 +813,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_omega_bindx_f77
+      real*8 xrtm_get_omega_bindx_f77
       xrtm_get_omega_f77 = xrtm_get_omega_bindx_f77(d, i_layer)
       end function xrtm_get_omega_f77
 
@@ -869,7 +869,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_omega_l_bindx_f77
+      real*8 xrtm_get_omega_l_bindx_f77
       xrtm_get_omega_l_f77 = xrtm_get_omega_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_omega_l_f77
@@ -900,7 +900,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_ltau_bindx_f77
+      real*8 xrtm_get_ltau_bindx_f77
       xrtm_get_ltau_f77 = xrtm_get_ltau_bindx_f77(d, i_layer)
       end function xrtm_get_ltau_f77
 
@@ -955,7 +955,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_ltau_l_bindx_f77
+      real*8 xrtm_get_ltau_l_bindx_f77
       xrtm_get_ltau_l_f77 = xrtm_get_ltau_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_ltau_l_f77
@@ -976,7 +976,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_kernel
-      integer xrtm_get_kernel_ampfac_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_bindx_f77
       xrtm_get_kernel_ampfac_f77 = xrtm_get_kernel_ampfac_bindx_f77(d,
      &i_kernel)
       end function xrtm_get_kernel_ampfac_f77
@@ -1013,7 +1013,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_param
-      integer xrtm_get_kernel_params_bindx_f77
+      real*8 xrtm_get_kernel_params_bindx_f77
       xrtm_get_kernel_params_f77 = xrtm_get_kernel_params_bindx_f77(d,
      &i_kernel, i_param)
       end function xrtm_get_kernel_params_f77
@@ -1051,7 +1051,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_get_kernel_ampfac_l_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_l_bindx_f77
       xrtm_get_kernel_ampfac_l_f77 =
      &xrtm_get_kernel_ampfac_l_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_get_kernel_ampfac_l_f77
@@ -1120,7 +1120,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_get_kernel_params_l_bindx_f77
+      real*8 xrtm_get_kernel_params_l_bindx_f77
       xrtm_get_kernel_params_l_f77 =
      &xrtm_get_kernel_params_l_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_get_kernel_params_l_f77
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 5c06d9a..443ec98 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -57,91 +57,55 @@ int xrtm_destroy_bindx_f77_(xrtm_data *d)
 
 int xrtm_get_options_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_options(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_options()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_options(d);
 }
 
 
 int xrtm_get_solvers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_solvers(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_solvers()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_solvers(d);
 }
 
 
 int xrtm_get_max_coef_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_max_coef(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_max_coef()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_max_coef(d);
 }
 
 
 int xrtm_get_n_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_quad(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_quad()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_quad(d);
 }
 
 
 int xrtm_get_n_stokes_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_stokes(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_stokes()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_stokes(d);
 }
 
 
 int xrtm_get_n_derivs_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_derivs(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_derivs(d);
 }
 
 
 int xrtm_get_n_layers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_layers(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_layers()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_layers(d);
 }
 
 
 int xrtm_get_n_kernels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernels(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_kernels()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_kernels(d);
 }
 
 
 int xrtm_get_n_kernel_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernel_quad(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_kernel_quad()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_kernel_quad(d);
 }
 
 
@@ -149,41 +113,25 @@ enum xrtm_kernel_type xrtm_get_kernel_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel(d, i_kernel)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel(d, i_kernel);
 }
 
 
 int xrtm_get_n_out_levels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_levels(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_out_levels()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_out_levels(d);
 }
 
 
 int xrtm_get_n_out_thetas_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_out_thetas()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_out_thetas(d);
 }
 
 
 int xrtm_get_n_out_thetas_2_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas_2(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_out_thetas_2()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_out_thetas_2(d);
 }
 
 
@@ -201,11 +149,7 @@ int xrtm_set_doub_d_tau_bindx_f77_(xrtm_data *d, double *d_tau_)
 
 double xrtm_get_doub_d_tau_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_doub_d_tau(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_doub_d_tau()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_doub_d_tau(d);
 }
 
 
@@ -273,11 +217,7 @@ int xrtm_set_fourier_tol_bindx_f77_(xrtm_data *d, double *fourier_tol_)
 
 double xrtm_get_fourier_tol_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_fourier_tol(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_fourier_tol()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_fourier_tol(d);
 }
 
 
@@ -295,11 +235,7 @@ int xrtm_set_lambda_bindx_f77_(xrtm_data *d, double *lambda_)
 
 double xrtm_get_lambda_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_lambda(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_lambda()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_lambda(d);
 }
 
 
@@ -317,11 +253,7 @@ int xrtm_set_planet_r_bindx_f77_(xrtm_data *d, double *planet_r_)
 
 double xrtm_get_planet_r_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_planet_r(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_planet_r()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_planet_r(d);
 }
 
 
@@ -419,11 +351,7 @@ int xrtm_set_f_iso_top_bindx_f77_(xrtm_data *d, double *F_iso_top_)
 
 double xrtm_get_f_iso_top_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_top(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_top()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_top(d);
 }
 
 
@@ -455,11 +383,7 @@ double xrtm_get_f_iso_top_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_top_l(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_top_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_top_l(d, i_deriv);
 }
 
 
@@ -477,11 +401,7 @@ int xrtm_set_f_iso_bot_bindx_f77_(xrtm_data *d, double *F_iso_bot_)
 
 double xrtm_get_f_iso_bot_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_bot(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_bot()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_bot(d);
 }
 
 
@@ -513,11 +433,7 @@ double xrtm_get_f_iso_bot_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_bot_l(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_bot_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_bot_l(d, i_deriv);
 }
 
 
@@ -535,11 +451,7 @@ int xrtm_set_f_0_bindx_f77_(xrtm_data *d, double *F_0_)
 
 double xrtm_get_f_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_0(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_0()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_0(d);
 }
 
 
@@ -557,11 +469,7 @@ int xrtm_set_theta_0_bindx_f77_(xrtm_data *d, double *theta_0_)
 
 double xrtm_get_theta_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_theta_0(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_theta_0()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_theta_0(d);
 }
 
 
@@ -579,11 +487,7 @@ int xrtm_set_phi_0_bindx_f77_(xrtm_data *d, double *phi_0_)
 
 double xrtm_get_phi_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_phi_0(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_phi_0()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_phi_0(d);
 }
 
 
@@ -658,11 +562,7 @@ int xrtm_set_surface_b_bindx_f77_(xrtm_data *d, double *surface_b_)
 
 double xrtm_get_surface_b_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_surface_b(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_surface_b()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_surface_b(d);
 }
 
 
@@ -694,11 +594,7 @@ double xrtm_get_surface_b_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_surface_b_l(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_surface_b_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_surface_b_l(d, i_deriv);
 }
 
 
@@ -730,11 +626,7 @@ double xrtm_get_g_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_g(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_g()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_g(d, i_layer);
 }
 
 
@@ -797,11 +689,7 @@ double xrtm_get_g_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_g_l(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_g_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_g_l(d, i_layer, i_deriv);
 }
 
 
@@ -839,11 +727,7 @@ int xrtm_get_n_coef_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_n_coef(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_coef()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_coef(d, i_layer);
 }
 
 
@@ -855,11 +739,7 @@ double xrtm_get_coef_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_elem_, int *
      i_layer = *i_layer_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef(d, i_layer, i_elem, i_coef)) {
-          fprintf(stderr, "ERROR: xrtm_get_coef()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_coef(d, i_layer, i_elem, i_coef);
 }
 
 
@@ -933,11 +813,7 @@ double xrtm_get_coef_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, in
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef)) {
-          fprintf(stderr, "ERROR: xrtm_get_coef_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef);
 }
 
 
@@ -969,11 +845,7 @@ double xrtm_get_omega_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_omega(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_omega()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_omega(d, i_layer);
 }
 
 
@@ -1036,11 +908,7 @@ double xrtm_get_omega_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_omega_l(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_omega_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_omega_l(d, i_layer, i_deriv);
 }
 
 
@@ -1072,11 +940,7 @@ double xrtm_get_ltau_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_ltau(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_ltau()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_ltau(d, i_layer);
 }
 
 
@@ -1139,11 +1003,7 @@ double xrtm_get_ltau_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_ltau_l(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_ltau_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_ltau_l(d, i_layer, i_deriv);
 }
 
 
@@ -1165,11 +1025,7 @@ double xrtm_get_kernel_ampfac_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel_ampfac(d, i_kernel)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_ampfac(d, i_kernel);
 }
 
 
@@ -1207,11 +1063,7 @@ double xrtm_get_kernel_params_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_pa
      int i_param;
      i_kernel = *i_kernel_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params(d, i_kernel, i_param)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_params()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_params(d, i_kernel, i_param);
 }
 
 
@@ -1249,11 +1101,7 @@ double xrtm_get_kernel_ampfac_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_
      int i_deriv;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv);
 }
 
 
@@ -1326,11 +1174,7 @@ double xrtm_get_kernel_params_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_params_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param);
 }
 
 
-- 
2.43.0


From 02b558297735eea92248275f20e2a6a16101b1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:12 +0000
Subject: [PATCH 73/83] fix: pointer tables over memory with a zero dimension
 wrote out of bounds and could alias the caller's memory

---
 misc/gutil_alloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/gutil_alloc.c b/misc/gutil_alloc.c
index 742e28a..febb53e 100644
--- a/misc/gutil_alloc.c
+++ b/misc/gutil_alloc.c
@@ -115,7 +115,7 @@ static void *ptr_array_from_mem(void *a2, int rank, size_t *dimen, int depth, in
 
      length = array_mem_length(rank, dimen, 0);
 
-     if (length == 0)
+     if (rank == 1 || (length == 0 && ! flag))
           return a2;
 
      if (! flag) {
@@ -124,7 +124,7 @@ static void *ptr_array_from_mem(void *a2, int rank, size_t *dimen, int depth, in
           a2 = (uchar *) a2 + length;
      }
      else {
-          a = (void *) malloc(length);
+          a = (void *) malloc(length + sizeof(void *));
           if (a == NULL) {
                fprintf(stderr, "ERROR: memory allocation failed: size = %ld bytes\n", length);
                return NULL;
-- 
2.43.0


From dbe44947fe07e16ebe9ee92e6b07d3cf13e77e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:12 +0000
Subject: [PATCH 74/83] fix: xrtm_get_levels_b_l returned its status as a
 double, against its siblings and the interfaces

---
 src/prototypes/xrtm_interface_p.h | 2 +-
 src/xrtm_interface.c              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/prototypes/xrtm_interface_p.h b/src/prototypes/xrtm_interface_p.h
index c7ff6f8..2995ed6 100644
--- a/src/prototypes/xrtm_interface_p.h
+++ b/src/prototypes/xrtm_interface_p.h
@@ -104,7 +104,7 @@ int xrtm_set_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_get_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_set_levels_b_l_1(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l);
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_surface_b(xrtm_data *d, double surface_b);
 double xrtm_get_surface_b(xrtm_data *d);
 int xrtm_set_surface_b_l_1(xrtm_data *d, int i_deriv, double surface_b_l);
diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index a756422..bbe88b5 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3780,16 +3780,16 @@ int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l) {
 
 
 
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
 
      int i;
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_DBL_ERROR;
+          return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      for (i = 0; i < d->n_layers + 1; ++i)
           levels_b_l[i] = d->levels_b_l[i][i_deriv];
-- 
2.43.0


From 4d9194f69e74507352076d89d37225d80886fdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:42 +0000
Subject: [PATCH 75/83] fix: interfaces sized out_phis by n_out_thetas, zero
 without user angles, instead of n_out_thetas_2

---
 interfaces/xrtm_int_f77_util.c |  4 ++--
 interfaces/xrtm_int_f90_util.c |  4 ++--
 interfaces/xrtm_int_idl.c      | 12 ++++++------
 interfaces/xrtm_int_jl_util.c  |  4 ++--
 interfaces/xrtm_int_py.c       |  4 ++--
 interfaces/xrtm_interface.def  |  4 ++--
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 443ec98..d5b6d53 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -1246,7 +1246,7 @@ int xrtm_solution_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      solver = *solver_;
      solutions = *solutions_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -1285,7 +1285,7 @@ int xrtm_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      double *****K_m2;
      solver = *solver_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index 2739885..263a6f4 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -166,7 +166,7 @@ int xrtm_solution_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int solu
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -201,7 +201,7 @@ int xrtm_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int n_ou
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index 2d8529e..c0618d5 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -3836,11 +3836,11 @@ void IDL_CDECL xrtm_solution_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be of type double");
      if (argv[4]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be an array with 2 dimensions");
-     if (argv[4]->value.arr->dim[1] != (d->n_out_thetas))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas elements");
+     if (argv[4]->value.arr->dim[1] != (d->n_out_thetas_2))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas_2 elements");
      if (argv[4]->value.arr->dim[0] != (n_out_phis))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 1 must have n_out_phis elements");
-     dim[0] = d->n_out_thetas;
+     dim[0] = d->n_out_thetas_2;
      dim[1] = n_out_phis;
      out_phis = (double **) array_from_mem((void *) argv[4]->value.arr->data, 2, dim, sizeof(double), 1);
      I_p_data = malloc((d->n_out_levels) * (d->n_out_thetas_2) * (n_out_phis) * (d->n_stokes) * sizeof(double));
@@ -4012,11 +4012,11 @@ void IDL_CDECL xrtm_radiance_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be of type double");
      if (argv[3]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be an array with 2 dimensions");
-     if (argv[3]->value.arr->dim[1] != (d->n_out_thetas))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas elements");
+     if (argv[3]->value.arr->dim[1] != (d->n_out_thetas_2))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas_2 elements");
      if (argv[3]->value.arr->dim[0] != (n_out_phis))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 1 must have n_out_phis elements");
-     dim[0] = d->n_out_thetas;
+     dim[0] = d->n_out_thetas_2;
      dim[1] = n_out_phis;
      out_phis = (double **) array_from_mem((void *) argv[3]->value.arr->data, 2, dim, sizeof(double), 1);
      I_p_data = malloc((d->n_out_levels) * (d->n_out_thetas_2) * (n_out_phis) * (d->n_stokes) * sizeof(double));
diff --git a/interfaces/xrtm_int_jl_util.c b/interfaces/xrtm_int_jl_util.c
index 3d09b5f..247f25e 100644
--- a/interfaces/xrtm_int_jl_util.c
+++ b/interfaces/xrtm_int_jl_util.c
@@ -337,7 +337,7 @@ int kernel_qw_kernel_qw_dims(xrtm_data *d, size_t *dims)
 
 int solution_out_phis_dims(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, size_t *dims)
 {
-    dims[0] = d->n_out_thetas;
+    dims[0] = d->n_out_thetas_2;
     dims[1] = n_out_phis;
     return 0;
 }
@@ -462,7 +462,7 @@ int solution_flux_div_l_dims(xrtm_data *d, enum xrtm_solver_mask solver, int sol
 
 int radiance_out_phis_dims(xrtm_data *d, enum xrtm_solver_mask solver, int n_out_phis, double **out_phis, size_t *dims)
 {
-    dims[0] = d->n_out_thetas;
+    dims[0] = d->n_out_thetas_2;
     dims[1] = n_out_phis;
     return 0;
 }
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 82b0302..6407db7 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -2420,7 +2420,7 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
@@ -2561,7 +2561,7 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index fd16cac..2f4a1d0 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -119,8 +119,8 @@ subprogram_general int 0 qx			        0, double 1 "d->n_quad" qx out;
 subprogram_general int 0 qw			        0, double 1 "d->n_quad" qw out;
 subprogram_general int 0 kernel_qx			0, double 1 "d->n_kernel_quad" kernel_qx out;
 subprogram_general int 0 kernel_qw			0, double 1 "d->n_kernel_quad" kernel_qw out;
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
 subprogram_general int 0 mean_radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out;
 subprogram_general int 0 flux				0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out;
 subprogram_general int 0 flux_divergence		0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-- 
2.43.0


From fe6750e492b5eed8e20e6c32c8f4e119b03525a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:01 +0000
Subject: [PATCH 76/83] fix: interfaces allocated n_quad values for xrtm_qx()
 and xrtm_qw(), which write n_quad + n_out_thetas

---
 interfaces/xrtm_int_idl.c     | 8 ++++----
 interfaces/xrtm_int_jl_util.c | 4 ++--
 interfaces/xrtm_int_py.c      | 4 ++--
 interfaces/xrtm_interface.def | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index c0618d5..e58e898 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -3696,11 +3696,11 @@ void IDL_CDECL xrtm_qx_dlm(int argc, IDL_VPTR argv[], char *argk)
      if (argv[0]->type != IDL_TYP_BYTE)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: Invalid xrtm instance");
      d = (xrtm_data *) argv[0]->value.arr->data;
-     qx = malloc((d->n_quad) * sizeof(double));
+     qx = malloc((d->n_quad + d->n_out_thetas) * sizeof(double));
      r = xrtm_qx(d, qx);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_qx()");
-     dim_idl[0] = d->n_quad;
+     dim_idl[0] = d->n_quad + d->n_out_thetas;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) qx, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
@@ -3718,11 +3718,11 @@ void IDL_CDECL xrtm_qw_dlm(int argc, IDL_VPTR argv[], char *argk)
      if (argv[0]->type != IDL_TYP_BYTE)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: Invalid xrtm instance");
      d = (xrtm_data *) argv[0]->value.arr->data;
-     qw = malloc((d->n_quad) * sizeof(double));
+     qw = malloc((d->n_quad + d->n_out_thetas) * sizeof(double));
      r = xrtm_qw(d, qw);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_qw()");
-     dim_idl[0] = d->n_quad;
+     dim_idl[0] = d->n_quad + d->n_out_thetas;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) qw, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
diff --git a/interfaces/xrtm_int_jl_util.c b/interfaces/xrtm_int_jl_util.c
index 247f25e..c8859fa 100644
--- a/interfaces/xrtm_int_jl_util.c
+++ b/interfaces/xrtm_int_jl_util.c
@@ -309,14 +309,14 @@ int set_kernel_params_l_nn_params_l_dims(xrtm_data *d, int i_kernel, double **pa
 
 int qx_qx_dims(xrtm_data *d, size_t *dims)
 {
-    dims[0] = d->n_quad;
+    dims[0] = d->n_quad + d->n_out_thetas;
     return 0;
 }
 
 
 int qw_qw_dims(xrtm_data *d, size_t *dims)
 {
-    dims[0] = d->n_quad;
+    dims[0] = d->n_quad + d->n_out_thetas;
     return 0;
 }
 
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 6407db7..c59a6dd 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -2287,7 +2287,7 @@ static PyObject *xrtm_qx_py(xrtm_data_py *self, PyObject *args)
      double *qx;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_quad;
+     dims[0] = d->n_quad + d->n_out_thetas;
      qx_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qx_ndarray == NULL)
           return NULL;
@@ -2310,7 +2310,7 @@ static PyObject *xrtm_qw_py(xrtm_data_py *self, PyObject *args)
      double *qw;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_quad;
+     dims[0] = d->n_quad + d->n_out_thetas;
      qw_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qw_ndarray == NULL)
           return NULL;
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index 2f4a1d0..cf8999b 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -115,8 +115,8 @@ subprogram_general int 0 set_kernel_params_l_nn		0, int 0 i_kernel in, double 2
 subprogram_general double 0 get_kernel_params_l		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 subprogram_general int 0 update_varied_layers		0;
 
-subprogram_general int 0 qx			        0, double 1 "d->n_quad" qx out;
-subprogram_general int 0 qw			        0, double 1 "d->n_quad" qw out;
+subprogram_general int 0 qx			        0, double 1 "d->n_quad + d->n_out_thetas" qx out;
+subprogram_general int 0 qw			        0, double 1 "d->n_quad + d->n_out_thetas" qw out;
 subprogram_general int 0 kernel_qx			0, double 1 "d->n_kernel_quad" kernel_qx out;
 subprogram_general int 0 kernel_qw			0, double 1 "d->n_kernel_quad" kernel_qw out;
 subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-- 
2.43.0


From dfd5a40f76dd7ee2c98472cd4f5db1a85c5d5e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:08 +0000
Subject: [PATCH 77/83] fix: the Python get_kernel() passed an enumeration to
 %s and a shape message lacked an argument

---
 interfaces/xrtm_int_py.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index c59a6dd..d36ed75 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -98,7 +98,7 @@ static int check_pyarray_shape(PyObject *array, const char *name, int n, ...)
      va_list valist;
      n_py = PyArray_NDIM((PyArrayObject *) array);
      if (n_py != n) {
-          PyErr_Format(XRTMError, "ERROR: Number of dimensions for %s input (%d) must be == %d", name, n_py);
+          PyErr_Format(XRTMError, "ERROR: Number of dimensions for %s input (%d) must be == %d", name, n_py, n);
           return -1;
      }
      va_start(valist, n);
@@ -333,7 +333,7 @@ static PyObject *xrtm_get_kernel_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_kernel()");
           return NULL;
      }
-     return Py_BuildValue("s", r);
+     return Py_BuildValue("s", xrtm_kernel_value_to_name(r));
 }
 
 
-- 
2.43.0


From 747669862bd81dc445a73e1b5edd24c7f71f4675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:23 +0000
Subject: [PATCH 78/83] fix: Fortran interfaces of xrtm_fd sized arrays by the
 wrapped instance's n_derivs, which is zero

---
 interfaces/xrtm_fd_int_f77_util.c | 36 +++++++++++++++----------------
 interfaces/xrtm_fd_int_f90_util.c | 36 +++++++++++++++----------------
 interfaces/xrtm_fd_interface.def  | 18 ++++++++--------
 3 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index ed8169f..957b597 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -138,7 +138,7 @@ int xrtm_fd_set_levels_b_p_1_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double *
 int xrtm_fd_set_levels_b_p_n_bindx_f77_(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
-     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
+     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           return -1;
@@ -231,7 +231,7 @@ int xrtm_fd_set_g_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *g_l)
 int xrtm_fd_set_g_p_nn_bindx_f77_(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
-     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
+     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           return -1;
@@ -288,7 +288,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
      int i_layer;
      double ***coef_l2;
      i_layer = *i_layer_;
-     coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -301,7 +301,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
 int xrtm_fd_set_coef_p_nn_bindx_f77_(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
-     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
+     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           return -1;
@@ -368,7 +368,7 @@ int xrtm_fd_set_omega_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *om
 int xrtm_fd_set_omega_p_nn_bindx_f77_(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
-     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
+     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           return -1;
@@ -431,7 +431,7 @@ int xrtm_fd_set_ltau_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *lta
 int xrtm_fd_set_ltau_p_nn_bindx_f77_(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
-     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
+     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           return -1;
@@ -540,7 +540,7 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
      int i_kernel;
      double **params_l2;
      i_kernel = *i_kernel_;
-     params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
@@ -582,16 +582,16 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solutions = *solutions_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->d->n_derivs);
-     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->n_derivs);
+     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->n_derivs);
+     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->n_derivs);
      if (xrtm_fd_solution(d, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
           return -1;
@@ -623,11 +623,11 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solver = *solver_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, (enum xrtm_solver_mask) solver, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           return -1;
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index e81480a..ca9bbd1 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -14,7 +14,7 @@ extern "C" {
 int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
-     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
+     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           return -1;
@@ -27,7 +27,7 @@ int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 int xrtm_fd_set_g_p_nn_bindx_f90(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
-     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
+     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           return -1;
@@ -66,7 +66,7 @@ int xrtm_fd_set_coef_p_n1_bindx_f90(xrtm_fd_data *d, int i_deriv, double *coef_l
 int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
-     coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -79,7 +79,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l
 int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
-     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
+     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           return -1;
@@ -92,7 +92,7 @@ int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
-     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
+     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           return -1;
@@ -105,7 +105,7 @@ int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
-     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
+     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           return -1;
@@ -118,7 +118,7 @@ int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 int xrtm_fd_set_kernel_params_p_nn_bindx_f90(xrtm_fd_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
-     params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
@@ -140,16 +140,16 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->d->n_derivs);
-     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->n_derivs);
+     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->n_derivs);
+     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->n_derivs);
+     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->n_derivs);
      if (xrtm_fd_solution(d, solver, solutions, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
           return -1;
@@ -175,11 +175,11 @@ int xrtm_fd_radiance_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, en
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, solver, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           return -1;
diff --git a/interfaces/xrtm_fd_interface.def b/interfaces/xrtm_fd_interface.def
index cd96c81..be143d8 100644
--- a/interfaces/xrtm_fd_interface.def
+++ b/interfaces/xrtm_fd_interface.def
@@ -20,7 +20,7 @@ subprogram_general int 0 set_F_iso_bot_p_1		0, int 0 i_deriv in, double 0 F_iso_
 subprogram_general int 0 set_F_iso_bot_p_n		0, double 1 "d->n_derivs" F_iso_bot_l in;
 subprogram_general double 0 get_F_iso_bot_p		1, int 0 i_deriv in;
 subprogram_general int 0 set_levels_b_p_1		0, int 0 i_deriv in, double 1 "d->d->n_layers + 1" levels_b_l in;
-subprogram_general int 0 set_levels_b_p_n		0, double 2 "d->d->n_layers + 1" "d->d->n_derivs" levels_b_l in;
+subprogram_general int 0 set_levels_b_p_n		0, double 2 "d->d->n_layers + 1" "d->n_derivs" levels_b_l in;
 subprogram_general double 0 get_levels_b_p		1, int 0 i_deriv in, double 1 "d->d->n_layers + 1" levels_b_l out;
 subprogram_general int 0 set_surface_b_p_1		0, int 0 i_deriv in, double 0 surface_b_l in;
 subprogram_general int 0 set_surface_b_p_n		0, double 1 "d->n_derivs" surface_b_l in;
@@ -28,22 +28,22 @@ subprogram_general double 0 get_surface_b_p		1, int 0 i_deriv in;
 subprogram_general int 0 set_g_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 g_l in;
 subprogram_general int 0 set_g_p_n1			0, int 0 i_deriv in, double 1 "d->n_layers" g_l in;
 subprogram_general int 0 set_g_p_1n			0, int 0 i_layer in, double 1 "d->n_derivs" g_l in;
-subprogram_general int 0 set_g_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" g_l in;
+subprogram_general int 0 set_g_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" g_l in;
 subprogram_general double 0 get_g_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_coef_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 2 "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
 subprogram_general int 0 set_coef_p_n1			0, int 0 i_deriv in, double 3 "d->d->n_layers" "d->d->n_elem" "d->d->n_coef" coef_l in;
-subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->d->n_derivs" "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
-subprogram_general int 0 set_coef_p_nn			0, double 4 "d->d->n_layers" "d->d->n_derivs" "d->d->n_elem" "d->d->n_coef" coef_l in;
+subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->n_derivs" "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
+subprogram_general int 0 set_coef_p_nn			0, double 4 "d->d->n_layers" "d->n_derivs" "d->d->n_elem" "d->d->n_coef" coef_l in;
 subprogram_general double 0 get_coef_p			1, int 0 i_layer in, int 0 i_deriv in, int 0 i_elem in, int 0 i_coef in;
 subprogram_general int 0 set_omega_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 omega_l in;
 subprogram_general int 0 set_omega_p_n1			0, int 0 i_deriv in, double 1 "d->n_derivs" omega_l in;
 subprogram_general int 0 set_omega_p_1n			0, int 0 i_layer in, double 1 "d->n_layers" omega_l in;
-subprogram_general int 0 set_omega_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" omega_l in;
+subprogram_general int 0 set_omega_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" omega_l in;
 subprogram_general double 0 get_omega_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_ltau_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 ltau_l in;
 subprogram_general int 0 set_ltau_p_n1			0, int 0 i_deriv in, double 1 "d->n_derivs" ltau_l in;
 subprogram_general int 0 set_ltau_p_1n			0, int 0 i_layer in, double 1 "d->n_layers" ltau_l in;
-subprogram_general int 0 set_ltau_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" ltau_l in;
+subprogram_general int 0 set_ltau_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" ltau_l in;
 subprogram_general double 0 get_ltau_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_kernel_ampfac_p_1		0, int 0 i_kernel in, int 0 i_deriv in, double 0 ampfac_l in;
 subprogram_general int 0 set_kernel_ampfac_p_n		0, int 0 i_kernel in, double 1 "d->n_derivs" ampfac_l in;
@@ -51,8 +51,8 @@ subprogram_general double 0 get_kernel_ampfac_p		1, int 0 i_kernel in, int 0 i_d
 subprogram_general int 0 set_kernel_params_p_11		0, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in, double 0 param_l in;
 subprogram_general int 0 set_kernel_params_p_1n		0, int 0 i_kernel in, int 0 i_deriv in, double 1 "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general int 0 set_kernel_params_p_n1		0, int 0 i_kernel in, int 0 i_param in, double 1 "d->n_derivs" params_l in;
-subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
+subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general double 0 get_kernel_params_p		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
-- 
2.43.0


From 12e5886bf352332c817e9d4f7a6c5b01fbca08f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:13 +0000
Subject: [PATCH 79/83] fix: interfaces indexed arrays with a layer or kernel
 number before it was checked

---
 interfaces/xrtm_fd_int_f77_util.c |  6 +++---
 interfaces/xrtm_fd_int_f90_util.c |  6 +++---
 interfaces/xrtm_fd_interface.def  |  8 ++++----
 interfaces/xrtm_int_f77_util.c    |  6 +++---
 interfaces/xrtm_int_f90_util.c    |  6 +++---
 interfaces/xrtm_int_idl.c         | 16 ++++++++--------
 interfaces/xrtm_int_jl_util.c     | 10 +++++-----
 interfaces/xrtm_int_py.c          | 10 +++++-----
 interfaces/xrtm_interface.def     | 10 +++++-----
 9 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 957b597..1c567a7 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -258,7 +258,7 @@ int xrtm_fd_set_coef_p_11_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      double **coef_l2;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, (i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0));
      if (xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
           return -1;
@@ -288,7 +288,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
      int i_layer;
      double ***coef_l2;
      i_layer = *i_layer_;
-     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, (i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0));
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -540,7 +540,7 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
      int i_kernel;
      double **params_l2;
      i_kernel = *i_kernel_;
-     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, (i_kernel >= 0 && i_kernel < d->d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]) : 0));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index ca9bbd1..a1e0f05 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -40,7 +40,7 @@ int xrtm_fd_set_g_p_nn_bindx_f90(xrtm_fd_data *d, double *g_l)
 int xrtm_fd_set_coef_p_11_bindx_f90(xrtm_fd_data *d, int i_layer, int i_deriv, double *coef_l)
 {
      double **coef_l2;
-     coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, (i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0));
      if (xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
           return -1;
@@ -66,7 +66,7 @@ int xrtm_fd_set_coef_p_n1_bindx_f90(xrtm_fd_data *d, int i_deriv, double *coef_l
 int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
-     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, (i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0));
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -118,7 +118,7 @@ int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 int xrtm_fd_set_kernel_params_p_nn_bindx_f90(xrtm_fd_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
-     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, (i_kernel >= 0 && i_kernel < d->d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]) : 0));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
diff --git a/interfaces/xrtm_fd_interface.def b/interfaces/xrtm_fd_interface.def
index be143d8..18eb462 100644
--- a/interfaces/xrtm_fd_interface.def
+++ b/interfaces/xrtm_fd_interface.def
@@ -30,9 +30,9 @@ subprogram_general int 0 set_g_p_n1			0, int 0 i_deriv in, double 1 "d->n_layers
 subprogram_general int 0 set_g_p_1n			0, int 0 i_layer in, double 1 "d->n_derivs" g_l in;
 subprogram_general int 0 set_g_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" g_l in;
 subprogram_general double 0 get_g_p			1, int 0 i_layer in, int 0 i_deriv in;
-subprogram_general int 0 set_coef_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 2 "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
+subprogram_general int 0 set_coef_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 2 "d->d->n_elem" "(i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0)" coef_l in;
 subprogram_general int 0 set_coef_p_n1			0, int 0 i_deriv in, double 3 "d->d->n_layers" "d->d->n_elem" "d->d->n_coef" coef_l in;
-subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->n_derivs" "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
+subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->n_derivs" "d->d->n_elem" "(i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0)" coef_l in;
 subprogram_general int 0 set_coef_p_nn			0, double 4 "d->d->n_layers" "d->n_derivs" "d->d->n_elem" "d->d->n_coef" coef_l in;
 subprogram_general double 0 get_coef_p			1, int 0 i_layer in, int 0 i_deriv in, int 0 i_elem in, int 0 i_coef in;
 subprogram_general int 0 set_omega_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 omega_l in;
@@ -49,9 +49,9 @@ subprogram_general int 0 set_kernel_ampfac_p_1		0, int 0 i_kernel in, int 0 i_de
 subprogram_general int 0 set_kernel_ampfac_p_n		0, int 0 i_kernel in, double 1 "d->n_derivs" ampfac_l in;
 subprogram_general double 0 get_kernel_ampfac_p		1, int 0 i_kernel in, int 0 i_deriv in;
 subprogram_general int 0 set_kernel_params_p_11		0, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in, double 0 param_l in;
-subprogram_general int 0 set_kernel_params_p_1n		0, int 0 i_kernel in, int 0 i_deriv in, double 1 "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
+subprogram_general int 0 set_kernel_params_p_1n		0, int 0 i_kernel in, int 0 i_deriv in, double 1 "(i_kernel >= 0 && i_kernel < d->d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]) : 0)" params_l in;
 subprogram_general int 0 set_kernel_params_p_n1		0, int 0 i_kernel in, int 0 i_param in, double 1 "d->n_derivs" params_l in;
-subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
+subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->n_derivs"  "(i_kernel >= 0 && i_kernel < d->d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]) : 0)" params_l in;
 subprogram_general double 0 get_kernel_params_p		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 
 subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->n_derivs" flux_div_l out;
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index d5b6d53..3934fb3 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -750,7 +750,7 @@ int xrtm_set_coef_l_11_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, do
      double **coef_l2;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem2_d(coef_l, d->n_elem, (i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0));
      if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
           return -1;
@@ -780,7 +780,7 @@ int xrtm_set_coef_l_1n_bindx_f77_(xrtm_data *d, int *i_layer_, double *coef_l)
      int i_layer;
      double ***coef_l2;
      i_layer = *i_layer_;
-     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, (i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0));
      if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
           return -1;
@@ -1156,7 +1156,7 @@ int xrtm_set_kernel_params_l_nn_bindx_f77_(xrtm_data *d, int *i_kernel_, double
      int i_kernel;
      double **params_l2;
      i_kernel = *i_kernel_;
-     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, (i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0));
      if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
           return -1;
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index 263a6f4..57076a2 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -66,7 +66,7 @@ int xrtm_set_coef_n_bindx_f90(xrtm_data *d, int *n_coef_layer, double *coef)
 int xrtm_set_coef_l_11_bindx_f90(xrtm_data *d, int i_layer, int i_deriv, double *coef_l)
 {
      double **coef_l2;
-     coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem2_d(coef_l, d->n_elem, (i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0));
      if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
           return -1;
@@ -92,7 +92,7 @@ int xrtm_set_coef_l_n1_bindx_f90(xrtm_data *d, int i_deriv, double *coef_l)
 int xrtm_set_coef_l_1n_bindx_f90(xrtm_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
-     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, (i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0));
      if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
           return -1;
@@ -144,7 +144,7 @@ int xrtm_set_ltau_l_nn_bindx_f90(xrtm_data *d, double *ltau_l)
 int xrtm_set_kernel_params_l_nn_bindx_f90(xrtm_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
-     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, (i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0));
      if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
           return -1;
diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index e58e898..b9cc418 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -2483,10 +2483,10 @@ void IDL_CDECL xrtm_set_coef_l_11_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: coef_l must be an array with 2 dimensions");
      if (argv[3]->value.arr->dim[1] != (d->n_elem))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: coef_l dimension 2 must have d->n_elem elements");
-     if (argv[3]->value.arr->dim[0] != (d->n_coef_layer[i_layer]))
+     if (argv[3]->value.arr->dim[0] != ((i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0)))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: coef_l dimension 1 must have d->n_coef_layer[i_layer] elements");
      dim[0] = d->n_elem;
-     dim[1] = d->n_coef_layer[i_layer];
+     dim[1] = (i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0);
      coef_l = (double **) array_from_mem((void *) argv[3]->value.arr->data, 2, dim, sizeof(double), 1);
      r = xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l);
      free_array((void *) coef_l, 2);
@@ -2564,11 +2564,11 @@ void IDL_CDECL xrtm_set_coef_l_1n_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: coef_l dimension 3 must have d->n_derivs elements");
      if (argv[2]->value.arr->dim[1] != (d->n_elem))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: coef_l dimension 2 must have d->n_elem elements");
-     if (argv[2]->value.arr->dim[0] != (d->n_coef_layer[i_layer]))
+     if (argv[2]->value.arr->dim[0] != ((i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0)))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: coef_l dimension 1 must have d->n_coef_layer[i_layer] elements");
      dim[0] = d->n_derivs;
      dim[1] = d->n_elem;
-     dim[2] = d->n_coef_layer[i_layer];
+     dim[2] = (i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0);
      coef_l = (double ***) array_from_mem((void *) argv[2]->value.arr->data, 3, dim, sizeof(double), 1);
      r = xrtm_set_coef_l_1n(d, i_layer, coef_l);
      free_array((void *) coef_l, 3);
@@ -3302,7 +3302,7 @@ void IDL_CDECL xrtm_set_kernel_params_n_dlm(int argc, IDL_VPTR argv[], char *arg
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: params must be of type double");
      if (argv[2]->value.arr->n_dim != 1)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: params must be an array with 2 dimensions");
-     if (argv[2]->value.arr->dim[0] != (kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])))
+     if (argv[2]->value.arr->dim[0] != ((i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0)))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: params dimension 1 must have kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) elements");
      params = (double *) argv[2]->value.arr->data;
      r = xrtm_set_kernel_params_n(d, i_kernel, params);
@@ -3536,7 +3536,7 @@ void IDL_CDECL xrtm_set_kernel_params_l_1n_dlm(int argc, IDL_VPTR argv[], char *
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: params_l must be of type double");
      if (argv[3]->value.arr->n_dim != 1)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: params_l must be an array with 2 dimensions");
-     if (argv[3]->value.arr->dim[0] != (kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])))
+     if (argv[3]->value.arr->dim[0] != ((i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0)))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: params_l dimension 1 must have kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) elements");
      params_l = (double *) argv[3]->value.arr->data;
      r = xrtm_set_kernel_params_l_1n(d, i_kernel, i_deriv, params_l);
@@ -3611,10 +3611,10 @@ void IDL_CDECL xrtm_set_kernel_params_l_nn_dlm(int argc, IDL_VPTR argv[], char *
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: params_l must be an array with 2 dimensions");
      if (argv[2]->value.arr->dim[1] != (d->n_derivs))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: params_l dimension 2 must have d->n_derivs elements");
-     if (argv[2]->value.arr->dim[0] != (kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])))
+     if (argv[2]->value.arr->dim[0] != ((i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0)))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: params_l dimension 1 must have kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) elements");
      dim[0] = d->n_derivs;
-     dim[1] = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
+     dim[1] = (i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0);
      params_l = (double **) array_from_mem((void *) argv[2]->value.arr->data, 2, dim, sizeof(double), 1);
      r = xrtm_set_kernel_params_l_nn(d, i_kernel, params_l);
      free_array((void *) params_l, 2);
diff --git a/interfaces/xrtm_int_jl_util.c b/interfaces/xrtm_int_jl_util.c
index c8859fa..d89d3ec 100644
--- a/interfaces/xrtm_int_jl_util.c
+++ b/interfaces/xrtm_int_jl_util.c
@@ -180,7 +180,7 @@ int set_coef_n_coef_dims(xrtm_data *d, int *n_coef_layer, double ***coef, size_t
 int set_coef_l_11_coef_l_dims(xrtm_data *d, int i_layer, int i_deriv, double **coef_l, size_t *dims)
 {
     dims[0] = d->n_elem;
-    dims[1] = d->n_coef_layer[i_layer];
+    dims[1] = (i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0);
     return 0;
 }
 
@@ -198,7 +198,7 @@ int set_coef_l_1n_coef_l_dims(xrtm_data *d, int i_layer, double ***coef_l, size_
 {
     dims[0] = d->n_derivs;
     dims[1] = d->n_elem;
-    dims[2] = d->n_coef_layer[i_layer];
+    dims[2] = (i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0);
     return 0;
 }
 
@@ -273,7 +273,7 @@ int set_ltau_l_nn_ltau_l_dims(xrtm_data *d, double **ltau_l, size_t *dims)
 
 int set_kernel_params_n_params_dims(xrtm_data *d, int i_kernel, double *params, size_t *dims)
 {
-    dims[0] = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
+    dims[0] = (i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0);
     return 0;
 }
 
@@ -287,7 +287,7 @@ int set_kernel_ampfac_l_n_ampfac_l_dims(xrtm_data *d, int i_kernel, double *ampf
 
 int set_kernel_params_l_1n_params_l_dims(xrtm_data *d, int i_kernel, int i_deriv, double *params_l, size_t *dims)
 {
-    dims[0] = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
+    dims[0] = (i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0);
     return 0;
 }
 
@@ -302,7 +302,7 @@ int set_kernel_params_l_n1_params_l_dims(xrtm_data *d, int i_kernel, int i_param
 int set_kernel_params_l_nn_params_l_dims(xrtm_data *d, int i_kernel, double **params_l, size_t *dims)
 {
     dims[0] = d->n_derivs;
-    dims[1] = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
+    dims[1] = (i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0);
     return 0;
 }
 
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index d36ed75..51ed5d7 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -1535,7 +1535,7 @@ static PyObject *xrtm_set_coef_l_11_py(xrtm_data_py *self, PyObject *args)
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(coef_l_ndarray, "coef_l", 2, d->n_elem, d->n_coef_layer[i_layer]) < 0)
+     if (check_pyarray_shape(coef_l_ndarray, "coef_l", 2, d->n_elem, (i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0)) < 0)
           return NULL;
      coef_l = (double **) array_from_ndarray(coef_l_ndarray, 8);
      r = xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l);
@@ -1589,7 +1589,7 @@ static PyObject *xrtm_set_coef_l_1n_py(xrtm_data_py *self, PyObject *args)
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(coef_l_ndarray, "coef_l", 3, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]) < 0)
+     if (check_pyarray_shape(coef_l_ndarray, "coef_l", 3, d->n_derivs, d->n_elem, (i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0)) < 0)
           return NULL;
      coef_l = (double ***) array_from_ndarray(coef_l_ndarray, 8);
      r = xrtm_set_coef_l_1n(d, i_layer, coef_l);
@@ -2054,7 +2054,7 @@ static PyObject *xrtm_set_kernel_params_n_py(xrtm_data_py *self, PyObject *args)
      params_ndarray = PyArray_FROM_OTF(params_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(params_ndarray, "params", 1, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])) < 0)
+     if (check_pyarray_shape(params_ndarray, "params", 1, (i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0)) < 0)
           return NULL;
      params = (double *) array_from_ndarray(params_ndarray, 8);
      r = xrtm_set_kernel_params_n(d, i_kernel, params);
@@ -2178,7 +2178,7 @@ static PyObject *xrtm_set_kernel_params_l_1n_py(xrtm_data_py *self, PyObject *ar
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(params_l_ndarray, "params_l", 1, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])) < 0)
+     if (check_pyarray_shape(params_l_ndarray, "params_l", 1, (i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0)) < 0)
           return NULL;
      params_l = (double *) array_from_ndarray(params_l_ndarray, 8);
      r = xrtm_set_kernel_params_l_1n(d, i_kernel, i_deriv, params_l);
@@ -2231,7 +2231,7 @@ static PyObject *xrtm_set_kernel_params_l_nn_py(xrtm_data_py *self, PyObject *ar
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(params_l_ndarray, "params_l", 2, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])) < 0)
+     if (check_pyarray_shape(params_l_ndarray, "params_l", 2, d->n_derivs, (i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0)) < 0)
           return NULL;
      params_l = (double **) array_from_ndarray(params_l_ndarray, 8);
      r = xrtm_set_kernel_params_l_nn(d, i_kernel, params_l);
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index cf8999b..d586421 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -79,9 +79,9 @@ subprogram_general int 0 set_coef_1			0, int 0 i_layer in, int 0 n_coef_layer in
 subprogram_general int 0 set_coef_n			0, int 1 "d->n_layers" n_coef_layer in, double 3 "d->n_layers" "d->n_elem" "d->n_coef" coef in;
 subprogram_general int 0 get_n_coef			1, int 0 i_layer in;
 subprogram_general double 0 get_coef			1, int 0 i_layer in, int 0 i_elem in, int 0 i_coef in;
-subprogram_general int 0 set_coef_l_11			0, int 0 i_layer in, int 0 i_deriv in, double 2 "d->n_elem" "d->n_coef_layer[i_layer]" coef_l in;
+subprogram_general int 0 set_coef_l_11			0, int 0 i_layer in, int 0 i_deriv in, double 2 "d->n_elem" "(i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0)" coef_l in;
 subprogram_general int 0 set_coef_l_n1			0, int 0 i_deriv in, double 3 "d->n_layers" "d->n_elem" "d->n_coef" coef_l in;
-subprogram_general int 0 set_coef_l_1n			0, int 0 i_layer in, double 3 "d->n_derivs" "d->n_elem" "d->n_coef_layer[i_layer]" coef_l in;
+subprogram_general int 0 set_coef_l_1n			0, int 0 i_layer in, double 3 "d->n_derivs" "d->n_elem" "(i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0)" coef_l in;
 subprogram_general int 0 set_coef_l_nn			0, double 4 "d->n_layers" "d->n_derivs" "d->n_elem" "d->n_coef" coef_l in;
 subprogram_general double 0 get_coef_l 			1, int 0 i_layer in, int 0 i_deriv in, int 0 i_elem in, int 0 i_coef in;
 subprogram_general int 0 set_omega_1			0, int 0 i_layer in, double 0 omega in;
@@ -103,15 +103,15 @@ subprogram_general double 0 get_ltau_l			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_kernel_ampfac		0, int 0 i_kernel in, double 0 ampfac in;
 subprogram_general double 0 get_kernel_ampfac		1, int 0 i_kernel in;
 subprogram_general int 0 set_kernel_params_1		0, int 0 i_kernel in, int 0 i_param in, double 0 param in;
-subprogram_general int 0 set_kernel_params_n		0, int 0 i_kernel in, double 1 "kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])" params in;
+subprogram_general int 0 set_kernel_params_n		0, int 0 i_kernel in, double 1 "(i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0)" params in;
 subprogram_general double 0 get_kernel_params		1, int 0 i_kernel in, int 0 i_param in;
 subprogram_general int 0 set_kernel_ampfac_l_1		0, int 0 i_kernel in, int 0 i_deriv in, double 0 ampfac_l in;
 subprogram_general int 0 set_kernel_ampfac_l_n		0, int 0 i_kernel in, double 1 "d->n_derivs" ampfac_l in;
 subprogram_general double 0 get_kernel_ampfac_l		1, int 0 i_kernel in, int 0 i_deriv in;
 subprogram_general int 0 set_kernel_params_l_11 	0, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in, double 0 param_l in;
-subprogram_general int 0 set_kernel_params_l_1n		0, int 0 i_kernel in, int 0 i_deriv in, double 1 "kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])" params_l in;
+subprogram_general int 0 set_kernel_params_l_1n		0, int 0 i_kernel in, int 0 i_deriv in, double 1 "(i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0)" params_l in;
 subprogram_general int 0 set_kernel_params_l_n1		0, int 0 i_kernel in, int 0 i_param in, double 1 "d->n_derivs" params_l in;
-subprogram_general int 0 set_kernel_params_l_nn		0, int 0 i_kernel in, double 2 "d->n_derivs"     "kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])" params_l in;
+subprogram_general int 0 set_kernel_params_l_nn		0, int 0 i_kernel in, double 2 "d->n_derivs"     "(i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0)" params_l in;
 subprogram_general double 0 get_kernel_params_l		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 subprogram_general int 0 update_varied_layers		0;
 
-- 
2.43.0


From 406473a095da5bb10ac791d909f2eb33d8e9276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:45 +0000
Subject: [PATCH 80/83] fix: the Python and IDL interfaces sized the Planck
 source at the levels by n_out_levels or n_derivs

---
 interfaces/xrtm_int_idl.c | 22 +++++++++++-----------
 interfaces/xrtm_int_py.c  | 10 +++++-----
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index b9cc418..545acc2 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -1776,8 +1776,8 @@ void IDL_CDECL xrtm_set_levels_b_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b must be of type double");
      if (argv[1]->value.arr->n_dim != 1)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b must be an array with 2 dimensions");
-     if (argv[1]->value.arr->dim[0] != (d->n_out_levels))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b dimension 1 must have d->n_out_levels elements");
+     if (argv[1]->value.arr->dim[0] != (d->n_layers + 1))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b dimension 1 must have d->n_layers + 1 elements");
      levels_b = (double *) argv[1]->value.arr->data;
      r = xrtm_set_levels_b(d, levels_b);
      if (r == XRTM_INT_ERROR)
@@ -1797,11 +1797,11 @@ void IDL_CDECL xrtm_get_levels_b_dlm(int argc, IDL_VPTR argv[], char *argk)
      if (argv[0]->type != IDL_TYP_BYTE)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: Invalid xrtm instance");
      d = (xrtm_data *) argv[0]->value.arr->data;
-     levels_b = malloc((d->n_out_levels) * sizeof(double));
+     levels_b = malloc((d->n_layers + 1) * sizeof(double));
      r = xrtm_get_levels_b(d, levels_b);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_get_levels_b()");
-     dim_idl[0] = d->n_out_levels;
+     dim_idl[0] = d->n_layers + 1;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) levels_b, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
@@ -1830,8 +1830,8 @@ void IDL_CDECL xrtm_set_levels_b_l_1_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be of type double");
      if (argv[2]->value.arr->n_dim != 1)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be an array with 2 dimensions");
-     if (argv[2]->value.arr->dim[0] != (d->n_derivs))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 1 must have d->n_derivs elements");
+     if (argv[2]->value.arr->dim[0] != (d->n_layers + 1))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 1 must have d->n_layers + 1 elements");
      levels_b_l = (double *) argv[2]->value.arr->data;
      r = xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l);
      if (r == XRTM_INT_ERROR)
@@ -1855,11 +1855,11 @@ void IDL_CDECL xrtm_set_levels_b_l_n_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be of type double");
      if (argv[1]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l must be an array with 2 dimensions");
-     if (argv[1]->value.arr->dim[1] != (d->n_out_levels))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 2 must have d->n_out_levels elements");
+     if (argv[1]->value.arr->dim[1] != (d->n_layers + 1))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 2 must have d->n_layers + 1 elements");
      if (argv[1]->value.arr->dim[0] != (d->n_derivs))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: levels_b_l dimension 1 must have d->n_derivs elements");
-     dim[0] = d->n_out_levels;
+     dim[0] = d->n_layers + 1;
      dim[1] = d->n_derivs;
      levels_b_l = (double **) array_from_mem((void *) argv[1]->value.arr->data, 2, dim, sizeof(double), 1);
      r = xrtm_set_levels_b_l_n(d, levels_b_l);
@@ -1889,11 +1889,11 @@ void IDL_CDECL xrtm_get_levels_b_l_dlm(int argc, IDL_VPTR argv[], char *argk)
           i_deriv = argv[1]->value.l;
      else
           i_deriv = argv[1]->value.i;
-     levels_b_l = malloc((d->n_out_levels) * sizeof(double));
+     levels_b_l = malloc((d->n_layers + 1) * sizeof(double));
      r = xrtm_get_levels_b_l(d, i_deriv, levels_b_l);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_get_levels_b_l()");
-     dim_idl[0] = d->n_out_levels;
+     dim_idl[0] = d->n_layers + 1;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) levels_b_l, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[2]);
      return;
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 51ed5d7..2625074 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -1051,7 +1051,7 @@ static PyObject *xrtm_set_levels_b_py(xrtm_data_py *self, PyObject *args)
      levels_b_ndarray = PyArray_FROM_OTF(levels_b_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_out_levels) < 0)
+     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_layers + 1) < 0)
           return NULL;
      levels_b = (double *) array_from_ndarray(levels_b_ndarray, 8);
      r = xrtm_set_levels_b(d, levels_b);
@@ -1073,7 +1073,7 @@ static PyObject *xrtm_get_levels_b_py(xrtm_data_py *self, PyObject *args)
      double *levels_b;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_ndarray == NULL)
           return NULL;
@@ -1100,7 +1100,7 @@ static PyObject *xrtm_set_levels_b_l_1_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_layers + 1) < 0)
           return NULL;
      levels_b_l = (double *) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l);
@@ -1125,7 +1125,7 @@ static PyObject *xrtm_set_levels_b_l_n_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_out_levels, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_layers + 1, d->n_derivs) < 0)
           return NULL;
      levels_b_l = (double **) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_n(d, levels_b_l);
@@ -1149,7 +1149,7 @@ static PyObject *xrtm_get_levels_b_l_py(xrtm_data_py *self, PyObject *args)
      double *levels_b_l;
      if (! PyArg_ParseTuple(args, "i", &i_deriv))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_l_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-- 
2.43.0


From 6049011dc12231aa015064c808bfc4892f58769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:15 +0000
Subject: [PATCH 81/83] fix: two_os scaled part of the second order of
 scattering by the slant path of the layer in pseudo-spherical geometry

---
 src/xrtm_two_os.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 29046f4..9fdd05f 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -734,7 +734,7 @@ if (0) {
                for (l = 0; l < n_quad_v_x; ++l)
                     v1[k] += (Phi3[j][k][l] * R_p[j+1][k][l] + r_m[j][k][l] * w4[k][l]) * t_0[j][l];
 
-               i_p[i][j][k] += as_0[j] / 4. * v1[k];
+               i_p[i][j][k] += 1. / mu_0 / 4. * v1[k];
           }
 
           for (m = 0; m < n_derivs; ++m) {
@@ -748,7 +748,7 @@ if (0) {
                               a += (Phi3[j][k][l] * R_p[j+1][k][l] + r_m[j][k][l] * w4[k][l]) * t_0_l[j][m][l];
                     }
 
-                    i_p_l[i][j][m][k] += (as_0_l[j][m] * v1[k] + as_0[j] * a) / 4.;
+                    i_p_l[i][j][m][k] += 1. / mu_0 / 4. * a;
                }
           }
      }
-- 
2.43.0


From d94feeeab5b48840e571f21f222e603016c47f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:56 +0000
Subject: [PATCH 82/83] fix: source function integration missed how the slant
 path through a layer moves with the layers above it in derivatives

---
 src/xrtm_sfi_x.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 15064ca..219399d 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -128,18 +128,24 @@ static void SFI_SOURCE_SOLAR_CLASSIC(double ptau, double *ptau_l,
                          Fu_0_l[k] +=                      omega * (u3[k] + a2 * P_u0_pm     [k]);
           }
 
-          if (derivs_layers[j])
-               e2_l = (-ptau_l[j] * as_0 - ptau * as_0_l[j]) * e2;
+          if (derivs_beam[j]) {
+               e2_l = -ptau * as_0_l[j] * e2;
+               if (derivs_layers[j])
+                    e2_l -= ptau_l[j] * as_0 * e2;
+          }
 
           for (k = 0; k < n_umus_v; ++k) {
-               if (derivs_beam[j])
+               if (derivs_beam[j]) {
                     I_u_l[j][offset + k] += Fu_0_l[k] * Eu_0[k];
 
-               if (derivs_layers[j]) {
+                    a2 = 0.;
+                    if (derivs_layers[j])
+                         a2 = e1_l[j][k];
+
                     if (! flag)
-                         Eu_0_l = ((e2_l - atran_l[j] * e1[k] - atran * e1_l[j][k]) - Eu_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
+                         Eu_0_l = ((e2_l - atran_l[j] * e1[k] - atran * a2) - Eu_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
                     else
-                         Eu_0_l = ((e2_l -                              e1_l[j][k]) - Eu_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
+                         Eu_0_l = ((e2_l -                              a2) - Eu_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
 
                     I_u_l[j][offset + k] += Fu_0[k] * Eu_0_l;
                }
-- 
2.43.0


From 2e740db0761bc4164484719eff443e87620defbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:03 +0000
Subject: [PATCH 83/83] fix: free the xrtm_data of xrtm_create2 when
 xrtm_create fails

---
 src/xrtm_interface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index bbe88b5..d412ddc 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -780,6 +780,7 @@ xrtm_data *xrtm_create2(int options, int solvers, int max_coef, int n_quad, int
 
      if (xrtm_create(d, options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, kernels, n_out_levels, n_out_thetas) == XRTM_INT_ERROR) {
           fprintf(stderr, "ERROR: xrtm_create()\n");
+          free(d);
           return NULL;
      }
 
-- 
2.43.0


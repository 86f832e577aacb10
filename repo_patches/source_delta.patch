From a195af9e6a08cca7a408ba080a339a340bc692dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 01/47] fix: NosnocSimLooper stop_on_failure never stopped

results["status"] is a Status, it was compared with an IPOPT status string.
---
 nosnoc/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/helpers.py b/nosnoc/helpers.py
index 7d1e377..1c19c6b 100644
--- a/nosnoc/helpers.py
+++ b/nosnoc/helpers.py
@@ -2,7 +2,7 @@ from typing import Optional
 
 import numpy as np
 from .solver import NosnocSolver
-from .nosnoc_types import SpeedOfTimeVariableMode
+from .nosnoc_types import SpeedOfTimeVariableMode, Status
 
 
 class NosnocSimLooper:
@@ -93,7 +93,7 @@ class NosnocSimLooper:
             if self.print_level > 0:
                 print(f"Sim step {i + 1}/{self.Nsim}\t status: {results['status']}")
 
-            if (stop_on_failure and results["status"] == "Infeasible_Problem_Detected"):
+            if stop_on_failure and results["status"] != Status.SUCCESS:
                 return False
 
         return True
-- 
2.43.0


From 9fc6352fa6b8c34a257a32bc409c878ae676011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 02/47] fix: switch_times are times on the grid, not step
 lengths

A switch between finite elements i and i+1 happens at t_grid[i+1]; the
reported value was the length of finite element i, which is only the same
for the first one.
---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a2b3628..a1d3fa5 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -534,6 +534,6 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
                 switch_indices.append(i)
             theta_prev = theta
 
-    results["switch_times"] = np.array([time_steps[i] for i in switch_indices])
+    results["switch_times"] = np.array([t_grid[i + 1] for i in switch_indices])
 
     return results
-- 
2.43.0


From 8a1820ea61855afa9d3b51e3386905f28e792b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 03/47] fix: NLP solver options were shared by all NosnocOpts
 objects

opts_casadi_nlp was a class attribute, so tol_ipopt (derived from comp_tol in
preprocess) and nlp_max_iter set on one object changed all others.
---
 nosnoc/nosnoc_opts.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index b69bb1a..d7bbed2 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -14,6 +14,25 @@ def _assign(dictionary, keys, value):
         dictionary[key] = value
 
 
+def _default_opts_casadi_nlp() -> dict:
+    """Default options of the NLP solver, a new dictionary for every NosnocOpts object."""
+    opts_casadi_nlp = dict()
+    opts_casadi_nlp['print_time'] = 0
+    opts_casadi_nlp['verbose'] = False
+    opts_casadi_nlp['ipopt'] = dict()
+    opts_casadi_nlp['ipopt']['sb'] = 'yes'
+    opts_casadi_nlp['ipopt']['max_iter'] = 500
+    opts_casadi_nlp['ipopt']['print_level'] = 0
+    opts_casadi_nlp['ipopt']['bound_relax_factor'] = 0
+    opts_casadi_nlp['ipopt']['tol'] = None
+    opts_casadi_nlp['ipopt']['dual_inf_tol'] = None
+    opts_casadi_nlp['ipopt']['compl_inf_tol'] = None
+    opts_casadi_nlp['ipopt']['mu_strategy'] = 'adaptive'
+    opts_casadi_nlp['ipopt']['mu_oracle'] = 'quality-function'
+    opts_casadi_nlp["record_time"] = True
+    return opts_casadi_nlp
+
+
 @dataclass
 class NosnocOpts:
 
@@ -82,14 +101,7 @@ class NosnocOpts:
     objective_scaling_direct: bool = True
 
     # IPOPT opts
-    opts_casadi_nlp = dict()
-    opts_casadi_nlp['print_time'] = 0
-    opts_casadi_nlp['verbose'] = False
-    opts_casadi_nlp['ipopt'] = dict()
-    opts_casadi_nlp['ipopt']['sb'] = 'yes'
-    opts_casadi_nlp['ipopt']['max_iter'] = 500
-    opts_casadi_nlp['ipopt']['print_level'] = 0
-    opts_casadi_nlp['ipopt']['bound_relax_factor'] = 0
+    opts_casadi_nlp: dict = field(default_factory=_default_opts_casadi_nlp)
     tol_ipopt = property(
         fget=lambda s: s.opts_casadi_nlp['ipopt']['tol'],
         fset=lambda s, v: _assign(
@@ -98,12 +110,6 @@ class NosnocOpts:
         ),
         doc="Ipopt tolerance."
     )
-    opts_casadi_nlp['ipopt']['tol'] = None
-    opts_casadi_nlp['ipopt']['dual_inf_tol'] = None
-    opts_casadi_nlp['ipopt']['compl_inf_tol'] = None
-    opts_casadi_nlp['ipopt']['mu_strategy'] = 'adaptive'
-    opts_casadi_nlp['ipopt']['mu_oracle'] = 'quality-function'
-    opts_casadi_nlp["record_time"] = True
     # opts_casadi_nlp['ipopt']['linear_solver'] = 'ma27'
     # opts_casadi_nlp['ipopt']['linear_solver'] = 'ma57'
 
-- 
2.43.0


From 076b8460ebdaa200d44e3bb509fc82f485658cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 04/47] fix: polishing time was measured with the settable wall
 clock

It could be negative when the clock is set back; use the NLP solver's own
statistics as for all other NLP solves.
---
 nosnoc/solver.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a1d3fa5..ed35012 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -3,7 +3,6 @@ from typing import Optional
 
 import casadi as ca
 import numpy as np
-import time
 
 from nosnoc.model import NosnocModel
 from nosnoc.nosnoc_opts import NosnocOpts
@@ -247,12 +246,11 @@ class NosnocSolverBase(ABC):
             self.setup_p_val(sigma_k, tau_val)
 
             # solve NLP
-            t = time.time()
             sol = casadi_ipopt_solver(x0=w_guess, lbg=prob.lbg, ubg=prob.ubg, lbx=lbw, ubx=ubw, p=self.p_val)
-            cpu_time_nlp = time.time() - t
 
             # print and process solution
             solver_stats = casadi_ipopt_solver.stats()
+            cpu_time_nlp = solver_stats['t_proc_total']
             status = solver_stats['return_status']
             nlp_iter = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-- 
2.43.0


From fea48bd1de85169571495d2c795215c7d0eb87d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 05/47] fix: cost_val lost the sign of the objective and
 ignored polishing

norm_inf of the scalar objective is its absolute value, and with the polishing
step the cost reported was the one of the iterate before polishing.
---
 nosnoc/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index ed35012..ad7320e 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -254,7 +254,7 @@ class NosnocSolverBase(ABC):
             status = solver_stats['return_status']
             nlp_iter = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = float(sol['f'])
             w_opt = sol['x'].full().flatten()
 
             complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
@@ -264,7 +264,7 @@ class NosnocSolverBase(ABC):
             if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
                 print(f"Warning: IPOPT exited with status {status}")
 
-        return w_opt, cpu_time_nlp, nlp_iter, status
+        return w_opt, cpu_time_nlp, nlp_iter, status, cost_val
 
     def create_function_calculate_vector_field(self, sigma, p=[], v=[]):
         """Create a function to calculate the vector field."""
@@ -404,7 +404,7 @@ class NosnocSolver(NosnocSolverBase):
             status = solver_stats['return_status']
             nlp_iter[ii] = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = float(sol['f'])
 
             # process iterate
             w_opt = sol['x'].full().flatten()
@@ -430,7 +430,7 @@ class NosnocSolver(NosnocSolverBase):
             sigma_k = self.homotopy_sigma_update(sigma_k)
 
         if opts.do_polishing_step:
-            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status = \
+            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status, cost_val = \
                                             self.polish_solution(self.solver, w_opt)
 
         # collect results
-- 
2.43.0


From e64ec8823c6f2dba0adbb51cdf33ac46f2309313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 06/47] fix: set() kept references to the arrays of the caller

A later set() or initialize() then wrote into the array passed as "w", and
changing the arrays passed as "x0" or "w" changed the following solves and
earlier results.
---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index ad7320e..3c7c55e 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -47,7 +47,7 @@ class NosnocSolverBase(ABC):
         prob = self.problem
         dims = prob.model.dims
         if field == 'x0':
-            prob.model.x0 = value
+            prob.model.x0 = np.array(value, dtype=float)
         elif field == 'x':  # TODO: check other dimensions for useful error message
             if value.shape[0] == self.opts.N_stages:
                 # Shape is equal to the number of control stages
@@ -93,7 +93,7 @@ class NosnocSolverBase(ABC):
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
         elif field == 'w':
-            prob.w0 = value
+            prob.w0 = np.array(value, dtype=float)
             if self.opts.initialization_strategy is not InitializationStrategy.EXTERNAL:
                 raise Warning(
                     'full initialization w might be overwritten due to InitializationStrategy != EXTERNAL.'
-- 
2.43.0


From 8b6f92dae10189b78603f571b3b7f4b0df5cd21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 07/47] fix: polishing failed with speed of time or binary
 variables

They are not complementarity variables and keep their bounds.
---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 3c7c55e..2993c4b 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -211,7 +211,7 @@ class NosnocSolverBase(ABC):
         ind_set = flatten(prob.ind_lam + prob.ind_lambda_n + prob.ind_lambda_p + prob.ind_alpha +
                           prob.ind_theta + prob.ind_mu)
         ind_dont_set = flatten(prob.ind_h + prob.ind_u + prob.ind_x + prob.ind_v_global +
-                               prob.ind_v + prob.ind_z + prob.ind_elastic)
+                               prob.ind_v + prob.ind_z + prob.ind_elastic + prob.ind_sot + prob.ind_bool)
         # sanity check
         ind_all = ind_set + ind_dont_set
         for iw in range(len(w_guess)):
-- 
2.43.0


From 7540cbfea1770982206c52fc5ae8470337fdc17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 08/47] fix: polishing pinned the free multipliers mu

mu is a free variable, not part of a complementarity pair: whenever it was
below the tolerance, e.g. negative, it was fixed to zero, which made the
polishing NLP infeasible.
---
 nosnoc/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 2993c4b..e803979 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -209,9 +209,10 @@ class NosnocSolverBase(ABC):
         eps_sigma = 1e1 * opts.comp_tol
 
         ind_set = flatten(prob.ind_lam + prob.ind_lambda_n + prob.ind_lambda_p + prob.ind_alpha +
-                          prob.ind_theta + prob.ind_mu)
+                          prob.ind_theta)
         ind_dont_set = flatten(prob.ind_h + prob.ind_u + prob.ind_x + prob.ind_v_global +
-                               prob.ind_v + prob.ind_z + prob.ind_elastic + prob.ind_sot + prob.ind_bool)
+                               prob.ind_v + prob.ind_z + prob.ind_elastic + prob.ind_sot + prob.ind_bool +
+                               prob.ind_mu)
         # sanity check
         ind_all = ind_set + ind_dont_set
         for iw in range(len(w_guess)):
-- 
2.43.0


From 6c8e917750ae14e765c272555076b304d657ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 09/47] fix: Stewart mode failed for subsystems with different
 numbers of modes

The nested index lists are ragged then and cannot index an array; the results
of every solve (and polishing) raised a ValueError.
---
 nosnoc/solver.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index e803979..dcc25ec 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -240,9 +240,6 @@ class NosnocSolverBase(ABC):
                 f"polishing step: setting {len(ind_fix_zero)} variables to 0.0, {len(ind_fix_one)} to 1.0."
             )
         for i_ctrl in range(opts.N_stages):
-            for i_fe in range(opts.Nfe_list[i_ctrl]):
-                w_guess[prob.ind_theta[i_ctrl][i_fe][:]]
-
             sigma_k, tau_val = 0.0, 0.0
             self.setup_p_val(sigma_k, tau_val)
 
@@ -468,6 +465,13 @@ class NosnocSolver(NosnocSolverBase):
         return results
 
 
+def get_subsystem_values(w_opt: np.ndarray, ind: list) -> np.ndarray:
+    """Values of all subsystems, one row per subsystem if they are of equal size, else one flat vector."""
+    if len(set(len(ind_sys) for ind_sys in ind)) > 1:
+        return w_opt[flatten(ind)]
+    return w_opt[ind]
+
+
 def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> dict:
     opts = prob.opts
 
@@ -483,8 +487,12 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
     if opts.speed_of_time_variables != SpeedOfTimeVariableMode.NONE:
         results["sot"] = [w_opt[ind] for ind in prob.ind_sot]
 
-    results["theta_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_theta)]
-    results["lambda_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_lam)]
+    results["theta_list"] = [
+        get_subsystem_values(w_opt, ind) for ind in get_cont_algebraic_indices(prob.ind_theta)
+    ]
+    results["lambda_list"] = [
+        get_subsystem_values(w_opt, ind) for ind in get_cont_algebraic_indices(prob.ind_lam)
+    ]
     # results["mu_list"] = [w_opt[ind] for ind in ind_mu_all]
     # if opts.pss_mode == PssMode.STEP:
     results["alpha_list"] = [
-- 
2.43.0


From 600eaddce373b628d591781a61cf40bfdfb26ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 10/47] fix: SpeedOfTimeVariableMode.GLOBAL could not be used

It called the nonexistent add_variables().
---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 9cd3d64..824c55d 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -648,7 +648,7 @@ class NosnocProblem(NosnocFormulationObject):
         # add global speed of time if necessary
         if self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.GLOBAL:
             sot = ca.SX.sym('sot', 1)
-            self.add_variables(sot, self.ind_sot, self.opts.speed_of_time_min, self.opts.speed_of_time_max, 1.0)
+            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max], [1.0])
 
         # Generate control_stages
         prev_fe = self.fe0
-- 
2.43.0


From 6614f6827152a8d1e9bb29a691b5997d87470faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 11/47] fix: control complementarities were lost on non-uniform
 grids

They are added with the last finite element of a control stage, which was
taken to be number N_finite_elements also if Nfe_list is given.
---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 824c55d..b1cbdf5 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -538,7 +538,7 @@ class FiniteElement(FiniteElementBase):
             stage_comps = self.ocp.g_rk_comp_fun(X_fe[j], Uk, z, self.p, self.model.v_global)  # TODO maybe should include stage z
             a, b = ca.horzsplit(stage_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-        if self.fe_idx == opts.N_finite_elements-1:
+        if self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1:
             ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.p, self.model.v_global)
             a, b = ca.horzsplit(ctrl_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-- 
2.43.0


From 296957edf506bc262a954dde7724683ce88a1dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 12/47] fix: terminal time was not imposed with one stage and
 no equidistant grid

The step sizes were free then, so that simulation steps could have any length.
---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index b1cbdf5..08ed3c6 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -834,7 +834,7 @@ class NosnocProblem(NosnocFormulationObject):
                 self.cost = sigma_p * self.cost + s_elastic
 
         # Terminal numerical time
-        if opts.N_stages > 1 and opts.use_fesd and not opts.equidistant_control_grid:
+        if opts.use_fesd and not opts.equidistant_control_grid:
             all_h = [fe.h for stage in self.stages for fe in stage]
             self.add_constraint(sum(all_h) - opts.terminal_time)
 
-- 
2.43.0


From 4ca7809ae744a776a8600340fa63f24e668e08a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 13/47] fix: switching conditions at the end of a stage used
 the wrong multipliers

The last finite element of a control stage has no boundary point multipliers.
With Gauss-Legendre schemes the conditions at its end point were imposed on the
multipliers of the last Runge-Kutta stage, which is infeasible in general.
---
 nosnoc/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 08ed3c6..bb87f97 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -505,7 +505,8 @@ class FiniteElement(FiniteElementBase):
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         # g_z_all constraint for boundary point and continuity of algebraic variables.
-        if not opts.right_boundary_point_explicit and opts.use_fesd:
+        if (not opts.right_boundary_point_explicit and opts.use_fesd and
+                self.fe_idx < opts.Nfe_list[self.ctrl_idx] - 1):
             self.add_constraint(
                 model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))
 
-- 
2.43.0


From 5b0ca5c9e3e0b74d50da3bc4b0230ba35a410322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 14/47] fix: initial multipliers were mixed up in Step mode
 with several subsystems

The parameter lambda00 holds lambda_n of all subsystems followed by lambda_p of
all subsystems, the values were interleaved per subsystem.
---
 nosnoc/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 6c7f4a0..3ae2813 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -257,6 +257,7 @@ class NosnocModel:
         g_switching = ca.SX.zeros((0, 1))
         g_convex = ca.SX.zeros((0, 1))  # equation for the convex multiplers 1 = e' \theta
         lambda00_expr = ca.SX.zeros(0, 0)
+        lambda00_p_expr = ca.SX.zeros(0, 0)
         std_compl_res = ca.SX.zeros(1)  # residual of standard complementarity
 
         # Note: this is the order of z used by FiniteElement
@@ -296,8 +297,10 @@ class NosnocModel:
                     self.c[ii] - lambda_p[ii] + lambda_n[ii])
                 std_compl_res += ca.transpose(lambda_n[ii]) @ alpha_ii
                 std_compl_res += ca.transpose(lambda_p[ii]) @ (np.ones(n_c_sys[ii]) - alpha_ii)
-                lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0),
-                                           ca.fmax(self.c[ii], 0))
+                lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0))
+                lambda00_p_expr = ca.vertcat(lambda00_p_expr, ca.fmax(self.c[ii], 0))
+            # NOTE: lambda_n of all subsystems come before lambda_p of all subsystems
+            lambda00_expr = ca.vertcat(lambda00_expr, lambda00_p_expr)
         else:
             raise NotImplementedError()
 
-- 
2.43.0


From a0b0f7de432fcdcc71b99956dee3d57831cfe7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:14 +0000
Subject: [PATCH 15/47] fix: an interrupt while fixing the active set started
 the debugger

The bare except swallowed the exception (a KeyboardInterrupt included) and
called breakpoint(), which blocks unattended runs.
---
 nosnoc/solver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index dcc25ec..43cc88b 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -355,10 +355,7 @@ class NosnocSolver(NosnocSolverBase):
             w_zero_indices = []
             for i in range(opts.n_s):
                 tmp = flatten(ind_theta_fe1[i])
-                try:
-                    w_zero_indices += [tmp[i] for i in I_active_lam]
-                except:
-                    breakpoint()
+                w_zero_indices += [tmp[i] for i in I_active_lam]
 
             # if all but one lambda are zero: this theta can be fixed to 1.0, all other thetas are 0.0
             w_one_indices = []
-- 
2.43.0


From 299aaea39dba6968d4787807e85aee42337418c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 16/47] fix: problems with least squares constraint handling
 could not be dumped

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index bb87f97..6ec0d86 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -904,7 +904,7 @@ class NosnocProblem(NosnocFormulationObject):
             data = {
                 key: self.__dict__[key] for key in self.__dict__
                 if key not in [
-                    "w", "p", "cost", "g", "model", "ocp", "stages", "fe0"
+                    "w", "p", "cost", "g", "model", "ocp", "stages", "fe0", "g_lsq"
                 ]
             }
             data["f"] = ca.Function("f", [self.w, self.p], [self.cost])
-- 
2.43.0


From ecf931db3b7cf40d3cbdba09bcfaf0bff81b8bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:18 +0000
Subject: [PATCH 17/47] fix: Gauss-Legendre multipliers at the right boundary
 point missing in all-pairs complementarities

---
 nosnoc/problem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 6ec0d86..aa8ea67 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -521,7 +521,8 @@ class FiniteElement(FiniteElementBase):
                 theta = self.Theta(stage=j)
                 lam = self.prev_fe.Lambda(stage=-1)
                 comp_vec = ca.vertcat(comp_vec, theta*lam)
-                for jj in range(opts.n_s):
+                # NOTE: includes the right boundary point, if there is one
+                for jj in range(len(self.ind_lam)):
                     lam = self.Lambda(stage=jj)
                     comp_vec = ca.vertcat(comp_vec, theta*lam)
         else:
@@ -553,8 +554,8 @@ class FiniteElement(FiniteElementBase):
                 # cross comp with prev_fe
                 self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),
                                             sigma_p, tau, s_elastic)
-                for jj in range(opts.n_s):
-                    # within fe
+                for jj in range(len(self.ind_lam)):
+                    # within fe, including the right boundary point, if there is one
                     self.create_complementarity([self.Theta(stage=j)], self.Lambda(stage=jj),
                                                 sigma_p, tau, s_elastic)
         elif opts.cross_comp_mode == CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA:
-- 
2.43.0


From 366c9b0d7268be1bd150b17ffce51125f5d7f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:13 +0000
Subject: [PATCH 18/47] fix: multipliers not bounded below with
 ELASTIC_TWO_SIDED and BOOLEAN

---
 nosnoc/problem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index aa8ea67..ea9c3ec 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -281,10 +281,11 @@ class FiniteElement(FiniteElementBase):
         else:
             self.h = h0
 
-        if opts.mpcc_mode in [MpccMode.SCHOLTES_EQ, MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ, MpccMode.ELASTIC_EQ]:
-            lb_dual = 0.0
-        else:
+        if opts.mpcc_mode in [MpccMode.FISCHER_BURMEISTER, MpccMode.FISCHER_BURMEISTER_IP_AUG]:
+            # NOTE: these functions enforce nonnegativity of the multipliers, the others need the bound.
             lb_dual = -np.inf
+        else:
+            lb_dual = 0.0
 
         # RK stage stuff
         for ii in range(opts.n_s):
-- 
2.43.0


From 4f34e66fa4a1260f6bfb27c9ab0162969351c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:53 +0000
Subject: [PATCH 19/47] fix: path complementarities were not part of the
 complementarity residual

---
 nosnoc/problem.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index ea9c3ec..387c3fd 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -270,6 +270,9 @@ class FiniteElement(FiniteElementBase):
         self.ind_comp = []
         self.ind_bool = []
 
+        # products of the path complementarities
+        self.path_comp_vec = ca.SX.zeros(0, 1)
+
         # create variables
         h_ctrl_stage = opts.terminal_time / opts.N_stages
         h0 = np.array([h_ctrl_stage / np.array(opts.Nfe_list[ctrl_idx])])
@@ -515,7 +518,7 @@ class FiniteElement(FiniteElementBase):
 
     def get_complementarity_vector(self):
         opts = self.opts
-        comp_vec = []
+        comp_vec = self.path_comp_vec
         if opts.use_fesd:
             for j in range(opts.n_s):
                 # cross comp with prev_fe
@@ -541,10 +544,12 @@ class FiniteElement(FiniteElementBase):
             stage_comps = self.ocp.g_rk_comp_fun(X_fe[j], Uk, z, self.p, self.model.v_global)  # TODO maybe should include stage z
             a, b = ca.horzsplit(stage_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
+            self.path_comp_vec = ca.vertcat(self.path_comp_vec, a*b)
         if self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1:
             ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.p, self.model.v_global)
             a, b = ca.horzsplit(ctrl_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
+            self.path_comp_vec = ca.vertcat(self.path_comp_vec, a*b)
 
         if not opts.use_fesd:
             for j in range(opts.n_s):
@@ -706,13 +711,13 @@ class NosnocProblem(NosnocFormulationObject):
         self.ind_comp[ctrl_idx].append(increment_indices(fe.ind_comp, g_len))
         return
 
-    def create_global_compl_constraints(self, sigma_p: ca.SX, tau: ca.SX, s_elastic: ca.SX) -> None:
+    def create_global_compl_constraints(self, sigma_p: ca.SX, tau: ca.SX, s_elastic: ca.SX) -> ca.SX:
         # TODO add other complementarity modes here.
         p_global = self.p[self.model.dims.n_p_time_var:self.model.dims.n_p_time_var + self.model.dims.n_p_glob]
         stage_comps = self.ocp.g_global_comp_fun(p_global, self.model.v_global)  # TODO maybe should include stage z
         a, b = ca.horzsplit(stage_comps)
         self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-        return
+        return a*b
 
     def __init__(self, opts: NosnocOpts, model: NosnocModel, ocp: Optional[NosnocOcp] = None):
 
@@ -812,10 +817,9 @@ class NosnocProblem(NosnocFormulationObject):
                     [opts.time_freezing_tolerance])
 
         # Create global complementarities
-        self.create_global_compl_constraints(sigma_p, tau, s_elastic)
+        comp_vec = self.create_global_compl_constraints(sigma_p, tau, s_elastic)
 
         # Scalar-valued complementarity residual
-        comp_vec = []
         for fe in flatten(self.stages):
             comp_vec = ca.vertcat(comp_vec, fe.get_complementarity_vector())
         J_comp = ca.mmax(comp_vec)
-- 
2.43.0


From e858306422696d72eea7028121aa0ef75bce0cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:54 +0000
Subject: [PATCH 20/47] fix: integral cost was halved with one stage Radau and
 integral representation

---
 nosnoc/rk_utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nosnoc/rk_utils.py b/nosnoc/rk_utils.py
index 5045996..7a17f73 100644
--- a/nosnoc/rk_utils.py
+++ b/nosnoc/rk_utils.py
@@ -1080,9 +1080,16 @@ def generate_butcher_tableu_integral(n_s: int, irk_scheme: IrkSchemes):
         for r in range(n_s + 1):
             C[j, r] = np.polyval(pder, tau_root[r])
 
-        # Evaluate the integral of the polynomial to get the coefficients of the quadrature function
-        pint = np.polyint(coeff)
-        B[j] = np.polyval(pint, 1.0)
+        # Evaluate the integral of the polynomial through the collocation points to get the
+        # coefficients of the quadrature function (the integrand is not evaluated at tau = 0)
+        if j > 0:
+            coeff = 1
+            for r in range(1, n_s + 1):
+                if not r == j:
+                    coeff = np.convolve(coeff, [1, -tau_root[r]])
+                    coeff = coeff / (tau_root[j] - tau_root[r])
+            pint = np.polyint(np.atleast_1d(coeff))
+            B[j] = np.polyval(pint, 1.0)
     return B, C, D, tau_root
 
 
-- 
2.43.0


From fdd9d16168c08ef8db1e7fd42aa80187c7ba4ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:20 +0000
Subject: [PATCH 21/47] fix: auto model: stack the switching functions like
 their step multipliers

With two or more nonsmooth functions the general inclusion got one c per
function, but a single stacked alpha, and could not be preprocessed.
---
 nosnoc/auto_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9b9c05a..9c06053 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -57,7 +57,7 @@ class NosnocAutoModel:
         """
         if self._detect_additive():
             self._reformulate_nonlin()
-            return NosnocModel(x=self.x, f_x=[self.f], c=self.c, alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
         else:
             self._reformulate_linear()
             return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u)
-- 
2.43.0


From cc67302b2e48a122e3807565f76d276f54a1c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:20 +0000
Subject: [PATCH 22/47] fix: auto model: equal switching functions form one
 subsystem

The components are collated by the string of c, but the subsystems were keyed
by the node: an equal switching function which was built twice entered the
dynamics twice.
---
 nosnoc/auto_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9c06053..bbfd825 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -102,14 +102,14 @@ class NosnocAutoModel:
                 comps = collated[c_str]
                 f_ij = [ca.SX(0), ca.SX(0)]
                 for f, c, S in comps:
-                    cS_map[c] = S
+                    cS_map[c_str] = (c, S)
                     f_ij[0] += f[0]
                     f_ij[1] += f[1]
                 f_i[c_str] = ca.horzcat(*f_ij)
             fs.append(f_i)
 
-        for c, S in cS_map.items():
-            self.F.append(casadi_vertcat_list([f_i[c.str()] for f_i in fs]))
+        for c_str, (c, S) in cS_map.items():
+            self.F.append(casadi_vertcat_list([f_i[c_str] for f_i in fs]))
             self.c.append(c)
             self.S.append(S)
         self.F[0][:, 0] += f_common
-- 
2.43.0


From 456c6825139b73db44132fc64477421a373d46f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:20 +0000
Subject: [PATCH 23/47] fix: auto model: allow rows without a smooth component

---
 nosnoc/auto_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index bbfd825..7f0251a 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -80,7 +80,7 @@ class NosnocAutoModel:
             nsm.append(nonsmooth_components)
             sm.append(smooth_components)
         # each smooth component is part of the common dynamics this is added to the first element
-        f_common = casadi_vertcat_list([casadi_sum_list(f) for f in sm])
+        f_common = casadi_vertcat_list([casadi_sum_list([ca.SX(0)] + f) for f in sm])
 
         # Extract all the Additive components and categorize them by switching function
         collated_components = []
-- 
2.43.0


From d649dd6d040fcc8640321ecaef9a2814639e950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:20 +0000
Subject: [PATCH 24/47] fix: auto model: linear reformulation of fmin

It returned five values instead of three.
---
 nosnoc/auto_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 7f0251a..e43ab1f 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -147,7 +147,8 @@ class NosnocAutoModel:
             if node.is_op(ca.OP_FMAX):
                 return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             elif node.is_op(ca.OP_FMIN):
-                return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[-1], [1]]), node.dep(0)-node.dep(1), np.array([[-1], [1]])
+                # NOTE: same order of the regions as for the other functions, they might share the switching function
+                return [node.dep(1), node.dep(0)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             else:
                 # binary operator
                 l_children, l_c, l_S = self._rebuild_additive_component(node.dep(0))
-- 
2.43.0


From a9e802b109f03d805bedf50f407497c84297936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:20 +0000
Subject: [PATCH 25/47] fix: auto model: components with several nonsmooth
 functions

The linear reformulation takes two values per component; for functions of two
or more nonsmooth functions it silently dropped the others.
---
 nosnoc/auto_model.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index e43ab1f..9039395 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -55,7 +55,7 @@ class NosnocAutoModel:
         Reformulate the given nonsmooth ODE into a NosnocModel.
         Note: Care must be taken if your model is complex, in which case the Pss Mode `STEP` should be used.
         """
-        if self._detect_additive():
+        if self._detect_additive() or self._detect_coupled():
             self._reformulate_nonlin()
             return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
         else:
@@ -130,6 +130,12 @@ class NosnocAutoModel:
                     return True
         return False
 
+    def _detect_coupled(self):
+        """Detect components with more than one nonsmooth function, which the linear reformulation can not represent."""
+        return any(self._count_nonsmooth(component) > 1
+                   for f_nonsmooth in ca.vertsplit(self.f_nonsmooth_ode)
+                   for component in self._find_nonlinear_components(f_nonsmooth))
+
     # TODO type output
     def _rebuild_additive_component(self, node: ca.SX):
         if node.n_dep() == 0:
@@ -262,6 +268,12 @@ class NosnocAutoModel:
                 r_smooth = self._check_smooth(node.dep(1))
                 return l_smooth and r_smooth
 
+    def _count_nonsmooth(self, node: ca.SX) -> int:
+        count = sum(self._count_nonsmooth(node.dep(i)) for i in range(node.n_dep()))
+        if node.is_op(ca.OP_SIGN) or node.is_op(ca.OP_FMAX) or node.is_op(ca.OP_FMIN):
+            count += 1
+        return count
+
     def _find_nonlinear_components(self, node: ca.SX) -> List[ca.SX]:
         if node.n_dep() == 0:
             return [node]
-- 
2.43.0


From 2cf47fa9448470b66651521ed467fca6b2ac67d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:54 +0000
Subject: [PATCH 26/47] fix: STEP reformulation of subsystems with different
 numbers of regions

---
 nosnoc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 3ae2813..97baa80 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -250,7 +250,7 @@ class NosnocModel:
                             upsilon_ij *= (0.5 * (1 - S_temp[j, k]) +
                                            S_temp[j, k] * alpha[ii][k])
                     upsilon_temp = ca.vertcat(upsilon_temp, upsilon_ij)
-                upsilon = ca.horzcat(upsilon, upsilon_temp)
+                upsilon.append(upsilon_temp)
 
         # start empty
         g_lift = ca.SX.zeros((0, 1))
@@ -288,7 +288,7 @@ class NosnocModel:
         elif opts.pss_mode == PssMode.STEP:
             for ii in range(n_sys):
                 if self.F is not None:
-                    f_x = f_x + self.F[ii] @ upsilon[:, ii]
+                    f_x = f_x + self.F[ii] @ upsilon[ii]
                     alpha_ii = alpha[ii]
                 else:
                     alpha_ii = self.alpha[ii]
-- 
2.43.0


From 91b856e58e5e401400450bb0a07e939d4a09439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:56 +0000
Subject: [PATCH 27/47] fix: RK4_SMOOTHENED initialization of models with
 parameters

---
 nosnoc/model.py  | 4 +++-
 nosnoc/solver.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 97baa80..05ab8b1 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -407,7 +407,9 @@ class NosnocModel:
         theta_smooth = casadi_vertcat_list(theta_list)
         mu_smooth = casadi_vertcat_list(mu_smooth_list)
 
-        self.f_x_smooth_fun = ca.Function('f_x_smooth_fun', [self.x], [f_x_smooth])
+        # NOTE: for models with parameters, the smooth dynamics are a function of (x, p)
+        f_x_smooth_in = [self.x, self.p] if casadi_length(self.p) > 0 else [self.x]
+        self.f_x_smooth_fun = ca.Function('f_x_smooth_fun', f_x_smooth_in, [f_x_smooth])
         self.theta_smooth_fun = ca.Function('theta_smooth_fun', [self.x, self.p], [theta_smooth])
         self.mu_smooth_fun = ca.Function('mu_smooth_fun', [self.x, self.p], [mu_smooth])
         self.lambda_smooth_fun = ca.Function('lambda_smooth_fun', [self.x, self.p], [lambda_smooth])
diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 43cc88b..5725af9 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -130,10 +130,13 @@ class NosnocSolverBase(ABC):
                 [opts.irk_time_points[k] - opts.irk_time_points[k - 1] for k in range(1, opts.n_s)])
             rk4_t_grid = dt_fe * irk_time_grid
 
+            p_0 = self.model.p_val_ctrl_stages[0]
+            f_args = [p_0] if p_0.size > 0 else []
+
             x_rk4_current = x0
             db_updated_indices = list()
             for i in range(opts.N_finite_elements):
-                Xrk4 = rk4_on_timegrid(self.model.f_x_smooth_fun,
+                Xrk4 = rk4_on_timegrid(lambda x: self.model.f_x_smooth_fun(x, *f_args),
                                        x0=x_rk4_current,
                                        t_grid=rk4_t_grid)
                 x_rk4_current = Xrk4[-1]
@@ -144,7 +147,6 @@ class NosnocSolverBase(ABC):
                     # NOTE: we don't use lambda_smooth_fun, since it gives negative lambdas
                     # -> infeasible. Possibly another smooth min fun could be used.
                     # However, this would be inconsistent with mu.
-                    p_0 = self.model.p_val_ctrl_stages[0]
                     # NOTE: z not supported!
                     lam_ki = self.model.lambda00_fun(x_ki, [], p_0)
                     mu_ki = self.model.mu_smooth_fun(x_ki, p_0)
-- 
2.43.0


From 772c46a813cd914e5b0ce5ed0346afeb729396bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:56 +0000
Subject: [PATCH 28/47] fix: overflow of the smoothed minimum for small
 smoothing parameters

---
 nosnoc/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 05ab8b1..de6157c 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -389,8 +389,9 @@ class NosnocModel:
             alpha_expr_s = casadi_vertcat_list([smooth_step_fun(self.c[s][i]) for i in range(n_c)])
 
             min_in = ca.SX.sym('min_in', dims.n_f_sys[s])
-            min_out = ca.sum1(casadi_vertcat_list([min_in[i]*ca.exp(-1/smoothing_parameter * min_in[i]) for i in range(casadi_length(min_in))])) / \
-                      ca.sum1(casadi_vertcat_list([ca.exp(-1/smoothing_parameter * min_in[i]) for i in range(casadi_length(min_in))]))
+            # NOTE: shifted by the minimum, which avoids over- and underflow for small smoothing parameters
+            weights = ca.exp(-1/smoothing_parameter * (min_in - ca.mmin(min_in)))
+            min_out = ca.sum1(min_in * weights) / ca.sum1(weights)
             smooth_min_fun = ca.Function('smooth_min_fun', [min_in], [min_out])
             mu_smooth_list.append(-smooth_min_fun(g_Stewart_list[s]))
             lambda_smooth = ca.vertcat(lambda_smooth,
-- 
2.43.0


From 73f758c46de2578ab18359ebed824b2644de190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:56 +0000
Subject: [PATCH 29/47] fix: RK4_SMOOTHENED initialization with the integral
 representation used the wrong stage times

---
 nosnoc/solver.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 5725af9..07cf07d 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -125,9 +125,8 @@ class NosnocSolverBase(ABC):
             # print(f"updating w0 with RK4 smoothened")
             # NOTE: assume N_stages = 1 and STEWART
             dt_fe = opts.terminal_time / (opts.N_stages * opts.N_finite_elements)
-            irk_time_grid = np.array(
-                [opts.irk_time_points[0]] +
-                [opts.irk_time_points[k] - opts.irk_time_points[k - 1] for k in range(1, opts.n_s)])
+            # NOTE: the time points of the integral representation start with 0
+            irk_time_grid = np.diff(np.concatenate(([0.0], opts.irk_time_points[-opts.n_s:])))
             rk4_t_grid = dt_fe * irk_time_grid
 
             p_0 = self.model.p_val_ctrl_stages[0]
-- 
2.43.0


From bd959b4a5769d47dcfcd4e6a6437489fa9e2b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:15 +0000
Subject: [PATCH 30/47] fix: RK4_SMOOTHENED initialization with the
 differential representation raised IndexError

---
 nosnoc/solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 07cf07d..091e79d 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -142,7 +142,10 @@ class NosnocSolverBase(ABC):
                 # print(f"{Xrk4=}")
                 for k in range(opts.n_s):
                     x_ki = Xrk4[k + 1]
-                    prob.w0[prob.ind_x[0][i][k]] = x_ki
+                    # NOTE: the differential representation only has the state at the end
+                    ind_x_ki = prob.ind_x[0][i][k] if len(prob.ind_x[0][i]) >= opts.n_s else []
+                    if ind_x_ki:
+                        prob.w0[ind_x_ki] = x_ki
                     # NOTE: we don't use lambda_smooth_fun, since it gives negative lambdas
                     # -> infeasible. Possibly another smooth min fun could be used.
                     # However, this would be inconsistent with mu.
@@ -162,7 +165,7 @@ class NosnocSolverBase(ABC):
                         prob.w0[prob.ind_mu[0][i][k][s]] = mu_ki[s].full().flatten()
                         # TODO: ind_v
                     db_updated_indices += prob.ind_theta[0][i][k][s] + prob.ind_lam[0][i][k][
-                        s] + prob.ind_mu[0][i][k][s] + prob.ind_x[0][i][k] + prob.ind_h
+                        s] + prob.ind_mu[0][i][k][s] + ind_x_ki + prob.ind_h
                 if opts.irk_time_points[-1] != 1.0:
                     raise NotImplementedError
                 else:
-- 
2.43.0


From a2f3aba43517a543a1a9a2ac1e4dd46f14792e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:15 +0000
Subject: [PATCH 31/47] fix: RK4_SMOOTHENED initialization ignored Nfe_list

---
 nosnoc/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 091e79d..1cfbdd8 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -124,7 +124,8 @@ class NosnocSolverBase(ABC):
         elif opts.initialization_strategy == InitializationStrategy.RK4_SMOOTHENED:
             # print(f"updating w0 with RK4 smoothened")
             # NOTE: assume N_stages = 1 and STEWART
-            dt_fe = opts.terminal_time / (opts.N_stages * opts.N_finite_elements)
+            n_fe = opts.Nfe_list[0]
+            dt_fe = opts.terminal_time / (opts.N_stages * n_fe)
             # NOTE: the time points of the integral representation start with 0
             irk_time_grid = np.diff(np.concatenate(([0.0], opts.irk_time_points[-opts.n_s:])))
             rk4_t_grid = dt_fe * irk_time_grid
@@ -134,7 +135,7 @@ class NosnocSolverBase(ABC):
 
             x_rk4_current = x0
             db_updated_indices = list()
-            for i in range(opts.N_finite_elements):
+            for i in range(n_fe):
                 Xrk4 = rk4_on_timegrid(lambda x: self.model.f_x_smooth_fun(x, *f_args),
                                        x0=x_rk4_current,
                                        t_grid=rk4_t_grid)
-- 
2.43.0


From e4bcd8f2054e08cf35bf4e148340aa08ce791ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:33 +0000
Subject: [PATCH 32/47] fix: options derived for an earlier solver were kept
 when the options were changed

---
 nosnoc/nosnoc_opts.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index d7bbed2..29ca896 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -130,6 +130,9 @@ class NosnocOpts:
         doc="Maximum amount of iterations for the subsolver."
     )
 
+    # values set by preprocess: attribute -> (value before, derived value)
+    _derived: dict = field(default_factory=dict, init=False, repr=False, compare=False)
+
     def __repr__(self) -> str:
         out = ''
         for k, v in self.__dict__.items():
@@ -137,10 +140,17 @@ class NosnocOpts:
         return out
 
     def preprocess(self):
+        # values derived by a previous call follow the options they are derived from
+        for attr, (unset, derived) in self._derived.items():
+            if getattr(self, attr) == derived:
+                setattr(self, attr, unset)
+        self._derived = {}
+
         # IPOPT tol should be smaller than outer tol, but not too much
         # Note IPOPT option list: https://coin-or.github.io/Ipopt/OPTIONS.html
         if self.tol_ipopt is None:
             self.tol_ipopt = self.comp_tol * 1e-2
+            self._derived['tol_ipopt'] = (None, self.tol_ipopt)
 
         validate(self)
         # self.opts_casadi_nlp['ipopt']['print_level'] = self.print_level
@@ -152,9 +162,11 @@ class NosnocOpts:
 
         if self.max_iter_homotopy == 0:
             self.max_iter_homotopy = int(np.round(np.abs(np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope)))) + 1
+            self._derived['max_iter_homotopy'] = (0, self.max_iter_homotopy)
 
         if len(self.Nfe_list) == 0:
             self.Nfe_list = self.N_stages * [self.N_finite_elements]
+            self._derived['Nfe_list'] = ([], list(self.Nfe_list))
 
         # Butcher Tableau
         if self.irk_representation == IrkRepresentation.INTEGRAL:
-- 
2.43.0


From f46f92e56d6316e352b7f564b133ef652aa0d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:33 +0000
Subject: [PATCH 33/47] fix: the default p_time_var_val of an earlier solver
 was kept when N_stages was changed

---
 nosnoc/model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index de6157c..eda640e 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -187,14 +187,15 @@ class NosnocModel:
                             f"p_global {self.p_global}, p_global_val {self.p_global_val}")
 
         n_p_time_var = casadi_length(self.p_time_var)
-        if self.p_time_var_val is None:
-            self.p_time_var_val = np.zeros((opts.N_stages, n_p_time_var))
-        if not self.p_time_var_val.shape == (opts.N_stages, n_p_time_var):
+        p_time_var_val = self.p_time_var_val
+        if p_time_var_val is None:
+            p_time_var_val = np.zeros((opts.N_stages, n_p_time_var))
+        if not p_time_var_val.shape == (opts.N_stages, n_p_time_var):
             raise Exception(
                 "dimension of p_time_var_val and p_time_var mismatch.",
                 f"Expected shape: ({opts.N_stages}, {n_p_time_var}), "
-                f"got p_time_var_val.shape {self.p_time_var_val.shape}"
-                f"p_time_var {self.p_time_var}, p_time_var_val {self.p_time_var_val}")
+                f"got p_time_var_val.shape {p_time_var_val.shape}"
+                f"p_time_var {self.p_time_var}, p_time_var_val {p_time_var_val}")
 
         # extend parameters for each stage
         n_p = n_p_time_var + n_p_glob
@@ -203,7 +204,7 @@ class NosnocModel:
 
         self.p_val_ctrl_stages = np.zeros((opts.N_stages, n_p))
         for i in range(opts.N_stages):
-            self.p_val_ctrl_stages[i, :n_p_time_var] = self.p_time_var_val[i, :]
+            self.p_val_ctrl_stages[i, :n_p_time_var] = p_time_var_val[i, :]
             self.p_val_ctrl_stages[i, n_p_time_var:] = self.p_global_val
 
         # initial guess z0
-- 
2.43.0


From f99e5edfd90dec46b44b82391aa3c689d095f2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:33 +0000
Subject: [PATCH 34/47] fix: Nfe_list of the wrong length was accepted and
 truncated

---
 nosnoc/nosnoc_opts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index 29ca896..9659e70 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -167,6 +167,8 @@ class NosnocOpts:
         if len(self.Nfe_list) == 0:
             self.Nfe_list = self.N_stages * [self.N_finite_elements]
             self._derived['Nfe_list'] = ([], list(self.Nfe_list))
+        elif len(self.Nfe_list) != self.N_stages:
+            raise ValueError(f"Nfe_list should be empty or of length N_stages ({self.N_stages}), got {self.Nfe_list}.")
 
         # Butcher Tableau
         if self.irk_representation == IrkRepresentation.INTEGRAL:
-- 
2.43.0


From 2dbdd09e8ff502fcbe20b7cb98bcb90af2b7a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:33 +0000
Subject: [PATCH 35/47] fix: lists F, c, S, g_Stewart of different lengths were
 accepted and truncated

---
 nosnoc/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index eda640e..eb4a4f7 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -156,6 +156,8 @@ class NosnocModel:
                     raise ValueError("model.g_Stewart is used and pss_mode should be STEWART")
                 if not isinstance(self.g_Stewart, list):
                     raise ValueError("model.g_Stewart should be a list.")
+                if len(self.g_Stewart) != n_sys:
+                    raise ValueError("model.F and model.g_Stewart should have the same length!")
                 for i, g_Stewart in enumerate(self.g_Stewart):
                     if g_Stewart.shape[0] != self.F[i].shape[1]:
                         raise ValueError(f"Dimensions g_Stewart and F for item {i} should be equal!")
@@ -164,8 +166,8 @@ class NosnocModel:
                     raise ValueError("model.c should be a list.")
                 if not isinstance(self.S, list):
                     raise ValueError("model.S should be a list.")
-                if len(self.c) != len(self.S):
-                    raise ValueError("model.c and model.S should have the same length!")
+                if not n_sys == len(self.c) == len(self.S):
+                    raise ValueError("model.F, model.c and model.S should have the same length!")
                 for i, (fi, Si) in enumerate(zip(self.F, self.S)):
                     if fi.shape[1] != Si.shape[0]:
                         raise ValueError(
-- 
2.43.0


From 094d1b1b2a356af7260fd7b201aa5615d7c3967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:33 +0000
Subject: [PATCH 36/47] fix: Step mode accepted region matrices S that do not
 match c

---
 nosnoc/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index eb4a4f7..3f70a2b 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -172,6 +172,9 @@ class NosnocModel:
                     if fi.shape[1] != Si.shape[0]:
                         raise ValueError(
                             f"model.F item {i} and S {i} should have the same number of columns")
+                    if Si.shape[1] != n_c_sys[i]:
+                        raise ValueError(
+                            f"model.S item {i} should have one column for each entry of c {i}")
         else:  # Only check Step because Stewart is not allowed for general inclusions
             if opts.pss_mode == PssMode.STEWART:
                 raise ValueError("model formulation with general inclusions using model.f_x is not supported with PssMode.STEWART")
-- 
2.43.0


From bee0cceb6bbcb273a99738fa66d7efb9790e5ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:33 +0000
Subject: [PATCH 37/47] fix: vector fields with a single row were broadcast to
 all states

---
 nosnoc/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 3f70a2b..a807c59 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -148,6 +148,8 @@ class NosnocModel:
             if not isinstance(self.F, list):
                 raise ValueError("model.F should be a list.")
             for i, f in enumerate(self.F):
+                if f.shape[0] != n_x:
+                    raise ValueError(f"model.F item {i} should have n_x ({n_x}) rows, got {f.shape[0]}.")
                 if f.shape[1] == 1:
                     raise Warning(f"model.F item {i} is not a switching system!")
 
@@ -179,6 +181,8 @@ class NosnocModel:
             if opts.pss_mode == PssMode.STEWART:
                 raise ValueError("model formulation with general inclusions using model.f_x is not supported with PssMode.STEWART")
             n_f_sys = [self.f_x[i].shape[1] for i in range(n_sys)]
+            if casadi_length(casadi_vertcat_list(self.f_x)) != n_x:
+                raise ValueError(f"model.f_x should have n_x ({n_x}) rows in total.")
             if not isinstance(self.c, list):
                 raise ValueError("model.c should be a list.")
             if casadi_length(casadi_vertcat_list(self.c)) != casadi_length(casadi_vertcat_list(self.alpha)):
-- 
2.43.0


From 22b16e34afadf1171fcd7a567dc4b24f6087750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:33 +0000
Subject: [PATCH 38/47] fix: least squares handling turned constraints 0 <= g
 <= ub into equalities

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 387c3fd..3b84355 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -860,7 +860,7 @@ class NosnocProblem(NosnocFormulationObject):
         if opts.constraint_handling == ConstraintHandling.LEAST_SQUARES:
             self.g_lsq = copy(self.g)
             for ii in range(casadi_length(self.g)):
-                if self.lbg[ii] != 0.0:
+                if self.lbg[ii] != 0.0 or self.ubg[ii] != 0.0:
                     raise Exception(
                         f"least_squares constraint handling only supported if all lbg, ubg == 0.0, got {self.lbg[ii]=}, {self.ubg[ii]=}, {self.g[ii]=}"
                     )
-- 
2.43.0


From 7ae4b1818e07ac7456bbef47ab036a20ed166218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:33 +0000
Subject: [PATCH 39/47] fix: set() stored values of the wrong shape and applied
 p_time_var partially

---
 nosnoc/solver.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 1cfbdd8..6652fdb 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -47,7 +47,10 @@ class NosnocSolverBase(ABC):
         prob = self.problem
         dims = prob.model.dims
         if field == 'x0':
-            prob.model.x0 = np.array(value, dtype=float)
+            value = np.array(value, dtype=float)
+            if value.shape != (dims.n_x,):
+                raise ValueError(f"x0 should have shape ({dims.n_x},), got {value.shape}")
+            prob.model.x0 = value
         elif field == 'x':  # TODO: check other dimensions for useful error message
             if value.shape[0] == self.opts.N_stages:
                 # Shape is equal to the number of control stages
@@ -80,6 +83,9 @@ class NosnocSolverBase(ABC):
             for i in range(self.opts.N_stages):
                 self.model.p_val_ctrl_stages[i, dims.n_p_time_var:] = value
         elif field == 'p_time_var':
+            if value.shape != (self.opts.N_stages, dims.n_p_time_var):
+                raise ValueError("p_time_var should have shape "
+                                 f"({self.opts.N_stages}, {dims.n_p_time_var}), got {value.shape}")
             for i in range(self.opts.N_stages):
                 self.model.p_val_ctrl_stages[i, :dims.n_p_time_var] = value[i, :]
         elif field == 'theta':
@@ -93,7 +99,10 @@ class NosnocSolverBase(ABC):
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
         elif field == 'w':
-            prob.w0 = np.array(value, dtype=float)
+            value = np.array(value, dtype=float)
+            if value.size != prob.w0.size:
+                raise ValueError(f"w should have length {prob.w0.size}, got shape {value.shape}")
+            prob.w0 = value
             if self.opts.initialization_strategy is not InitializationStrategy.EXTERNAL:
                 raise Warning(
                     'full initialization w might be overwritten due to InitializationStrategy != EXTERNAL.'
-- 
2.43.0


From 203ac10a0efedf9629b2c0c95fd46e0bb724e47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:52 +0000
Subject: [PATCH 40/47] fix: plot_iterates raised KeyError for every iterate

---
 nosnoc/plot_utils.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/nosnoc/plot_utils.py b/nosnoc/plot_utils.py
index 19f4edd..fe51664 100644
--- a/nosnoc/plot_utils.py
+++ b/nosnoc/plot_utils.py
@@ -4,7 +4,7 @@ import matplotlib.pyplot as plt
 import matplotlib
 
 from nosnoc import NosnocProblem, get_results_from_primal_vector
-from .utils import flatten_layer
+from .utils import flatten, flatten_outer_layers
 from .nosnoc_types import PssMode
 
 
@@ -81,15 +81,10 @@ def plot_iterates(problem: NosnocProblem,
     for it, iterate in enumerate(iterates):
         results = get_results_from_primal_vector(problem, iterate)
 
-        # flatten sys layer
-        lambdas = flatten_layer(results['lambda_list'], 2)
-        thetas = flatten_layer(results['theta_list'], 2)
-        mus = flatten_layer(results['mu_list'], 2)
-
-        # flatten fe layer
-        lambdas = flatten_layer(lambdas, 0)
-        thetas = flatten_layer(thetas, 0)
-        mus = flatten_layer(mus, 0)
+        # values at all stage points, subsystems stacked
+        lambdas = [iterate[flatten(ind)] for ind in flatten_outer_layers(problem.ind_lam, 2)]
+        thetas = [iterate[flatten(ind)] for ind in flatten_outer_layers(problem.ind_theta, 2)]
+        mus = [iterate[flatten(ind)] for ind in flatten_outer_layers(problem.ind_mu, 2)]
 
         n_lam = len(lambdas[0])
         n_mu = len(mus[0])
@@ -108,7 +103,7 @@ def plot_iterates(problem: NosnocProblem,
         # TODO: make this step plot?
         plt.subplot(n_row, n_iterates, n_iterates * 1 + it + 1)
         for i in range(n_lam):
-            plt.plot([x[i] for x in thetas], label=r'$\\theta_' + f'{i+1}$')
+            plt.plot([x[i] for x in thetas], label=r'$\theta_' + f'{i+1}$')
         plt.grid(alpha=0.3)
         plt.legend()
 
-- 
2.43.0


From 8597c195564bffe62762bc90dccddf9864cb4b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:52 +0000
Subject: [PATCH 41/47] fix: problem.print did not flag guesses above their
 upper bound

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 3b84355..73cf95e 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -882,7 +882,7 @@ class NosnocProblem(NosnocFormulationObject):
             if self.lbw[i] > self.ubw[i]:
                 extra_info = " BOUND ERROR!"
                 errors += 1
-            elif self.w0[i] < self.lbw[i] or self.ubw[i] > self.ubw[i]:
+            elif self.w0[i] < self.lbw[i] or self.w0[i] > self.ubw[i]:
                 extra_info = " W0 ERROR!"
                 errors += 1
 
-- 
2.43.0


From 270566f6372d3f19ae63c1dfefa49d89936e477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:52 +0000
Subject: [PATCH 42/47] fix: create_function_calculate_vector_field raised
 AttributeError and used a wrong smoothing function

---
 nosnoc/solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 6652fdb..7d00178 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -280,9 +280,11 @@ class NosnocSolverBase(ABC):
 
     def create_function_calculate_vector_field(self, sigma, p=[], v=[]):
         """Create a function to calculate the vector field."""
-        if self.opts.pss_mode != PssMode.STEWART:
+        if self.opts.pss_mode != PssMode.STEWART or self.model.dims.n_sys != 1:
             raise NotImplementedError()
 
+        model = self.model
+        F_fun = ca.Function('F_fun', [model.x, model.z, model.u, model.p, model.v_global], [model.F[0]])
         shape = self.model.g_Stewart_fun.size_out(0)
         g = ca.SX.sym('g', shape[0])
         mu = ca.SX.sym('mu', 1)
@@ -291,14 +293,14 @@ class NosnocSolverBase(ABC):
         theta_fun = ca.rootfinder("lambda_fun", "newton", dict(
             x=ca.vertcat(theta, mu), p=g,
             g=ca.vertcat(
-                ca.sqrt(lam * lam - theta*theta + sigma*sigma) - (lam + theta),
+                ca.sqrt(lam * lam + theta*theta + sigma*sigma) - (lam + theta),
                 ca.sum1(theta)-1
             )
         ))
         def fun(x, u, z=[0]):
             g  = self.model.g_Stewart_fun(x, z, p)
             theta = theta_fun(0, g)[:-1]
-            F = self.model.F_fun(x, u, p, v)
+            F = F_fun(x, z, u, p, v)
             return np.dot(F, theta)
 
         return fun
-- 
2.43.0


From 703a8ca3efea9e6ce47ac8936b8bd12a63b8ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:20 +0000
Subject: [PATCH 43/47] fix: the model copies x0 and z0 instead of watching the
 arrays of the caller

---
 nosnoc/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index a807c59..a097218 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -1,3 +1,4 @@
+from copy import copy
 from typing import Optional, List
 
 import numpy as np
@@ -118,6 +119,10 @@ class NosnocModel:
         return out
 
     def preprocess_model(self, opts: NosnocOpts):
+        # NOTE: copies, later changes of the arrays of the caller should have no effect
+        self.x0 = copy(self.x0)
+        self.z0 = copy(self.z0)
+
         # detect dimensions
         n_x = casadi_length(self.x)
         n_u = casadi_length(self.u)
-- 
2.43.0


From 110135aba67aad72a07733d51c1b70b63b6ea51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:20 +0000
Subject: [PATCH 44/47] fix: results hold a copy of the initial state instead
 of the solver's own array

---
 nosnoc/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 7d00178..e9168fe 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import copy
 from typing import Optional
 
 import casadi as ca
@@ -493,7 +494,7 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
     # TODO: improve naming here?
     results["x_list"] = [w_opt[ind] for ind in flatten_layer(prob.ind_x_cont)]
 
-    x0 = prob.model.x0
+    x0 = copy(prob.model.x0)
     ind_x_all = flatten_outer_layers(prob.ind_x, 2)
     results["x_all_list"] = [x0] + [w_opt[np.array(ind)] for ind in ind_x_all]
     results["u_list"] = [w_opt[ind] for ind in prob.ind_u]
-- 
2.43.0


From 309128d25acb4aa5218a299fd4fcee4fd8ec81d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:20 +0000
Subject: [PATCH 45/47] fix: NosnocSimLooper copies x0, p_values and w_init
 instead of watching the arrays of the caller

---
 nosnoc/helpers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nosnoc/helpers.py b/nosnoc/helpers.py
index 1c19c6b..d7ba92e 100644
--- a/nosnoc/helpers.py
+++ b/nosnoc/helpers.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Optional
 
 import numpy as np
@@ -27,7 +28,8 @@ class NosnocSimLooper:
             raise Exception("NosnocSimLooper can only be used with pure simulation problem")
 
         # p values
-        self.p_values = p_values
+        # NOTE: copies, later changes of the arrays of the caller should have no effect
+        self.p_values = deepcopy(p_values)
         if self.p_values is not None:
             if self.p_values.shape != (Nsim, solver.problem.model.dims.n_p_glob):
                 raise ValueError("p_values should have shape (Nsim, n_p_glob). "
@@ -37,8 +39,8 @@ class NosnocSimLooper:
         self.solver: NosnocSolver = solver
         self.Nsim = Nsim
 
-        self.xcurrent = x0
-        self.X_sim = [x0]
+        self.xcurrent = deepcopy(x0)
+        self.X_sim = [self.xcurrent]
         self.time_steps = np.array([])
         self.theta_sim = []
         self.lambda_sim = []
@@ -48,7 +50,7 @@ class NosnocSimLooper:
         self.w_sim = []
         self.w_all = []
         self.cost_vals = []
-        self.w_init = w_init
+        self.w_init = deepcopy(w_init)
         if print_level is not None:
             self.print_level = print_level
         else:
-- 
2.43.0


From ed75645705e87b230c23dae1e26f8b91d453e557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:27 +0000
Subject: [PATCH 46/47] fix: repeated reformulate() calls do not add up the
 dynamics

---
 nosnoc/auto_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9039395..9fee515 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -55,6 +55,8 @@ class NosnocAutoModel:
         Reformulate the given nonsmooth ODE into a NosnocModel.
         Note: Care must be taken if your model is complex, in which case the Pss Mode `STEP` should be used.
         """
+        # start afresh: the lists of an earlier call belong to the model it returned
+        self.c, self.S, self.F, self.f, self.alpha = [], [], [], [], []
         if self._detect_additive() or self._detect_coupled():
             self._reformulate_nonlin()
             return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
-- 
2.43.0


From 6f8b1d5118c56ec0a9172d74ac14c0aeef7b22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:27 +0000
Subject: [PATCH 47/47] fix: NosnocAutoModel hands its parameters on to the
 model

---
 nosnoc/auto_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9fee515..b65a66d 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -57,12 +57,14 @@ class NosnocAutoModel:
         """
         # start afresh: the lists of an earlier call belong to the model it returned
         self.c, self.S, self.F, self.f, self.alpha = [], [], [], [], []
+        # NOTE: the values of the parameters, p_global_val, are set in the returned model
+        params = {} if self.p is None else {'p_global': self.p}
         if self._detect_additive() or self._detect_coupled():
             self._reformulate_nonlin()
-            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u, **params)
         else:
             self._reformulate_linear()
-            return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u, **params)
 
     def _reformulate_linear(self):
         # TODO actually implement linear reformulation
-- 
2.43.0


From 52574856ee5cfb8623018b17c695b4325602cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 01/73] fix: do not re-use cached intermediate results of RT1
 after its inputs changed

the powers of mu_0 and mu_ex and the parameter-derivatives were cached per
object, so changing the angles, V, SRF or the parameters had no effect on
them
---
 rt1/rt1.py | 47 +++++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 3f9ef0f..986a59d 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -225,18 +225,12 @@ class RT1(object):
         """a list of the names of the properties that are cached"""
 
         names = [
-            "_d_surface_dummy_lambda",
-            "_d_surface_dummy_lambda",
-            "_mu_0_x",
-            "_mu_ex_x",
+            "_diff_lambda",
         ]
         return names
 
     def _clear_cache(self):
-        self._d_surface_dummy_lambda.cache_clear()
-        self._d_surface_dummy_lambda.cache_clear()
-        RT1._mu_0_x.fget.cache_clear()
-        RT1._mu_ex_x.fget.cache_clear()
+        self._diff_lambda.cache_clear()
 
     def _cache_info(self):
         text = []
@@ -1324,14 +1318,12 @@ class RT1(object):
         return S
 
     @property
-    @lru_cache()
     def _mu_0_x(self):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
         mux = np.array([self._mu_0 ** (n + 1) for n in range(nmax)])
         return mux
 
     @property
-    @lru_cache()
     def _mu_ex_x(self):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
         mux = np.array([self._mu_ex ** (n + 1) for n in range(nmax)])
@@ -1536,17 +1528,21 @@ class RT1(object):
 
         return self.SRF.NormBRDF * (I_bs - Isurf)
 
+    @staticmethod
     @lru_cache(20)
-    def _d_surface_dummy_lambda(self, key):
+    def _diff_lambda(func, key, params):
         """
-        a cached lambda-function for computing
-        the derivative of the surface-function
-        with respect to a given parameter
+        a cached lambda-function for computing the derivative of a
+        function with respect to a given parameter
 
         Parameters
         ----------
+        func : sympy expression
+            the function to differentiate.
         key : str
             the parameter to use.
+        params : tuple of str
+            the names of all parameters of the function.
 
         Returns
         -------
@@ -1559,30 +1555,21 @@ class RT1(object):
         phi_0 = sp.Symbol("phi_0")
         phi_ex = sp.Symbol("phi_ex")
 
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())
+        args = (theta_0, theta_ex, phi_0, phi_ex) + params
 
         return sp.lambdify(
             args,
-            sp.diff(self.SRF._func, sp.Symbol(key)),
+            sp.diff(func, sp.Symbol(key)),
             modules=["numpy", "sympy"],
         )
 
-    @lru_cache(20)
+    def _d_surface_dummy_lambda(self, key):
+        """the derivative of the surface-function with respect to key"""
+        return self._diff_lambda(self.SRF._func, key, tuple(self.param_dict))
+
     def _d_volume_dummy_lambda(self, key):
         """same as _d_surface_dummy_lambda but for volume"""
-
-        theta_0 = sp.Symbol("theta_0")
-        theta_ex = sp.Symbol("theta_ex")
-        phi_0 = sp.Symbol("phi_0")
-        phi_ex = sp.Symbol("phi_ex")
-
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())
-
-        return sp.lambdify(
-            args,
-            sp.diff(self.V._func, sp.Symbol(key)),
-            modules=["numpy", "sympy"],
-        )
+        return self._diff_lambda(self.V._func, key, tuple(self.param_dict))
 
     def _d_surface_ddummy(self, key):
         """
-- 
2.43.0


From 766e880e482e2af699d27849c08ea76aee076210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 02/73] fix: check the azimuth exit-angle if geometry[3] is
 fixed

the uniqueness of p_0 was checked instead, so several exit azimuths were
silently replaced by the first one
---
 rt1/surface.py | 4 ++--
 rt1/volume.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/surface.py b/rt1/surface.py
index fda6d74..e7d2083 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -254,7 +254,7 @@ class Surface(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
@@ -388,7 +388,7 @@ class Surface(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
diff --git a/rt1/volume.py b/rt1/volume.py
index 4c6d13b..1f38d8d 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -253,7 +253,7 @@ class Volume(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
@@ -426,7 +426,7 @@ class Volume(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
-- 
2.43.0


From 56632060c5624244499df769a8bf5177fa473d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 03/73] fix: set the legendre-expansion of LinCombV on
 initialization

like LinCombSRF does; otherwise it has no ncoefs and no legexpansion and the
interaction-contribution cannot be evaluated
---
 rt1/volume.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rt1/volume.py b/rt1/volume.py
index 1f38d8d..d070839 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -484,6 +484,7 @@ class LinCombV(Volume):
         super(LinCombV, self).__init__(**kwargs)
 
         self.Vchoices = Vchoices
+        self._set_legexpansion()
 
         name = "LinCombV"
         for c in Vchoices:
-- 
2.43.0


From 51722a2fb6706d1b10e85b5e0195f62c592b15a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 04/73] fix: exchange the directions of fixed angles in the
 second interaction-term

the fn-coefficients of geometries with fixed angles contain the angles as
constants, so evaluating them for exchanged incidence- and exit directions
returned the coefficients of the original directions
---
 rt1/rt1.py | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 986a59d..91fff47 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -379,6 +379,42 @@ class RT1(object):
 
     _fnevals = property(_get_fnevals, _set_fnevals)
 
+    @property
+    def _fnevals_exchanged(self):
+        """
+        the functions used to evaluate the fn-coefficients if the incidence-
+        and exit directions are exchanged
+
+        fixed angles are numeric constants in the fn-coefficients, so the
+        coefficients of the exchanged directions need a separate evaluation
+        (fn-coefficients provided by the user are used as they are)
+        """
+        if (
+            self.geometry == "mono"
+            or "f" not in self.geometry
+            or self.fn_input is not None
+            or self._fnevals_input is not None
+        ):
+            return self._fnevals
+
+        if not hasattr(self, "_RT1__fnevals_exchanged"):
+            self.__fnevals_exchanged = RT1(
+                self.I0,
+                self.t_ex,
+                self.t_0,
+                self.p_ex,
+                self.p_0,
+                V=self.V,
+                SRF=self.SRF,
+                geometry="".join(self.geometry[i] for i in (1, 0, 3, 2)),
+                param_dict=self.param_dict,
+                lambda_backend=self.lambda_backend,
+                int_Q=self.int_Q,
+                verbosity=self.verbosity,
+            )._fnevals
+
+        return self.__fnevals_exchanged
+
     def _get_t_0(self):
         return self.__t_0
 
@@ -1300,7 +1336,7 @@ class RT1(object):
 
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(args))
+            fn = np.broadcast_arrays(*self._fnevals_exchanged(args))
         else:
             args = np.broadcast_arrays(
                 np.arccos(mu1),
@@ -1311,7 +1347,7 @@ class RT1(object):
             )
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(*args))
+            fn = np.broadcast_arrays(*self._fnevals_exchanged(*args))
 
         multip = self._mu_ex_x * self._S2_mu(mu1, self.V.tau)
         S = np.sum(fn * multip, axis=0)
-- 
2.43.0


From a765a1c349d64996e498b7661411da12bd4834fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 05/73] fix: start at 0 in find_missing() if there is nothing
 to exclude

---
 rt1/general_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index d8fd94a..664a30e 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -384,7 +384,7 @@ def find_missing(lst=[], N=None):
     """
     start = 0
     # get the max. ID defined in "lst"
-    maxID = max(lst) if len(lst) > 0 else 0
+    maxID = max(lst) if len(lst) > 0 else -1
 
     if len(lst) > 0:
         # check for IDs that can be used to "fill-up" the provided list
-- 
2.43.0


From 05b4cac79e4984b93202c0c7e754ed6d93c4b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 06/73] fix: support lists and arrays in interpolate_to_index()

---
 rt1/general_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index 664a30e..ed96914 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -346,7 +346,7 @@ def interpolate_to_index(data, index, data_index=None, **interp1d_kwargs):
             'you must provide "data_index"' + "if data is provided as list or array"
         )
 
-        f = interp1d(data_index.to_julian_date(), data.values, **kwargs)
+        f = interp1d(data_index.to_julian_date(), data, **kwargs)
         x = f(index.to_julian_date())
         return Series(x, index)
 
-- 
2.43.0


From ea647d99d2b56abfae47dbde95f5d626ed5c5867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 07/73] fix: apply the complete chain-rule in the jacobian of
 the fit

---
 rt1/rtfits.py | 115 ++++++++++++++++++--------------------------------
 1 file changed, 41 insertions(+), 74 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 909207a..f74f0f3 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1833,33 +1833,55 @@ class Fits(Scatter):
         if order is None:
             order = self._order
 
+        # assign the parameter-values to the observations (the assigned values
+        # are also needed to evaluate the inner derivatives)
+        res_dict = self._assignvals(res_dict, interp_vals)
+
         R = self._set_calc_values(
             R=R,
             res_dict=res_dict,
             fixed_dict=fixed_dict,
             interp_vals=interp_vals,
-            assign=True,
+            assign=False,
         )
 
+        # calculate the total derivatives via the chain-rule, i.e.:
         # if tau, omega or NormBRDF have been provided in terms of symbols,
-        # remove the symbols that are intended to be fitted (that are also
-        # in param_dyn_dict) and replace them by 'omega', 'tau' and 'NormBRDF'
-        # so that calling R.jacobian will calculate the "outer" derivative
-        neworder = [o for o in order]
-        if len(self._tau_symb) != 0:
-            for i in set(self._tau_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "tau"
-        if len(self._omega_symb) != 0:
-            for i in set(self._omega_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "omega"
-        if len(self._N_symb) != 0:
-            for i in set(self._N_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "NormBRDF"
-
-        # calculate the jacobian based on neworder
-        # (evaluating only "outer" derivatives with respect to omega,
-        # tau and NormBRDF)
-        jac = R.jacobian(sig0=self.sig0, dB=self.dB, param_list=neworder)
+        # "d/dx = d/dtau * dtau/dx + ... + d/dx (V and SRF)"
+        chain_rule = []
+        for key in order:
+            # the names of the "outer" derivatives and the corresponding "inner"
+            # derivatives that contribute to the derivative with respect to key
+            contributions = {}
+            for name, symbs, diff_func in (
+                ("tau", self._tau_symb, self._tau_diff_func),
+                ("omega", self._omega_symb, self._omega_diff_func),
+                ("NormBRDF", self._N_symb, self._N_diff_func),
+            ):
+                if key in symbs:
+                    contributions[name] = diff_func[key](
+                        **{
+                            i: res_dict[i] if i in res_dict else fixed_dict[i]
+                            for i in symbs
+                        }
+                    )
+            if len(contributions) == 0 or key in R.param_dict:
+                contributions[key] = 1.0
+            chain_rule.append(contributions)
+
+        names = list(dict.fromkeys(chain(*chain_rule)))
+        outer = dict(
+            zip(names, R.jacobian(sig0=self.sig0, dB=self.dB, param_list=names))
+        )
+
+        jac = [
+            np.broadcast_to(
+                sum(outer[name] * inner for name, inner in contributions.items()),
+                self.inc.shape,
+            )
+            for contributions in chain_rule
+        ]
+
         # self.jacshape = jac[0].shape
         # generate a scipy.sparse matrix that represents the jacobian for all
         # the individual parameters according to jac_dyn_dict
@@ -1889,61 +1911,6 @@ class Fits(Scatter):
                 )
                 newjacdict[key] = m
 
-        # evaluate jacobians of the functional representations of tau
-        # and add them to newjacdict
-        for i in set(self._tau_symb) & set(param_dyn_dict.keys()):
-            # generate a function that evaluates the 'inner' derivative, i.e.:
-            # df/dx = df/dtau * dtau/dx = df/dtau * d_inner
-            # evaluate the inner derivative
-            df_dx = self._tau_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._tau_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                # flatten the array (except if it is a scalar)
-                # happens for example when   f = 5*x   ->   df/dx = 5
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                # calculate "outer" * "inner" derivative for sparse matrices
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
-        # same for omega
-        for i in set(self._omega_symb) & set(param_dyn_dict.keys()):
-            df_dx = self._omega_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._omega_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
-        # same for NormBRDF
-        for i in set(self._N_symb) & set(param_dyn_dict.keys()):
-            df_dx = self._N_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._N_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
         if hasattr(self, "intermediate_results"):
             self.intermediate_results["jacobian"] += [newjacdict]
 
-- 
2.43.0


From 9d593baf6cb6a74eec512c981d3b72b3fc75b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 08/73] fix: consider data_weights in the jacobian of the fit

---
 rt1/rtfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index f74f0f3..e811f7e 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1876,7 +1876,8 @@ class Fits(Scatter):
 
         jac = [
             np.broadcast_to(
-                sum(outer[name] * inner for name, inner in contributions.items()),
+                self.data_weights
+                * sum(outer[name] * inner for name, inner in contributions.items()),
                 self.inc.shape,
             )
             for contributions in chain_rule
-- 
2.43.0


From 73e828bbf8065fed0231c3419a4eb31ccf15045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 09/73] fix: access the values of the defdict-containers
 directly

---
 rt1/_containers.py | 12 ++++++------
 rt1/rtprocess.py   |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/rt1/_containers.py b/rt1/_containers.py
index 58d0c37..213c83d 100644
--- a/rt1/_containers.py
+++ b/rt1/_containers.py
@@ -386,10 +386,10 @@ class _RT1_variable:
         """
 
         return dict(
-            fitQ=self.fitQ.value,
-            val=self.val.value,
-            freq=self.freq.value,
-            minval=self.minval.value,
-            maxval=self.maxval.value,
-            interpQ=self.interpQ.value,
+            fitQ=self.fitQ,
+            val=self.val,
+            freq=self.freq,
+            minval=self.minval,
+            maxval=self.maxval,
+            interpQ=self.interpQ,
         )
diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 81da933..ffec0b7 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1726,7 +1726,7 @@ class RTprocess(object):
                 elif key in defs["fitted_const"]:
                     staticlayers[key] = fit.res_dict[key][0]
                 elif key in defs["constant"]:
-                    staticlayers[key] = fit.defdict[key].val.value
+                    staticlayers[key] = fit.defdict[key].val
                 elif key in defs["auxiliary"]:
                     usedfs.append(fit.dataset[key])
             elif key in fit.dataset:
-- 
2.43.0


From 40d0f72fbbc1d18237ee806ee9b3cf2b6f5f0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 10/73] fix: pass share_fnevals and share_auxdata of
 reinit_object()

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index e811f7e..edb62b0 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2794,7 +2794,9 @@ class Fits(Scatter):
             a new Fits-object.
 
         """
-        return self._reinit_object(self, **kwargs)
+        return self._reinit_object(
+            self, share_fnevals=share_fnevals, share_auxdata=share_auxdata, **kwargs
+        )
 
     def _get_res_dict_df(self, ID=None):
         """
-- 
2.43.0


From 7d2da2def7c067a471423a3d52ceea7f74219d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 11/73] fix: keep the order of the parameters if values are set
 in Fits

---
 rt1/rtfits.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index edb62b0..d3b1a61 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1708,7 +1708,13 @@ class Fits(Scatter):
         }
 
         # set the param-dict to the newly generated dict
-        R.param_dict = strparam_fn
+        # (keep the order of the existing keys since the parameters are passed
+        # as positional arguments to the fn-coefficient functions)
+        R.param_dict = {
+            key: strparam_fn[key]
+            for key in [*R.param_dict, *strparam_fn]
+            if key in strparam_fn
+        }
 
         return R
 
-- 
2.43.0


From c061edb5bc9f21823bd0c95d8efcde042e453b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 12/73] fix: re-evaluate the fn-coefficients if V, SRF or
 defdict changed

---
 rt1/rtfits.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index d3b1a61..f4b2429 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -412,6 +412,13 @@ class Fits(Scatter):
                 log.debug(f"{attr} has been set, clearing cache")
                 self._clear_cache()
 
+        # the stored fn-coefficients are only valid for the definitions of V and
+        # SRF for which they have been evaluated
+        if (attr == "set_V_SRF" and "set_V_SRF" in self.__dict__) or (
+            attr == "defdict" and "_defdict" in self.__dict__
+        ):
+            self._fnevals_input = None
+
         super().__setattr__(attr, value)
 
     @property
-- 
2.43.0


From 9fec2dbc8f49b1a31b45947edb0a1315b28a08c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 13/73] fix: clear cached results if the dataset of a MultiFits
 object is set

---
 rt1/rtfits.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index f4b2429..e1e9f82 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3264,9 +3264,8 @@ class MultiFits:
     def set_dataset(self, dataset):
         self._dataset = Fits._check_monotonic_dataset_index(dataset)
         for name in self.config_names:
-            # set "_dataset" directly instead of "dataset" to avoid checking the
-            # index-sorting twice in the dataset-setter
-            getattr(self.configs, name)._dataset = self._dataset
+            # use the dataset-setter to make sure that cached results are cleared
+            getattr(self.configs, name).dataset = self._dataset
 
     def set_aux_data(self, aux_data):
         self._aux_data = aux_data
-- 
2.43.0


From a7f74d0499d1def8a6d44f9810d4a93040171908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 14/73] fix: use a single group if there are less observations
 than requested

---
 rt1/rtfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index e1e9f82..b58471d 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -631,7 +631,7 @@ class Fits(Scatter):
                         # find the number of groups required to split the
                         # dataset into measurement-bins of length "f"
                         n_dat = self.dataset.index.nunique()
-                        ngrps = n_dat // f
+                        ngrps = max(1, n_dat // f)
                         rest = n_dat % f
                         res = [0 for i in range(ngrps)]
                         # distribute the rest as equal as possible
-- 
2.43.0


From f1f66ae2d1a30f31cf234ff36e4acf062039b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 15/73] fix: do not duplicate the name if a MultiFits config is
 overwritten

---
 rt1/rtfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index b58471d..ecab685 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3347,7 +3347,8 @@ class MultiFits:
         assert name not in set(
             self.__dict__
         ), f"you can not use {name} as the name for a configuration!"
-        self.config_names.append(name)
+        if name not in self.config_names:
+            self.config_names.append(name)
 
         fit_object.dataset = self.dataset
         fit_object.aux_data = self.aux_data
-- 
2.43.0


From b8aa3f1a2681e24e151ea066013f17c92bdf370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 16/73] fix: only strip the const__ prefix from the names of
 static layers

---
 rt1/_rtprocess_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index bcd5109..edd87f6 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -263,7 +263,7 @@ class RT1_processor(object):
 
                     for cfg, cfg_results in val.items():
                         if cfg.startswith("const__"):
-                            results[cfg.lstrip("const__")].append(cfg_results)
+                            results[cfg[len("const__") :]].append(cfg_results)
                         elif isinstance(cfg_results, dict):
                             for cfg_key, cfg_val in cfg_results.items():
                                 results[cfg + "/" + cfg_key].append(cfg_val)
-- 
2.43.0


From 89080a238789123942b5cfbf21194a2b5c0e5859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 17/73] fix: initialize queue and proc_counter if no dumppath
 is provided

---
 rt1/rtprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index ffec0b7..397fe15 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -877,7 +877,7 @@ class RTprocess(object):
                 # (otherwise the log-file can not be generated!)
                 self._worker_configurer(queue, loglevel=logfile_level)
             else:
-                queue, proc_counter = None
+                queue, proc_counter = None, None
 
             if logfile_level is not None:
                 # start the listener after the setup-function completed, since
-- 
2.43.0


From d7cdd9074432877c8ea2ebdbe870a7960e7aa47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 18/73] fix: return model-components in linear intensity units
 as array

---
 rt1/rtfits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index ecab685..75457c0 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1788,7 +1788,8 @@ class Fits(Scatter):
 
         # calculate total backscatter-values
         if return_components is True:
-            model_calc = R.calc()
+            # return the components as a single array
+            model_calc = np.array(np.broadcast_arrays(*R.calc()))
         else:
             model_calc = R.calc()[0]
 
-- 
2.43.0


From 90b3a654c5909f87224021d6f41ff13fd0d704d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 19/73] fix: return the requested number of IDs in
 HDFaccessor.get_nids_iter()

---
 rt1/rtresults.py | 69 ++++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 41 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 91defbe..0e6a574 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -824,7 +824,8 @@ class HDFaccessor(object):
             the retrieved DataFrame.
 
         """
-        nids = min(len(self.IDs), nids)
+        if isinstance(nids, int):
+            nids = min(len(self.IDs), nids)
 
         assert (
             key in self.store
@@ -844,52 +845,38 @@ class HDFaccessor(object):
                 read_chunksize = len(nids)
 
         if isinstance(nids, int):
-            data_gen = self._get_vals(
-                key=key, chunksize=read_chunksize, start=start, **kwargs
-            )
-        elif isinstance(nids, str):
-            nids = 1
-            data_gen = self._get_vals_with_IDs(
-                key=key, chunksize=read_chunksize, use_ids=[nids], **kwargs
-            )
+            if start:
+                assert start < len(self.IDs), (
+                    f"start={start} is bigger than the number"
+                    + f" of IDs ({len(self.IDs)})"
+                )
+            use_ids = self.IDs.index[slice(start, None)]
         else:
-            use_ids = nids
+            use_ids = [nids] if isinstance(nids, str) else list(nids)
+            use_ids = [
+                self._ID_to_IDnum(i) if isinstance(i, str) else i for i in use_ids
+            ]
             nids = len(use_ids)
-            data_gen = self._get_vals_with_IDs(
-                key=key, chunksize=read_chunksize, use_ids=use_ids, **kwargs
-            )
-
-        ret = []
-        for i, d in enumerate(data_gen):
-            ret.append(d)
 
-            if (i + 1) % (nids // read_chunksize) == 0:
-                if nids % read_chunksize != 0:
-                    data = next(data_gen)
-                    ret.append(iloc_level(data, slice(nids % 10)))
-
-                data = pd.concat(ret)
-                if self.set_ID is True:
-                    if isinstance(data.index, pd.MultiIndex):
-                        data.index = data.index.set_levels(
-                            self.IDs.loc[data.index.levels[0]].ID, level=0
-                        )
-                    else:
-                        data["ID"] = self.IDs.loc[data.index]
-                        data = data.set_index("ID")
-                yield data
-
-                if nids % read_chunksize != 0:
-                    ret = [iloc_level(data, slice(nids % 10, None))]
+        # always return the data of "nids" IDs (read in pieces of "read_chunksize" IDs)
+        for i, ids in enumerate(self._chunks(use_ids, nids)):
+            data = pd.concat(
+                self._get_vals_with_IDs(
+                    key=key, use_ids=ids, chunksize=read_chunksize, **kwargs
+                )
+            )
+            if self.set_ID is True:
+                if isinstance(data.index, pd.MultiIndex):
+                    data.index = data.index.set_levels(
+                        self.IDs.loc[data.index.levels[0]].ID, level=0
+                    )
                 else:
-                    ret = []
+                    data["ID"] = self.IDs.loc[data.index]
+                    data = data.set_index("ID")
+            yield data
 
             if print_progress:
-                print("reading", (i + 1) * read_chunksize)
-
-        if len(ret) > 0:
-            # make sure to return the last results (maybe less than the read-chunksize)
-            yield pd.concat(ret)
+                print("reading", (i + 1) * nids)
 
 
 class _data_container(object):
-- 
2.43.0


From 52463acf18f0463cb01d0c56c6c05534e1280d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 20/73] fix: pass all required arguments if metrics are
 requested for 2 names

---
 rt1/rtmetrics.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rt1/rtmetrics.py b/rt1/rtmetrics.py
index d95fed0..54d1f73 100644
--- a/rt1/rtmetrics.py
+++ b/rt1/rtmetrics.py
@@ -53,7 +53,17 @@ class _metric_keys(object):
                         ),
                     )
             elif isinstance(d2, str):
-                setattr(getattr(self, d1), d2, _RTmetrics1(d1=d1, d2=d2, fit=fit))
+                setattr(
+                    getattr(self, d1),
+                    d2,
+                    _RTmetrics1(
+                        d1=d1,
+                        d2=d2,
+                        fit=fit,
+                        auxdat=auxdat,
+                        all_keys=self._all_keys,
+                    ),
+                )
             else:
                 try:
                     d2name = d2.name
-- 
2.43.0


From 760a0b8b7b6cd72d8fd68c7da828a67d52616f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 21/73] fix: use a list to select the manual parameter-dynamics
 in dumps

---
 rt1/rtfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 75457c0..0f04f0b 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2958,7 +2958,7 @@ class Fits(Scatter):
                         for key, val in self.defdict.items()
                         if val[0] and val[2] == "manual"
                     )
-                df = getattr(self, "dataset", None)[dynkeys]
+                df = getattr(self, "dataset", None)[sorted(dynkeys)]
 
                 hf["dataset"] = Fits._prepend_ID_to_index(df, ID)
         except Exception:
-- 
2.43.0


From fa3de96d13b6d098ce724f99f322f43dd88afbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 22/73] fix: use a list to select the model-components in the
 HDF export

---
 rt1/rtprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 397fe15..3e4e3f2 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1608,7 +1608,7 @@ class RTprocess(object):
 
         auxdata, staticlayers = dict(), dict()
         if model_keys:
-            auxdata = fit.calc_model(return_components=True)[model_keys]
+            auxdata = fit.calc_model(return_components=True)[list(model_keys)]
 
         if export_functions:
             for key, func in export_functions.items():
-- 
2.43.0


From 13133e450be73297195f53de87af7aeb45a36b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 23/73] fix: pass sig_to_dB and inc_to_degree to the HDF
 export-function

---
 rt1/rtprocess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 3e4e3f2..126e08c 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1542,6 +1542,8 @@ class RTprocess(object):
             metrics=metrics,
             export_functions=export_functions,
             model_keys=model_keys,
+            sig_to_dB=sig_to_dB,
+            inc_to_degree=inc_to_degree,
             _fnevals_input=fn_evals,
         )
 
-- 
2.43.0


From 732b377be18b71deb8641b1e0095be3076c4cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 24/73] fix: do not alter the shared parameters in the HDF
 export-function

---
 rt1/rtprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 126e08c..e0f68d7 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1618,7 +1618,8 @@ class RTprocess(object):
                     val = func(fit)
                     if isinstance(val, (int, float, np.number)):
                         staticlayers[key] = val
-                        parameters.remove(key)
+                        # (don't change "parameters" since it is used for all fits!)
+                        parameters = set(parameters) - {key}
                     else:
                         auxdata[key] = val
 
-- 
2.43.0


From a31ae33b55fbe535f96ab4f077c0097317a070a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 25/73] fix: treat sign() as piecewise constant in the
 derivatives of the BRDF

---
 rt1/surface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rt1/surface.py b/rt1/surface.py
index e7d2083..1c38432 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -409,7 +409,11 @@ class Surface(Scatter):
                 }
             )
 
-            dfunc_dtheta_0 = sp.diff(func, theta_ex, n)
+            # the sign-function (used in CosineLobe) is piecewise constant
+            signs = {i: sp.Dummy() for i in func.atoms(sp.sign)}
+            dfunc_dtheta_0 = sp.diff(func.xreplace(signs), theta_ex, n).xreplace(
+                {val: key for key, val in signs.items()}
+            )
 
         if return_symbolic is True:
             return dfunc_dtheta_0
-- 
2.43.0


From f7da9977e11d475f51a11d708667ef5dd85ff912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 26/73] fix: broadcast constant fn-coefficients of the
 sympy-backend to the angles

---
 rt1/rt1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 91fff47..73c07b6 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -1305,7 +1305,7 @@ class RT1(object):
             )
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(*args))
+            fn = np.broadcast_arrays(*self._fnevals(*args), args[0])[:-1]
 
         multip = self._mu_0_x * self._S2_mu(mu1, self.V.tau)
         S = np.sum(fn * multip, axis=0)
@@ -1347,7 +1347,7 @@ class RT1(object):
             )
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals_exchanged(*args))
+            fn = np.broadcast_arrays(*self._fnevals_exchanged(*args), args[0])[:-1]
 
         multip = self._mu_ex_x * self._S2_mu(mu1, self.V.tau)
         S = np.sum(fn * multip, axis=0)
-- 
2.43.0


From de6ac3dc373a5d666c2a51968b39ad917d5722b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 27/73] fix: assign the jacobian of non-monotonic fit-groups to
 the right observations

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 0f04f0b..0115fcb 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1920,8 +1920,10 @@ class Fits(Scatter):
                 data = np.fromiter(chain(*jac[i]), dtype=float, count=jac_size)
                 row_ind, col_ind = self._jac_assign_rule[key]
                 # generate a sparse matrix
+                # (the assignments are sorted by the fit-values, so the
+                # derivatives must be selected accordingly)
                 m = csr_matrix(
-                    (data, (row_ind, col_ind)),
+                    (data[col_ind], (row_ind, col_ind)),
                     shape=(max(row_ind) + 1, max(col_ind) + 1),
                 )
                 newjacdict[key] = m
-- 
2.43.0


From 2679b75da0317242c1aebe560e1c1fcd93e447df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:59 +0000
Subject: [PATCH 28/73] fix: keep all distinct entries of a manual variability
 apart

---
 rt1/rtfits.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 0115fcb..36c76d8 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -672,20 +672,10 @@ class Fits(Scatter):
             manual_dyn_df = self._manual_dyn_df
             if manual_dyn_df is not None:
                 for key, val in manual_dyn_df.astype(str).items():
-                    dd1 = np.char.zfill(
-                        np.array(param_dyn_dict[key], dtype="str"),
-                        len(
-                            max(
-                                np.array(param_dyn_dict[key], dtype="str"),
-                                key=len,
-                            )
-                        ),
-                    )
-                    dd2 = val.str.zfill(len(max(val, key=len)))
-                    # generate a combined (unique) integer
-                    param_dyn_dict[key] = np.array(
-                        np.char.add(dd1, dd2), dtype=float
-                    ).astype(int)
+                    # generate a unique integer for each combination
+                    combined = list(zip(param_dyn_dict[key], val))
+                    numbers = {c: i for i, c in enumerate(dict.fromkeys(combined))}
+                    param_dyn_dict[key] = np.array([numbers[c] for c in combined])
             return param_dyn_dict
 
     @property
-- 
2.43.0


From 0678e976e6e8ccb7f1a2cd748c6b7019fb98f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:59 +0000
Subject: [PATCH 29/73] fix: auxiliary start-values are the mean-values of the
 fit-groups of the parameter

---
 rt1/rtfits.py | 38 +++++++-------------------------------
 1 file changed, 7 insertions(+), 31 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 36c76d8..842445a 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1116,38 +1116,14 @@ class Fits(Scatter):
                         f'you must provide a column {key + "_start"} in '
                         + 'the dataset if you want to use "auxiliary" start-vals'
                     )
-                    meanstartvals = list(
-                        groupby_unsorted(
-                            zip(self._groupindex, self.dataset[key + "_start"]),
-                            key=itemgetter(0),
-                            get=itemgetter(1),
-                        ).values()
-                    )
-
                     # evaluate the mean start-value for each group
-                    if val[2] == "index":
-                        # avoid grouping with _param_assigns since anyway
-                        # only a single value is given for each group
-                        meanstartvals = np.mean(meanstartvals, axis=1)
-                    else:
-                        # get a rectangularized list of indices for each
-                        # parameter (instead of using a loop which can be VERY
-                        # slow for a large number of parameters)
-                        st, sm = rectangularize(
-                            self._param_assigns[key].values(), return_mask=True
-                        )
-                        # average over each group in the dataset
-                        meanstartvals = np.ma.mean(
-                            rectangularize(meanstartvals, return_masked=True),
-                            axis=1,
-                        )
-                        # assign individual values to each parameter-group
-                        meanstartvals = np.ma.mean(
-                            np.ma.masked_array(np.take(meanstartvals, st), sm),
-                            axis=1,
-                        ).compressed()
-
-                    startvaldict[key] = meanstartvals
+                    startvals = self.dataset[key + "_start"].to_numpy()
+                    startvaldict[key] = np.array(
+                        [
+                            np.mean(startvals[ind])
+                            for ind in self._param_assigns_dataset[key].values()
+                        ]
+                    )
                 else:
                     startvaldict[key] = val[1]
 
-- 
2.43.0


From 8fd10763d905b2d1d31e7577954b9b9b67ed9dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 30/73] fix: keep fit-groups apart if their concatenated number
 exceeds the integer range

---
 rt1/rtfits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 842445a..264904d 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -728,7 +728,11 @@ class Fits(Scatter):
                 conclist = list(map(partial(doit, N=maxdict[key]), val))
             else:
                 conclist = map(add, conclist, map(partial(doit, N=maxdict[key]), val))
-        return np.array(list(map(int, conclist)))
+        conclist = list(map(int, conclist))
+        # numbers that exceed the integer-range must not be converted to floats
+        # (different groups might be rounded to the same number)
+        exceeds = any(i > np.iinfo(np.int64).max for i in conclist)
+        return np.array(conclist, dtype=object if exceeds else int)
 
     @property
     @lru_cache()
-- 
2.43.0


From 5c9d2427ca8c49b45cbf90bed6f323f114aac237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 31/73] fix: use the parameters in the order of the
 fn-coefficients in the interaction-term

---
 rt1/rt1.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 73c07b6..17d6bbe 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -314,9 +314,9 @@ class RT1(object):
             tic = timeit.default_timer()
 
             # define new lambda-functions for each fn-coefficient
+            self.__fn_param_names = tuple(map(str, self.param_dict.keys()))
             variables = sp.var(
-                ("theta_0", "phi_0", "theta_ex", "phi_ex")
-                + tuple(map(str, self.param_dict.keys()))
+                ("theta_0", "phi_0", "theta_ex", "phi_ex") + self.__fn_param_names
             )
 
             # use symengine's Lambdify if symengine has been used within
@@ -374,11 +374,20 @@ class RT1(object):
             )
 
         else:
+            self.__fn_param_names = None
             self.prv(3, "using provided _fnevals-functions")
             self.__fnevals = _fnevals
 
     _fnevals = property(_get_fnevals, _set_fnevals)
 
+    @property
+    def _fn_params(self):
+        """the parameters in the order that is used in the fn-coefficients"""
+        names = getattr(self, "_RT1__fn_param_names", None)
+        if names is None or set(names) != set(self.param_dict):
+            return self.param_dict
+        return {key: self.param_dict[key] for key in names}
+
     @property
     def _fnevals_exchanged(self):
         """
@@ -407,7 +416,7 @@ class RT1(object):
                 V=self.V,
                 SRF=self.SRF,
                 geometry="".join(self.geometry[i] for i in (1, 0, 3, 2)),
-                param_dict=self.param_dict,
+                param_dict=self._fn_params,
                 lambda_backend=self.lambda_backend,
                 int_Q=self.int_Q,
                 verbosity=self.verbosity,
@@ -1289,7 +1298,7 @@ class RT1(object):
                 phi1,
                 np.arccos(mu2),
                 phi2,
-                *self.param_dict.values(),
+                *self._fn_params.values(),
             )
 
             # to correct for 0 dimensional arrays if a fn-coefficient
@@ -1301,7 +1310,7 @@ class RT1(object):
                 phi1,
                 np.arccos(mu2),
                 phi2,
-                *self.param_dict.values(),
+                *self._fn_params.values(),
             )
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is identical to 0 (in a symbolic manner)
@@ -1331,7 +1340,7 @@ class RT1(object):
                 phi1,
                 np.arccos(mu2),
                 phi2,
-                *self.param_dict.values(),
+                *self._fn_params.values(),
             )
 
             # to correct for 0 dimensional arrays if a fn-coefficient
@@ -1343,7 +1352,7 @@ class RT1(object):
                 phi1,
                 np.arccos(mu2),
                 phi2,
-                *self.param_dict.values(),
+                *self._fn_params.values(),
             )
             # to correct for 0 dimensional arrays if a fn-coefficient
             # is identical to 0 (in a symbolic manner)
-- 
2.43.0


From 2f34456a445d3acef65a972417c1ef36c09ce837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 32/73] fix: use numpy numbers of fixed parameters as constants

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 264904d..5fda7dc 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1066,7 +1066,9 @@ class Fits(Scatter):
             elif val[0] is False:
                 # treat parameters that are intended to be constants
                 # if value is provided as a scalar, insert it in the definition
-                if isinstance(val[1], (int, float)) and not isinstance(val[1], bool):
+                if isinstance(val[1], (int, float, np.number)) and not isinstance(
+                    val[1], bool
+                ):
                     setdict[key] = val[1]
                 else:
                     # if value is provided as array, add it to fixed_dict
-- 
2.43.0


From 0d5309838fbaa6a45842add3f730c5ca21080fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 33/73] fix: always store a valid identifier as ID of a fit

---
 rt1/rtfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 5fda7dc..d0951dd 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -428,7 +428,10 @@ class Fits(Scatter):
     @ID.setter
     def ID(self, ID):
         if not isidentifier(str(ID)):
-            self._ID = f"RT1_{ID}"
+            # replace characters that are not allowed in identifiers
+            self._ID = "".join(
+                c if f"_{c}".isidentifier() else "_" for c in f"RT1_{ID}"
+            )
             log.debug(f"'{ID}' is not a valid identifier - using '{self._ID}'")
         else:
             self._ID = str(ID)
-- 
2.43.0


From ff3ad321dc43b7d38eeda5f3ad7e5135241483fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 34/73] fix: do not allow config-names that overwrite internals
 of the container

---
 rt1/rtfits.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index d0951dd..ac8d72a 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3325,6 +3325,9 @@ class MultiFits:
         assert name not in set(
             self.__dict__
         ), f"you can not use {name} as the name for a configuration!"
+        assert name in self.config_names or not hasattr(
+            self.configs, name
+        ), f"you can not use {name} as the name for a configuration!"
         if name not in self.config_names:
             self.config_names.append(name)
 
-- 
2.43.0


From 12e733d0c55e6f177594bb7eb7fbf3ca58abb895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 35/73] fix: keep all configs of a MultiFits object if a fit is
 used multiple times

---
 rt1/rtfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index ac8d72a..9d93fd5 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3049,7 +3049,7 @@ class _MultiAccessors:
 
     @property
     def config_fits(self):
-        return {i.config_name: i for i in self._FitContainer}
+        return dict(zip(self._FitContainer._parent.config_names, self._FitContainer))
 
     def _getit(self, prop):
         def _get_all(self):
-- 
2.43.0


From 665ad35f52f51cc3c3a09c9a292c28dad966bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 36/73] fix: attach the reader_arg of a MultiFits object to
 added configs

---
 rt1/rtfits.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 9d93fd5..47a24fc 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3333,6 +3333,7 @@ class MultiFits:
 
         fit_object.dataset = self.dataset
         fit_object.aux_data = self.aux_data
+        fit_object.reader_arg = self.reader_arg
         fit_object.config_name = name
         setattr(self.configs, name, fit_object)
 
-- 
2.43.0


From 13854e00fdd00f78507f0e47f773447534277c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 37/73] fix: allow positional arguments in accessor calls

---
 rt1/rtfits.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 47a24fc..4eed988 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3064,20 +3064,16 @@ class _MultiAccessors:
 
         @wraps(getattr(Fits, prop))
         def cb(*args, **kwargs):
-            for i, arg in enumerate(args):
-                # update args and kwargs with new provided ones in case the function is
-                # called explicitly
-                if i < len(start_args):
-                    start_args[i] = arg
-                else:
-                    start_args.append(arg)
-            start_kwargs.update(kwargs)
+            # update args and kwargs with new provided ones in case the function is
+            # called explicitly
+            use_args = (*args, *start_args[len(args) :])
+            use_kwargs = {**start_kwargs, **kwargs}
 
-            return methodcaller(prop, *start_args, **start_kwargs)(val)
+            return methodcaller(prop, *use_args, **use_kwargs)(val)
 
         return cb
 
-    def _applyit(self, prop, *args, **kwargs):
+    def _applyit(self, *args, prop, **kwargs):
         return {
             key: self.lazy(val, prop, *args, **kwargs)
             for key, val in self.config_fits.items()
-- 
2.43.0


From 4550e3581d2798f32a5eedf64d227fdc09285a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 38/73] fix: re-create scattering objects without or with
 array-like parameters

---
 rt1/rtfits.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 4eed988..cbd569b 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2143,17 +2143,20 @@ class Fits(Scatter):
         free_symbols = set()
 
         def checkval(key, val):
+            # check if val is a number (or not provided), if yes use it directly
+            if val is None or isinstance(
+                val, (int, float, np.number, np.ndarray, list, tuple)
+            ):
+                useval = val
+
             # check if val is directly provided in setdict, if yes use it
             # (e.g. this means the key is simply another name for a parameter
             # and not an  equation)
-            if val in setdict:
+            elif val in setdict:
                 useval = setdict[val]
                 if key not in ignore_keys and isinstance(setdict[val], sp.Symbol):
                     free_symbols.add(setdict[val])
 
-            # check if val is a number, if yes use it directly
-            elif isinstance(val, (int, float, np.ndarray)):
-                useval = val
             # in any other case, try to sympify the provided value
             # to determine the free variables of the resulting equation and
             # then replace them by the corresponding values in setdict
-- 
2.43.0


From 15b504cfb7f8de953a54940a36f1c9d470bdf941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 39/73] fix: insert parameter values also in the components of
 linear combinations

---
 rt1/rtfits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index cbd569b..9c9dfb2 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2182,9 +2182,11 @@ class Fits(Scatter):
             ):
                 choices = []
                 for val, initdict in props[f"{prefix}choices"]:
-                    useval = checkval(val, val)
+                    useval = checkval(f"{prefix}choices", val)
 
-                    choices.append([useval, self._init_V_SRF(initdict)])
+                    choice = self._init_V_SRF(initdict, setdict=setdict)
+                    free_symbols.update(choice.free_symbols)
+                    choices.append([useval, choice])
 
                 set_dict[f"{prefix}choices"] = choices
 
-- 
2.43.0


From 69e9e5ad165316a8408894212f5f5089f26a9a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 40/73] fix: distinguish parameters from constants and
 functions in definitions

---
 rt1/rtfits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 9c9dfb2..3d2683c 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2162,7 +2162,11 @@ class Fits(Scatter):
             # then replace them by the corresponding values in setdict
             else:
                 # convert to sympy expression (check doc for use of _clash)
-                useval = sp.sympify(val, _clash, evaluate=False)
+                # (treat names provided in setdict always as parameters, and pi as the
+                # number if it is not the name of a parameter)
+                names = {k: v for k, v in _clash.items() if k != "pi"}
+                names.update((k, sp.Symbol(k)) for k in setdict)
+                useval = sp.sympify(val, names, evaluate=False)
                 # in case parts of the expression are provided in setdict,
                 # replace them with the provided values
                 replacements = dict()
-- 
2.43.0


From 8191afaf1186d767dbc9d6d13ea1af151745feb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 41/73] fix: keep relations of parameters when converting
 set_V_SRF to a dict

---
 rt1/rtfits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 3d2683c..8dfb6af 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2743,8 +2743,10 @@ class Fits(Scatter):
             return self.set_V_SRF
         else:
             try:
-                # init V and SRF with string-variables
-                V, SRF = self.set_V_SRF(**dict(zip(*[self.defdict._variables] * 2)))
+                # init V and SRF with symbols
+                V, SRF = self.set_V_SRF(
+                    **{name: sp.Symbol(name) for name in self.defdict._variables}
+                )
                 return dict(V_props=V.init_dict, SRF_props=SRF.init_dict)
             except TypeError:
                 log.error("Not all variables are specified in defdict!", exc_info=True)
-- 
2.43.0


From fb7bafc3f1c9219cbe2b1b30261cc7fa64b13841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 42/73] fix: serialise numpy numbers of V and SRF as python
 numbers

---
 rt1/surface.py | 6 ++++++
 rt1/volume.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/rt1/surface.py b/rt1/surface.py
index 1c38432..1014803 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -50,6 +50,8 @@ class Surface(Scatter):
                 val = self.__dict__[key]
                 if isinstance(val, sp.Basic):
                     d[key] = str(val)
+                elif isinstance(val, np.generic):
+                    d[key] = val.item()
                 else:
                     d[key] = val
             d["SRF_name"] = "LinCombSRF"
@@ -57,6 +59,8 @@ class Surface(Scatter):
             for frac, srf in d["SRFchoices"]:
                 if isinstance(frac, sp.Basic):
                     srfchoices.append([str(frac), srf.init_dict])
+                elif isinstance(frac, np.generic):
+                    srfchoices.append([frac.item(), srf.init_dict])
                 else:
                     srfchoices.append([frac, srf.init_dict])
 
@@ -67,6 +71,8 @@ class Surface(Scatter):
                 val = self.__dict__[key]
                 if isinstance(val, sp.Basic):
                     d[key] = str(val)
+                elif isinstance(val, np.generic):
+                    d[key] = val.item()
                 else:
                     d[key] = val
             d["SRF_name"] = self.name
diff --git a/rt1/volume.py b/rt1/volume.py
index d070839..7b1027d 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -48,6 +48,8 @@ class Volume(Scatter):
                 val = self.__dict__[key]
                 if isinstance(val, sp.Basic):
                     d[key] = str(val)
+                elif isinstance(val, np.generic):
+                    d[key] = val.item()
                 else:
                     d[key] = val
             d["V_name"] = "LinCombV"
@@ -55,6 +57,8 @@ class Volume(Scatter):
             for frac, srf in d["Vchoices"]:
                 if isinstance(frac, sp.Basic):
                     srfchoices.append([str(frac), srf.init_dict])
+                elif isinstance(frac, np.generic):
+                    srfchoices.append([frac.item(), srf.init_dict])
                 else:
                     srfchoices.append([frac, srf.init_dict])
 
@@ -65,6 +69,8 @@ class Volume(Scatter):
                 val = self.__dict__[key]
                 if isinstance(val, sp.Basic):
                     d[key] = str(val)
+                elif isinstance(val, np.generic):
+                    d[key] = val.item()
                 else:
                     d[key] = val
             d["V_name"] = self.name
-- 
2.43.0


From 6c4036352d34dd14cb07e02396584a32f8240258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 43/73] fix: evaluate mean datetimes for all kinds of
 datetime-objects

---
 rt1/general_functions.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index ed96914..8573396 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -109,14 +109,10 @@ def meandatetime(datetimes):
     meandate: Timestamp
 
     """
-    if len(datetimes) == 1:
-        return datetimes[0]
-
-    x = datetimes
-    deltas = (x[0] - x[1:]) / len(x)
-    meandelta = sum(deltas)
-    meandate = x[0] - meandelta
-    return meandate
+    x = list(datetimes)
+
+    # (divide first to avoid overflows for long timeseries)
+    return x[0] + sum(((i - x[0]) / len(x) for i in x[1:]), x[0] - x[0])
 
 
 def dBsig0convert(val, inc, dB, sig0, fitdB, fitsig0):
-- 
2.43.0


From da21aa72202d7d44999225eea727a8a23c100b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 44/73] fix: override individual components of linear
 combinations in config-files

---
 rt1/rtparse.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index e066dc2..be0ff9a 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -248,7 +248,7 @@ class RT1_configparser(object):
             parsed_dict[key] = val
         return parsed_dict
 
-    def _parse_V_SRF(self, section):
+    def _parse_V_SRF(self, section, config_section=None, combine=True):
         inp = self.config[section]
 
         parsed_dict = dict()
@@ -271,6 +271,19 @@ class RT1_configparser(object):
 
             parsed_dict[key] = val
 
+        if config_section is not None:
+            # override the values by the ones of a specific config
+            config_dict = self._parse_V_SRF(config_section, combine=False)
+            if "V_name" in config_dict or "SRF_name" in config_dict:
+                # (the components of a replaced linear-combination are not needed)
+                for key in list(parsed_dict):
+                    if key[0].isupper() and key[1:].startswith("__"):
+                        parsed_dict.pop(key)
+            parsed_dict.update(config_dict)
+
+        if not combine:
+            return parsed_dict
+
         for prefix in ["V", "SRF"]:
             if (
                 f"{prefix}_name" in parsed_dict
@@ -390,13 +403,15 @@ class RT1_configparser(object):
 
             # update RT1_V
             if f"#config {config} RT1_V" in self.config:
-                V_props = self._parse_V_SRF("RT1_V")
-                V_props.update(self._parse_V_SRF(f"#config {config} RT1_V"))
+                V_props = self._parse_V_SRF(
+                    "RT1_V", f"#config {config} RT1_V"
+                )
                 set_V_SRF["V_props"] = V_props
             # update RT1_SRF
             if f"#config {config} RT1_SRF" in self.config:
-                SRF_props = self._parse_V_SRF("RT1_SRF")
-                SRF_props.update(self._parse_V_SRF(f"#config {config} RT1_SRF"))
+                SRF_props = self._parse_V_SRF(
+                    "RT1_SRF", f"#config {config} RT1_SRF"
+                )
                 set_V_SRF["SRF_props"] = SRF_props
 
         return dict(
-- 
2.43.0


From 86a38ba32ff21a8b69fcc98e2d54e98b49eb7bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 45/73] fix: ignore tabs and line-breaks in defdict lists of
 config-files

---
 rt1/rtparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index be0ff9a..ce03771 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -308,7 +308,7 @@ class RT1_configparser(object):
             val = inp[key]
 
             if val.startswith("[") and val.endswith("]"):
-                val = val[1:-1].replace(" ", "").split(",")
+                val = "".join(val[1:-1].split()).split(",")
             else:
                 assert False, f"the passed defdict for {key} is not a list"
 
-- 
2.43.0


From 615d45e82b490b8568a618d0181b1fd391176568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 46/73] fix: read empty lists of config-files as empty lists

---
 rt1/rtparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index ce03771..8e4ac7c 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -658,8 +658,10 @@ class RT1_configparser(object):
                         def conffunc(x):
                             return x
 
+                    # (an empty list has no values)
+                    vals = val.strip()[1:-1].strip()
                     process_specs[listkey] = [
-                        conffunc(i.strip()) for i in val.strip()[1:-1].split(",")
+                        conffunc(i.strip()) for i in (vals.split(",") if vals else [])
                     ]
 
                 else:
-- 
2.43.0


From 3b8d797a0c16ed5e3a5587539ac0e5c1d1c2da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 47/73] fix: read f_scale and diff_step of config-files as
 numbers

---
 rt1/rtparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index 8e4ac7c..e93f463 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -149,7 +149,7 @@ class RT1_configparser(object):
         self.lsq_parse_props = dict(
             section="least_squares_kwargs",
             int_keys=["verbose", "max_nfev"],
-            float_keys=["ftol", "gtol", "xtol"],
+            float_keys=["ftol", "gtol", "xtol", "f_scale", "diff_step"],
         )
 
         self.fitargs_parse_props = dict(
-- 
2.43.0


From 5c4c99c1be5c2b4729faf5905d9a85b33c57ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 48/73] fix: reject undefined configs and config-sections
 without effect

---
 rt1/rtparse.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index e93f463..f83c21e 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -381,6 +381,11 @@ class RT1_configparser(object):
 
         # update configurations in case a specific config is selected
         if config is not None:
+            assert config in self.config_names, (
+                f'the config "{config}" is not defined in the .ini file... '
+                + f"available configs are: {self.config_names}"
+            )
+
             # update least_squares_kwargs
             if f"#config {config} {self.lsq_parse_props['section']}" in self.config:
                 new_lsq_parse_props = {
@@ -433,9 +438,13 @@ class RT1_configparser(object):
                         config_sections.append(i_split[1])
                     elif len(i_split) == 3:
                         name, section = i_split[1:]
-                        assert (
-                            section in self.config
-                        ), f"the provided config section {i} is invalid"
+                        assert section in [
+                            self.lsq_parse_props["section"],
+                            self.fitargs_parse_props["section"],
+                            "defdict",
+                            "RT1_V",
+                            "RT1_SRF",
+                        ], f"the provided config section {i} is invalid"
 
                         config_sections.append(name)
                     else:
-- 
2.43.0


From 02ac8432446cc284fd5bad64c8cf38bb41f4cee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 49/73] fix: align metric datasets by their index

---
 rt1/rtmetrics.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/rt1/rtmetrics.py b/rt1/rtmetrics.py
index 54d1f73..1fafc8d 100644
--- a/rt1/rtmetrics.py
+++ b/rt1/rtmetrics.py
@@ -190,25 +190,29 @@ class _RTmetrics1(object):
     @property
     @lru_cache()
     def _unify_idx_data(self):
-        if len(self.d1) != len(self.d2):
+        d1, d2 = self.d1, self.d2
+        if not d1.index.equals(d2.index):
             log.warning(
                 f'index of "{self._d1}" and "{self._d2}" is not '
                 + "the same! -> a concatenation is performed!"
             )
 
             # try to unify the index
-            df = pd.concat([self.d1, self.d2], axis=1, copy=False)
-            d1 = df[self._d1].dropna()
-            d2 = df[self._d2].dropna()
-
-            assert len(d1) == len(d2), (
-                "the length of the 2 datasets is "
-                + "not the same!"
-                + f"({len(self.d1)} != {len(d2)})"
-            )
-            return d1, d2
+            if d2.index.is_unique:
+                d2 = d2.reindex(d1.index)
+            elif d1.index.is_unique:
+                d1 = d1.reindex(d2.index)
+            else:
+                assert False, (
+                    "the index of the 2 datasets is not the same and not unique! "
+                    + f"({len(d1)} and {len(d2)} values)"
+                )
+
+            # use only timestamps for which both datasets are available
+            available = d1.notna() & d2.notna()
+            return d1[available], d2[available]
         else:
-            return self.d1, self.d2
+            return d1, d2
 
     @property
     def pearson(self):
-- 
2.43.0


From 469b23b8144128aa31f4e4da4e6c8ddbf28f81b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 50/73] fix: use only available pairs of values for metrics

---
 rt1/rtmetrics.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rt1/rtmetrics.py b/rt1/rtmetrics.py
index 1fafc8d..dde616a 100644
--- a/rt1/rtmetrics.py
+++ b/rt1/rtmetrics.py
@@ -208,11 +208,9 @@ class _RTmetrics1(object):
                     + f"({len(d1)} and {len(d2)} values)"
                 )
 
-            # use only timestamps for which both datasets are available
-            available = d1.notna() & d2.notna()
-            return d1[available], d2[available]
-        else:
-            return d1, d2
+        # use only observations for which both datasets are available
+        available = d1.notna() & d2.notna()
+        return d1[available], d2[available]
 
     @property
     def pearson(self):
-- 
2.43.0


From 27fb344121df89634fd52e6c7da89a0971b7ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 51/73] fix: keep the ID of a fit if its reader_arg can not be
 stored in a HDF-container

---
 rt1/rtfits.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 8dfb6af..2123d52 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2920,7 +2920,13 @@ class Fits(Scatter):
             hf["const__reader_arg"] = df
         except Exception:
             log.debug(f"could not save 'reader_arg' for fit {ID}")
-            df = pd.DataFrame({"ID": ID}, [ID])
+            # (always keep the ID to be able to identify the fit!)
+            reader_arg = getattr(self, "reader_arg", None)
+            if isinstance(reader_arg, dict) and "ID" in reader_arg:
+                fit_ID = reader_arg["ID"]
+            else:
+                fit_ID = self.ID
+            df = pd.DataFrame({"ID": fit_ID}, [ID])
             df.index.name = "ID"
 
             hf["const__reader_arg"] = df
-- 
2.43.0


From 8be28efe6032c19c2ca9302fea66f4f72df6a345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 52/73] fix: keep the types of the reader_arg entries if a fit
 is loaded from a HDF-container

---
 rt1/rtresults.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 0e6a574..30a5573 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -612,7 +612,8 @@ class HDFaccessor(object):
 
             try:
                 reader_arg = self.datasets.reader_arg.get_id(ID)
-                reader_arg = reader_arg.loc[ID].to_dict()
+                # (convert each column separately to keep the types of the values)
+                reader_arg = reader_arg.loc[[ID]].to_dict("records")[0]
                 if "ID" not in reader_arg:
                     reader_arg["ID"] = self.IDs.loc[ID].values[0]
             except Exception:
-- 
2.43.0


From db2b74b423f7ced12b44690167c9b6204a191770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 53/73] fix: assign the original ID if a fit is loaded from a
 HDF-container

---
 rt1/rtresults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 30a5573..31488ff 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -655,7 +655,7 @@ class HDFaccessor(object):
                 if reader_arg is not None:
                     mf.set_reader_arg(reader_arg)
 
-                mf.set_ID(self.IDs.loc[ID].values[0])
+                mf.set_ID(reader_arg["ID"])
                 return mf
 
             else:
@@ -663,7 +663,7 @@ class HDFaccessor(object):
                     key: literal_eval(val) for key, val in init_dict.loc[ID].items()
                 }
                 fit = Fits(**attrs)
-                fit.ID = self.IDs.loc[ID].values[0]
+                fit.ID = reader_arg["ID"]
 
                 if dataset is not None:
                     fit.dataset = dataset.loc[ID]
-- 
2.43.0


From 54fb46e7d40b091f633709b11cff3fd78222df36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 54/73] fix: support numpy numbers and infinite values in fits
 loaded from HDF-containers

---
 rt1/rtfits.py    | 16 +++++++++++++++-
 rt1/rtresults.py | 20 +++++++++++++++++---
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 2123d52..d978280 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -48,6 +48,20 @@ def _check_multi(fit):
     return fit.__class__.__name__ == "MultiFits"
 
 
+def _use_python_types(val):
+    """
+    convert numpy-numbers and arrays within nested containers to numbers and lists
+    """
+    if isinstance(val, dict):
+        return {key: _use_python_types(i) for key, i in val.items()}
+    elif isinstance(val, (list, tuple)):
+        return type(val)([_use_python_types(i) for i in val])
+    elif isinstance(val, (np.ndarray, np.generic)):
+        return val.tolist()
+    else:
+        return val
+
+
 def load(path):
     """
     a convenience-function to load a Fits-object dumped with `fit.dump()`
@@ -2760,7 +2774,7 @@ class Fits(Scatter):
             "lsq_kwargs": self.lsq_kwargs,
             "int_Q": self.int_Q,
         }
-        return args
+        return _use_python_types(args)
 
     def reinit_object(self, share_fnevals=False, share_auxdata=True, **kwargs):
         """
diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 31488ff..27148d5 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -6,7 +6,7 @@ from collections import defaultdict
 import weakref
 import os
 from pathlib import Path
-from ast import literal_eval
+from ast import literal_eval, parse, NodeTransformer, Constant, copy_location
 import gc
 
 import pandas as pd
@@ -629,7 +629,9 @@ class HDFaccessor(object):
             if "cfg" in init_dict.index.names:
                 mf = MultiFits()
                 for cfg, cfg_attrs in init_dict.loc[ID].iterrows():
-                    attrs = {key: literal_eval(val) for key, val in cfg_attrs.items()}
+                    attrs = {
+                        key: self._parse_literal(val) for key, val in cfg_attrs.items()
+                    }
 
                     fit = Fits(**attrs)
 
@@ -660,7 +662,8 @@ class HDFaccessor(object):
 
             else:
                 attrs = {
-                    key: literal_eval(val) for key, val in init_dict.loc[ID].items()
+                    key: self._parse_literal(val)
+                    for key, val in init_dict.loc[ID].items()
                 }
                 fit = Fits(**attrs)
                 fit.ID = reader_arg["ID"]
@@ -681,6 +684,17 @@ class HDFaccessor(object):
                     }
                 return fit
 
+    @staticmethod
+    def _parse_literal(val):
+        # (inf and nan are no literals)
+        class _use_float(NodeTransformer):
+            def visit_Name(self, node):
+                if node.id in ("inf", "nan"):
+                    return copy_location(Constant(float(node.id)), node)
+                return node
+
+        return literal_eval(_use_float().visit(parse(val, mode="eval")))
+
     @staticmethod
     def _chunks(lst, n):
         """Yield successive n-sized chunks from lst."""
-- 
2.43.0


From f7d81d2d7fa8cebc58d031e6993693632ec4f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 55/73] fix: store the manual dynamics of all parameters of
 Fits and MultiFits objects

---
 rt1/rtfits.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index d978280..be7adef 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2956,15 +2956,15 @@ class Fits(Scatter):
                 if isinstance(self, MultiFits):
                     dynkeys = set(
                         key + "_dyn"
-                        for cfg, defdict in self.apply(lambda fit: self.defdict)
+                        for cfg, defdict in self.apply(lambda fit: fit.defdict)
                         for key, val in defdict.items()
-                        if val[0] and val[2] == "manual"
+                        if val[0] and "manual" in map(str.strip, str(val[2]).split("+"))
                     )
                 else:
                     dynkeys = set(
                         key + "_dyn"
                         for key, val in self.defdict.items()
-                        if val[0] and val[2] == "manual"
+                        if val[0] and "manual" in map(str.strip, str(val[2]).split("+"))
                     )
                 df = getattr(self, "dataset", None)[sorted(dynkeys)]
 
-- 
2.43.0


From 9111ff1608c4e2ea8502625dc2e198dd79b2b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 56/73] fix: support save_res_df also for MultiFits objects

---
 rt1/rtfits.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index be7adef..b8b9b51 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3210,11 +3210,17 @@ class MultiFits:
         return args
 
     def _get_fit_to_hdf_dict(
-        self, save_results=True, save_data=True, save_auxdata=True, ID=None
+        self,
+        save_results=True,
+        save_res_df=True,
+        save_data=True,
+        save_auxdata=True,
+        ID=None,
     ):
         return Fits._get_fit_to_hdf_dict(
             self,
             save_results=save_results,
+            save_res_df=save_res_df,
             save_data=save_data,
             save_auxdata=save_auxdata,
             ID=ID,
-- 
2.43.0


From 46e8e7a154c68266bfa899cfd925256dd3d137ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 57/73] fix: assign the new index-number to existing fits that
 are loaded during processing

---
 rt1/processing_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index 91ff7d8..d928790 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -223,7 +223,7 @@ class rt1_processing_config(object):
 
             try:
                 fit = load(self.rt1_procsesing_dumppath / names_ids["filename"])
-                return fit._get_fit_to_hdf_dict()
+                return fit._get_fit_to_hdf_dict(ID=reader_arg.get("_RT1_ID_num", None))
             except Exception:
                 log.error(
                     "there has been a problem while loading the "
-- 
2.43.0


From e38352c25897b07d3b03856453b279594a8b3427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 58/73] fix: identify already processed IDs that are no valid
 identifiers

---
 rt1/_rtprocess_writer.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index edd87f6..f691eeb 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -8,7 +8,6 @@ import sys
 import pandas as pd
 
 from queue import Empty as QueueEmpty
-import os
 from pathlib import Path
 
 from contextlib import contextmanager
@@ -22,7 +21,6 @@ from .general_functions import (
     dt_to_hms,
     update_progress,
     groupby_unsorted,
-    isidentifier,
     find_missing,
 )
 
@@ -305,8 +303,8 @@ class RT1_processor(object):
             IDs list.
             The default is None in which case the following function is used:
 
-                >>> # extract filename from given path
-                >>> lambda i: i.split(os.sep)[-1].split(".")[0]
+                >>> # extract filename if a path to a dump-file is provided
+                >>> lambda i: Path(i).stem if i.endswith(".dump") else i
 
         Returns
         -------
@@ -321,11 +319,14 @@ class RT1_processor(object):
             if get_ID is None:
 
                 def get_ID(i):
-                    ID = str(i["ID"]).split(os.sep)[-1].split(".")[0]
-                    if not isidentifier(str(ID)):
-                        return f"RT1_{ID}"
+                    ID = str(i["ID"])
+                    if ID.endswith(".dump"):
+                        return HDFaccessor._get_ID(Path(ID).stem)
+                    elif ID.startswith("RT1_"):
+                        # IDs of HDF-containers already are prefixed
+                        return ID
                     else:
-                        return str(ID)
+                        return HDFaccessor._get_ID(ID)
 
             with HDFaccessor(self.dst_path) as fit_db:
                 # get all IDs that are already present in the HDF store
-- 
2.43.0


From 7906b7f498c9557b560a087035fde1c9b080530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 59/73] fix: process IDs again if the results have not been
 written completely

---
 rt1/_rtprocess_writer.py | 15 ++++++++++++---
 rt1/rtresults.py         | 15 +++++++++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index f691eeb..248f803 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -334,8 +334,13 @@ class RT1_processor(object):
                 # get a list of integers that have already been assigned to IDs
                 # found_ID_nums = store.select_column("reader_arg", "index").values
 
-                found_ID_nums = fit_db.IDs.index
-                found_IDs = fit_db.IDs.ID.values
+                if fit_db.IDs is not None:
+                    found_IDs = fit_db.IDs.ID.values
+                else:
+                    found_IDs = []
+
+                # (also consider the numbers of incompletely written results!)
+                found_ID_nums = fit_db._get_stored_ID_nums()
 
                 # a list of bool's that indicate if the ID is already processed
                 process_Q = pd.Index(map(get_ID, self.arg_list)).isin(found_IDs)
@@ -408,7 +413,11 @@ class RT1_processor(object):
             try:
                 self.write_lock.acquire()
                 with pd.HDFStore(self.dst_path, "a", **self.HDF_kwargs) as store:
-                    for key, val in out.items():
+                    # store the reader_arg last since it indicates that all results
+                    # of an ID are available
+                    for key, val in sorted(
+                        out.items(), key=lambda i: i[0] == "reader_arg"
+                    ):
                         # make sure the ID column is indexed for the reader_args
                         if key == "reader_arg":
                             data_columns = ["ID"]
diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 27148d5..8111766 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -684,6 +684,21 @@ class HDFaccessor(object):
                     }
                 return fit
 
+    def _get_stored_ID_nums(self):
+        """get all ID-numbers that have been used to store any data"""
+        nums = set()
+        if self.IDs is not None:
+            nums.update(self.IDs.index)
+
+        for key in self.store.keys():
+            if key.endswith("/meta"):
+                continue
+            if self.store.select(key, stop=0).index.names[0] == "ID":
+                levels = self.store.get_storer(key).levels
+                name = "index" if levels == 1 else levels[0]
+                nums.update(self.store.select_column(key, name).unique())
+        return nums
+
     @staticmethod
     def _parse_literal(val):
         # (inf and nan are no literals)
-- 
2.43.0


From 676a01ee3a790c61437bf650e999bf563c3526e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 60/73] fix: evaluate scattering functions with parameters
 defined via relations

---
 rt1/scatter.py | 10 ++++++++++
 rt1/surface.py | 16 +++++++---------
 rt1/volume.py  |  8 +++-----
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/rt1/scatter.py b/rt1/scatter.py
index 0d9a1d5..156f59f 100644
--- a/rt1/scatter.py
+++ b/rt1/scatter.py
@@ -63,6 +63,16 @@ class Scatter(object):
             + a[2] * np.sin(t_0) * np.sin(t_ex) * np.sin(p_0) * np.sin(p_ex)
         )
 
+    @staticmethod
+    def _numeric_param(val, param_dict):
+        # get the numeric value of a parameter that is possibly defined via a
+        # symbol or a relation between symbols
+        if isinstance(val, sp.Basic):
+            names = sorted(str(i) for i in val.free_symbols)
+            func = sp.lambdify(names, val, modules=["numpy", "sympy"])
+            return func(*(param_dict[i] for i in names))
+        return val
+
     def _get_legcoef(self, n0):
         """
         function to evaluate legendre coefficients
diff --git a/rt1/surface.py b/rt1/surface.py
index 1014803..6da8234 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -867,25 +867,23 @@ class HG_nadirnorm(Surface):
     def _func_numeric(self, theta_0, theta_ex, phi_0, phi_ex, **kwargs):
         """direct numeric version of _func"""
 
-        if isinstance(self.t, sp.Symbol):
-            t = kwargs[str(self.t)]
-        else:
-            t = self.t
+        t = self._numeric_param(self.t, kwargs)
+        a = [self._numeric_param(i, kwargs) for i in self.a]
 
-        x = self._scat_angle_numeric(theta_0, theta_ex, phi_0, phi_ex, a=self.a)
+        x = self._scat_angle_numeric(theta_0, theta_ex, phi_0, phi_ex, a=a)
 
         nadir_hemreflect = 4 * (
             (1.0 - t**2.0)
             * (
                 1.0
-                - t * (-t + self.a[0])
-                - np.sqrt((1 + t**2 - 2 * self.a[0] * t) * (1 + t**2))
+                - t * (-t + a[0])
+                - np.sqrt((1 + t**2 - 2 * a[0] * t) * (1 + t**2))
             )
             / (
                 2.0
-                * self.a[0] ** 2.0
+                * a[0] ** 2.0
                 * t**2.0
-                * np.sqrt(1.0 + t**2.0 - 2.0 * self.a[0] * t)
+                * np.sqrt(1.0 + t**2.0 - 2.0 * a[0] * t)
             )
         )
 
diff --git a/rt1/volume.py b/rt1/volume.py
index 7b1027d..f9ffe1a 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -721,11 +721,9 @@ class HenyeyGreenstein(Volume):
 
     def _func_numeric(self, theta_0, theta_ex, phi_0, phi_ex, **kwargs):
         """direct numeric version of _func"""
-        if isinstance(self.t, sp.Symbol):
-            t = kwargs[str(self.t)]
-        else:
-            t = self.t
-        x = self._scat_angle_numeric(theta_0, theta_ex, phi_0, phi_ex, self.a)
+        t = self._numeric_param(self.t, kwargs)
+        a = [self._numeric_param(i, kwargs) for i in self.a]
+        x = self._scat_angle_numeric(theta_0, theta_ex, phi_0, phi_ex, a)
         func = (1.0 - t**2.0) / (
             (4.0 * np.pi) * (1.0 + t**2.0 - 2.0 * t * x) ** 1.5
         )
-- 
2.43.0


From f4078d1896f238b6602bf4808ab16b44423df027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:33 +0000
Subject: [PATCH 61/73] fix: return the ID of fits loaded from the HDF store

---
 rt1/rtresults.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 8111766..1e8ff17 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -371,7 +371,9 @@ class RTresults(object):
                 fit = self._load_fit_from_HDF(ID)
 
             if return_ID is True:
-                return (fit, filepath.stem)
+                if self._use_dumps is True or isinstance(ID, Path):
+                    return (fit, filepath.stem)
+                return (fit, fit.ID)
             else:
                 return fit
 
-- 
2.43.0


From cd1167e5f4f48845f73dab720d12cd32dab76258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:49 +0000
Subject: [PATCH 62/73] fix: finite interaction contribution at nadir

---
 rt1/rt1.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 17d6bbe..c819a1c 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -1377,10 +1377,14 @@ class RT1(object):
     def _S2_mu(self, mu, tau):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
 
+        # log(mu / (1 - mu)) and expi(tau / mu - tau) have opposite singularities
+        # at nadir (mu = 1), use a tiny value for (1 - mu) to get their finite sum
+        nu = np.maximum(1.0 - mu, 1e-100)
+
         hlp1 = (
-            np.exp(-tau / mu) * np.log(mu / (1.0 - mu))
+            np.exp(-tau / mu) * np.log(mu / nu)
             - expi(-tau)
-            + np.exp(-tau / mu) * expi(tau / mu - tau)
+            + np.exp(-tau / mu) * expi(tau * nu / mu)
         )
 
         # cache the results of the expn-evaluations to speed up the S2 loop
-- 
2.43.0


From a5ade86a9dfced9830eeb3967dd599f52dad4616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:35 +0000
Subject: [PATCH 63/73] fix: read constant layers with RT1_processor.get_data

---
 rt1/_rtprocess_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 248f803..6d0dc26 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -792,7 +792,9 @@ class RT1_processor(object):
                     + "... available config layers are \n    "
                     + "\n    ".join(f"{key}: {val}" for key, val in cfg_keys.items())
                 )
+                usekey = key
+            else:
+                usekey = f"{config}/{key}"
 
-            usekey = f"{config}/{key}"
             res = store.select(usekey, **kwargs)
         return res
-- 
2.43.0


From eeb8b2d446d88bc864bc026a1dd1a2dab9a6c61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:02 +0000
Subject: [PATCH 64/73] fix: create indexes for the levels of HDF tables with a
 single index

---
 rt1/_rtprocess_writer.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 6d0dc26..37cea21 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -720,27 +720,16 @@ class RT1_processor(object):
             for key in use_keys:
                 s = store.get_storer(key)
                 s_levels = s.levels
+                # (for tables with a single index only the number of levels is stored)
+                if not isinstance(s_levels, (list, tuple)):
+                    s_levels = ["index"]
 
                 if idx_levels is None:
-                    try:
-                        # if s_levels is iterable and idx_cols is None,
-                        # use the first level
-                        iter(s_levels)
-                        use_levels = [s.levels[0]]
-                    except TypeError:
-                        # else use whatever the level-identification available
-                        use_levels = [s.levels]
-
+                    # use the first level
+                    use_levels = [s_levels[0]]
                 elif idx_levels == "all":
-                    try:
-                        # if s_levels is iterable and idx_cols is None,
-                        # use all available levels
-                        iter(s_levels)
-                        use_levels = s.levels
-                    except TypeError:
-                        # else use whatever the level-identification available
-                        use_levels = s.levels
-
+                    # use all available levels
+                    use_levels = s_levels
                 else:
                     use_levels = list(set(idx_levels) & set(s_levels))
 
-- 
2.43.0


From 25d4822a0b48230898beb90d5ea89ce7776ba769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 65/73] fix: run the processing without a log-file

---
 rt1/rtprocess.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index e0f68d7..4b1b99d 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -189,6 +189,10 @@ class RTprocess(object):
 
     @staticmethod
     def _worker_configurer(queue, loglevel=10):
+        if queue is None:
+            # no log-file is generated if "logfile_level" is None
+            return
+
         log.debug("configuring worker... ")
         log.setLevel(loglevel)
         h = logging.handlers.QueueHandler(queue)  # Just the one handler needed
-- 
2.43.0


From 4fa302dca34189cbf9d483c8a685500d17a5cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:31 +0000
Subject: [PATCH 66/73] fix: load fits without auxiliary data from a HDF store
 that has some

---
 rt1/rtresults.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 1e8ff17..b916793 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -602,12 +602,18 @@ class HDFaccessor(object):
 
             try:
                 dataset = self.datasets.dataset.get_id(ID)
+                # (nothing is stored for this fit)
+                if len(dataset) == 0:
+                    dataset = None
             except Exception:
                 dataset = None
                 pass
 
             try:
                 aux_data = self.datasets.aux_data.get_id(ID)
+                # (nothing is stored for this fit)
+                if len(aux_data) == 0:
+                    aux_data = None
             except Exception:
                 aux_data = None
                 pass
@@ -624,6 +630,9 @@ class HDFaccessor(object):
 
             try:
                 res_dict = self.datasets.res_dict.get_id(ID)
+                # (nothing is stored for this fit)
+                if len(res_dict) == 0:
+                    res_dict = None
             except Exception:
                 res_dict = None
                 pass
-- 
2.43.0


From fff9d4472d5a09435ffb84189f350e96300b98b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:14 +0000
Subject: [PATCH 67/73] fix: do not store the auxiliary data of a previously
 processed feature

---
 rt1/rtprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 4b1b99d..9d18fbf 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -489,9 +489,9 @@ class RTprocess(object):
             if isinstance(self.parent_fit, MultiFits):
                 # set the dataset
                 self.parent_fit.set_dataset(dataset)
-                # set the aux_data
-                if aux_data is not None:
-                    self.parent_fit.set_aux_data(aux_data)
+                # set the aux_data (also if there is none since the parent_fit is
+                # shared by all processed features)
+                self.parent_fit.set_aux_data(aux_data)
                 # append reader_arg to all configs
                 self.parent_fit.set_reader_arg(reader_arg)
                 # set ID for all configs
-- 
2.43.0


From 61d2563bd7e4d16cf97f4ff2c3789aa5c3b77d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:07 +0000
Subject: [PATCH 68/73] fix: convert also the model-contributions to dB in the
 HDF export

---
 rt1/rtprocess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 9d18fbf..1eb947b 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1615,6 +1615,8 @@ class RTprocess(object):
         auxdata, staticlayers = dict(), dict()
         if model_keys:
             auxdata = fit.calc_model(return_components=True)[list(model_keys)]
+            if fit.dB is False and sig_to_dB:
+                auxdata = 10.0 * np.log10(auxdata)
 
         if export_functions:
             for key, func in export_functions.items():
-- 
2.43.0


From 401c45b467981e332c57badd2e7420bfddc059f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 69/73] fix: keep previously overridden sections in
 RTprocess.override_config(override=False)

---
 rt1/rtprocess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 1eb947b..28e3ec0 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -243,6 +243,8 @@ class RTprocess(object):
                     **self.init_kwargs.get(section, {}),
                     **init_defs,
                 }
+            # (keep the sections that are not updated)
+            init_kwargs = {**self.init_kwargs, **init_kwargs}
 
         self.init_kwargs = init_kwargs
 
-- 
2.43.0


From e9da5682c252af80c2cf2399ac467085946ac044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:35 +0000
Subject: [PATCH 70/73] fix: use the process-specs of an already existing
 copied config-file

---
 rt1/rtprocess.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 28e3ec0..73480b2 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -341,6 +341,8 @@ class RTprocess(object):
         # copying is only performed in the main-process!
         if self.copy is True:
             self._copy_cfg_and_modules()
+            # use the specifications of the copied config-file
+            specs = self.cfg.get_process_specs()
 
         # get the name of the processing-module and the processing-class
         proc_module_name = specs.get("processing_cfg_module", "processing_cfg")
-- 
2.43.0


From 408354a70a08095ad64c23d893a00618409fc2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:15 +0000
Subject: [PATCH 71/73] fix: identify already processed IDs in
 mask_existing_HDF_IDs

---
 rt1/processing_config.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index d928790..37ed3eb 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -274,13 +274,8 @@ class rt1_processing_config(object):
             IDs list.
             The default is None in which case the following function is used:
 
-                >>> # extract filename from given path
-                >>> def get_ID(i):
-                >>>     ID = str(i["ID"]).split(os.sep)[-1].split(".")[0]
-                >>>     if not isidentifier(str(ID)):
-                >>>         return f"RT1_{ID}"
-                >>>     else:
-                >>>         return str(ID)
+                >>> # extract filename if a path to a dump-file is provided
+                >>> lambda i: Path(i).stem if i.endswith(".dump") else i
 
         Returns
         -------
@@ -289,8 +284,7 @@ class rt1_processing_config(object):
             already present in the output HDF container.
 
         """
-        import os
-        from .general_functions import isidentifier, find_missing
+        from .general_functions import find_missing
         from .rtresults import HDFaccessor
         import pandas as pd
 
@@ -301,11 +295,10 @@ class rt1_processing_config(object):
             if get_ID is None:
 
                 def get_ID(i):
-                    ID = str(i["ID"]).split(os.sep)[-1].split(".")[0]
-                    if not isidentifier(str(ID)):
-                        return f"RT1_{ID}"
-                    else:
-                        return str(ID)
+                    ID = str(i["ID"])
+                    if ID.endswith(".dump"):
+                        ID = Path(ID).stem
+                    return HDFaccessor._get_ID(ID)
 
             with HDFaccessor(dst_path) as fit_db:
                 # get all IDs that are already present in the HDF store
@@ -313,8 +306,13 @@ class rt1_processing_config(object):
                 # get a list of integers that have already been assigned to IDs
                 # found_ID_nums = store.select_column("reader_arg", "index").values
 
-                found_ID_nums = fit_db.IDs.index
-                found_IDs = fit_db.IDs.ID.values
+                if fit_db.IDs is not None:
+                    found_IDs = fit_db.IDs.ID.values
+                else:
+                    found_IDs = []
+
+                # (also consider the numbers of incompletely written results!)
+                found_ID_nums = fit_db._get_stored_ID_nums()
 
                 # a list of bool's that indicate if the ID is already processed
                 process_Q = pd.Index(map(get_ID, arg_list)).isin(found_IDs)
-- 
2.43.0


From cc65e80c65a0b5ff4e105ea399de499c391e90cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:19 +0000
Subject: [PATCH 72/73] fix: stop waiting workers if the results can not be
 written

---
 rt1/_rtprocess_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 37cea21..3d34344 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -465,7 +465,10 @@ class RT1_processor(object):
                 self.write_lock.release()
 
     def _worker_process(self, *args):
-        self.should_wait.wait()
+        # don't wait any longer if the processing has been stopped
+        while not self.should_wait.wait(timeout=1):
+            if self._stop.is_set():
+                return
 
         try:
             if self.reader_func is not None:
-- 
2.43.0


From d0fa40c1a41b2562d61b6f39c0dcc398fc2c7f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:02 +0000
Subject: [PATCH 73/73] fix: accept the name of a single config as use_config
 of the finaloutput

---
 rt1/rtprocess.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 73480b2..a73d4e0 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1063,6 +1063,10 @@ class RTprocess(object):
         if postprocess is not None:
             assert callable(postprocess), "postprocess must be callable!"
 
+        # a single config is a list with one config
+        if isinstance(use_config, str) and use_config != "from_postprocess":
+            use_config = [use_config]
+
         try:
             # override finalout_name
             # do this BEFORE self.setup() is called !!
-- 
2.43.0


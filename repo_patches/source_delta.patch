From 5a6ee30024d80229139dd61d3bd7f93ee1abb14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 01/33] fix: lp_portfolio pairs each weight with the price of
 its own ticker

Prices were taken positionally, so prices in another order than the weights
(or weights sorted by a previous greedy_portfolio call) were mismatched.
---
 pypfopt/discrete_allocation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index d67f911..355783b 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -306,7 +306,8 @@ class DiscreteAllocation:
             self.allocation = self._remove_zero_positions(self.allocation)
             return self.allocation, long_leftover + short_leftover
 
-        p = self.latest_prices.values
+        # Pair each weight with the price of the same ticker
+        p = self.latest_prices[[i[0] for i in self.weights]].values
         n = len(p)
         w = np.fromiter([i[1] for i in self.weights], dtype=float)
 
-- 
2.43.0


From 51730cd79af7a7a62b11e435b9ccf06529c4a354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 02/33] fix: bl_weights falls back to least squares on its own
 system

The singular fallback solved with the matrix of the views instead of
risk_aversion * cov_matrix.
---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index f24df06..6a429c3 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -466,7 +466,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             weight_solution = np.linalg.solve(A, b)
         except np.linalg.LinAlgError as e:
             if "Singular matrix" in str(e):
-                weight_solution = np.linalg.lstsq(self._A, b, rcond=None)[0]
+                weight_solution = np.linalg.lstsq(A, b, rcond=None)[0]
             else:
                 raise e
         raw_weights = weight_solution
-- 
2.43.0


From f6ba824e48a5f6de833c8911372cca33d68255fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 03/33] fix: capm_return no longer renames the columns of the
 caller's market returns

---
 pypfopt/expected_returns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/expected_returns.py b/pypfopt/expected_returns.py
index b9ab02e..a47de83 100644
--- a/pypfopt/expected_returns.py
+++ b/pypfopt/expected_returns.py
@@ -245,7 +245,7 @@ def capm_return(
     if returns_data:
         returns = prices.copy()
         if market_prices is not None:
-            market_returns = market_prices
+            market_returns = market_prices.copy()
     else:
         returns = returns_from_prices(prices, log_returns)
 
-- 
2.43.0


From 0ecd6f919825549b33697216fd097090db0a4ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 04/33] fix: accept a (None, x) bounds pair for a two-asset
 portfolio

With two assets the documented pair (None, upper) was taken for a list of
per-asset pairs and raised IndexError.
---
 pypfopt/base_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index f988409..8c85391 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -213,7 +213,7 @@ class BaseConvexOptimizer(BaseOptimizer):
         """
         # If it is a collection with the right length, assume they are all bounds.
         if len(test_bounds) == self.n_assets and not isinstance(
-            test_bounds[0], (float, int)
+            test_bounds[0], (float, int, type(None))
         ):
             bounds = np.array(test_bounds, dtype=float)
             self._lower_bounds = np.nan_to_num(bounds[:, 0], nan=-np.inf)
-- 
2.43.0


From 2d400aeb972ff5501a724fd7a3e047286d90d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:24 +0000
Subject: [PATCH 05/33] fix: EfficientCDaR accepts expected_returns=None as
 documented

---
 pypfopt/efficient_frontier/efficient_cdar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index febd6e3..866135b 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -75,9 +75,12 @@ class EfficientCDaR(EfficientFrontier):
         :type solver_options: dict, optional
         :raises TypeError: if ``expected_returns`` is not a series, list or array
         """
+        n_assets = (
+            returns.shape[1] if expected_returns is None else len(expected_returns)
+        )
         super().__init__(
             expected_returns=expected_returns,
-            cov_matrix=np.zeros((len(expected_returns),) * 2),  # dummy
+            cov_matrix=np.zeros((n_assets,) * 2),  # dummy
             weight_bounds=weight_bounds,
             solver=solver,
             verbose=verbose,
-- 
2.43.0


From 7aa632c05a4091d06780f4a741771ae24950e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 06/33] fix: downside-risk performance without expected returns

expected_returns may be None when optimising for risk only, but
portfolio_performance then raised instead of reporting the risk.
---
 pypfopt/efficient_frontier/efficient_cdar.py  | 13 ++++++++----
 pypfopt/efficient_frontier/efficient_cvar.py  | 13 ++++++++----
 .../efficient_semivariance.py                 | 20 +++++++++++++------
 3 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index 866135b..0fe15a6 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -224,9 +224,13 @@ class EfficientCDaR(EfficientFrontier):
         :return: expected return, CDaR.
         :rtype: (float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.weights is None:
+            raise ValueError("Weights is None")
+        mu = None
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
             self._z
@@ -234,7 +238,8 @@ class EfficientCDaR(EfficientFrontier):
         cdar_val = cdar.value
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Conditional Drawdown at Risk: {:.2f}%".format(100 * cdar_val))
 
         return mu, cdar_val
diff --git a/pypfopt/efficient_frontier/efficient_cvar.py b/pypfopt/efficient_frontier/efficient_cvar.py
index d456f79..337d5ad 100644
--- a/pypfopt/efficient_frontier/efficient_cvar.py
+++ b/pypfopt/efficient_frontier/efficient_cvar.py
@@ -228,9 +228,13 @@ class EfficientCVaR(EfficientFrontier):
         :return: expected return, CVaR.
         :rtype: (float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.weights is None:
+            raise ValueError("Weights is None")
+        mu = None
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
             self._u
@@ -238,7 +242,8 @@ class EfficientCVaR(EfficientFrontier):
         cvar_val = cvar.value
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Conditional Value at Risk: {:.2f}%".format(100 * cvar_val))
 
         return mu, cvar_val
diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 89d520c..8db24f8 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -261,19 +261,27 @@ class EfficientSemivariance(EfficientFrontier):
         :return: expected return, semideviation, Sortino ratio.
         :rtype: (float, float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.weights is None:
+            raise ValueError("Weights is None")
+        mu = None
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         portfolio_returns = self.returns @ self.weights
         drops = np.fmin(portfolio_returns - self.benchmark, 0)
         semivariance = np.sum(np.square(drops)) / self._T * self.frequency
         semi_deviation = np.sqrt(semivariance)
-        sortino_ratio = (mu - risk_free_rate) / semi_deviation
+        sortino_ratio = None
+        if mu is not None:
+            sortino_ratio = (mu - risk_free_rate) / semi_deviation
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Annual semi-deviation: {:.1f}%".format(100 * semi_deviation))
-            print("Sortino Ratio: {:.2f}".format(sortino_ratio))
+            if sortino_ratio is not None:
+                print("Sortino Ratio: {:.2f}".format(sortino_ratio))
 
         return mu, semi_deviation, sortino_ratio
-- 
2.43.0


From 7e84c25c35fc3298690a04f7712097bfca461380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 07/33] fix: infinite bounds (None in a list of pairs) no
 longer reach the solver

A None inside a list of bounds became an infinite coefficient: max_sharpe
failed with every solver, other methods with ECOS, SCS or CLARABEL.
---
 pypfopt/base_optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index 8c85391..038d703 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -236,8 +236,12 @@ class BaseConvexOptimizer(BaseOptimizer):
                 self._lower_bounds = np.nan_to_num(lower, nan=-1)
                 self._upper_bounds = np.nan_to_num(upper, nan=1)
 
-        self.add_constraint(lambda w: w >= self._lower_bounds)
-        self.add_constraint(lambda w: w <= self._upper_bounds)
+        # Infinite bounds are not accepted by most solvers: 0 * w <= 1 stands for w <= inf
+        low, up = np.isfinite(self._lower_bounds), np.isfinite(self._upper_bounds)
+        lower = np.where(low, self._lower_bounds, -1)
+        upper = np.where(up, self._upper_bounds, 1)
+        self.add_constraint(lambda w: (w if low.all() else cp.multiply(low, w)) >= lower)
+        self.add_constraint(lambda w: (w if up.all() else cp.multiply(up, w)) <= upper)
 
     def is_parameter_defined(self, parameter_name: str) -> bool:
         is_defined = False
-- 
2.43.0


From 08c8afa0f58ccc2b1696c4886e264114d985bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 08/33] fix: a refused max_sharpe does not change the reported
 Sharpe ratio

The risk-free rate was stored before solving, so a call refused on an already
solved object (or without a solution) changed what portfolio_performance
reports for the weights held.
---
 pypfopt/efficient_frontier/efficient_frontier.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index bec2fe0..2b6b312 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -246,8 +246,6 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
                 "at least one of the assets must have an expected return exceeding the risk-free rate"
             )
 
-        self._risk_free_rate = risk_free_rate
-
         # max_sharpe requires us to make a variable transformation.
         # Here we treat w as the transformed variable.
         self._objective = cp.quad_form(self._w, self.cov_matrix, assume_PSD=True)
@@ -288,6 +286,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         ] + new_constraints
 
         self._solve_cvxpy_opt_problem()
+        self._risk_free_rate = risk_free_rate
         # Inverse-transform
         self.weights = (self._w.value / k.value).round(16) + 0.0
         return self._make_output_weights()
-- 
2.43.0


From a09191b853de813465f2744afcf067fbae07d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 09/33] fix: max_sharpe keeps linear constraints whatever way
 they are written

The change of variables multiplied the right-hand side by k and left the rest
alone, which is right only if all of the weights are on one side and all of the
constants on the other: w[0] - 0.3 <= 0, 0.3 - w[0] >= 0 or w[0] >= w[1] became
different constraints.
---
 .../efficient_frontier/efficient_frontier.py  | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 2b6b312..5640373 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -263,7 +263,24 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         new_constraints = []
         # Must rebuild the constraints
         for constr in self._constraints:
-            if isinstance(constr, cp.constraints.nonpos.Inequality):
+            if isinstance(
+                constr,
+                (cp.constraints.nonpos.Inequality, cp.constraints.zero.Equality),
+            ) and all(arg.is_affine() for arg in constr.args):
+                # Only the constant part (the value at zero) is scaled by k
+                expr = constr.args[0] - constr.args[1]
+                values = [(var, var.value) for var in expr.variables()]
+                for var, _ in values:
+                    var.value = np.zeros(var.shape)
+                const = expr.value
+                for var, value in values:
+                    var.value = value
+                expr = expr - const + const * k
+                if isinstance(constr, cp.constraints.zero.Equality):
+                    new_constraints.append(expr == 0)
+                else:
+                    new_constraints.append(expr <= 0)
+            elif isinstance(constr, cp.constraints.nonpos.Inequality):
                 # Either the first or second item is the expression
                 if isinstance(
                     constr.args[0], cp.expressions.constants.constant.Constant
-- 
2.43.0


From 355dbe08a58b7ad7baf3286cae4a6de94a1f01ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 10/33] fix: market-neutral targets are not checked against
 sum-to-one portfolios

efficient_risk and efficient_return refused attainable market-neutral targets
because portfolios that sum to one could not reach them.
---
 .../efficient_frontier/efficient_frontier.py  | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 5640373..900e546 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -366,7 +366,8 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
 
         global_min_volatility = np.sqrt(1 / np.sum(np.linalg.pinv(self.cov_matrix)))
 
-        if target_volatility < global_min_volatility:
+        # The minimum is that of the portfolios which sum to one
+        if not market_neutral and target_volatility < global_min_volatility:
             raise ValueError(
                 "The minimum volatility is {:.3f}. Please use a higher target_volatility".format(
                     global_min_volatility
@@ -409,17 +410,21 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         """
         if not isinstance(target_return, float):
             raise ValueError("target_return should be a float")
-        if not self._max_return_value:
-            a = self.deepcopy()
-            self._max_return_value = a._max_return()
-        if target_return > self._max_return_value:
-            raise ValueError(
-                "target_return must be lower than the maximum possible return"
-            )
 
         update_existing_parameter = self.is_parameter_defined("target_return")
         if update_existing_parameter:
             self._validate_market_neutral(market_neutral)
+        # The maximum is that of the portfolios which sum to one
+        if not market_neutral:
+            if not self._max_return_value:
+                a = self.deepcopy()
+                self._max_return_value = a._max_return()
+            if target_return > self._max_return_value:
+                raise ValueError(
+                    "target_return must be lower than the maximum possible return"
+                )
+
+        if update_existing_parameter:
             self.update_parameter_value("target_return", target_return)
         else:
             self._objective = objective_functions.portfolio_variance(
-- 
2.43.0


From fbd743c077ddc8afbd68fae1bd8dab37a5ab0944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 11/33] fix: plot_efficient_frontier skips parameter values
 that cannot be solved

After warning about a refused value it plotted the previous portfolio again, or
raised if the first value was refused.
---
 pypfopt/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 54fcf48..2d8e32d 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -255,6 +255,7 @@ def _plot_ef(ef, ef_param, ef_param_range, ax, show_assets, show_tickers, intera
                     param_value
                 )
             )
+            continue
 
         ret, sigma, _ = ef.portfolio_performance()
         mus.append(ret)
-- 
2.43.0


From d1b4f17bdd053cc1b3ec7a5b14e938e9485c2b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:52 +0000
Subject: [PATCH 12/33] fix: market-neutral semivariance is measured against
 the benchmark

The benchmark was subtracted from every asset's returns, which is the
portfolio's shortfall only if the weights sum to one: market-neutral portfolios
were optimised against a benchmark of zero.
---
 .../efficient_semivariance.py                 | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 8db24f8..ee514fe 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -123,8 +123,9 @@ class EfficientSemivariance(EfficientFrontier):
         for obj in self._additional_objectives:
             self._objective += obj
 
-        B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-        self.add_constraint(lambda w: B @ w - p + n == 0)
+        B = self.returns.values / np.sqrt(self._T)
+        b = self.benchmark / np.sqrt(self._T)
+        self.add_constraint(lambda w: B @ w - b - p + n == 0)
         self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -161,8 +162,9 @@ class EfficientSemivariance(EfficientFrontier):
             for obj in self._additional_objectives:
                 self._objective += obj
 
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B = self.returns.values / np.sqrt(self._T)
+            b = self.benchmark / np.sqrt(self._T)
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -200,8 +202,9 @@ class EfficientSemivariance(EfficientFrontier):
             self.add_constraint(
                 lambda _: self.frequency * cp.sum(cp.square(n)) <= target_semivariance
             )
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B = self.returns.values / np.sqrt(self._T)
+            b = self.benchmark / np.sqrt(self._T)
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -241,8 +244,9 @@ class EfficientSemivariance(EfficientFrontier):
             self.add_constraint(
                 lambda w: cp.sum(w @ self.expected_returns) >= target_return_par
             )
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B = self.returns.values / np.sqrt(self._T)
+            b = self.benchmark / np.sqrt(self._T)
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
-- 
2.43.0


From e47635a5290bd7497b3984969ead4ee36a2ff9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:50 +0000
Subject: [PATCH 13/33] fix: efficient_risk refuses a negative target
 semideviation

The target was squared, so -x was answered as if it were x.
---
 pypfopt/efficient_frontier/efficient_semivariance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index ee514fe..711b0f3 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -182,6 +182,9 @@ class EfficientSemivariance(EfficientFrontier):
         :return: asset weights for the efficient risk portfolio
         :rtype: OrderedDict
         """
+        if target_semideviation < 0:
+            raise ValueError("target_semideviation should be a positive float")
+
         update_existing_parameter = self.is_parameter_defined("target_semivariance")
         if update_existing_parameter:
             self._validate_market_neutral(market_neutral)
-- 
2.43.0


From 4c1e5ca171f63a18c413608036fa501e54071c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 14/33] fix: BlackLittermanModel(pi="market") accepts an array
 covariance matrix

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 6a429c3..6760cd6 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -272,7 +272,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             market_prior = market_implied_prior_returns(
                 market_caps, self.risk_aversion, self._raw_cov_matrix, risk_free_rate
             )
-            self.pi = market_prior.values.reshape(-1, 1)
+            self.pi = np.asarray(market_prior).reshape(-1, 1)
         elif pi == "equal":
             self.pi = np.ones((self.n_assets, 1)) / self.n_assets
         else:
-- 
2.43.0


From cd0def00fb5fbf41fcfa7b19597c868eafd675a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 15/33] fix: Black-Litterman performance of set_weights uses
 the posterior returns

---
 pypfopt/black_litterman.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 6760cd6..fcd8433 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -495,6 +495,8 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
         :return: expected return, volatility, Sharpe ratio.
         :rtype: (float, float, float)
         """
+        if self.posterior_rets is None:
+            self.posterior_rets = self.bl_returns()
         if self.posterior_cov is None:
             self.posterior_cov = self.bl_cov()
         return base_optimizer.portfolio_performance(
-- 
2.43.0


From 561e212ef76e35c03a534745a5a682dff0eb15cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 16/33] fix: view_confidences given as an array must match the
 number of views

---
 pypfopt/black_litterman.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index fcd8433..cb6c3fc 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -299,16 +299,15 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
                     "To use Idzorek's method, please supply a vector of percentage "
                     "confidence levels for each view."
                 )
-            if not isinstance(view_confidences, np.ndarray):
-                try:
-                    view_confidences = np.array(view_confidences).reshape(-1, 1)
-                    assert view_confidences.shape[0] == self.Q.shape[0]
-                    assert np.issubdtype(view_confidences.dtype, np.number)
-                except AssertionError:
-                    raise ValueError(
-                        "view_confidences should be a numpy 1D array or vector with the same length "
-                        "as the number of views."
-                    )
+            try:
+                view_confidences = np.array(view_confidences).reshape(-1, 1)
+                assert view_confidences.shape[0] == self.Q.shape[0]
+                assert np.issubdtype(view_confidences.dtype, np.number)
+            except AssertionError:
+                raise ValueError(
+                    "view_confidences should be a numpy 1D array or vector with the same length "
+                    "as the number of views."
+                )
 
             self.omega = BlackLittermanModel.idzorek_method(
                 view_confidences,
-- 
2.43.0


From 86d2dde31526b89198faaae0330c73280137de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 17/33] fix: CLA turning points use the bound an asset has just
 reached

When an asset left the free set, the weights of the remaining free assets were
computed with that asset's previous weight instead of the bound it reached, so
the turning point did not sum to one and was purged: the frontier between its
neighbours was interpolated wrongly.
---
 pypfopt/cla.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 910d598..0156e57 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -355,6 +355,8 @@ class CLA(base_optimizer.BaseOptimizer):
                     self.ls.append(l_out)
                     f.append(i_out)
                 covarF, covarFB, meanF, wB = self._get_matrices(f)
+                # the asset just bounded is at its bound, not at its previous weight
+                wB = self._reduce_matrix(w, self._get_b(f), [0])
                 covarF_inv = np.linalg.inv(covarF)
             # 5) compute solution vector
             wF, g = self._compute_w(covarF_inv, covarFB, meanF, wB)
-- 
2.43.0


From 56aacb75f542bfa6146370608578e6b423f159a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:57 +0000
Subject: [PATCH 18/33] fix: CLA accepts integer bounds given per asset

Integer lower bounds in a list of pairs or a pair of arrays made the weight
vector an integer array, which truncated every weight.
---
 pypfopt/cla.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 0156e57..b3b1eb7 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -71,17 +71,21 @@ class CLA(base_optimizer.BaseOptimizer):
         if len(weight_bounds) == len(self.mean) and not isinstance(
             weight_bounds[0], (float, int)
         ):
-            self.lB = np.array([b[0] for b in weight_bounds]).reshape(-1, 1)
-            self.uB = np.array([b[1] for b in weight_bounds]).reshape(-1, 1)
+            self.lB = np.array([b[0] for b in weight_bounds], dtype=float).reshape(-1, 1)
+            self.uB = np.array([b[1] for b in weight_bounds], dtype=float).reshape(-1, 1)
         else:
             if isinstance(weight_bounds[0], (float, int)):
                 self.lB = np.ones(self.mean.shape) * weight_bounds[0]
             else:
-                self.lB = np.array(weight_bounds[0]).reshape(self.mean.shape)
+                self.lB = np.array(weight_bounds[0], dtype=float).reshape(
+                    self.mean.shape
+                )
             if isinstance(weight_bounds[0], (float, int)):
                 self.uB = np.ones(self.mean.shape) * weight_bounds[1]
             else:
-                self.uB = np.array(weight_bounds[1]).reshape(self.mean.shape)
+                self.uB = np.array(weight_bounds[1], dtype=float).reshape(
+                    self.mean.shape
+                )
 
         self.w = []  # solution
         self.ls = []  # lambdas
-- 
2.43.0


From 4854e8edc46f0794c8edaccdb51da1171b7bb56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:50 +0000
Subject: [PATCH 19/33] fix: CLA skips assets whose weight does not depend on
 lambda

_compute_lambda returns None for them, which was compared with a number
(TypeError, e.g. uncorrelated assets of equal variance with evenly spaced means).
---
 pypfopt/cla.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index b3b1eb7..a8aa422 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -339,9 +339,10 @@ class CLA(base_optimizer.BaseOptimizer):
                         meanF.shape[0] - 1,
                         self.w[-1][i],
                     )
-                    if (self.ls[-1] is None or l < self.ls[-1]) and l > CLA._infnone(
-                        l_out
-                    ):
+                    l_ = CLA._infnone(l)  # None: the weight does not depend on lambda
+                    if (
+                        self.ls[-1] is None or l_ < self.ls[-1]
+                    ) and l_ > CLA._infnone(l_out):
                         l_out, i_out = l, i
             if (l_in is None or l_in < 0) and (l_out is None or l_out < 0):
                 # 3) compute minimum variance solution
-- 
2.43.0


From 1e11f5cf700759b7a2855ea8c64cd22b1d0b23bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 20/33] fix: CLA terminates when weights reach their bounds at
 the same lambda

An asset is freed only if it then moves towards its other bound, and ties with
the current lambda are taken. Before, rounding noise decided such ties: the
algorithm cycled for ever or left assets at bounds they should have left.
---
 pypfopt/cla.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index a8aa422..a70c077 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -339,10 +339,22 @@ class CLA(base_optimizer.BaseOptimizer):
                         meanF.shape[0] - 1,
                         self.w[-1][i],
                     )
-                    l_ = CLA._infnone(l)  # None: the weight does not depend on lambda
+                    if l is None:  # the weight does not depend on lambda
+                        continue
+                    _, bi = self._compute_lambda(
+                        covarF_inv,
+                        covarFB,
+                        meanF,
+                        wB,
+                        meanF.shape[0] - 1,
+                        [self.lB[i], self.uB[i]],
+                    )
+                    # free the asset only towards its other bound, ties included
                     if (
-                        self.ls[-1] is None or l_ < self.ls[-1]
-                    ) and l_ > CLA._infnone(l_out):
+                        bi != w[i]
+                        and (self.ls[-1] is None or l <= self.ls[-1] * (1 + 1e-10))
+                        and l > CLA._infnone(l_out)
+                    ):
                         l_out, i_out = l, i
             if (l_in is None or l_in < 0) and (l_out is None or l_out < 0):
                 # 3) compute minimum variance solution
-- 
2.43.0


From 7085b91dc349dfb9fb1c0315c859c7be44e3583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:23 +0000
Subject: [PATCH 21/33] fix: greedy_portfolio accepts integer prices and an
 empty first round

Whole-number prices failed with a casting error; when no share was bought in the
first round all weights became NaN, and assets of weight zero could be bought.
---
 pypfopt/discrete_allocation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 355783b..c6b92dc 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -210,7 +210,8 @@ class DiscreteAllocation:
             # Calculate the equivalent continuous weights of the shares that
             # have already been bought
             current_weights = np.array(buy_prices) * np.array(shares_bought)
-            current_weights /= current_weights.sum()
+            if current_weights.any():
+                current_weights = current_weights / current_weights.sum()
             ideal_weights = np.array([i[1] for i in self.weights])
             deficit = ideal_weights - current_weights
 
-- 
2.43.0


From f8681f1b0fb4332156f75b2dbc477785bb03d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:33 +0000
Subject: [PATCH 22/33] fix: lp_portfolio's leftover belongs to the whole
 shares it returns

The leftover was taken from the solver's unrounded shares and was off by up to
2e-5 of the funds.
---
 pypfopt/discrete_allocation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index c6b92dc..4d4695e 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -336,7 +336,10 @@ class DiscreteAllocation:
             )
         )
 
+        # The solver's own r belongs to shares that are not quite whole numbers
+        leftover = self.total_portfolio_value - p @ vals
+
         if verbose:
-            print("Funds remaining: {:.2f}".format(r.value))
+            print("Funds remaining: {:.2f}".format(leftover))
             self._allocation_rmse_error()
-        return self.allocation, r.value
+        return self.allocation, leftover
-- 
2.43.0


From 7e4301081cf2c32a96f3085d703b9ee0d1331b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 23/33] fix: capm_return failed for market returns that are not
 a DataFrame

Market prices given as a series or array were converted, market returns
(returns_data=True) were not.
---
 pypfopt/expected_returns.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypfopt/expected_returns.py b/pypfopt/expected_returns.py
index a47de83..588553f 100644
--- a/pypfopt/expected_returns.py
+++ b/pypfopt/expected_returns.py
@@ -242,6 +242,10 @@ def capm_return(
 
     market_returns = None
 
+    if market_prices is not None and not isinstance(market_prices, pd.DataFrame):
+        warnings.warn("market prices are not in a dataframe", RuntimeWarning)
+        market_prices = pd.DataFrame(market_prices)
+
     if returns_data:
         returns = prices.copy()
         if market_prices is not None:
@@ -250,10 +254,6 @@ def capm_return(
         returns = returns_from_prices(prices, log_returns)
 
         if market_prices is not None:
-            if not isinstance(market_prices, pd.DataFrame):
-                warnings.warn("market prices are not in a dataframe", RuntimeWarning)
-                market_prices = pd.DataFrame(market_prices)
-
             market_returns = returns_from_prices(market_prices, log_returns)
     # Use the equally-weighted dataset as a proxy for the market
     if market_returns is None:
-- 
2.43.0


From fa974348c6f6b4396bef18c75e81c7b9dea0c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 24/33] fix: capm_return lost or refused an asset labelled
 "mkt"

The market was appended under that label, overwriting the asset's column or
clashing with it in the join.
---
 pypfopt/expected_returns.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pypfopt/expected_returns.py b/pypfopt/expected_returns.py
index 588553f..9a48c27 100644
--- a/pypfopt/expected_returns.py
+++ b/pypfopt/expected_returns.py
@@ -255,12 +255,16 @@ def capm_return(
 
         if market_prices is not None:
             market_returns = returns_from_prices(market_prices, log_returns)
+    # Label of the market column, distinct from those of the assets
+    mkt = "mkt"
+    while mkt in returns.columns:
+        mkt += "_"
     # Use the equally-weighted dataset as a proxy for the market
     if market_returns is None:
         # Append market return to right and compute sample covariance matrix
-        returns["mkt"] = returns.mean(axis=1)
+        returns[mkt] = returns.mean(axis=1)
     else:
-        market_returns.columns = ["mkt"]
+        market_returns.columns = [mkt]
         returns = returns.join(market_returns, how="left")
 
     _check_returns(returns)
@@ -268,15 +272,15 @@ def capm_return(
     # Compute covariance matrix for the new dataframe (including markets)
     cov = returns.cov()
     # The far-right column of the cov matrix is covariances to market
-    betas = cov["mkt"] / cov.loc["mkt", "mkt"]
-    betas = betas.drop("mkt")
+    betas = cov[mkt] / cov.loc[mkt, mkt]
+    betas = betas.drop(mkt)
     # Find mean market return on a given time period
     if compounding:
-        mkt_mean_ret = (1 + returns["mkt"]).prod() ** (
-            frequency / returns["mkt"].count()
+        mkt_mean_ret = (1 + returns[mkt]).prod() ** (
+            frequency / returns[mkt].count()
         ) - 1
     else:
-        mkt_mean_ret = returns["mkt"].mean() * frequency
+        mkt_mean_ret = returns[mkt].mean() * frequency
 
     # CAPM formula
     return risk_free_rate + betas * (mkt_mean_ret - risk_free_rate)
-- 
2.43.0


From 50fc6f389c242d72ebe8e7ae89aec3878b6cc875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 25/33] fix: downside-risk frontiers take the tickers of the
 returns

With expected_returns=None or an array the assets were numbered, so that a
sector constraint or a mapping by ticker was silently not applied even though
the returns were labelled.
---
 pypfopt/efficient_frontier/efficient_cdar.py        |  3 +--
 pypfopt/efficient_frontier/efficient_cvar.py        |  3 +--
 pypfopt/efficient_frontier/efficient_frontier.py    | 13 +++++++++++++
 .../efficient_frontier/efficient_semivariance.py    |  2 +-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index 0fe15a6..d0edae8 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -6,7 +6,6 @@ generates portfolios along the mean-CDaR (conditional drawdown-at-risk) frontier
 import warnings
 
 import cvxpy as cp
-import numpy as np
 
 from .. import objective_functions
 from .efficient_frontier import EfficientFrontier
@@ -80,7 +79,7 @@ class EfficientCDaR(EfficientFrontier):
         )
         super().__init__(
             expected_returns=expected_returns,
-            cov_matrix=np.zeros((n_assets,) * 2),  # dummy
+            cov_matrix=self._dummy_cov_matrix(returns, n_assets),
             weight_bounds=weight_bounds,
             solver=solver,
             verbose=verbose,
diff --git a/pypfopt/efficient_frontier/efficient_cvar.py b/pypfopt/efficient_frontier/efficient_cvar.py
index 337d5ad..7f77239 100644
--- a/pypfopt/efficient_frontier/efficient_cvar.py
+++ b/pypfopt/efficient_frontier/efficient_cvar.py
@@ -6,7 +6,6 @@ generates portfolios along the mean-CVaR frontier.
 import warnings
 
 import cvxpy as cp
-import numpy as np
 
 from .. import objective_functions
 from .efficient_frontier import EfficientFrontier
@@ -78,7 +77,7 @@ class EfficientCVaR(EfficientFrontier):
         """
         super().__init__(
             expected_returns=expected_returns,
-            cov_matrix=np.zeros((returns.shape[1],) * 2),  # dummy
+            cov_matrix=self._dummy_cov_matrix(returns),
             weight_bounds=weight_bounds,
             solver=solver,
             verbose=verbose,
diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 900e546..ade9dd8 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -137,6 +137,19 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         else:
             raise TypeError("cov_matrix is not a dataframe or array")
 
+    @staticmethod
+    def _dummy_cov_matrix(returns, n_assets=None):
+        """
+        Helper method for the frontiers that need returns rather than a covariance
+        matrix: zeros, labelled with the tickers if the returns are.
+        """
+        if n_assets is None:
+            n_assets = returns.shape[1]
+        dummy = np.zeros((n_assets,) * 2)
+        if isinstance(returns, pd.DataFrame) and returns.shape[1] == n_assets:
+            return pd.DataFrame(dummy, index=returns.columns, columns=returns.columns)
+        return dummy
+
     def _validate_returns(self, returns):
         """
         Helper method to validate daily returns (needed for some efficient frontiers)
diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 711b0f3..0b4e74e 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -88,7 +88,7 @@ class EfficientSemivariance(EfficientFrontier):
         # Instantiate parent
         super().__init__(
             expected_returns=expected_returns,
-            cov_matrix=np.zeros((returns.shape[1],) * 2),  # dummy
+            cov_matrix=self._dummy_cov_matrix(returns),
             weight_bounds=weight_bounds,
             solver=solver,
             verbose=verbose,
-- 
2.43.0


From 67a47448a271284817f20697c7c5e26638185b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 26/33] fix: greedy allocation gave up after ten assets it
 could not afford

---
 pypfopt/discrete_allocation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 4d4695e..db704d3 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -229,14 +229,16 @@ class DiscreteAllocation:
 
                 # If either of these conditions is met, we break out of both while loops
                 # hence the repeated statement below
-                if deficit[idx] < 0 or counter == 10:
+                if deficit[idx] < 0 or counter == len(self.weights):
                     break
 
                 ticker, weight = self.weights[idx]
                 price = self.latest_prices[ticker]
                 counter += 1
 
-            if deficit[idx] <= 0 or counter == 10:  # pragma: no cover
+            if deficit[idx] <= 0 or counter == len(
+                self.weights
+            ):  # pragma: no cover
                 # Dirty solution to break out of both loops
                 break
 
-- 
2.43.0


From a1b981ade66a9ce25aa97ff732b93c3ca6c747a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 27/33] fix: CLA failed when the bounds add up to one exactly

---
 pypfopt/cla.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index a70c077..246afe9 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -123,7 +123,8 @@ class CLA(base_optimizer.BaseOptimizer):
         b = np.sort(a, order="mu")
         # 3) First free weight
         i, w = b.shape[0], np.copy(self.lB)
-        while sum(w) < 1:
+        # (the bounds, lower ones included, may add up to one only within rounding)
+        while i == b.shape[0] or sum(w) < 1 - 1e-12:
             i -= 1
             w[b[i][0]] = self.uB[b[i][0]]
         w[b[i][0]] += 1 - sum(w)
-- 
2.43.0


From 21ac8bc085c6096bcb2ccabbd9b7ac8ee9b53a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 28/33] fix: plot_covariance failed for arrays unless labels
 were switched off

---
 pypfopt/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 2d8e32d..7377436 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -83,10 +83,11 @@ def plot_covariance(cov_matrix, plot_correlation=False, show_tickers=True, **kwa
     fig.colorbar(cax)
 
     if show_tickers:
+        labels = getattr(matrix, "index", np.arange(0, matrix.shape[0], 1))
         ax.set_xticks(np.arange(0, matrix.shape[0], 1))
-        ax.set_xticklabels(matrix.index)
+        ax.set_xticklabels(labels)
         ax.set_yticks(np.arange(0, matrix.shape[0], 1))
-        ax.set_yticklabels(matrix.index)
+        ax.set_yticklabels(labels)
         plt.xticks(rotation=90)
 
     _plot_io(**kwargs)
-- 
2.43.0


From cc6af44e8bd827fe4816c2158631fa976a05102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 29/33] fix: plot_efficient_frontier failed on parameters where
 the solver gives up

---
 pypfopt/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 7377436..6c318d3 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -11,6 +11,7 @@ Currently implemented:
 
 import warnings
 
+import cvxpy as cp
 import numpy as np
 import scipy.cluster.hierarchy as sch
 
@@ -248,7 +249,7 @@ def _plot_ef(ef, ef_param, ef_param_range, ax, show_assets, show_tickers, intera
                 raise NotImplementedError(
                     "ef_param should be one of {'utility', 'risk', 'return'}"
                 )
-        except exceptions.OptimizationError:
+        except (exceptions.OptimizationError, cp.error.SolverError):
             continue
         except ValueError:
             warnings.warn(
-- 
2.43.0


From c71628e2c07a123a191852fc8d0b2f0750678629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 30/33] fix: efficient_risk refused attainable volatilities for
 singular covariance matrices

The global minimum volatility from the pseudo-inverse only holds if the ones
vector lies in the range of the matrix; otherwise riskless portfolios that sum
to one exist (e.g. with a cash asset), and the minimum is zero.
---
 pypfopt/efficient_frontier/efficient_frontier.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index ade9dd8..9140983 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -377,7 +377,13 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         if not isinstance(target_volatility, (float, int)) or target_volatility < 0:
             raise ValueError("target_volatility should be a positive float")
 
-        global_min_volatility = np.sqrt(1 / np.sum(np.linalg.pinv(self.cov_matrix)))
+        pinv = np.linalg.pinv(self.cov_matrix)
+        ones = np.ones(self.n_assets)
+        if np.allclose(self.cov_matrix @ (pinv @ ones), ones):
+            global_min_volatility = np.sqrt(1 / np.sum(pinv))
+        else:
+            # Singular matrix with riskless portfolios that sum to one
+            global_min_volatility = 0
 
         # The minimum is that of the portfolios which sum to one
         if not market_neutral and target_volatility < global_min_volatility:
-- 
2.43.0


From 1ca2261da816bb405b434aae1b6af7e553e18e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 31/33] fix: infinite weight bounds became huge finite numbers

---
 pypfopt/base_optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index 038d703..42930fa 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -216,8 +216,8 @@ class BaseConvexOptimizer(BaseOptimizer):
             test_bounds[0], (float, int, type(None))
         ):
             bounds = np.array(test_bounds, dtype=float)
-            self._lower_bounds = np.nan_to_num(bounds[:, 0], nan=-np.inf)
-            self._upper_bounds = np.nan_to_num(bounds[:, 1], nan=np.inf)
+            self._lower_bounds = np.where(np.isnan(bounds[:, 0]), -np.inf, bounds[:, 0])
+            self._upper_bounds = np.where(np.isnan(bounds[:, 1]), np.inf, bounds[:, 1])
         else:
             # Otherwise this must be a pair.
             if len(test_bounds) != 2 or not isinstance(test_bounds, (tuple, list)):
@@ -233,8 +233,8 @@ class BaseConvexOptimizer(BaseOptimizer):
                 upper = 1 if upper is None else upper
                 self._upper_bounds = np.array([upper] * self.n_assets)
             else:
-                self._lower_bounds = np.nan_to_num(lower, nan=-1)
-                self._upper_bounds = np.nan_to_num(upper, nan=1)
+                self._lower_bounds = np.where(np.isnan(lower), -1, lower)
+                self._upper_bounds = np.where(np.isnan(upper), 1, upper)
 
         # Infinite bounds are not accepted by most solvers: 0 * w <= 1 stands for w <= inf
         low, up = np.isfinite(self._lower_bounds), np.isfinite(self._upper_bounds)
-- 
2.43.0


From 9d90a040b5c4f4b3eac1cd13c0d7b7bbd69ebe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 32/33] fix: nonconvex_objective returned weights that break
 its constraints

---
 pypfopt/base_optimizer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index 42930fa..aacaa3c 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -512,6 +512,13 @@ class BaseConvexOptimizer(BaseOptimizer):
             bounds=bounds,
             constraints=final_constraints,
         )
+        if not result["success"]:
+            # The solver may have stopped early at a good point,
+            # but not at one that breaks the constraints
+            for con in final_constraints:
+                gap = np.asarray(con["fun"](result["x"], *con.get("args", ())))
+                if not np.max(np.abs(gap) if con["type"] == "eq" else -gap) <= 1e-3:
+                    raise exceptions.OptimizationError(result["message"])
         self.weights = result["x"]
         return self._make_output_weights()
 
-- 
2.43.0


From c9ca3294db1449e653f1fb5871051583b2f5ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 33/33] fix: lp_portfolio could spend more than the funds after
 rounding the shares

---
 pypfopt/discrete_allocation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index db704d3..420101a 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -332,6 +332,9 @@ class DiscreteAllocation:
             raise exceptions.OptimizationError("Please try greedy_portfolio")
 
         vals = np.rint(x.value).astype(int)
+        # Rounding up shares that are not quite whole may cost more than the funds
+        while p @ vals > self.total_portfolio_value * (1 + 1e-9):
+            vals[np.argmin(np.where(vals > 0, p, np.inf))] -= 1
         self.allocation = self._remove_zero_positions(
             collections.OrderedDict(
                 zip([i[0] for i in self.weights], [int(v) for v in vals])
-- 
2.43.0


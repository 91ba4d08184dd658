From 4a1fef540cc4a50f5d8c0fcc80f67f87bd47e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 01/48] fix: offset of OffsetConverter helpers for max_load
 other than 1

The returned offset is normed to the nominal capacity, so the efficiency
at max_load is only met if the offset is scaled with max_load.
---
 src/oemof/solph/components/_offset_converter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index 4c161b6..e72f8d9 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -527,7 +527,8 @@ def slope_offset_from_nonconvex_input(
             - \text{min} \cdot \eta_\text{at min}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \eta_\text{at,max} - \text{slope}
+        \text{offset} = \text{max} \cdot
+        \left(\eta_\text{at,max} - \text{slope}\right)
 
     Parameters
     ----------
@@ -580,7 +581,7 @@ def slope_offset_from_nonconvex_input(
     slope = (max_load * eta_at_max - min_load * eta_at_min) / (
         max_load - min_load
     )
-    offset = eta_at_max - slope
+    offset = max_load * (eta_at_max - slope)
     return slope, offset
 
 
@@ -604,7 +605,8 @@ def slope_offset_from_nonconvex_output(
             - \frac{\text{min}}{\eta_\text{at min}}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \frac{1}{\eta_\text{at,max}} - \text{slope}
+        \text{offset} = \text{max} \cdot
+        \left(\frac{1}{\eta_\text{at,max}} - \text{slope}\right)
 
     Parameters
     ----------
@@ -657,5 +659,5 @@ def slope_offset_from_nonconvex_output(
     slope = (max_load / eta_at_max - min_load / eta_at_min) / (
         max_load - min_load
     )
-    offset = 1 / eta_at_max - slope
+    offset = max_load * (1 / eta_at_max - slope)
     return slope, offset
-- 
2.43.0


From 04380516a502e57e74dc3e7f1e9a45947a6030eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 02/48] fix: compare sequence length by value

Comparing by identity rejects correct lengths above 256.
---
 src/oemof/solph/_plumbing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_plumbing.py b/src/oemof/solph/_plumbing.py
index 4459b31..908639a 100644
--- a/src/oemof/solph/_plumbing.py
+++ b/src/oemof/solph/_plumbing.py
@@ -60,10 +60,10 @@ def sequence(iterable_or_scalar, length=None):
     if iterable_or_scalar is None:
         return None
     if isinstance(iterable_or_scalar, abc.Iterable):
-        if length and length is not len(iterable_or_scalar):
+        if length and length != len(iterable_or_scalar):
             raise ValueError(
                 f"Length mismatch: Cannot create sequence of length {length}"
-                + " from input {iterable_or_scalar}."
+                + f" from input {iterable_or_scalar}."
             )
         else:
             if isinstance(iterable_or_scalar, str):
-- 
2.43.0


From 2c95a8a66d2f35b75149d5915fb7fcf3fccfc386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 03/48] fix: minimum up- and downtime for switching at the
 first flexible timestep

The constraints skipped the first timestep in which the status is free,
so a unit starting (stopping) there could be stopped (started) again
before the minimum uptime (downtime) was over.
---
 src/oemof/solph/flows/_shared.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 6713750..1b1edac 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -189,6 +189,16 @@ def variables_for_non_convex_flows(block):
         )
 
 
+def _previous_status(block, i, o, t):
+    """Status before timestep `t`, the initial one for the first timestep."""
+    m = block.parent_block()
+
+    if t > m.TIMESTEPS.at(1):
+        return block.status[i, o, t - 1]
+    else:
+        return m.flows[i, o].nonconvex.initial_status
+
+
 def _min_downtime_constraint(block):
     r"""
     .. math::
@@ -215,7 +225,7 @@ def _min_downtime_constraint(block):
         """
         if (
             m.flows[i, o].nonconvex.first_flexible_timestep
-            < t
+            <= t
             < m.TIMESTEPS.at(-1)
         ):
             # We have a 2D matrix of constraints,
@@ -223,7 +233,7 @@ def _min_downtime_constraint(block):
 
             expr = 0
             expr += (
-                block.status[i, o, t - 1] - block.status[i, o, t]
+                _previous_status(block, i, o, t) - block.status[i, o, t]
             ) * m.flows[i, o].nonconvex.minimum_downtime[t]
             expr += -m.flows[i, o].nonconvex.minimum_downtime[t]
             expr += sum(
@@ -269,14 +279,14 @@ def _min_uptime_constraint(block):
         """
         if (
             m.flows[i, o].nonconvex.first_flexible_timestep
-            < t
+            <= t
             < m.TIMESTEPS.at(-1)
         ):
             # We have a 2D matrix of constraints,
             # so testing is easier then just calling the rule for valid t.
             expr = 0
             expr += (
-                block.status[i, o, t] - block.status[i, o, t - 1]
+                block.status[i, o, t] - _previous_status(block, i, o, t)
             ) * m.flows[i, o].nonconvex.minimum_uptime[t]
             expr += -sum(
                 block.status[i, o, u]
-- 
2.43.0


From 3023d5d59d19b866b439b52485f7358ee17bb30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 04/48] fix: initial status of investment flows and of short
 horizons

The status before the first flexible timestep was not fixed for flows
with Investment and NonConvex, and building a model with fewer timesteps
than the minimum uptime failed with a KeyError.
---
 .../flows/_invest_non_convex_flow_block.py      |  1 +
 src/oemof/solph/flows/_non_convex_flow_block.py | 10 +---------
 src/oemof/solph/flows/_shared.py                | 17 +++++++++++++++++
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 9d04efb..3673a7f 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -124,6 +124,7 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         self.status = Var(
             self.INVEST_NON_CONVEX_FLOWS, m.TIMESTEPS, within=Binary
         )
+        _shared.fix_initial_status(self, self.INVEST_NON_CONVEX_FLOWS)
 
         _shared.variables_for_non_convex_flows(self)
 
diff --git a/src/oemof/solph/flows/_non_convex_flow_block.py b/src/oemof/solph/flows/_non_convex_flow_block.py
index ca63b5b..66f0424 100644
--- a/src/oemof/solph/flows/_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_non_convex_flow_block.py
@@ -89,15 +89,7 @@ class NonConvexFlowBlock(ScalarBlock):
         self.status = Var(
             self.FIXED_CAPACITY_NONCONVEX_FLOWS, m.TIMESTEPS, within=Binary
         )
-        for o, i in self.FIXED_CAPACITY_NONCONVEX_FLOWS:
-            if m.flows[o, i].nonconvex.initial_status is not None:
-                for t in range(
-                    0, m.flows[o, i].nonconvex.first_flexible_timestep
-                ):
-                    self.status[o, i, t] = m.flows[
-                        o, i
-                    ].nonconvex.initial_status
-                    self.status[o, i, t].fix()
+        _shared.fix_initial_status(self, self.FIXED_CAPACITY_NONCONVEX_FLOWS)
 
         # `status_nominal` is a parameter which represents the
         # multiplication of a binary variable (`status`)
diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 1b1edac..5a1b521 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -144,6 +144,23 @@ def sets_for_non_convex_flows(block, group):
     )
 
 
+def fix_initial_status(block, flows):
+    r"""
+    Fixes the status of the given flows to the initial status for all
+    timesteps before the first flexible one.
+    """
+    m = block.parent_block()
+
+    for i, o in flows:
+        nonconvex = m.flows[i, o].nonconvex
+        if nonconvex.initial_status is not None:
+            for t in range(
+                0, min(nonconvex.first_flexible_timestep, len(m.TIMESTEPS))
+            ):
+                block.status[i, o, t] = nonconvex.initial_status
+                block.status[i, o, t].fix()
+
+
 def variables_for_non_convex_flows(block):
     r"""
     :math:`Y_{startup}` (binary) `NonConvexFlowBlock.startup`:
-- 
2.43.0


From 87335237a4d6ff50b380ea8f831627c2be22958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 05/48] fix: gradient limits of nonconvex flows

The limits were never applied to the gradient variables and the product
of flow and status could not be passed to a linear solver. As an
inactive flow is zero, the status is not needed in the constraint.
---
 src/oemof/solph/flows/_shared.py | 43 ++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 5a1b521..d2c1e9c 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -415,16 +415,14 @@ def shared_constraints_for_non_convex_flows(block):
     positive_gradient_constraint
         .. math::
 
-            P(t) \cdot Y_{status}(t)
-            - P(t-1) \cdot Y_{status}(t-1)  \leq \
-            \dot{P}_{up}(t), \\
+            P(t) - P(t-1) \leq \dot{P}_{up}(t), \\
+            \dot{P}_{up}(t) \leq \dot{P}_{up, max}(t) \cdot P_{nom}, \\
             \forall t \in \textrm{TIMESTEPS}.
 
     negative_gradient_constraint
         .. math::
-            P(t-1) \cdot Y_{status}(t-1)
-            - P(t) \cdot Y_{status}(t) \leq \
-            \dot{P}_{down}(t), \\
+            P(t-1) - P(t) \leq \dot{P}_{down}(t), \\
+            \dot{P}_{down}(t) \leq \dot{P}_{down, max}(t) \cdot P_{nom}, \\
             \forall t \in \textrm{TIMESTEPS}.
 
     Also creates:
@@ -456,9 +454,7 @@ def shared_constraints_for_non_convex_flows(block):
                             o,
                             m.TIMESTEPS[index],
                         ]
-                        * block.status[i, o, m.TIMESTEPS[index]]
                         - m.flow[i, o, m.TIMESTEPS[index - 1]]
-                        * block.status[i, o, m.TIMESTEPS[index - 1]]
                     )
                     rhs = block.positive_gradient[i, o, m.TIMEINDEX[index][1]]
                     block.positive_gradient_constr.add(
@@ -499,13 +495,11 @@ def shared_constraints_for_non_convex_flows(block):
                             o,
                             m.TIMESTEPS[index - 1],
                         ]
-                        * block.status[i, o, m.TIMESTEPS[index - 1]]
                         - m.flow[
                             i,
                             o,
                             m.TIMESTEPS[index],
                         ]
-                        * block.status[i, o, m.TIMESTEPS[index]]
                     )
                     rhs = block.negative_gradient[i, o, m.TIMESTEPS[index]]
                     block.negative_gradient_constr.add(
@@ -535,6 +529,35 @@ def shared_constraints_for_non_convex_flows(block):
         rule=_negative_gradient_flow_constraint
     )
 
+    # The status does not need to be considered: A flow is zero if inactive.
+    def _capacity(i, o, p):
+        if m.flows[i, o].nominal_capacity is not None:
+            return m.flows[i, o].nominal_capacity
+        else:
+            return block.invest[i, o, p]
+
+    def _positive_gradient_limit_rule(_, i, o, p, t):
+        return block.positive_gradient[i, o, t] <= m.flows[
+            i, o
+        ].nonconvex.positive_gradient_limit[t] * _capacity(i, o, p)
+
+    block.positive_gradient_limit_constr = Constraint(
+        block.POSITIVE_GRADIENT_FLOWS,
+        m.TIMEINDEX,
+        rule=_positive_gradient_limit_rule,
+    )
+
+    def _negative_gradient_limit_rule(_, i, o, p, t):
+        return block.negative_gradient[i, o, t] <= m.flows[
+            i, o
+        ].nonconvex.negative_gradient_limit[t] * _capacity(i, o, p)
+
+    block.negative_gradient_limit_constr = Constraint(
+        block.NEGATIVE_GRADIENT_FLOWS,
+        m.TIMEINDEX,
+        rule=_negative_gradient_limit_rule,
+    )
+
 
 def maximum_flow_constraint(block):
     r"""
-- 
2.43.0


From 75a7243f63cf71527d878f60108cfee41746036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 06/48] fix: minimum flue gas losses of the GenericCHP

H_L_FG_share_min was looked up as attribute of the flow but is given as
custom property, so the limit was silently ignored.
---
 src/oemof/solph/components/_generic_chp.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/components/_generic_chp.py b/src/oemof/solph/components/_generic_chp.py
index 572b200..7bc9bca 100644
--- a/src/oemof/solph/components/_generic_chp.py
+++ b/src/oemof/solph/components/_generic_chp.py
@@ -492,8 +492,11 @@ class GenericCHPBlock(ScalarBlock):
         def _H_L_FG_min_rule(block, n, t):
             """Set min. flue gas loss as fuel flow share."""
             # minimum flue gas losses e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if (
+                list(n.fuel_input.values())[0].custom_properties.get(
+                    "H_L_FG_share_min"
+                )
+                is not None
             ):
                 expr = 0
                 expr += -self.H_L_FG_min[n, t]
@@ -514,13 +517,19 @@ class GenericCHPBlock(ScalarBlock):
         def _Q_min_res_rule(block, n, t):
             """Set minimum Q depending on fuel and eletrical flow."""
             # minimum restriction for heat flows e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if (
+                list(n.fuel_input.values())[0].custom_properties.get(
+                    "H_L_FG_share_min"
+                )
+                is not None
             ):
                 expr = 0
                 expr += self.P[n, t] + self.Q[n, t] + self.H_L_FG_min[n, t]
                 expr += (
-                    list(n.heat_output.values())[0].Q_CW_min[t] * self.Y[n, t]
+                    list(n.heat_output.values())[0].custom_properties[
+                        "Q_CW_min"
+                    ][t]
+                    * self.Y[n, t]
                 )
                 expr += -self.H_F[n, t]
                 return expr >= 0
-- 
2.43.0


From 004df757e733528d6e7cacdfada17bc1edb31372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 07/48] fix: existing capacity of nonconvex flows with
 investment

The existing capacity was ignored if a flow has both, an Investment and
a NonConvex object, although it is documented to be added on top.
---
 .../flows/_invest_non_convex_flow_block.py    | 19 ++++++++++++++++---
 src/oemof/solph/flows/_shared.py              |  2 +-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 3673a7f..cb086b2 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -196,6 +196,8 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         However, :math:`status` and :math:`invest` are variables
         (binary and continuous, respectively).
         Thus, three constraints are created which combination is equivalent.
+        Existing capacity is added to :math:`P_{invest}` and
+        :math:`P_{invest, max}`.
 
 
         .. automethod:: _linearised_investment_constraint_1
@@ -233,7 +235,11 @@ class InvestNonConvexFlowBlock(ScalarBlock):
 
         def _linearization_rule_invest_non_convex_one(_, i, o, p, t):
             expr = (
-                self.status[i, o, t] * m.flows[i, o].investment.maximum[p]
+                self.status[i, o, t]
+                * (
+                    m.flows[i, o].investment.maximum[p]
+                    + m.flows[i, o].investment.existing
+                )
                 >= self.status_nominal[i, o, t]
             )
             return expr
@@ -253,7 +259,10 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         m = self.parent_block()
 
         def _linearization_rule_invest_non_convex_two(_, i, o, p, t):
-            expr = self.invest[i, o, p] >= self.status_nominal[i, o, t]
+            expr = (
+                self.invest[i, o, p] + m.flows[i, o].investment.existing
+                >= self.status_nominal[i, o, t]
+            )
             return expr
 
         return Constraint(
@@ -274,8 +283,12 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         def _linearization_rule_invest_non_convex_three(_, i, o, p, t):
             expr = (
                 self.invest[i, o, p]
+                + m.flows[i, o].investment.existing
                 - (1 - self.status[i, o, t])
-                * m.flows[i, o].investment.maximum[p]
+                * (
+                    m.flows[i, o].investment.maximum[p]
+                    + m.flows[i, o].investment.existing
+                )
                 <= self.status_nominal[i, o, t]
             )
             return expr
diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index d2c1e9c..168cc3a 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -534,7 +534,7 @@ def shared_constraints_for_non_convex_flows(block):
         if m.flows[i, o].nominal_capacity is not None:
             return m.flows[i, o].nominal_capacity
         else:
-            return block.invest[i, o, p]
+            return block.invest[i, o, p] + m.flows[i, o].investment.existing
 
     def _positive_gradient_limit_rule(_, i, o, p, t):
         return block.positive_gradient[i, o, t] <= m.flows[
-- 
2.43.0


From 1a7221658b57fbaa6ceb2ecc77a629482eed1ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 08/48] fix: minimum profiles of investment flows that contain
 a zero

The lower bound was dropped for all timesteps if the minimum was zero in
one of them.
---
 src/oemof/solph/flows/_investment_flow_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 51f5ef9..9f1cd41 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -144,7 +144,11 @@ class InvestmentFlowBlock(ScalarBlock):
         )
 
         self.MIN_INVESTFLOWS = Set(
-            initialize=[(g[0], g[1]) for g in group if g[2].minimum.min() != 0]
+            initialize=[
+                (g[0], g[1])
+                for g in group
+                if g[2].minimum.min() != 0 or g[2].minimum.max() != 0
+            ]
         )
 
         self.EXISTING_INVESTFLOWS = Set(
-- 
2.43.0


From c6b47261026aba4b5e2e007c80908d2d1c371099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 09/48] fix: minimum storage level only given for the last
 point in time

The constraint for investment storages was skipped if the minimum level
was zero at the beginning of all timesteps.
---
 src/oemof/solph/components/_generic_storage.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index fa9b6f1..a63bf1c 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1513,11 +1513,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
         # sense to create an additional constraint if the lower bound is zero
         # for all time steps.
         self.MIN_INVESTSTORAGES = Set(
-            initialize=[
-                n
-                for n in group
-                if sum([n.min_storage_level[t] for t in m.TIMESTEPS]) > 0
-            ]
+            initialize=[n for n in group if n.min_storage_level.max() > 0]
         )
 
         self.OVERALL_MAXIMUM_INVESTSTORAGES = Set(
-- 
2.43.0


From 8440636248f0c09f38b79afa521cadf7d18c1a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 10/48] fix: investment limits on models without or with
 nonconvex investment flows

---
 src/oemof/solph/constraints/investment_limit.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index bbf5e83..1530a29 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -35,9 +35,13 @@ def investment_limit(model, limit=None):
     def investment_rule(m):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
+        # these blocks always exist but are empty without matching flows
+        if hasattr(m.InvestmentFlowBlock, "investment_costs"):
             expr += m.InvestmentFlowBlock.investment_costs
 
+        if hasattr(m.InvestNonConvexFlowBlock, "investment_costs"):
+            expr += m.InvestNonConvexFlowBlock.investment_costs
+
         if hasattr(m, "GenericInvestmentStorageBlock"):
             expr += m.GenericInvestmentStorageBlock.investment_costs
 
@@ -96,7 +100,7 @@ def investment_limit_per_period(model, limit=None):
     def investment_period_rule(m, p):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
+        if hasattr(m.InvestmentFlowBlock, "period_investment_costs"):
             expr += m.InvestmentFlowBlock.period_investment_costs[p]
 
         if hasattr(m, "GenericInvestmentStorageBlock"):
@@ -208,6 +212,11 @@ def additional_investment_flow_limit(model, keyword, limit=None):
         ):
             investments[(i, o)] = model.flows[i, o].investment
 
+    def _invest_variable(i, o):
+        if model.flows[i, o].nonconvex is not None:
+            return model.InvestNonConvexFlowBlock.invest
+        return model.InvestmentFlowBlock.invest
+
     limit_name = "invest_limit_" + keyword
 
     setattr(
@@ -215,7 +224,7 @@ def additional_investment_flow_limit(model, keyword, limit=None):
         limit_name,
         po.Expression(
             expr=sum(
-                model.InvestmentFlowBlock.invest[i, o, p]
+                _invest_variable(i, o)[i, o, p]
                 * investments[i, o].custom_properties[keyword]
                 for (i, o) in investments
                 for p in model.PERIODS
-- 
2.43.0


From dd1379f3d54e38d9eb2b94828220b0c05d635ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 11/48] fix: count of active flows also for nonconvex flows
 with investment

---
 src/oemof/solph/constraints/flow_count_limit.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/constraints/flow_count_limit.py b/src/oemof/solph/constraints/flow_count_limit.py
index a57e9eb..d230fd4 100644
--- a/src/oemof/solph/constraints/flow_count_limit.py
+++ b/src/oemof/solph/constraints/flow_count_limit.py
@@ -78,11 +78,14 @@ def limit_active_flow_count(
 
     attrname_constraint = constraint_name + "_constraint"
 
+    def _status(i, o):
+        if model.flows[i, o].investment is not None:
+            return model.InvestNonConvexFlowBlock.status
+        return model.NonConvexFlowBlock.status
+
     def _flow_count_rule(m):
         for ts in m.TIMESTEPS:
-            lhs = sum(
-                m.NonConvexFlowBlock.status[fi, fo, ts] for fi, fo in flows
-            )
+            lhs = sum(_status(fi, fo)[fi, fo, ts] for fi, fo in flows)
             rhs = getattr(model, constraint_name)[ts]
             expr = lhs == rhs
             if expr is not True:
@@ -130,8 +133,11 @@ def limit_active_flow_count_by_keyword(
     limit_active_flow_count
     """
     flows = []
-    for i, o in model.NonConvexFlowBlock.FIXED_CAPACITY_NONCONVEX_FLOWS:
-        if keyword in model.flows[i, o].custom_properties:
+    for i, o in model.flows:
+        if (
+            model.flows[i, o].nonconvex is not None
+            and keyword in model.flows[i, o].custom_properties
+        ):
             flows.append((i, o))
 
     return limit_active_flow_count(
-- 
2.43.0


From 3556cd19d9d30dbcb6291985180916b2025f80da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 12/48] fix: additional investment limit with investments
 lacking properties

---
 src/oemof/solph/constraints/investment_limit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index 1530a29..211a2d6 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -208,7 +208,8 @@ def additional_investment_flow_limit(model, keyword, limit=None):
     for i, o in model.flows:
         if (
             model.flows[i, o].investment is not None
-            and keyword in model.flows[i, o].investment.custom_properties
+            and keyword
+            in (model.flows[i, o].investment.custom_properties or {})
         ):
             investments[(i, o)] = model.flows[i, o].investment
 
-- 
2.43.0


From 246a54b1a7ac13ad6eaa609c6f91e08e15d4445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 13/48] fix: bound the storage content at the end of a
 multi-period horizon

---
 src/oemof/solph/components/_generic_storage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index a63bf1c..e721e9c 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -2125,6 +2125,10 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     rule=_min_storage_content_invest_rule,
                 )
             else:
+                # content at the end of the horizon belongs to last period
+                storage_timeindex = list(m.TIMEINDEX) + [
+                    (m.PERIODS.at(-1), m.TIMEPOINTS.at(-1))
+                ]
 
                 def _max_storage_content_invest_rule(_, n, p, t):
                     """
@@ -2139,7 +2143,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
 
                 self.max_storage_content = Constraint(
                     self.INVESTSTORAGES,
-                    m.TIMEINDEX,
+                    storage_timeindex,
                     rule=_max_storage_content_invest_rule,
                 )
 
@@ -2156,7 +2160,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
 
                 self.min_storage_content = Constraint(
                     self.MIN_INVESTSTORAGES,
-                    m.TIMEINDEX,
+                    storage_timeindex,
                     rule=_min_storage_content_invest_rule,
                 )
         else:
-- 
2.43.0


From 09f39769eb7ba87f01d6378fdc4db6a36116ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 14/48] fix: yearly fixed costs of flows with a lifetime

---
 src/oemof/solph/flows/_simple_flow_block.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/flows/_simple_flow_block.py b/src/oemof/solph/flows/_simple_flow_block.py
index 696b870..4ba2417 100644
--- a/src/oemof/solph/flows/_simple_flow_block.py
+++ b/src/oemof/solph/flows/_simple_flow_block.py
@@ -480,7 +480,10 @@ class SimpleFlowBlock(ScalarBlock):
 
             # Fixed costs for units with limited lifetime
             for i, o in self.LIFETIME_FLOWS:
-                if valid_sequence(m.flows[i, o].fixed_costs, len(m.TIMESTEPS)):
+                if (
+                    m.flows[i, o].fixed_costs is not None
+                    and m.flows[i, o].nominal_capacity is not None
+                ):
                     range_limit = min(
                         m.es.end_year_of_optimization,
                         m.flows[i, o].lifetime,
@@ -492,7 +495,10 @@ class SimpleFlowBlock(ScalarBlock):
                     )
 
             for i, o in self.LIFETIME_AGE_FLOWS:
-                if valid_sequence(m.flows[i, o].fixed_costs, len(m.TIMESTEPS)):
+                if (
+                    m.flows[i, o].fixed_costs is not None
+                    and m.flows[i, o].nominal_capacity is not None
+                ):
                     range_limit = min(
                         m.es.end_year_of_optimization,
                         m.flows[i, o].lifetime - m.flows[i, o].age,
-- 
2.43.0


From 793473256595a0a954bffca6913163be5db21d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 15/48] fix: meta results of a model with objective zero

---
 src/oemof/solph/processing.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index db1439c..e549e22 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -801,15 +801,23 @@ def meta_results(om, undefined=False):
                     meta_res[k1][k2] = msg.format(
                         type(om.es.results[k1][0][k2])
                     )
-    meta_res["problem"]["MIPGap"] = abs(
+    gap = abs(
         meta_res["problem"]["Upper bound"] - meta_res["problem"]["Lower bound"]
-    ) / (
+    )
+    mean = (
         abs(
             meta_res["problem"]["Upper bound"]
             + meta_res["problem"]["Lower bound"]
         )
         / 2
     )
+    # both bounds can be zero, e.g. if the objective is zero
+    if gap == 0:
+        meta_res["problem"]["MIPGap"] = 0.0
+    elif mean == 0:
+        meta_res["problem"]["MIPGap"] = float("inf")
+    else:
+        meta_res["problem"]["MIPGap"] = gap / mean
     return meta_res
 
 
-- 
2.43.0


From 4c2e90dc6601f975512f1dcba1b9b73d912a003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 16/48] fix: one-year time index for a given start

---
 src/oemof/solph/_helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/_helpers.py b/src/oemof/solph/_helpers.py
index b3d0f0e..e2afcd3 100644
--- a/src/oemof/solph/_helpers.py
+++ b/src/oemof/solph/_helpers.py
@@ -99,7 +99,11 @@ def create_time_index(
     '2014-01-01 20:00:00'
     """
     if number is None:
-        if calendar.isleap(year):
+        if year is None and start is not None:
+            first = pd.Timestamp(start)
+            one_year = first + pd.DateOffset(years=1) - first
+            hours_in_year = one_year / pd.Timedelta(hours=1)
+        elif calendar.isleap(year):
             hours_in_year = 8784
         else:
             hours_in_year = 8760
-- 
2.43.0


From 901c85979a0465dfc8cd81c050d75d7a91b77d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 17/48] fix: 'in' for results that can be accessed

---
 src/oemof/solph/_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index efb7309..0b8ebfa 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -324,4 +324,4 @@ class Results:
             return rv
 
     def __contains__(self, key: Hashable) -> bool:
-        return key in self._solver_results or key in self._variables
+        return key in self.keys()
-- 
2.43.0


From 6d8b789354db15df87156f75523679168a03b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 18/48] fix: results of multi-period models

---
 src/oemof/solph/_results.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 0b8ebfa..9dca188 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -150,11 +150,13 @@ class Results:
 
             # overwrite known indexes
             index_type = tuple(dataset.index_set().subsets())[-1].name
+            timeindex = self._model.es.timeindex
             match index_type:
-                case "TIMEPOINTS":
-                    rv.index = self._model.es.timeindex
-                case "TIMESTEPS":
-                    rv.index = self._model.es.timeindex[:-1]
+                # A multi-period timeindex has no label for the last point
+                case "TIMEPOINTS" if len(timeindex) == len(rv):
+                    rv.index = timeindex
+                case "TIMESTEPS" if len(timeindex) >= len(rv):
+                    rv.index = timeindex[: len(rv)]
                 case _:
                     rv.index = rv.index.get_level_values(-1)
         else:
-- 
2.43.0


From dae2dd96c401aa8ebbe488490d9cf814e2b75bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 19/48] fix: offset of investments that are not made in
 investment costs

---
 src/oemof/solph/_results.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 9dca188..13be21d 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -227,7 +227,9 @@ class Results:
                             investment_costs = (
                                 self._model.flows[i, o].investment.ep_costs[0]
                                 * invest_size
-                                + self._model.flows[i, o].investment.offset[0]
+                                + self._calc_offset(
+                                    col, self._model.flows[i, o].investment
+                                )
                             )
 
                             # Save values to dictionary
@@ -252,7 +254,7 @@ class Results:
 
                             investment_costs = (
                                 node.investment.ep_costs[0] * invest_size
-                                + node.investment.offset[0]
+                                + self._calc_offset(col, node.investment)
                             )
 
                             # Save values to dictionary
@@ -264,6 +266,13 @@ class Results:
 
         return df_capex
 
+    def _calc_offset(self, col, investment):
+        # the offset is only paid if the investment is made
+        if investment.nonconvex:
+            return investment.offset[0] * self["invest_status"][col][0]
+        else:
+            return investment.offset[0]
+
     def _calc_variable_costs(self):
         self._economy_calculation_waring()
         df_opex = pd.DataFrame()
-- 
2.43.0


From ecabb5e6c0145ec816e5ed900799abbffd214c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 20/48] fix: variable costs in results for intervals other than
 one hour

---
 src/oemof/solph/_results.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 13be21d..7a431cf 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -287,7 +287,10 @@ class Results:
             # map flows and variable costs and mulitply
             for col in flow_values.columns:
                 if col[0] == i and col[1] == o:
-                    opex = flow_values[col] * variable_costs
+                    opex = flow_values[col] * [
+                        variable_costs[t] * self._model.objective_weighting[t]
+                        for t in self._model.TIMESTEPS
+                    ]
                     df_opex[col] = opex
 
         return df_opex
-- 
2.43.0


From b1b9ad8454e6b1507603b17dcc82c733f61eb629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 21/48] fix: time labels in results of multi-period models

---
 src/oemof/solph/processing.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index e549e22..79066fb 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -193,14 +193,16 @@ def set_result_index(df_dict, k, result_index):
 
 
 def set_sequences_index(df, result_index):
-    try:
-        df.index = result_index
-    except ValueError:
-        try:
-            df = df[:-1]
-            df.index = result_index
-        except ValueError:
-            raise ValueError("Results extraction failed!")
+    """Return `df` with the labels given by `result_index`
+
+    Contents at the last point in time are dropped if there is no label left
+    for them, intervals have no value at an additional last point in time.
+    """
+    if abs(len(df) - len(result_index)) > 1:
+        raise ValueError("Results extraction failed!")
+    df = df.reindex(range(len(result_index)))
+    df.index = result_index
+    return df
 
 
 def results(model, remove_last_time_point=False):
@@ -435,9 +437,17 @@ def _extract_multi_period_model_result(
             :, [col for col in df_dict[k].columns if col not in period_cols]
         ]
         if remove_last_time_point:
-            set_sequences_index(sequences, result_index[:-1])
+            if (
+                model.es.tsa_parameters is None
+                and len(result_index) > len(model.TIMESTEPS)
+            ):
+                labels = result_index[:-1]
+            else:
+                # By convention, there is only one label per interval.
+                labels = result_index
+            sequences = set_sequences_index(sequences, labels)
         else:
-            set_sequences_index(sequences, result_index)
+            sequences = set_sequences_index(sequences, result_index)
         if period_scalars.empty:
             period_scalars = pd.DataFrame(index=d.values())
         try:
-- 
2.43.0


From 2fbc3cc0677395e470dc07ca00d68f019d4106f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 22/48] fix: status of optional investments in results of
 multi-period models

---
 src/oemof/solph/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 79066fb..0b5dea3 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -298,7 +298,7 @@ def results(model, remove_last_time_point=False):
 
     # Results extraction for a multi-period model
     else:
-        period_indexed = ["invest", "total", "old", "old_end", "old_exo"]
+        period_indexed = list(PERIOD_INDEXES)
 
         result = _extract_multi_period_model_result(
             model,
-- 
2.43.0


From 136c8b67a617b9babbf3222579afbbb302c72c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 23/48] fix: scalar results of models with one timestep

---
 src/oemof/solph/processing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 0b5dea3..419b37a 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -151,7 +151,10 @@ def divide_scalars_sequences(df_dict, k):
         oemof tuple for results processing
     """
     try:
-        condition = df_dict[k][:-1].isnull().any()
+        # The names are needed if there is just one row (and no missing values)
+        condition = df_dict[k][:-1].isnull().any() | df_dict[
+            k
+        ].columns.isin((*PERIOD_INDEXES, "init_content"))
         scalars = df_dict[k].loc[:, condition].dropna().iloc[0]
         sequences = df_dict[k].loc[:, ~condition]
         return {"scalars": scalars, "sequences": sequences}
-- 
2.43.0


From 21c182a291476d1a2fb36e809fd5bbed7d867d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 24/48] fix: parameter dict for sequences of different length

---
 src/oemof/solph/processing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 419b37a..9dbc54c 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -930,9 +930,13 @@ def __separate_attrs(
         if exclude_none:
             remove_nones(com_data)
 
+        seqs = com_data["sequences"]
         com_data = {
             "scalars": pd.Series(com_data["scalars"]),
-            "sequences": pd.DataFrame(com_data["sequences"]),
+            # Sequences for points in time and for intervals differ in length.
+            "sequences": pd.DataFrame(
+                {k: pd.Series(list(v)) for k, v in seqs.items()}
+            ),
         }
         return com_data
 
-- 
2.43.0


From 0d0ecfed12f8db7e53aa057fcde201ce9f4bab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 25/48] fix: parameter dict for components with flows in
 attributes

---
 src/oemof/solph/processing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 9dbc54c..5ca55a6 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -948,6 +948,10 @@ def __separate_attrs(
             elif isinstance(value, _FakeSequence):
                 com["scalars"][ckey] = value.value
                 del com["sequences"][ckey]
+            elif not isinstance(value, abc.Sized):
+                # e.g. a flow in a dict that is an attribute of a component
+                com["scalars"][ckey] = value
+                del com["sequences"][ckey]
             elif len(value) == 0:
                 del com["sequences"][ckey]
 
-- 
2.43.0


From 031b4ac6b420fa08cad55d5d43c21a1b70083988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 26/48] fix: keep all periodical integral limits when several
 are added

---
 src/oemof/solph/constraints/integral_limit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 679e17a..62e86d4 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -258,10 +258,10 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
 
         return expr <= limit[p]
 
-    om.periodical_integral_limit = po.Constraint(
-        om.PERIODS,
-        rule=_periodical_integral_limit_rule,
-        name=limit_name + "_constraint",
+    setattr(
+        om,
+        limit_name + "_constraint",
+        po.Constraint(om.PERIODS, rule=_periodical_integral_limit_rule),
     )
 
     return om
-- 
2.43.0


From 5ea49b4264f754ab1b5438c5311ba180757771ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 27/48] fix: check all entries of series that need a (finite)
 nominal capacity

---
 src/oemof/solph/flows/_flow.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/flows/_flow.py b/src/oemof/solph/flows/_flow.py
index a293666..fcf657c 100644
--- a/src/oemof/solph/flows/_flow.py
+++ b/src/oemof/solph/flows/_flow.py
@@ -326,18 +326,22 @@ class Flow(Edge):
         }
         if self.investment is None and self.nominal_capacity is None:
             for attr in need_nominal_capacity:
-                if isinstance(getattr(self, attr), Iterable):
-                    the_attr = getattr(self, attr)[0]
+                the_attr = getattr(self, attr)
+                default = need_nominal_capacity_defaults[attr]
+                if isinstance(the_attr, Iterable):
+                    is_set = (
+                        the_attr.min() != default or the_attr.max() != default
+                    )
                 else:
-                    the_attr = getattr(self, attr)
-                if the_attr != need_nominal_capacity_defaults[attr]:
+                    is_set = the_attr != default
+                if is_set:
                     raise AttributeError(
                         f"If {attr} is set in a flow, "
                         "nominal_capacity must be set as well."
                     )
 
         if self.nominal_capacity is not None and not math.isfinite(
-            self.maximum[0]
+            self.maximum.max()
         ):
             raise ValueError(infinite_error_msg.format("maximum"))
 
-- 
2.43.0


From 02a5d1b6ed551ac452548e60f866629cc77cfc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 28/48] fix: check offset and maximum of an investment in every
 period

---
 src/oemof/solph/_options.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_options.py b/src/oemof/solph/_options.py
index aebd550..c7c198c 100644
--- a/src/oemof/solph/_options.py
+++ b/src/oemof/solph/_options.py
@@ -151,7 +151,7 @@ class Investment:
 
     def _check_invest_attributes_maximum(self):
         """Throw an error if maximum is infinite and nonconvex is True"""
-        if (self.maximum[0] == float("+inf")) and (self.nonconvex is True):
+        if (self.maximum.max() == float("+inf")) and (self.nonconvex is True):
             e2 = (
                 "Please provide a maximum investment value in case of"
                 " nonconvex investment (nonconvex=True), which is in the"
@@ -164,7 +164,8 @@ class Investment:
 
     def _check_invest_attributes_offset(self):
         """Throw an error if offset is given without nonconvex=True"""
-        if (self.offset[0] != 0) and (self.nonconvex is False):
+        offset_given = self.offset.min() != 0 or self.offset.max() != 0
+        if offset_given and (self.nonconvex is False):
             e3 = (
                 "If `nonconvex` is `False`, the `offset` parameter will be"
                 " ignored."
-- 
2.43.0


From 163893bd6660deb82bf8e8aba2afb625153281b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 29/48] fix: refuse half of the parameters of soc-dependent
 charging

---
 src/oemof/solph/components/_generic_storage.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index e721e9c..f25ff3f 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -398,6 +398,15 @@ class GenericStorage(Node):
             self.constant_soc_until is not None
             or self.fraction_saturation_charging is not None
         )
+        if (self.constant_soc_until is None) != (
+            self.fraction_saturation_charging is None
+        ):
+            msg = (
+                f"GenericStorage: {self.label}. The parameters "
+                f"'constant_soc_until' and 'fraction_saturation_charging' "
+                f"have to be set together."
+            )
+            raise AttributeError(msg)
         investment_active = self.investment is not None
         input_flows = [
             v for k, v in self.inputs.items() if isinstance(v, Flow)
-- 
2.43.0


From 016d2e9ee5e2747e356b2bc7ee5bb6ca52253ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 30/48] fix: label duals of multi-period models with a last
 time point

---
 src/oemof/solph/processing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 5ca55a6..e151d6a 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -326,7 +326,11 @@ def results(model, remove_last_time_point=False):
                 df = pd.DataFrame({"duals": duals}, index=result_index[:-1])
             # TODO: Align with standard model
             else:
-                df = pd.DataFrame({"duals": duals}, index=result_index)
+                labels = result_index
+                if model.es.tsa_parameters is None:
+                    # there might be an additional last time point
+                    labels = result_index[: len(model.TIMESTEPS)]
+                df = pd.DataFrame({"duals": duals}, index=labels)
             if (bus, None) not in result.keys():
                 result[(bus, None)] = {
                     "sequences": df,
-- 
2.43.0


From 964c71873d8a10c65d2d9f8515dca0335c0dac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 31/48] fix: allow piecewise linear functions that decrease

---
 .../experimental/_piecewise_linear_converter.py     | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
index fad3b91..c8d5fa1 100644
--- a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
+++ b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
@@ -167,14 +167,13 @@ class PiecewiseLinearConverterBlock(ScalarBlock):
         # bounds are min/max of breakpoints
         lower_bound_in = {n: min(n.in_breakpoints) for n in group}
         upper_bound_in = {n: max(n.in_breakpoints) for n in group}
-        lower_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in lower_bound_in.items()
-        }
-        upper_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in upper_bound_in.items()
+        # the conversion function might decrease with the incoming flow
+        values = {
+            n: [n.conversion_function(x) for x in n.in_breakpoints]
+            for n in group
         }
+        lower_bound_out = {n: min(values[n]) for n in group}
+        upper_bound_out = {n: max(values[n]) for n in group}
 
         def get_inflow_bounds(model, n, t):
             return lower_bound_in[n], upper_bound_in[n]
-- 
2.43.0


From b6af736061c2f30ecbb122d778159bd682f38348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 32/48] fix: accept piecewise linear converters without a
 capacity

---
 .../components/experimental/_piecewise_linear_converter.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
index c8d5fa1..d6dfb04 100644
--- a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
+++ b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
@@ -99,7 +99,10 @@ PiecewiseLinearConverter'>
         nominal_capacity = [a.nominal_capacity for a in self.inputs.values()][
             0
         ]
-        if max(self.in_breakpoints) < nominal_capacity:
+        if (
+            nominal_capacity is not None
+            and max(self.in_breakpoints) < nominal_capacity
+        ):
             raise ValueError(
                 "Largest in_breakpoint must be larger or equal "
                 + "nominal value"
-- 
2.43.0


From 945cf72cd06d663859a6253bb1cee9ee1409a5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 33/48] fix: draw exergy offsets of compressed air storages
 only if running

---
 src/oemof/solph/components/experimental/_generic_caes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/components/experimental/_generic_caes.py b/src/oemof/solph/components/experimental/_generic_caes.py
index 384ca90..6693b4a 100644
--- a/src/oemof/solph/components/experimental/_generic_caes.py
+++ b/src/oemof/solph/components/experimental/_generic_caes.py
@@ -645,7 +645,7 @@ class GenericCAESBlock(ScalarBlock):
             return (
                 self.cav_e_in[n, t]
                 == n.params["cav_e_in_m"] * self.cmp_p[n, t]
-                + n.params["cav_e_in_b"]
+                + n.params["cav_e_in_b"] * self.cmp_st[n, t]
             )
 
         self.cav_e_in_constr = Constraint(
@@ -657,7 +657,7 @@ class GenericCAESBlock(ScalarBlock):
             return (
                 self.cav_e_out[n, t]
                 == n.params["cav_e_out_m"] * self.exp_p[n, t]
-                + n.params["cav_e_out_b"]
+                + n.params["cav_e_out_b"] * self.exp_st[n, t]
             )
 
         self.cav_e_out_constr = Constraint(
-- 
2.43.0


From 4c42c6cdfd1ae04609425cc83227f16436a76955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 34/48] fix: find typical periods if periods differ in length

---
 src/oemof/solph/_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index 093eaeb..15bf07a 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -516,7 +516,7 @@ class Model(po.ConcreteModel):
     def get_timestep_from_tsam_timestep(self, p, ik, g):
         """Return original timestep from cluster-based timestep"""
         t = (
-            p * len(self.TIMESTEPS_IN_PERIOD[p])
+            self.TIMESTEPS_IN_PERIOD[p][0]
             + ik * self.es.tsa_parameters[p]["timesteps"]
             + g
         )
-- 
2.43.0


From 34ac6255f3bc8869cc9f17318d4b5e70fc31b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 35/48] fix: apply losses of every time step within typical
 periods

---
 .../solph/components/_generic_storage.py      | 55 +++++++++----------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index f25ff3f..3c58e85 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -437,6 +437,17 @@ class GenericStorage(Node):
             return GenericStorageBlock
 
 
+def _share_left(m, n, p, k, steps):
+    """Share of the content at the beginning of a typical period
+    that is left after a number of its time steps"""
+    return math.prod(
+        (1 - n.loss_rate[t]) ** m.timeincrement[t]
+        for t in (
+            m.get_timestep_from_tsam_timestep(p, k, g) for g in range(steps)
+        )
+    )
+
+
 class GenericStorageBlock(ScalarBlock):
     r"""Storage without an :class:`.Investment` object.
 
@@ -661,10 +672,9 @@ class GenericStorageBlock(ScalarBlock):
             # 57ec32561fb95e746c505760bd0d61c97d2fd2fb/FINE/storage.py#L1329
             for n in self.STORAGES:
                 for p, i, g in m.TIMEINDEX_CLUSTER:
-                    t = m.get_timestep_from_tsam_timestep(p, i, g)
-                    lhs = n.nominal_storage_capacity * n.min_storage_level[t]
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
+                    t = m.get_timestep_from_tsam_timestep(p, k, g)
+                    lhs = n.nominal_storage_capacity * n.min_storage_level[t]
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -674,7 +684,7 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     rhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * _share_left(m, n, p, k, g)
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     self.storage_inter_minimum_level.add(
@@ -693,9 +703,8 @@ class GenericStorageBlock(ScalarBlock):
         def _storage_inter_maximum_level_rule(block):
             for n in self.STORAGES:
                 for p, i, g in m.TIMEINDEX_CLUSTER:
-                    t = m.get_timestep_from_tsam_timestep(p, i, g)
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
+                    t = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -705,7 +714,7 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     lhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * _share_left(m, n, p, k, g)
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     rhs = n.nominal_storage_capacity * n.max_storage_level[t]
@@ -808,15 +817,8 @@ class GenericStorageBlock(ScalarBlock):
             k = m.es.tsa_parameters[p]["order"][ii]
 
             # Calculate inter losses over whole typical period
-            t0 = m.get_timestep_from_tsam_timestep(p, k, 0)
-            losses = math.prod(
-                (
-                    (1 - n.loss_rate[t0 + s])
-                    ** m.es.tsa_parameters[p]["segments"][(k, s)]
-                    if "segments" in m.es.tsa_parameters[p]
-                    else 1 - n.loss_rate[t0 + s]
-                )
-                for s in range(m.es.tsa_parameters[p]["timesteps"])
+            losses = _share_left(
+                m, n, p, k, m.es.tsa_parameters[p]["timesteps"]
             )
 
             expr = 0
@@ -1923,14 +1925,11 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     break
 
             k = m.es.tsa_parameters[p]["order"][ii]
-            t = m.get_timestep_from_tsam_timestep(
-                p, k, m.es.tsa_parameters[p]["timesteps"] - 1
-            )
             expr = 0
             expr += block.inter_storage_content[n, i + 1]
-            expr += -block.inter_storage_content[n, i] * (
-                1 - n.loss_rate[t]
-            ) ** (m.timeincrement[t] * m.es.tsa_parameters[p]["timesteps"])
+            expr += -block.inter_storage_content[n, i] * _share_left(
+                m, n, p, k, m.es.tsa_parameters[p]["timesteps"]
+            )
             expr += -self.intra_storage_delta[
                 n, p, k, m.es.tsa_parameters[p]["timesteps"]
             ]
@@ -2177,9 +2176,8 @@ class GenericInvestmentStorageBlock(ScalarBlock):
             def _storage_inter_maximum_level_rule(block):
                 for n in self.INVESTSTORAGES:
                     for p, i, g in m.TIMEINDEX_CLUSTER:
-                        t = m.get_timestep_from_tsam_timestep(p, i, g)
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
+                        t = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2189,7 +2187,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         lhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * _share_left(m, n, p, k, g)
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         rhs = self.total[n, p] * n.max_storage_level[t]
@@ -2211,10 +2209,9 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 # 57ec32561fb95e746c505760bd0d61c97d2fd2fb/FINE/storage.py#L1329
                 for n in self.INVESTSTORAGES:
                     for p, i, g in m.TIMEINDEX_CLUSTER:
-                        t = m.get_timestep_from_tsam_timestep(p, i, g)
-                        lhs = self.total[n, p] * n.min_storage_level[t]
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
+                        t = m.get_timestep_from_tsam_timestep(p, k, g)
+                        lhs = self.total[n, p] * n.min_storage_level[t]
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2224,7 +2221,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         rhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * _share_left(m, n, p, k, g)
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         self.storage_inter_minimum_level.add(
-- 
2.43.0


From 236e2aae422a75554decdaaaea5eb3803063fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 36/48] fix: consider initial content of sized storages with
 TSAM

---
 src/oemof/solph/components/_generic_storage.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 3c58e85..813f925 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1806,8 +1806,10 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     expr = self.storage_content[n, 0] == 0
                     self.initially_empty.add((n, 0), expr)
 
-            if not m.TSAM_MODE:
-                # inter and intra initial storage contents are handled above
+            if m.TSAM_MODE:
+                for n in group:
+                    self.inter_storage_content[n, 0].fix(0)
+            else:
                 self.initially_empty = Constraint(
                     self.INVESTSTORAGES, m.TIMESTEPS, noruleinit=True
                 )
@@ -1837,7 +1839,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 if not m.TSAM_MODE:
                     lhs = block.storage_content[n, 0]
                 else:
-                    lhs = block.intra_storage_delta[n, 0, 0, 0]
+                    lhs = block.inter_storage_content[n, 0]
                 return lhs == n.initial_storage_level * (
                     n.investment.existing + block.invest[n, 0]
                 )
-- 
2.43.0


From bfbf0b38d887e8337be3c9819e406d6d60c5eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 37/48] fix: limit storage contents at the end of an aggregated
 horizon

---
 .../solph/components/_generic_storage.py      | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 813f925..698d2bc 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -448,6 +448,16 @@ def _share_left(m, n, p, k, steps):
     )
 
 
+def _last_original_timestep(m):
+    """(Aggregated) time step representing the last original one"""
+    p = m.PERIODS.at(-1)
+    return m.get_timestep_from_tsam_timestep(
+        p,
+        m.es.tsa_parameters[p]["order"][-1],
+        m.es.tsa_parameters[p]["timesteps"] - 1,
+    )
+
+
 class GenericStorageBlock(ScalarBlock):
     r"""Storage without an :class:`.Investment` object.
 
@@ -664,6 +674,16 @@ class GenericStorageBlock(ScalarBlock):
                         n.initial_storage_level * n.nominal_storage_capacity
                     )
                     self.inter_storage_content[n, 0].fix()
+                # set the limits at the end of the time horizon
+                lb, ub = _storage_content_bound_rule(
+                    self, n, _last_original_timestep(m)
+                )
+                self.inter_storage_content[n, m.CLUSTERS_OFFSET.at(-1)].setlb(
+                    lb
+                )
+                self.inter_storage_content[n, m.CLUSTERS_OFFSET.at(-1)].setub(
+                    ub
+                )
         #  ************* Constraints ***************************
 
         def _storage_inter_minimum_level_rule(block):
-- 
2.43.0


From 1c4a05d6fc9fa2bb149638e54a3cb6d2636097cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 38/48] fix: allow storage costs in models with aggregated time
 series

---
 .../solph/components/_generic_storage.py      | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 698d2bc..b081c82 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -974,11 +974,18 @@ class GenericStorageBlock(ScalarBlock):
                             self.storage_content[n, t + 1] * n.storage_costs[t]
                         )
                 else:
-                    for t in m.TIMESTEPS_ORIGINAL:
-                        storage_costs += (
-                            self.storage_content[n, t + 1]
-                            * n.storage_costs[t + 1]
-                        )
+                    for c, (p, k) in enumerate(
+                        (p, k)
+                        for p in m.PERIODS
+                        for k in m.es.tsa_parameters[p]["order"]
+                    ):
+                        for g in range(m.es.tsa_parameters[p]["timesteps"]):
+                            t = m.get_timestep_from_tsam_timestep(p, k, g)
+                            storage_costs += n.storage_costs[t] * (
+                                self.inter_storage_content[n, c]
+                                * _share_left(m, n, p, k, g + 1)
+                                + self.intra_storage_delta[n, p, k, g + 1]
+                            )
 
         self.storage_costs = Expression(expr=storage_costs)
         self.costs = Expression(expr=storage_costs + fixed_costs)
@@ -2409,11 +2416,18 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                             self.storage_content[n, t + 1] * n.storage_costs[t]
                         )
                 else:
-                    for t in m.TIMESTEPS_ORIGINAL:
-                        storage_costs += (
-                            self.storage_content[n, t + 1]
-                            * n.storage_costs[t + 1]
-                        )
+                    for c, (p, k) in enumerate(
+                        (p, k)
+                        for p in m.PERIODS
+                        for k in m.es.tsa_parameters[p]["order"]
+                    ):
+                        for g in range(m.es.tsa_parameters[p]["timesteps"]):
+                            t = m.get_timestep_from_tsam_timestep(p, k, g)
+                            storage_costs += n.storage_costs[t] * (
+                                self.inter_storage_content[n, c]
+                                * _share_left(m, n, p, k, g + 1)
+                                + self.intra_storage_delta[n, p, k, g + 1]
+                            )
 
         self.storage_costs = Expression(expr=storage_costs)
 
-- 
2.43.0


From e9e7a529a9c57a3a9b6d87ee9c6165b8cb9425ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 39/48] fix: weight full load time of sized flows in aggregated
 models

---
 src/oemof/solph/flows/_investment_flow_block.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 9f1cd41..0ddf074 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -681,7 +681,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) <= (
                 m.flows[i, o].full_load_time_max
                 * sum(self.total[i, o, p] for p in m.PERIODS)
@@ -698,7 +699,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) >= (
                 sum(self.total[i, o, p] for p in m.PERIODS)
                 * m.flows[i, o].full_load_time_min
-- 
2.43.0


From ea855b2ea54738bccd9e58396d08d4ea9c462640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 40/48] fix: weight integral limits in aggregated models

---
 src/oemof/solph/constraints/integral_limit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 62e86d4..b28effc 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -165,6 +165,7 @@ def generic_integral_limit(
             expr=sum(
                 om.flow[i, o, t]
                 * om.timeincrement[t]
+                * om.tsam_weighting[t]
                 * sequence(flows[i, o].custom_properties[keyword])[t]
                 for (i, o) in flows
                 for t in om.TIMESTEPS
@@ -251,6 +252,7 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
         expr = sum(
             om.flow[i, o, t]
             * om.timeincrement[t]
+            * om.tsam_weighting[t]
             * sequence(flows[i, o].custom_properties[keyword])[t]
             for (i, o) in flows
             for t in m.TIMESTEPS_IN_PERIOD[p]
-- 
2.43.0


From be0a925a388da0bb89a0e5824eeb605725914125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 41/48] fix: disaggregate storage contents using losses of
 typical periods

---
 src/oemof/solph/processing.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index e151d6a..4725484 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -286,7 +286,9 @@ def results(model, remove_last_time_point=False):
             result_index = model.es.timeindex
 
     if model.es.tsa_parameters is not None:
-        df_dict = _disaggregate_tsa_result(df_dict, model.es.tsa_parameters)
+        df_dict = _disaggregate_tsa_result(
+            df_dict, model.es.tsa_parameters, model.timeincrement
+        )
 
     # create final result dictionary by splitting up the dataframes in the
     # dataframe dict into a series for scalar data and dataframe for sequences
@@ -474,7 +476,7 @@ def _extract_multi_period_model_result(
     return result
 
 
-def _disaggregate_tsa_result(df_dict, tsa_parameters):
+def _disaggregate_tsa_result(df_dict, tsa_parameters, timeincrement=None):
     """
     Disaggregate timeseries aggregated by TSAM
 
@@ -492,6 +494,8 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters):
     tsa_parameters : list-of-dicts
         TSAM parameters holding order, occurrences and timsteps_per_period for
         each period
+    timeincrement : list
+        Durations of the aggregated time steps (needed for storage contents)
 
     Returns
     -------
@@ -556,7 +560,7 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters):
     # Add storage SOC flows:
     for storage, soc in storages.items():
         flow_dict[(storage, None)] = _calculate_soc_from_inter_and_intra_soc(
-            soc, storage, tsa_parameters
+            soc, storage, tsa_parameters, timeincrement
         )
     # Add multiplexer boolean actives values:
     for multiplexer, values in multiplexer.items():
@@ -609,7 +613,9 @@ def _disaggregate_segmentation(
     return disaggregated_data
 
 
-def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
+def _calculate_soc_from_inter_and_intra_soc(
+    soc, storage, tsa_parameters, timeincrement
+):
     """Calculate resulting SOC from inter and intra SOC flows"""
     soc_frames = []
     i_offset = 0
@@ -619,7 +625,7 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
             inter_value = soc["inter"].iloc[i_offset + i]["value"]
             # Self-discharge has to be taken into account for calculating
             # inter SOC for each timestep in cluster
-            t0 = t_offset + i * tsa_period["timesteps"]
+            t0 = t_offset + k * tsa_period["timesteps"]
             # Add last timesteps of simulation in order to interpolate SOC for
             # last segment correctly:
             is_last_timestep = (
@@ -635,12 +641,7 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
                 pd.Series(
                     itertools.accumulate(
                         (
-                            (
-                                (1 - storage.loss_rate[t])
-                                ** tsa_period["segments"][(k, t - t0)]
-                                if "segments" in tsa_period
-                                else 1 - storage.loss_rate[t]
-                            )
+                            (1 - storage.loss_rate[t]) ** timeincrement[t]
                             for t in range(
                                 t0,
                                 t0 + timesteps - 1,
@@ -674,7 +675,7 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
 
             soc_frames.append(soc_frame)
         i_offset += len(tsa_period["order"])
-        t_offset += i_offset * tsa_period["timesteps"]
+        t_offset += len(tsa_period["occurrences"]) * tsa_period["timesteps"]
     soc_ts = pd.concat(soc_frames)
 
     soc_ts["timestep"] = range(len(soc_ts))
-- 
2.43.0


From f86aacf04a6d5b350ce0622f8aa6eefe5d90ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 42/48] fix: coefficient series of OffsetConverter with
 constant maximum

---
 src/oemof/solph/components/_offset_converter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index e72f8d9..6f864a9 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -282,10 +282,8 @@ class OffsetConverter(Node):
 
         input_bus = list(self.inputs.values())[0].input
         for flow in self.outputs.values():
-            if flow.maximum.size is not None:
-                target_len = flow.maximum.size
-            else:
-                target_len = 1
+            sizes = [flow.maximum.size, *(c.size for c in coefficients)]
+            target_len = max((s for s in sizes if s is not None), default=1)
 
             slope = []
             offset = []
-- 
2.43.0


From 931ff46e45a6c0354c495f1001e5408caef859bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 43/48] fix: refuse series of absolute losses in multi-period
 models

---
 src/oemof/solph/components/_generic_storage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index b081c82..515696d 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1486,7 +1486,10 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     "For a multi-period investment model, fixed absolute"
                     " losses are not supported. Please remove parameter."
                 )
-                if n.fixed_losses_absolute[0] != 0:
+                if (
+                    n.fixed_losses_absolute.min() != 0
+                    or n.fixed_losses_absolute.max() != 0
+                ):
                     raise ValueError(error_fixed_absolute_losses)
                 error_initial_storage_level = (
                     "For a multi-period model, initial_storage_level is"
-- 
2.43.0


From ca81e383546ed7d9954596c69b4726401b051b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:31 +0000
Subject: [PATCH 44/48] fix: storage level constraints with aggregated time
 series

Flows are not indexed by period any more, contents of later periods were
looked up at the clusters of the first one, and losses of unequal steps
and the input gate did not agree with the constraint for full time series.
---
 src/oemof/solph/constraints/storage_level.py | 43 ++++++++------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/oemof/solph/constraints/storage_level.py b/src/oemof/solph/constraints/storage_level.py
index 5feba7f..8b003ba 100644
--- a/src/oemof/solph/constraints/storage_level.py
+++ b/src/oemof/solph/constraints/storage_level.py
@@ -9,6 +9,8 @@ SPDX-License-Identifier: MIT
 
 from pyomo import environ as po
 
+from oemof.solph.components._generic_storage import _share_left
+
 
 def storage_level_constraint(
     model,
@@ -45,6 +47,17 @@ def storage_level_constraint(
     Verbose description can be found in https://arxiv.org/abs/2211.14080
     """
 
+    def _content(m, p, i, k, g):
+        """Content at the beginning of step g of the i-th cluster in period p
+        (which is represented by the typical cluster k)"""
+        offset = sum(len(m.es.tsa_parameters[pp]["order"]) for pp in range(p))
+        block = m.GenericStorageBlock
+        return (
+            block.inter_storage_content[storage_component, offset + i]
+            * _share_left(m, storage_component, p, k, g)
+            + block.intra_storage_delta[storage_component, p, k, g]
+        )
+
     def _outputs():
         OUTPUTS = po.Set(initialize=output_levels.keys())
         setattr(model, f"{name}_OUTPUTS", OUTPUTS)
@@ -126,21 +139,10 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
-                t = m.get_timestep_from_tsam_timestep(p, k, g)
-                tk = m.get_timestep_from_tsam_timestep(p, k, g)
                 for o in output_levels:
                     getattr(m, constraint_name).add(
                         (o, p, i, g),
-                        (
-                            m.GenericStorageBlock.intra_storage_delta[
-                                storage_component, p, k, g + 1
-                            ]
-                            + m.GenericStorageBlock.inter_storage_content[
-                                storage_component, i
-                            ]
-                            * (1 - storage_component.loss_rate[t])
-                            ** (g * m.timeincrement[tk])
-                        )
+                        _content(m, p, i, k, g + 1)
                         / storage_component.nominal_storage_capacity
                         >= active_output[o, p, k, g] * output_levels[o],
                     )
@@ -164,7 +166,7 @@ def storage_level_constraint(
         def _constraint_output_rule(m, o, p, k, g):
             t = m.get_timestep_from_tsam_timestep(p, k, g)
             return (
-                m.flow[multiplexer_bus, o, p, t]
+                m.flow[multiplexer_bus, o, t]
                 / m.flows[multiplexer_bus, o].nominal_capacity
                 <= active_output[o, p, k, g]
             )
@@ -268,21 +270,10 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
-                t = m.get_timestep_from_tsam_timestep(p, k, g)
-                tk = m.get_timestep_from_tsam_timestep(p, k, g)
                 for inp in input_levels:
                     getattr(m, constraint_name).add(
                         (inp, p, i, g),
-                        (
-                            m.GenericStorageBlock.intra_storage_delta[
-                                storage_component, p, k, g + 1
-                            ]
-                            + m.GenericStorageBlock.inter_storage_content[
-                                storage_component, i
-                            ]
-                            * (1 - storage_component.loss_rate[t])
-                            ** (g * m.timeincrement[tk])
-                        )
+                        _content(m, p, i, k, g)
                         / storage_component.nominal_storage_capacity
                         - input_levels[inp]
                         <= inactive_input[inp, p, k, g],
@@ -307,7 +298,7 @@ def storage_level_constraint(
         def _constraint_input_rule(m, i, p, k, g):
             t = m.get_timestep_from_tsam_timestep(p, k, g)
             return (
-                m.flow[i, multiplexer_bus, p, t]
+                m.flow[i, multiplexer_bus, t]
                 / m.flows[i, multiplexer_bus].nominal_capacity
                 <= 1 - inactive_input[i, p, k, g]
             )
-- 
2.43.0


From 99f985edfce6e8647251a0929a8462fc43a25190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:31 +0000
Subject: [PATCH 45/48] fix: results of gates when time series are aggregated

Only multiplexers of one particular name were found; inputs and outputs of
one node were mixed, segments were not expanded.
---
 src/oemof/solph/processing.py | 40 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 4725484..2581260 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -687,21 +687,25 @@ def _calculate_soc_from_inter_and_intra_soc(
 
 def _calculate_multiplexer_actives(values, multiplexer, tsa_parameters):
     """Calculate multiplexer actives"""
-    actives_frames = []
-    for p, tsa_period in enumerate(tsa_parameters):
-        for i, k in enumerate(tsa_period["order"]):
-            timesteps = tsa_period["timesteps"]
-            actives_frames.append(
-                pd.DataFrame(
-                    values[(p, k)].iloc[0:timesteps], columns=["value"]
-                )
-            )
-    actives_frames_ts = pd.concat(actives_frames)
-    actives_frames_ts["variable_name"] = values[(p, k)][
-        "variable_name"
-    ].values[0]
-    actives_frames_ts["timestep"] = range(len(actives_frames_ts))
-    return actives_frames_ts
+    variables = []
+    for variable_name in values[(0, 0)]["variable_name"].unique():
+        actives_frames = []
+        for p, tsa_period in enumerate(tsa_parameters):
+            for k in tsa_period["order"]:
+                data = values[(p, k)]
+                active_k = data[data["variable_name"] == variable_name].iloc[
+                    0 : tsa_period["timesteps"]
+                ][["value"]]
+                if "segments" in tsa_period:
+                    active_k = _disaggregate_segmentation(
+                        active_k, tsa_period["segments"], k
+                    )
+                actives_frames.append(active_k)
+        actives_frames_ts = pd.concat(actives_frames).ffill()
+        actives_frames_ts["variable_name"] = variable_name
+        actives_frames_ts["timestep"] = range(len(actives_frames_ts))
+        variables.append(actives_frames_ts)
+    return pd.concat(variables)
 
 
 def _get_storage_soc_flows_and_keys(flow_dict):
@@ -740,7 +744,11 @@ def _get_multiplexer_flows_and_keys(flow_dict):
     for oemof_tuple, data in flow_dict.items():
         if oemof_tuple[1] is not None and not isinstance(oemof_tuple[1], int):
             continue
-        if "multiplexer_active" in data["variable_name"].values[0]:
+        if (
+            data["variable_name"]
+            .str.endswith(("_active_input", "_active_output"))
+            .all()
+        ):
             multiplexer.setdefault(oemof_tuple[0], {})
             multiplexer_keys.append(oemof_tuple)
             multiplexer[oemof_tuple[0]][
-- 
2.43.0


From e72c084341e491fd0d772e75167a1eaae8a79031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:30 +0000
Subject: [PATCH 46/48] fix: count start-ups and shutdowns of aggregated time
 series as often as they occur

---
 src/oemof/solph/flows/_shared.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 168cc3a..fd4bbb9 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -387,7 +387,9 @@ def _max_startup_constraint(block):
 
     def _max_startup_rule(_, i, o):
         """Rule definition for maximum number of start-ups."""
-        lhs = sum(block.startup[i, o, t] for t in m.TIMESTEPS)
+        lhs = sum(
+            block.startup[i, o, t] * m.tsam_weighting[t] for t in m.TIMESTEPS
+        )
         return lhs <= m.flows[i, o].nonconvex.maximum_startups
 
     return Constraint(block.MAXSTARTUPFLOWS, rule=_max_startup_rule)
@@ -404,7 +406,9 @@ def _max_shutdown_constraint(block):
 
     def _max_shutdown_rule(_, i, o):
         """Rule definition for maximum number of start-ups."""
-        lhs = sum(block.shutdown[i, o, t] for t in m.TIMESTEPS)
+        lhs = sum(
+            block.shutdown[i, o, t] * m.tsam_weighting[t] for t in m.TIMESTEPS
+        )
         return lhs <= m.flows[i, o].nonconvex.maximum_shutdowns
 
     return Constraint(block.MAXSHUTDOWNFLOWS, rule=_max_shutdown_rule)
@@ -619,6 +623,7 @@ def startup_costs(block):
                 startup_costs += sum(
                     block.startup[i, o, t]
                     * m.flows[i, o].nonconvex.startup_costs[t]
+                    * m.tsam_weighting[t]
                     for t in m.TIMESTEPS
                 )
 
-- 
2.43.0


From 1dd7ce2a081eb5f69c2a58edf8930f320a306cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:15 +0000
Subject: [PATCH 47/48] fix: flags that are given as numpy booleans were
 ignored

---
 src/oemof/solph/_energy_system.py              | 2 +-
 src/oemof/solph/components/_generic_chp.py     | 2 +-
 src/oemof/solph/components/_generic_storage.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index 46399d7..eb996c5 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -103,7 +103,7 @@ class EnergySystem(es.EnergySystem):
             groupings = []
         groupings = GROUPINGS + groupings
 
-        if infer_last_interval is True and timeindex is not None:
+        if infer_last_interval and timeindex is not None:
             try:
                 if timeindex.freq is None:
                     timeindex.freq = pd.infer_freq(timeindex)
diff --git a/src/oemof/solph/components/_generic_chp.py b/src/oemof/solph/components/_generic_chp.py
index 7bc9bca..3e3bb15 100644
--- a/src/oemof/solph/components/_generic_chp.py
+++ b/src/oemof/solph/components/_generic_chp.py
@@ -480,7 +480,7 @@ class GenericCHPBlock(ScalarBlock):
             )
             expr += -self.H_F[n, t]
             # back-pressure characteristics or one-segment model
-            if n.back_pressure is True:
+            if n.back_pressure:
                 return expr == 0
             else:
                 return expr <= 0
diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 515696d..3e59831 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -605,7 +605,7 @@ class GenericStorageBlock(ScalarBlock):
         self.STORAGES = Set(initialize=[n for n in group])
 
         self.STORAGES_BALANCED = Set(
-            initialize=[n for n in group if n.balanced is True]
+            initialize=[n for n in group if n.balanced]
         )
 
         self.STORAGES_INITITAL_LEVEL = Set(
@@ -1513,7 +1513,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
         )
 
         self.INVESTSTORAGES_BALANCED = Set(
-            initialize=[n for n in group if n.balanced is True]
+            initialize=[n for n in group if n.balanced]
         )
 
         self.INVESTSTORAGES_NO_INIT_CONTENT = Set(
-- 
2.43.0


From cde9bc8c2ae245ec67df1a055e07387d4a35b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:15 +0000
Subject: [PATCH 48/48] fix: leave the time index unchanged when inferring the
 last interval

---
 src/oemof/solph/_energy_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index eb996c5..88cadb0 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -106,6 +106,7 @@ class EnergySystem(es.EnergySystem):
         if infer_last_interval and timeindex is not None:
             try:
                 if timeindex.freq is None:
+                    timeindex = timeindex.copy(deep=True)
                     timeindex.freq = pd.infer_freq(timeindex)
 
                 timeindex = timeindex.union(
-- 
2.43.0


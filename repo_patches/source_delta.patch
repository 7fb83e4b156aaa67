From f9d36a69b4bb342ee87530096e87daf3f266f801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 001/102] fix: apply the commanded switching state after the
 interlocking time

The systems asked the converter for its voltage at the beginning of each time
slice, while the converter's switching instants belong to the end of a slice.
The blanking voltage was therefore applied for the whole control period.
---
 .../physical_systems/physical_systems.py      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 5e8640e..2d6d20c 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -177,7 +177,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             self._ode_solver.set_f_params(u_in)
             ode_state = self._ode_solver.integrate(t)
@@ -185,7 +185,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         self._ode_solver.set_f_params(u_in)
         ode_state = self._ode_solver.integrate(self._t + self.tau)
@@ -496,7 +496,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq = self.abc_to_dq_space(u_in, eps)
             self._ode_solver.set_f_params(u_dq)
@@ -506,7 +506,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps)
         self._ode_solver.set_f_params(u_dq)
@@ -627,7 +627,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+            u_in = self._converter.convert(i_in_abc_e, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
             self._ode_solver.set_f_params(u_dq_e)
@@ -638,7 +638,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
 
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+        u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
         self._ode_solver.set_f_params(u_dq_e)
@@ -783,7 +783,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_alphabeta = self.abc_to_alphabeta_space(u_in)
             self._ode_solver.set_f_params(u_alphabeta)
@@ -793,7 +793,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps_fs)
         u_alphabeta = self.abc_to_alphabeta_space(u_in)
@@ -989,7 +989,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
             u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
@@ -1008,7 +1008,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
         u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
-- 
2.43.0


From 38434d56b6e2ea9fc218c6157fb43a5452bd2296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 002/102] fix: forget the switching state of finite converters
 on reset

The state of the last switch of an episode decided whether the first switch of
the next episode was blanked, and entered its first supply current.
---
 src/gym_electric_motor/physical_systems/converters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 2327ec4..76129be 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -200,6 +200,12 @@ class FiniteConverter(PowerElectronicConverter):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
 
+    def reset(self):
+        # Docstring in base class
+        self._switching_pattern = [self._reset_action]
+        self._switching_state = self._reset_action
+        return super().reset()
+
     def set_action(self, action, t):
         assert self.action_space.contains(
             action
-- 
2.43.0


From b00028c087b8be3080f578740990e84414f70173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 003/102] fix: hand the control period on to the half bridges
 of 4QC and B6 converters

A system with another tau than the converter's default left the sub-converters
at their default, so interlocking was discounted with the wrong duty cycle.
---
 .../physical_systems/converters.py                 | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 76129be..35ad021 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -22,6 +22,8 @@ class PowerElectronicConverter:
     action_space = None
     #: Default action that is taken after a reset.
     _reset_action = None
+    #: Converters this converter is composed of.
+    _subconverters = ()
 
     @property
     def tau(self):
@@ -31,6 +33,8 @@ class PowerElectronicConverter:
     @tau.setter
     def tau(self, value):
         self._tau = float(value)
+        for subconverter in self._subconverters:
+            subconverter.tau = value
 
     def __init__(self, tau, interlocking_time=0.0):
         """
@@ -802,6 +806,16 @@ class FiniteB6BridgeConverter(FiniteConverter):
         [1, 1, 1],
     ]
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._sub_converters:
+            sub_converter.tau = value
+
     def __init__(self, tau=1e-5, **kwargs):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
-- 
2.43.0


From c011c4527443aaeb4a0502e5d0da2f0798f9ecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 004/102] fix: do not share initial load states between load
 instances

Loads changed the class-level default dict (or the dict passed by the user), so
one load with a fixed or random initial speed changed the initial speed of
every load built or reset later.
---
 .../physical_systems/mechanical_loads/mechanical_load.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index d158070..ae97f3e 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -95,6 +95,9 @@ class MechanicalLoad(RandomComponent):
         load_initializer = load_initializer or {}
         self._initializer = self._default_initializer.copy()
         self._initializer.update(load_initializer)
+        # The states are changed during the initialization. Neither the class defaults nor the users dict may be touched.
+        if self._initializer.get("states") is not None:
+            self._initializer["states"] = dict(self._initializer["states"])
         self._initial_states = self._initializer.get("states", {state: 0.0 for state in self._state_names})
 
     def initialize(self, state_space, state_positions, nominal_state, **__):
-- 
2.43.0


From 76984a8922cc33b82b4651519a708e561649cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 005/102] fix: keep the seed when an environment is reset
 without one

Each reset without a seed drew new entropy from the operating system, so that
only the first episode after a seeded reset was reproducible.
---
 src/gym_electric_motor/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 47b5f2a..106f317 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -306,7 +306,9 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
              info(dict): Auxiliary information (optional)
         """
 
-        self._seed(seed)
+        # Without a new seed, the random components continue with the next episode of their current seed.
+        if seed is not None:
+            self._seed(seed)
         self._call_callbacks("on_reset_begin")
         self._terminated = False
         state = self._physical_system.reset()
-- 
2.43.0


From 4ff0ae8b5003b1030de790e0b7160c4735a316c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 006/102] fix: give every environment its own simulation
 settings

Building an environment overwrote sim.tau of all others in the process.
---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 106f317..4106a70 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -231,7 +231,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             **kwargs: Arguments to be passed to the modules.
         """
 
-        self.sim.tau = physical_system.tau
+        self.sim = SimulationEnvironment(tau=physical_system.tau)
 
         # TODO physical_system etc should be initialized by the caller
         self._physical_system = physical_system(**kwargs) if isinstance(physical_system, type) else physical_system
-- 
2.43.0


From 721d896fd90cd88ff4a08c176f10a40b259c99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 007/102] fix: do not share the ODE buffer between all
 permanently excited DC motors

Two threads stepping two environments wrote into the same class-level array.
---
 .../electric_motors/dc_permanently_excited_motor.py         | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/dc_permanently_excited_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/dc_permanently_excited_motor.py
index 6727bc7..e68e6e2 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/dc_permanently_excited_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/dc_permanently_excited_motor.py
@@ -61,8 +61,6 @@ class DcPermanentlyExcitedMotor(DcMotor):
         "random_params": (None, None),
     }
 
-    # placeholder for omega, currents and u_in
-    _ode_placeholder = np.zeros(2 + len(CURRENTS_IDX), dtype=np.float64)
 
     def torque(self, state):
         # Docstring of superclass
@@ -80,8 +78,8 @@ class DcPermanentlyExcitedMotor(DcMotor):
 
     def electrical_ode(self, state, u_in, omega, *_):
         # Docstring of superclass
-        self._ode_placeholder[:] = [omega] + np.atleast_1d(state[self.I_IDX]).tolist() + [u_in[0]]
-        return np.matmul(self._model_constants, self._ode_placeholder)
+        ode_input = np.array([omega] + np.atleast_1d(state[self.I_IDX]).tolist() + [u_in[0]], dtype=np.float64)
+        return np.matmul(self._model_constants, ode_input)
 
     def electrical_jacobian(self, state, u_in, omega, *_):
         mp = self._motor_parameter
-- 
2.43.0


From dfc9facdc44ed5cfad325ccfffc4d772b6fba9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 008/102] fix: let the product merge of violation degrees work

check_constraints passes the list of degrees as one argument, so that every
step with merge_violations='product' raised a TypeError.
---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 4106a70..417fe20 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -816,7 +816,7 @@ class ConstraintMonitor:
             self._merge_violations = max
         elif merge_violations == "product":
 
-            def product_merge(*violation_degrees):
+            def product_merge(violation_degrees):
                 return 1 - np.prod([(1 - violation) for violation in violation_degrees])
 
             self._merge_violations = product_merge
-- 
2.43.0


From fd3473136decb66a3cd49848458925a50e8aa4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 009/102] fix: do not drop callable constraints of an
 environment

The documentation allows functions in the list of constraints, but they were
silently filtered out and never checked.
---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 417fe20..0ca2b78 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -258,7 +258,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             cm = constraints
         else:
             limit_constraints = [constraint for constraint in constraints if isinstance(constraint, str)]
-            additional_constraints = [constraint for constraint in constraints if isinstance(constraint, Constraint)]
+            additional_constraints = [constraint for constraint in constraints if callable(constraint)]
             cm = ConstraintMonitor(limit_constraints, additional_constraints)
         self._constraint_monitor = cm
 
-- 
2.43.0


From 58b3a8a7f580dc1d4e1121485cf5fdfe80180c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 010/102] fix: treat not-a-number as a violation of limit
 constraints

A state that has diverged to NaN compares false with the limit, so the episode
went on for ever with NaN observations and rewards.
---
 src/gym_electric_motor/constraints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/constraints.py b/src/gym_electric_motor/constraints.py
index 8f66ba8..4d22a10 100644
--- a/src/gym_electric_motor/constraints.py
+++ b/src/gym_electric_motor/constraints.py
@@ -54,7 +54,8 @@ class LimitConstraint(Constraint):
 
     def __call__(self, state):
         observed = state[self._observed_states]
-        violation = any(abs(observed) > 1.0)
+        # Not a number is not within the limits.
+        violation = not all(abs(observed) <= 1.0)
         return float(violation)
 
     def set_modules(self, ps):
@@ -95,4 +96,5 @@ class SquaredConstraint(Constraint):
 
     def __call__(self, state):
         state_ = state[self._state_indices] if self._normalized else state[self._state_indices] / self._limits
-        return float(np.sum(state_**2) > 1.0)
+        # Not a number is not within the limits.
+        return float(not np.sum(state_**2) <= 1.0)
-- 
2.43.0


From fdc730fb28214d14e85cf1bbc8783f2d58ac725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 011/102] fix: do not share constraints between environments

The constraints in the default arguments of the environments were set up anew
for each environment, so building a second environment with other limits or
states changed the limit supervision of the first.
---
 src/gym_electric_motor/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 0ca2b78..2990029 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -18,6 +18,7 @@ Each ElectricMotorEnvironment contains the five following modules:
 
 """
 
+import copy
 import datetime
 import os
 from dataclasses import dataclass
@@ -258,7 +259,8 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             cm = constraints
         else:
             limit_constraints = [constraint for constraint in constraints if isinstance(constraint, str)]
-            additional_constraints = [constraint for constraint in constraints if callable(constraint)]
+            # Copied, because the constraints store the indices and limits of this environments physical system.
+            additional_constraints = [copy.copy(constraint) for constraint in constraints if callable(constraint)]
             cm = ConstraintMonitor(limit_constraints, additional_constraints)
         self._constraint_monitor = cm
 
-- 
2.43.0


From e5011bbabed400d9fbaffa8c1eef677ae7819796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 012/102] fix: give every converter its own action space

The action spaces were class attributes. Seeding or sampling the action space
of one environment changed the actions sampled from all others.
---
 src/gym_electric_motor/physical_systems/converters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 35ad021..a28f0fb 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import numpy as np
 from gymnasium.spaces import Box, Discrete, MultiDiscrete
 
@@ -41,6 +43,8 @@ class PowerElectronicConverter:
         :param tau: Discrete time step of the system in seconds
         :param interlocking_time: Interlocking time of the transistors in seconds
         """
+        # Sampling and seeding an action space changes its state, so every converter needs its own.
+        self.action_space = deepcopy(self.action_space)
         self._tau = tau
         self._interlocking_time = interlocking_time
         self._action_start_time = 0.0
-- 
2.43.0


From d62aa9ce05f8cc406e4e222715ee0ce7b100b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 013/102] fix: do not extend the voltage and current names of
 all induction motors

Building a doubly fed induction motor appended the rotor quantities to the
class-level lists of InductionMotor, which changed the limits and nominal
values of every induction motor built afterwards.
---
 .../electric_motors/doubly_fed_induction_motor.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 1eebccc..7a6f344 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -128,8 +128,8 @@ class DoublyFedInductionMotor(InductionMotor):
     }
 
     def __init__(self, **kwargs):
-        self.IO_VOLTAGES += self.IO_ROTOR_VOLTAGES
-        self.IO_CURRENTS += self.IO_ROTOR_CURRENTS
+        self.IO_VOLTAGES = self.IO_VOLTAGES + self.IO_ROTOR_VOLTAGES
+        self.IO_CURRENTS = self.IO_CURRENTS + self.IO_ROTOR_CURRENTS
         super().__init__(**kwargs)
 
     def _update_limits(self, limit_values={}, nominal_values={}):
-- 
2.43.0


From 17ffc73a7058c92a5146ae1cf9c18d418aa6e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 014/102] fix: draw the initial states of induction motors from
 the seeded generator

The angle of the flux limits came from the global numpy generator, the limits
depended on the random currents of the previous episode, and no new generator
was started per episode.
---
 .../electric_motors/doubly_fed_induction_motor.py              | 2 +-
 .../physical_systems/electric_motors/induction_motor.py        | 3 +++
 .../electric_motors/squirrel_cage_induction_motor.py           | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 7a6f344..b7c01d1 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -154,7 +154,7 @@ class DoublyFedInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = 2 * np.pi * self._random_generator.random() - np.pi
         flux_alphabeta_limits = self._flux_limit(
             omega=omega,
             eps_mag=eps_mag,
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index 843cce8..a0fd8dd 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -177,7 +177,10 @@ class InductionMotor(ThreePhaseMotor):
 
     def reset(self, state_space, state_positions, omega=None):
         # Docstring of superclass
+        self.next_generator()
         if self._initializer and self._initializer["states"]:
+            # The flux limits depend on the configured initial currents, not on those of the last episode.
+            self._initial_states.update(self._initializer["states"])
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
             return np.asarray(list(self._initial_states.values()))
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
index 7730357..809272c 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
@@ -146,7 +146,7 @@ class SquirrelCageInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = 2 * np.pi * self._random_generator.random() - np.pi
         flux_alphabeta_limits = self._flux_limit(omega=omega, eps_mag=eps_mag, u_q_max=self._nominal_values["u_sq"])
         # using absolute value, because limits should describe upper limit
         # after abs-operator, norm of alphabeta flux still equal to
-- 
2.43.0


From af16187757d5342d6aa949b89ff9be41951c9f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 015/102] fix: draw the random phase of AC supplies from a
 seeded generator

The phase came from the global numpy generator and ignored the seed of the
environment. It was also written into the dict passed by the user, which then
fixed the phase of every other supply built from that dict.
---
 .../physical_systems/voltage_supplies.py      | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/voltage_supplies.py b/src/gym_electric_motor/physical_systems/voltage_supplies.py
index 9dcba41..5745133 100644
--- a/src/gym_electric_motor/physical_systems/voltage_supplies.py
+++ b/src/gym_electric_motor/physical_systems/voltage_supplies.py
@@ -4,6 +4,8 @@ import numpy as np
 
 from gym_electric_motor.physical_systems.solvers import EulerSolver
 
+from ..random_component import RandomComponent
+
 
 class VoltageSupply:
     """Base class for all VoltageSupplies to be used in a SCMLSystem.
@@ -123,7 +125,7 @@ class RCVoltageSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC1PhaseSupply(VoltageSupply):
+class AC1PhaseSupply(VoltageSupply, RandomComponent):
     """AC one phase voltage supply"""
 
     def __init__(self, u_nominal=230, supply_parameter=None):
@@ -134,6 +136,7 @@ class AC1PhaseSupply(VoltageSupply):
         """
 
         super().__init__(u_nominal)
+        RandomComponent.__init__(self)
 
         self._fixed_phi = False
         if supply_parameter is not None:
@@ -144,11 +147,10 @@ class AC1PhaseSupply(VoltageSupply):
                     0 <= supply_parameter["phase"] < 2 * np.pi
                 ), "The phase angle has to be given in rad in range [0,2*pi)"
                 self._fixed_phi = True
-                supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=self._random_generator.random() * 2 * np.pi)
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self._random_generator.random() * 2 * np.pi}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -156,8 +158,9 @@ class AC1PhaseSupply(VoltageSupply):
         self.supply_range = [-1 * self._max_amp, self._max_amp]
 
     def reset(self):
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self._random_generator.random() * 2 * np.pi
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
@@ -166,7 +169,7 @@ class AC1PhaseSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC3PhaseSupply(VoltageSupply):
+class AC3PhaseSupply(VoltageSupply, RandomComponent):
     """AC three phase voltage supply"""
 
     voltage_len = 3
@@ -179,6 +182,7 @@ class AC3PhaseSupply(VoltageSupply):
         """
 
         super().__init__(u_nominal)
+        RandomComponent.__init__(self)
         self._fixed_phi = False
         if supply_parameter is not None:
             assert isinstance(supply_parameter, dict), "supply_parameter should be a dict"
@@ -188,11 +192,10 @@ class AC3PhaseSupply(VoltageSupply):
                     0 <= supply_parameter["phase"] < 2 * np.pi
                 ), "The phase angle has to be given in rad in range [0,2*pi)"
                 self._fixed_phi = True
-                supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=self._random_generator.random() * 2 * np.pi)
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self._random_generator.random() * 2 * np.pi}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -201,8 +204,9 @@ class AC3PhaseSupply(VoltageSupply):
 
     def reset(self):
         # Docstring of superclass
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self._random_generator.random() * 2 * np.pi
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
-- 
2.43.0


From 62d79013374f04e303d7f33f204f93b3799107fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 016/102] fix: draw gaussian initial states from the generator
 of the episode

The fixed first word of the seed was used instead, so every episode of a seed
started in the same state and motor and load were correlated.
---
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index e3ad6d8..62aa0fe 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -247,7 +247,7 @@ class ElectricMotor(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 # writing initial values in initial_states dict
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index ae97f3e..46e0aaa 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -151,7 +151,7 @@ class MechanicalLoad(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
                 self._initial_states.update(random_states)
-- 
2.43.0


From 729a89176b97f740cf49820af1fc17b1298ca475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 017/102] fix: remove the angle of a CosSinProcessor from the
 state after a reset, too

---
 .../physical_system_wrappers/cos_sin_processor.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
index ec875f3..4420554 100644
--- a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
@@ -52,6 +52,8 @@ class CosSinProcessor(PhysicalSystemWrapper):
     def reset(self):
         # Docstring of super class
         state = self._physical_system.reset()
+        if self._remove_angle:
+            return self._delete_angle(self._get_cos_sin(state))
         return self._get_cos_sin(state)
 
     def simulate(self, action):
-- 
2.43.0


From 6c315f268a939738ebf104de0b8f3e74024b88a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 018/102] fix: normalise the sum of currents by its own limit

---
 .../physical_system_wrappers/current_sum_processor.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
index 7efc20d..665f331 100644
--- a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
@@ -62,4 +62,4 @@ class CurrentSumProcessor(PhysicalSystemWrapper):
         Returns:
             float: The summation of the currents of the state.
         """
-        return np.sum(state[self._current_indices])
+        return np.sum(state[self._current_indices] * self._physical_system.limits[self._current_indices]) / self._limits[-1]
-- 
2.43.0


From 8162f1a5b6cbcefbcd8e28ab33a27adc493a7e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 019/102] fix: advance the dq angle by the dead time of all
 inner processors

---
 .../physical_system_wrappers/dq_to_abc_action_processor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
index f6ef88a..b351c3c 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
@@ -69,8 +69,11 @@ class DqToAbcActionProcessor(PhysicalSystemWrapper):
         self._angle_advance = 0.5
 
         # If dead time has been added to the system increase the angle advance by the amount of dead time steps
-        if hasattr(physical_system, 'dead_time'):
-            self._angle_advance += physical_system.dead_time
+        inner_system = physical_system
+        while isinstance(inner_system, PhysicalSystemWrapper):
+            if hasattr(type(inner_system), 'dead_time'):
+                self._angle_advance += inner_system.dead_time
+            inner_system = inner_system.physical_system
 
         return self
 
-- 
2.43.0


From 7f458ca3d2036d7cc2a1609bc6a6b9af74fd848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 020/102] fix: use a valid default reset action for
 MultiDiscrete spaces with dead time

---
 .../physical_system_wrappers/dead_time_processor.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 44c7090..302a37f 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -49,7 +49,7 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             if isinstance(action_space, gymnasium.spaces.Discrete):
                 reset_action = 0
             elif isinstance(action_space, gymnasium.spaces.MultiDiscrete):
-                reset_action = [np.zeros_like(action_space.nvec)]
+                reset_action = np.zeros_like(action_space.nvec)
             elif isinstance(action_space, gymnasium.spaces.Box):
                 reset_action = np.zeros(action_space.shape, dtype=np.float64)
             else:
-- 
2.43.0


From cfbb44716996c307ae97378dbb0c9974b294cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 021/102] fix: queue copies of the actions during the dead time

---
 .../physical_system_wrappers/dead_time_processor.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 302a37f..44ceaaf 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -1,4 +1,5 @@
 from collections import deque
+from copy import deepcopy
 
 import gymnasium.spaces
 import numpy as np
@@ -81,5 +82,5 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             numpy.ndarray[float]: The next state of the system.
         """
         active_action = self._action_deque.pop()
-        self._action_deque.appendleft(action)
+        self._action_deque.appendleft(deepcopy(action))
         return self._physical_system.simulate(active_action)
-- 
2.43.0


From fe7c25490541c1bf8a8b78649431ad485f83c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 022/102] fix: let the StateNoiseProcessor accept the shortcut
 'all'

---
 .../physical_system_wrappers/state_noise_processor.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
index 76d8663..1090057 100644
--- a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
@@ -65,7 +65,8 @@ class StateNoiseProcessor(PhysicalSystemWrapper):
     def set_physical_system(self, physical_system):
         # Docstring from super class
         super().set_physical_system(physical_system)
-        self._state_indices = [physical_system.state_positions[state_name] for state_name in self._states]
+        states = physical_system.state_names if isinstance(self._states, str) and self._states == "all" else self._states
+        self._state_indices = [physical_system.state_positions[state_name] for state_name in states]
         return self
 
     def reset(self):
-- 
2.43.0


From 94f8e782d8daa695fea0f6d2bc8bb1bce9e29494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 023/102] fix: seed the generators of physical system wrappers,
 too

---
 .../physical_system_wrappers/physical_system_wrapper.py      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
index bb4332c..7480056 100644
--- a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
+++ b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 import gym_electric_motor as gem
 
 from ..random_component import RandomComponent
@@ -107,8 +109,11 @@ class PhysicalSystemWrapper(gem.core.PhysicalSystem, RandomComponent):
 
     def seed(self, seed=None):
         # docstring of super class RandomComponent
+        if seed is None:
+            seed = np.random.SeedSequence()
         if isinstance(self._physical_system, RandomComponent):
             self._physical_system.seed(seed)
+        RandomComponent.seed(self, seed.spawn(1)[0])
 
     def __getattr__(self, name):
         return getattr(self._physical_system, name)
-- 
2.43.0


From 437540f63053b4e23480c794d77eaf3d84c97f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 024/102] fix: refuse actions of the wrong shape in finite
 multi converters

---
 src/gym_electric_motor/physical_systems/converters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index a28f0fb..a24afd4 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -610,6 +610,9 @@ class FiniteMultiConverter(FiniteConverter):
 
     def set_action(self, action, t):
         # Docstring in base class
+        assert self.action_space.contains(
+            np.asarray(action)
+        ), f"The selected action {action} is not a valid element of the action space {self.action_space}."
         times = []
         for subconverter, sub_action in zip(self._sub_converters, action):
             times += subconverter.set_action(sub_action, t)
-- 
2.43.0


From 30dbc30595389d2b7eca8985ba49bda83720fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 025/102] fix: evaluate the sub-steps of the euler solver at
 their own time

---
 src/gym_electric_motor/physical_systems/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 31748df..88a863a 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -112,9 +112,9 @@ class EulerSolver(OdeSolver):
         """
         tau = (t - self._t) / self._nsteps
         state = self._y
-        current_t = t
+        current_t = self._t
         for _ in range(self._nsteps):
-            delta = self._system_equation(current_t + tau, state, *self._f_params) * tau
+            delta = self._system_equation(current_t, state, *self._f_params) * tau
             state = state + delta
             current_t += tau
         self._y = state
-- 
2.43.0


From 64453866795f11b2b9b1129f4051cb73b91f4d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 026/102] fix: hand a fresh array to the ode solvers at each
 evaluation

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 2d6d20c..8d1927d 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -233,7 +233,8 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
                 motor_state, u_in, state[self._omega_ode_idx]
             ).ravel()
 
-        return self._system_eq_placeholder
+        # The solvers may keep the derivative, so it must not be overwritten by the next evaluation.
+        return self._system_eq_placeholder.copy()
 
     def _system_jacobian(self, t, state, u_in, **__):
         motor_state = state[self._motor_ode_idx]
-- 
2.43.0


From c811a6bdc538d3e5cbdbbaa09722938280128409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 027/102] fix: restart multistep ode solvers when the inputs
 change

---
 src/gym_electric_motor/physical_systems/solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 88a863a..d87073b 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -178,6 +178,9 @@ class ScipyOdeSolver(OdeSolver):
         super().set_f_params(*args)
         self._ode.set_f_params(*args)
         self._ode.set_jac_params(*args)
+        if self._integrator in ("vode", "lsoda") and len(self._ode.y) > 0:
+            # The inputs may jump: Multistep methods must not continue with the derivatives for the previous inputs.
+            self._ode.set_initial_value(self._ode.y, self._ode.t)
 
     def integrate(self, t):
         # Docstring of superclass
-- 
2.43.0


From ec88bb1a369c7df93a3f86d905e9ea43de36f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 028/102] fix: transform the phase currents of synchronous
 motors with the current angle

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 8d1927d..2cd6376 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -517,10 +517,10 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq, eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq, eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq, u_in, u_dq, [eps], u_sup))
         return system_state / self._limits
@@ -649,10 +649,10 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq_e = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq_e, u_in[:3], u_dq_e, [eps], u_sup))
         return system_state / self._limits
-- 
2.43.0


From 1c4528b870d787d6d9c7ba23c26a28309e0a7de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 029/102] fix: transform the currents of induction motors with
 the current field angle

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 2cd6376..661cbba 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -804,6 +804,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         self._k += 1
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
+        eps_fs = self.calculate_field_angle(ode_state)
         i_dq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_fs)
         i_abc = list(self.dq_to_abc_space(i_dq, eps_fs))
 
@@ -1026,6 +1027,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
 
+        eps_field = self.calculate_field_angle(ode_state)
+        eps_el = ode_state[self._ode_epsilon_idx]
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = list(self.dq_to_abc_space(i_sdq, eps_field))
 
-- 
2.43.0


From de110a7ace3f044d1a88a900efbfb0232c16fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 030/102] fix: show the rotor currents of the DFIM in the field
 frame after a reset, too

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 661cbba..cb40138 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -1091,7 +1091,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = self.dq_to_abc_space(i_sdq, eps_field)
 
-        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field - eps_el)
+        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
         i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         torque = self.electrical_motor.torque(motor_state)
-- 
2.43.0


From 5bd08f2810a3ef6874404fe4328aac941707b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 031/102] fix: simulate the EESM correctly with interlocking
 times

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index cb40138..cca8d35 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -630,12 +630,12 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
             u_sup = self._supply.get_voltage(self._t, i_sup)
             u_in = self._converter.convert(i_in_abc_e, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
-            u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
+            u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
             self._ode_solver.set_f_params(u_dq_e)
             ode_state = self._ode_solver.integrate(t)
             eps = ode_state[self._ode_epsilon_idx]
             i_in_dq_e = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
-            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + i_in_dq_e[2:]
+            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + list(i_in_dq_e[2:])
 
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-- 
2.43.0


From 974aafe90e9a55c1f067aab5f423a5cb3183140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 032/102] fix: do not swap the initial d- and q-currents of
 synchronous motors

---
 .../physical_systems/electric_motors/synchronous_motor.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index f6b25d1..3aeb428 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -126,7 +126,7 @@ class SynchronousMotor(ThreePhaseMotor):
         # Docstring of superclass
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS + ["epsilon"]])
         else:
             return np.zeros(len(self.CURRENTS) + 1)
 
-- 
2.43.0


From d383ba337eaaed9f00eaf37ddc57fff4a287f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 033/102] fix: assign initial motor states by name, not by the
 order they were given in

---
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/electric_motors/induction_motor.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 62aa0fe..52cdf10 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -280,7 +280,7 @@ class ElectricMotor(RandomComponent):
         self.next_generator()
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS])
         else:
             return np.zeros(len(self.CURRENTS))
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index a0fd8dd..b752563 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -183,7 +183,7 @@ class InductionMotor(ThreePhaseMotor):
             self._initial_states.update(self._initializer["states"])
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS + self.FLUXES + ["epsilon"]])
         else:
             return np.zeros(len(self.CURRENTS) + len(self.FLUXES) + 1)
 
-- 
2.43.0


From 20c2ca0a1199bda94fb759e898f728a15c866cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 034/102] fix: let the OrnsteinUhlenbeckLoad start and draw
 from the seeded generator

---
 .../mechanical_loads/ornstein_uhlenbeck_load.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
index 18d0dca..2ba58f7 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
@@ -19,22 +19,22 @@ class OrnsteinUhlenbeckLoad(MechanicalLoad):
             kwargs(dict): further arguments passed to the superclass :py:class:`.MechanicalLoad`
         """
         super().__init__(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
         self.theta = theta
         self.mu = mu
         self.tau = tau
         self.sigma = sigma
         self._omega_range = omega_range
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
 
     def mechanical_ode(self, t, mechanical_state, torque):
         omega = mechanical_state
         max_diff = (self._omega_range[1] - omega) / self.tau
         min_diff = (self._omega_range[0] - omega) / self.tau
-        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * np.random.normal(size=1)
+        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * self.random_generator.normal(size=1)
         np.clip(diff, min_diff, max_diff, out=diff)
         return diff
 
     def reset(self, **kwargs):
         super().reset(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         return self._omega
-- 
2.43.0


From e8506aae35dd83c2fe358b40e668c33a37c93352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 035/102] fix: use the EMF feedforward for separately and
 permanently excited DC motors

---
 src/gem_controllers/parameter_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 7f4f626..6668b0f 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -26,8 +26,8 @@ psi_reader = {
 p_reader = {
     "SeriesDc": lambda env: 1,
     "ShuntDc": lambda env: 1,
-    "ExtExDc": lambda env: 0,
-    "PermExDc": lambda env: 0,
+    "ExtExDc": lambda env: 1,
+    "PermExDc": lambda env: 1,
     "PMSM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SynRM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SCIM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
-- 
2.43.0


From e035d073ef7b5a2fdd786df7f7c11ce0ea25e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 036/102] fix: set the resistance of the operation point
 selection of the PermExDc motor

---
 .../stages/operation_point_selection/permex_dc_ops.py            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
index aaafc52..6f8e425 100644
--- a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
@@ -85,6 +85,7 @@ class PermExDcOperationPointSelection(OperationPointSelection):
         super().tune(env, env_id, current_safety_margin=current_safety_margin)
         motor = gc.utils.get_motor_type(env_id)
         self._magnetic_flux = reader.psi_reader[motor](env)
+        self.resistance = env.physical_system.electrical_motor.motor_parameter["r_a"]
         voltages = reader.voltages[motor]
         voltage_indices = [env.state_names.index(voltage) for voltage in voltages]
         self._voltage_limit = env.limits[voltage_indices]
-- 
2.43.0


From db96113c3d0bfc71bf1235210472a8f6e2b4a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 037/102] fix: clip current and voltage vectors to the limit
 circle, not below or beyond it

---
 .../stages/clipping_stages/combined_clipping_stage.py       | 6 ++++--
 .../stages/clipping_stages/squared_clipping_stage.py        | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
index 8396bc3..e74d576 100644
--- a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
@@ -35,11 +35,13 @@ class CombinedClippingStage(ClippingStage):
 
     def __call__(self, state, reference):
         clipped = np.zeros(np.size(self._squared_clipped_states) + np.size(self._absolute_clipped_states))
-        relative_reference_length = np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
+        relative_reference_length = np.sqrt(
+            np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
+        )
         relative_maximum = 1 - self._margin
         clipped[self._squared_clipped_states] = (
             reference[self._squared_clipped_states]
-            if relative_reference_length < relative_maximum**2
+            if relative_reference_length < relative_maximum
             else reference[self._squared_clipped_states] / relative_reference_length * relative_maximum
         )
 
diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index d7fede1..50fca8d 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -51,11 +51,11 @@ class SquaredClippingStage(ClippingStage):
             clipped_reference(np.ndarray): The reference of a controller stage clipped to the limit.
         """
 
-        relative_reference_length = np.sum((reference / self._limits) ** 2)
+        relative_reference_length = np.sqrt(np.sum((reference / self._limits) ** 2))
         relative_maximum = 1 - self._margin
         clipped = (
             reference
-            if relative_reference_length < relative_maximum**2
+            if relative_reference_length < relative_maximum
             else reference / relative_reference_length * relative_maximum
         )
         self._clipping_difference = reference - clipped
-- 
2.43.0


From a876151e4494f0ea66fb498412e1e0a724cb876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 038/102] fix: make torque and speed controllers of three phase
 synchronous motors constructible

---
 .../stages/clipping_stages/squared_clipping_stage.py          | 4 +++-
 .../stages/operation_point_selection/eesm_ops.py              | 2 +-
 .../stages/operation_point_selection/pmsm_ops.py              | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index 50fca8d..ec985ea 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -26,7 +26,8 @@ class SquaredClippingStage(ClippingStage):
     @property
     def action_range(self):
         """Action range of the controller stage"""
-        return []
+        limits = self._limits * (1 - self._margin)
+        return -limits, limits
 
     def __init__(self, control_task="CC"):
         """
@@ -81,6 +82,7 @@ class SquaredClippingStage(ClippingStage):
             state_names = ["torque"]
         state_indices = [env.state_names.index(state_name) for state_name in state_names]
         self._limits = env.limits[state_indices]
+        self._margin = margin
 
     def reset(self):
         """Reset the squared clipping stage"""
diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 3e84c95..6361fb2 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -181,7 +181,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_e_opt = sp_interpolate.interp1d(best_params[:, 0], best_params[:, 4], kind="cubic")
 
         self.t_grid, self.psi_grid = np.mgrid[
-            0 : self.t_max : np.complex(0, self.t_grid_count), 0 : self.psi_max : np.complex(self.psi_grid_count)
+            0 : self.t_max : complex(0, self.t_grid_count), 0 : self.psi_max : complex(0, self.psi_grid_count)
         ]
 
         self.i_d_inter = sp_interpolate.griddata(
diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 6a828b1..14a9d1e 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -236,8 +236,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             # Define the grid for the torque and fluxes
             self.t_grid, self.psi_grid = np.mgrid[
-                np.amin(t) : np.amax(t) : np.complex(0, self.t_count),
-                self.psi_min : self.psi_max : np.complex(self.psi_count),
+                np.amin(t) : np.amax(t) : complex(0, self.t_count),
+                self.psi_min : self.psi_max : complex(0, self.psi_count),
             ]
 
             # Interpolate the functions
-- 
2.43.0


From 2b7765ac052098783d90f8d53d11e3811afd57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 039/102] fix: forget the last error of a PID controller on
 reset

---
 .../stages/base_controllers/pid_controller.py                | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index f91f609..72d9f8d 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -42,6 +42,11 @@ class PIDController(PIController):
         self._last_error = current_error
         return pi_action + d_action
 
+    def reset(self):
+        """Reset the integrated values and the last error"""
+        super().reset()
+        self._last_error = np.zeros_like(self._d_gain, dtype=float)
+
     def _tune_current_controller(self, env, env_id, a=4):
         """Set the gains of the P-, I- and D-component for the current control.
 
-- 
2.43.0


From cda90242ff1bc187db20c66920bf3d4e46e90a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 040/102] fix: do not share the plotting switch between all
 controllers

---
 src/gem_controllers/gem_controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 8083c5e..c4cefaa 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -15,6 +15,8 @@ class GemController:
     controller to control a gym-electric-motor environment.
     """
 
+    should_plot = False
+
     @property
     def signals(self):
         """Input signals of the controller"""
@@ -61,8 +63,6 @@ class GemController:
         Returns:
             GemController: An initialized (and tuned) instance of a controller that fits to the specified environment.
         """
-        cls.should_plot = should_plot
-
         control_task = gc.utils.get_control_task(env_id)
         tuner_kwargs = dict()
 
@@ -89,6 +89,7 @@ class GemController:
             )
         # Wrap the controller with the adapter to map the inputs and outputs to the environment
         controller = gc.GymElectricMotorAdapter(env, env_id, controller)
+        controller.should_plot = should_plot
 
         # Fit the controllers parameters to the environment
         controller.tune(env, env_id, **tuner_kwargs)
-- 
2.43.0


From 7125fa75d59b7c912fe7efc0ac6fefa88f23ab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 041/102] fix: name the reference of a ConstReferenceGenerator
 in a list

---
 .../reference_generators/const_reference_generator.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/const_reference_generator.py b/src/gym_electric_motor/reference_generators/const_reference_generator.py
index 82cd42a..c2f8f84 100644
--- a/src/gym_electric_motor/reference_generators/const_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/const_reference_generator.py
@@ -21,7 +21,7 @@ class ConstReferenceGenerator(ReferenceGenerator):
         self._reference_value = reference_value
         self._reference_state = reference_state.lower()
         self.reference_space = Box(np.array([reference_value]), np.array([reference_value]), dtype=np.float64)
-        self._reference_names = self._reference_state
+        self._reference_names = [self._reference_state]
 
     def set_modules(self, physical_system):
         # docstring from superclass
-- 
2.43.0


From fca19eec54a787e654e1afcaf26bfd320cd3a7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 042/102] fix: draw the initial Wiener reference independently
 of the last episode's length

---
 .../reference_generators/wiener_process_reference_generator.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
index 1e5aa1e..6fe2ebc 100644
--- a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
@@ -42,6 +42,8 @@ class WienerProcessReferenceGenerator(SubepisodedReferenceGenerator):
 
     def reset(self, initial_state=None, initial_reference=None):
         if initial_reference is None:
+            # Draw from the generator of the new episode, the state of the old one depends on the last episode's length
+            self.next_generator()
             initial_reference = np.zeros_like(self._referenced_states, dtype=float)
             initial_reference[self._referenced_states] = self.random_generator.uniform(
                 self._initial_range[0], self._initial_range[1], 1
-- 
2.43.0


From e73a5f04e9226db88df4ebbdfe7a218117b4fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 043/102] fix: make switched references independent of the
 length of previous episodes

---
 .../reference_generators/switched_reference_generator.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gym_electric_motor/reference_generators/switched_reference_generator.py b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
index bb6d585..8729690 100644
--- a/src/gym_electric_motor/reference_generators/switched_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
@@ -64,6 +64,8 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
 
     def reset(self, initial_state=None, initial_reference=None):
         self.next_generator()
+        # How often the sub generators have been drawing depends on the length of the last episode
+        self._seed_sub_generators()
         self._reset_reference()
         return self._current_ref_generator.reset(initial_state, initial_reference)
 
@@ -89,6 +91,10 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
 
     def seed(self, seed=None):
         super().seed(seed)
+        self._seed_sub_generators()
+
+    def _seed_sub_generators(self):
+        """Passes new sub-seeds to all random sub generators."""
         for sub_generator in self._sub_generators:
             if isinstance(sub_generator, RandomComponent):
                 seed = self._seed_sequence.spawn(1)[0]
-- 
2.43.0


From eab53372c869b7640e5c2549d4dea8dc0b5fd267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 044/102] fix: allow gaussian initial states with coinciding
 bounds

---
 .../physical_systems/electric_motors/electric_motor.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 52cdf10..bcc25cc 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -240,7 +240,9 @@ class ElectricMotor(RandomComponent):
                 # specific input or middle of interval
                 mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
                 sigma = random_params[1] or 1
-                a, b = (lower_bound - mue) / sigma, (upper_bound - mue) / sigma
+                # States whose bounds coincide (e.g. the flux without magnetizing current) cannot be drawn.
+                fixed = lower_bound == upper_bound
+                a, b = (lower_bound - mue) / sigma, np.where(fixed, np.inf, (upper_bound - mue) / sigma)
                 initial_value = truncnorm.rvs(
                     a,
                     b,
@@ -249,6 +251,7 @@ class ElectricMotor(RandomComponent):
                     size=(len(self._initial_states.keys())),
                     random_state=self.random_generator,
                 )
+                initial_value = np.where(fixed, lower_bound, initial_value)
                 # writing initial values in initial_states dict
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
                 self._initial_states.update(random_states)
-- 
2.43.0


From 7a85e4b6270b05ec436c59fe6aebbd511736eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 045/102] fix: feed the DFIM rotor converter with currents in
 the rotor-fixed frame

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index cca8d35..ff06b55 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -985,7 +985,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         eps_el = ode_state[self._ode_epsilon_idx]
 
         i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-        i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
+        i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
@@ -1006,7 +1007,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
             eps_field = self.calculate_field_angle(ode_state)
             eps_el = ode_state[self._ode_epsilon_idx]
             i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-            i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+            i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
+            i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-- 
2.43.0


From 9ed2147289552bcf07690dcbcc08316d1b95f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 046/102] fix: scale the derivative of the
 OrnsteinUhlenbeckLoad to its process

---
 .../mechanical_loads/ornstein_uhlenbeck_load.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
index 2ba58f7..5b020dc 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
@@ -30,7 +30,7 @@ class OrnsteinUhlenbeckLoad(MechanicalLoad):
         omega = mechanical_state
         max_diff = (self._omega_range[1] - omega) / self.tau
         min_diff = (self._omega_range[0] - omega) / self.tau
-        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * self.random_generator.normal(size=1)
+        diff = self.theta * (self.mu - omega) + self.sigma / np.sqrt(self.tau) * self.random_generator.normal(size=1)
         np.clip(diff, min_diff, max_diff, out=diff)
         return diff
 
-- 
2.43.0


From ac1bdf0a321feee735e21b8042c43780c1176240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 047/102] fix: repeat a solver step whose automatic first step
 size got too small

---
 src/gym_electric_motor/physical_systems/solvers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index d87073b..cf61d7d 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -1,3 +1,4 @@
+import numpy as np
 from scipy.integrate import ode, odeint, solve_ivp
 
 
@@ -184,7 +185,15 @@ class ScipyOdeSolver(OdeSolver):
 
     def integrate(self, t):
         # Docstring of superclass
-        return self._ode.integrate(t)
+        t_start, y_start = self._ode.t, np.array(self._ode.y)
+        y = self._ode.integrate(t)
+        if self._integrator in ("dopri5", "dop853") and not (self._ode.successful() or "first_step" in self._solver_args):
+            # The initial step size these integrators choose on their own gets too small, if a state is almost zero.
+            self._ode.set_integrator(self._integrator, first_step=t - t_start, **self._solver_args)
+            self._ode.set_initial_value(y_start, t_start)
+            y = self._ode.integrate(t)
+            self._ode.set_integrator(self._integrator, **self._solver_args)
+        return y
 
 
 class ScipySolveIvpSolver(OdeSolver):
-- 
2.43.0


From 10268514a6b131df5fdb5f0e0d70eb271b6fcf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 048/102] fix: do not drop lists of visualizations

---
 src/gym_electric_motor/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/utils.py b/src/gym_electric_motor/utils.py
index c8457f8..88d5d75 100644
--- a/src/gym_electric_motor/utils.py
+++ b/src/gym_electric_motor/utils.py
@@ -9,6 +9,9 @@ def initialize(base_class, arg, default_class, default_args):
         raise Exception("Need initialization value")
     elif isinstance(arg, base_class):
         return arg
+    elif isinstance(arg, (list, tuple)):
+        # Several components of one kind (e.g. visualizations), that are handled by the environment.
+        return arg
     elif type(arg) is str:
         raise Exception("Deprecated in version 3.0.0")
     elif type(arg) is dict:
-- 
2.43.0


From d28d72c0de52d1fa3b4b0f35e5154201cb556e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 049/102] fix: refuse invalid actions in front of the dead time

---
 .../physical_system_wrappers/dead_time_processor.py          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 44ceaaf..c5f2fc0 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -81,6 +81,11 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
         Returns:
             numpy.ndarray[float]: The next state of the system.
         """
+        if isinstance(self.action_space, (gymnasium.spaces.Discrete, gymnasium.spaces.MultiDiscrete)):
+            # Refuse an invalid action when it is sent, and not some steps later instead of a valid one.
+            assert self.action_space.contains(
+                action
+            ), f"The selected action {action} is not a valid element of the action space {self.action_space}."
         active_action = self._action_deque.pop()
         self._action_deque.appendleft(deepcopy(action))
         return self._physical_system.simulate(active_action)
-- 
2.43.0


From fe6687ccbcedecce6ecf44a084178a1867db88fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 050/102] fix: recognise normalized states of squared
 constraints on flux states

---
 src/gym_electric_motor/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/constraints.py b/src/gym_electric_motor/constraints.py
index 4d22a10..11e3480 100644
--- a/src/gym_electric_motor/constraints.py
+++ b/src/gym_electric_motor/constraints.py
@@ -92,7 +92,8 @@ class SquaredConstraint(Constraint):
     def set_modules(self, ps):
         self._state_indices = [ps.state_positions[state] for state in self._states]
         self._limits = ps.limits[self._state_indices]
-        self._normalized = not np.all(ps.state_space.high[self._state_indices] == self._limits)
+        # The states of a system are either all normalized or none. A single limit does not tell (flux states).
+        self._normalized = not np.all(ps.state_space.high == ps.limits)
 
     def __call__(self, state):
         state_ = state[self._state_indices] if self._normalized else state[self._state_indices] / self._limits
-- 
2.43.0


From 45f5d3515f2387668ae8cad12e5ceac5c5d0c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 051/102] fix: give the violation reward for states that are
 not finite

---
 .../reward_functions/weighted_sum_of_errors.py                 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/reward_functions/weighted_sum_of_errors.py b/src/gym_electric_motor/reward_functions/weighted_sum_of_errors.py
index 27cd620..a99305e 100644
--- a/src/gym_electric_motor/reward_functions/weighted_sum_of_errors.py
+++ b/src/gym_electric_motor/reward_functions/weighted_sum_of_errors.py
@@ -123,6 +123,9 @@ class WeightedSumOfErrors(RewardFunction):
             self._violation_reward = min(self.reward_range[0] / (1.0 - self._gamma), 0)
 
     def reward(self, state, reference, k=None, action=None, violation_degree=0.0):
+        if violation_degree == 1.0:
+            # The errors do not count anymore. They might not even be finite.
+            return self._violation_reward
         return (1.0 - violation_degree) * self._wse_reward(state, reference) + violation_degree * self._violation_reward
 
     def _wse_reward(self, state, reference):
-- 
2.43.0


From e627fb63f5aaf55decbc693b655d87d3c2c32295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 052/102] fix: print the results of the ended episode

---
 .../visualization/console_printer.py          | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/gym_electric_motor/visualization/console_printer.py b/src/gym_electric_motor/visualization/console_printer.py
index df1d756..ff4db6a 100644
--- a/src/gym_electric_motor/visualization/console_printer.py
+++ b/src/gym_electric_motor/visualization/console_printer.py
@@ -36,16 +36,27 @@ class ConsolePrinter(ElectricMotorVisualization):
         self._cum_reward = 0
         self._done = False
         self._episode = 0
+        # Ended episodes that have not been printed yet: (episode, done, number of steps, cumulative reward)
+        self._ended = []
+        self._running = False
         np.set_printoptions(formatter={"float": "{:9.3f}".format})
-        self._reset = False
 
     def on_reset_begin(self):
-        """Gets called on environment reset. Handles internal value reset and External reset printing"""
-        self._reset = True
+        """Gets called on environment reset. Stores the result of the ended episode for the printing and resets the
+        internal values."""
+        if self._running and self._print_freq > 0:
+            self._ended.append((self._episode, self._done, self._k, self._cum_reward))
+        self._running = False
 
     def on_reset_end(self, state, reference):
         self._reference = reference
         self._state = state
+        self._reward = np.nan
+        self._cum_reward = 0
+        self._k = 0
+        self._done = False
+        self._episode += 1
+        self._running = True
 
     def set_env(self, env):
         """Gets the limits of the current physical system for accurate printing"""
@@ -67,16 +78,14 @@ class ConsolePrinter(ElectricMotorVisualization):
 
     def render(self):
         if self._print_freq > 0:
-            if self._reset:
+            for episode, done, k, cum_reward in self._ended:
                 print(
-                    f"\nEpisode {self._episode} ",
-                    "Constraint Violation! " if self._done else "External Reset. ",
-                    f"Number of steps: {self._k: 8d} ",
-                    f"Cumulative Reward: {self._cum_reward:7.3f}\n",
+                    f"\nEpisode {episode} ",
+                    "Constraint Violation! " if done else "External Reset. ",
+                    f"Number of steps: {k: 8d} ",
+                    f"Cumulative Reward: {cum_reward:7.3f}\n",
                 )
-                self._cum_reward = 0
-                self._reset = False
-                self._episode += 1
+            self._ended = []
 
             if self._print_freq == 2 and (self._k % self._update_freq) == 0:
                 print(
-- 
2.43.0


From 8159f1a185d9069cbbefbd3ca7111272336923a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 053/102] fix: show the rewards after the figures have been
 reset

---
 .../visualization/motor_dashboard_plots/reward_plot.py           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
index 9bf3601..f274f6a 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
@@ -33,6 +33,7 @@ class RewardPlot(TimePlot):
     def reset_data(self):
         super().reset_data()
         self._reward_data = np.full(shape=self._x_data.shape, fill_value=np.nan)
+        self._y_data = [self._reward_data]
 
     def on_step_end(self, k, state, reference, reward, terminated):
         idx = self.data_idx
-- 
2.43.0


From 003e52ee42da517b928a4be848bb314ba62fe29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 054/102] fix: scale plots without reference to their data

---
 .../visualization/motor_dashboard_plots/base_plots.py     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
index e203618..f6c0ada 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
@@ -188,10 +188,12 @@ class TimePlot(MotorDashboardPlot):
     def _scale_y_axis(self):
         if self._scale_plots_to_data:
             # nanmin does not reraise RuntimeWarning so we to check for NaNs ourselves
-            if np.isnan(self._y_data[0]).all() or np.isnan(self._y_data[1]).all():
+            # Not all plots show references and references are not available for all states.
+            y_data = [data for data in self._y_data if not np.isnan(data).all()]
+            if len(y_data) == 0:
                 return
-            y_min = min(np.nanmin(self._y_data[0]), np.nanmin(self._y_data[1]))
-            y_max = max(np.nanmax(self._y_data[0]), np.nanmax(self._y_data[1]))
+            y_min = min(np.nanmin(data) for data in y_data)
+            y_max = max(np.nanmax(data) for data in y_data)
 
             self._axis.set_ylim(
                 y_min - np.sign(y_min) * 0.1 * y_min,
-- 
2.43.0


From d0294c01f8427e0250935c61de0912e77efbf2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 055/102] fix: mean episode reward of episodes before the first
 rendering and without steps

---
 .../mean_episode_reward_plot.py                 | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index ac6c471..01e05a5 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -18,9 +18,15 @@ class MeanEpisodeRewardPlot(EpisodePlot):
 
     def initialize(self, axis):
         super().initialize(axis)
-        self._reward_data = []
-        self._y_data.append(self._reward_data)
-        self._lines.append(self._axis.plot([], self._reward_data, color=self._colors[0])[0])
+        # Keep the episodes before the first rendering
+        self._y_data = [self._reward_data]
+        self._lines.append(self._axis.plot([], [], color=self._colors[0])[0])
+
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        # Only count the steps of the new episode from here on
+        self._reward_sum = 0
+        self._episode_length = 0
 
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
@@ -33,14 +39,13 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._reward_range = [np.inf, -np.inf]
 
     def _set_y_data(self):
-        mean_reward = self._reward_sum / self._episode_length
+        # There is no mean reward, if the environment was reset without taking any step.
+        mean_reward = self._reward_sum / self._episode_length if self._episode_length > 0 else np.nan
         self._reward_data.append(mean_reward)
         if self._reward_range[0] > mean_reward:
             self._reward_range[0] = mean_reward
         if self._reward_range[1] < mean_reward:
             self._reward_range[1] = mean_reward
-        self._reward_sum = 0
-        self._episode_length = 0
         self._reset = True
 
     def _scale_y_axis(self):
-- 
2.43.0


From 9a9ec6056583b73266eb1daafee04313ddc3dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 056/102] fix: restart the cumulative constraint violations
 with the figures

---
 .../cumulative_constraint_violation_plot.py                     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
index 4a4a930..bedfe05 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
@@ -18,7 +18,9 @@ class CumulativeConstraintViolationPlot(StepPlot):
 
     def reset_data(self):
         super().reset_data()
+        self._no_of_violations = 0
         self._violations = [0]
+        self._x_data = [0]
 
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
-- 
2.43.0


From af152fa3f227a24ca6aeaf878d8e53865a888091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 057/102] fix: do not show the length of an episode before the
 figure reset for a later one

---
 .../motor_dashboard_plots/episode_length_plot.py             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
index a2ed136..ae7f08a 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
@@ -21,6 +21,11 @@ class EpisodeLengthPlot(EpisodePlot):
         super().initialize(axis)
         self._lines.append(self._axis.plot([], [], color=self._colors[0])[0])
 
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        # Only count the steps of the new episode from here on
+        self._episode_length = 0
+
     def on_step_end(self, k, state, reference, reward, terminated):
         self._episode_length = k
 
-- 
2.43.0


From 9e8d528a0eb2aeff3195c18d8711c0da3022284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 058/102] fix: scale plots to data and mean rewards that are
 not finite

---
 .../visualization/motor_dashboard_plots/base_plots.py     | 8 ++++----
 .../motor_dashboard_plots/mean_episode_reward_plot.py     | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
index f6c0ada..aa836c5 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
@@ -187,13 +187,13 @@ class TimePlot(MotorDashboardPlot):
 
     def _scale_y_axis(self):
         if self._scale_plots_to_data:
-            # nanmin does not reraise RuntimeWarning so we to check for NaNs ourselves
             # Not all plots show references and references are not available for all states.
-            y_data = [data for data in self._y_data if not np.isnan(data).all()]
+            # Furthermore, the axis limits have to be finite.
+            y_data = [data[np.isfinite(data)] for data in map(np.asarray, self._y_data) if np.isfinite(data).any()]
             if len(y_data) == 0:
                 return
-            y_min = min(np.nanmin(data) for data in y_data)
-            y_max = max(np.nanmax(data) for data in y_data)
+            y_min = min(np.min(data) for data in y_data)
+            y_max = max(np.max(data) for data in y_data)
 
             self._axis.set_ylim(
                 y_min - np.sign(y_min) * 0.1 * y_min,
diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index 01e05a5..d62db7e 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -49,6 +49,10 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._reset = True
 
     def _scale_y_axis(self):
-        if len(self._reward_data) > 1 and self._axis.get_ylim() != tuple(self._reward_range):
+        if (
+            len(self._reward_data) > 1
+            and np.isfinite(self._reward_range).all()
+            and self._axis.get_ylim() != tuple(self._reward_range)
+        ):
             spacing = 0.1 * (self._reward_range[1] - self._reward_range[0])
             self._axis.set_ylim(self._reward_range[0] - spacing, self._reward_range[1] + spacing)
-- 
2.43.0


From 78a0c0abac8ecb0712b5b1a20d167b5a28148fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 059/102] fix: keep an own copy of the initializers

---
 .../physical_systems/electric_motors/electric_motor.py       | 5 ++++-
 .../physical_systems/mechanical_loads/mechanical_load.py     | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index bcc25cc..6347b46 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import numpy as np
 from scipy.stats import truncnorm
 
@@ -131,7 +133,8 @@ class ElectricMotor(RandomComponent):
         nominal_values = nominal_values or {}
         self._nominal_values = update_parameter_dict(self._default_nominal_values, nominal_values)
         motor_initializer = motor_initializer or {}
-        self._initializer = update_parameter_dict(self._default_initializer, motor_initializer)
+        # The initializer is used in each reset, independent of what the user does with his dict.
+        self._initializer = deepcopy(update_parameter_dict(self._default_initializer, motor_initializer))
         self._initial_states = {}
         if self._initializer["states"] is not None:
             self._initial_states.update(self._initializer["states"])
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index 46e0aaa..41cbade 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -1,4 +1,5 @@
 import warnings
+from copy import deepcopy
 
 import numpy as np
 from scipy.stats import truncnorm
@@ -96,8 +97,8 @@ class MechanicalLoad(RandomComponent):
         self._initializer = self._default_initializer.copy()
         self._initializer.update(load_initializer)
         # The states are changed during the initialization. Neither the class defaults nor the users dict may be touched.
-        if self._initializer.get("states") is not None:
-            self._initializer["states"] = dict(self._initializer["states"])
+        # Furthermore, the initializer is used in each reset, independent of what the user does with his dict.
+        self._initializer = deepcopy(self._initializer)
         self._initial_states = self._initializer.get("states", {state: 0.0 for state in self._state_names})
 
     def initialize(self, state_space, state_positions, nominal_state, **__):
-- 
2.43.0


From 1a176f748f59771a32aa3e1d729757b3af58a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 060/102] fix: keep an own copy of the probabilities of
 switched references

---
 .../reference_generators/switched_reference_generator.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/switched_reference_generator.py b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
index 8729690..e17017a 100644
--- a/src/gym_electric_motor/reference_generators/switched_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
@@ -29,7 +29,7 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
             sub_gen.reference_names == ref_names for sub_gen in self._sub_generators
         ), "The passed sub generators have different referenced states."
         self._reference_names = ref_names
-        self._probabilities = p or [1 / len(sub_generators)] * len(sub_generators)
+        self._probabilities = list(p) if p is not None and len(p) > 0 else [1 / len(sub_generators)] * len(sub_generators)
         self._current_episode_length = 0
         if type(super_episode_length) in [float, int]:
             super_episode_length = super_episode_length, super_episode_length + 1
-- 
2.43.0


From fdac4a2d31f57ac5f942003539bde5ab89fe1234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 061/102] fix: do not share arrays of weights and powers with
 the user

---
 src/gym_electric_motor/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/utils.py b/src/gym_electric_motor/utils.py
index 88d5d75..db90c30 100644
--- a/src/gym_electric_motor/utils.py
+++ b/src/gym_electric_motor/utils.py
@@ -62,7 +62,7 @@ def set_state_array(input_values, state_names):
         state_dict_to_state_array(input_values, state_array, state_names)
     elif isinstance(input_values, np.ndarray):
         assert len(input_values) == len(state_names)
-        state_array = input_values
+        state_array = input_values.copy()
     elif isinstance(input_values, list):
         assert len(input_values) == len(state_names)
         state_array = np.array(input_values)
-- 
2.43.0


From 5da3bbce3e555330fec861d34d200fa736d007c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 062/102] fix: keep an own copy of the action in the converters

---
 src/gym_electric_motor/physical_systems/converters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index a24afd4..aa73231 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -73,8 +73,9 @@ class PowerElectronicConverter:
             list(float): Times when a switching action occurs and the conversion function must be called by the system.
         """
         self._action_start_time = t
-        self._current_action = action
-        return self._set_switching_pattern(action)
+        # The action may be used until the next one, independent of what the user does with his array.
+        self._current_action = deepcopy(action)
+        return self._set_switching_pattern(self._current_action)
 
     def i_sup(self, i_out):
         """
-- 
2.43.0


From cfb0bfa3caacdca4ca7d49d18930fe481e93699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 063/102] fix: do not add the state noise to the array of the
 inner system

---
 .../physical_system_wrappers/state_noise_processor.py           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
index 1090057..91ecbbb 100644
--- a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
@@ -88,6 +88,8 @@ class StateNoiseProcessor(PhysicalSystemWrapper):
         Returns:
             numpy.ndarray[float]): The state with additional noise.
         """
+        # The array belongs to the inner physical system
+        state = state.copy()
         state[self._state_indices] = state[self._state_indices] + self._noise[self._random_pointer]
         self._random_pointer += 1
         return state
-- 
2.43.0


From 395240ba32828ac9c21dc88748b910a6a29a162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 064/102] fix: command the clipped voltages in the current
 controllers

---
 src/gem_controllers/pi_current_controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/pi_current_controller.py b/src/gem_controllers/pi_current_controller.py
index b43e710..f9f8f8a 100644
--- a/src/gem_controllers/pi_current_controller.py
+++ b/src/gem_controllers/pi_current_controller.py
@@ -163,7 +163,8 @@ class PICurrentController(gc.CurrentController):
             voltage_reference = self._emf_feedforward(state, voltage_reference)
 
         # Clip the voltage inputs to the action space
-        self._voltage_reference = self._clipping_stage(state, voltage_reference)
+        voltage_reference = self._clipping_stage(state, voltage_reference)
+        self._voltage_reference = voltage_reference
 
         # Transform the voltages in the correct coordinate system
         if self._coordinate_transformation_required:
-- 
2.43.0


From 0e211f147269b4f9ca1169938e415e24010f33cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 065/102] fix: pass the time constant on in the PID speed
 controller

---
 src/gem_controllers/stages/base_controllers/pid_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index 72d9f8d..4cabde3 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -69,5 +69,5 @@ class PIDController(PIController):
             t_n(float): Time constant of the underlying torque controller.
         """
 
-        super()._tune_speed_controller(env, env_id, a)
+        super()._tune_speed_controller(env, env_id, a, t_n)
         self.d_gain = self.p_gain * self.tau
-- 
2.43.0


From 7aafe0170c837fcfcbafe28173b461186c85c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 066/102] fix: let P controllers be tuned as speed controllers

---
 src/gem_controllers/stages/base_controllers/p_controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/base_controllers/p_controller.py b/src/gem_controllers/stages/base_controllers/p_controller.py
index 57d1f2b..b76b334 100644
--- a/src/gem_controllers/stages/base_controllers/p_controller.py
+++ b/src/gem_controllers/stages/base_controllers/p_controller.py
@@ -80,7 +80,7 @@ class PController(BaseController):
         """
         return self._control(state[self._state_indices], reference)
 
-    def tune(self, env, env_id, a=4):
+    def tune(self, env, env_id, a=4, t_n=None):
         """
         Tune the controller for the desired control task.
 
@@ -88,12 +88,13 @@ class PController(BaseController):
             env(ElectricMotorEnvironment): The GEM-Environment that the controller shall be created for.
             env_id(str): The corresponding environment-id to specify the concrete environment.
             a(float): Design parameter of the symmetrical optimum.
+            t_n(float): Time constant of the underlying controller stage.
         """
 
         if self._control_task == EBaseControllerTask.CurrentControl:
             self._tune_current_controller(env, env_id, a)
         elif self._control_task == EBaseControllerTask.SpeedControl:
-            self._tune_speed_controller(env, env_id, a)
+            self._tune_speed_controller(env, env_id, a, t_n)
         else:
             raise Exception(f"No Tuner available for control task{self._control_task}.")
 
-- 
2.43.0


From 85382d735bd226c35c8700b27beb1b45cc068e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 067/102] fix: let three point controllers be tuned as current
 controllers

---
 src/gem_controllers/pi_current_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/pi_current_controller.py b/src/gem_controllers/pi_current_controller.py
index f9f8f8a..13acb7b 100644
--- a/src/gem_controllers/pi_current_controller.py
+++ b/src/gem_controllers/pi_current_controller.py
@@ -135,7 +135,7 @@ class PICurrentController(gc.CurrentController):
         if self._coordinate_transformation_required:
             self._transformation_stage.tune(env, env_id)
         self._emf_feedforward.tune(env, env_id)
-        self._current_base_controller.tune(env, env_id, a)
+        self._current_base_controller.tune(env, env_id, a=a)
         self._anti_windup_stage.tune(env, env_id)
         self._clipping_stage.tune(env, env_id)
         self._voltage_reference = np.zeros(
-- 
2.43.0


From 72031b9131a3a5c64a4f6606a42ebf512c0b1497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 068/102] fix: let three point controllers be tuned as speed
 controllers

---
 .../stages/base_controllers/three_point_controller.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/base_controllers/three_point_controller.py b/src/gem_controllers/stages/base_controllers/three_point_controller.py
index e20f77d..c711767 100644
--- a/src/gem_controllers/stages/base_controllers/three_point_controller.py
+++ b/src/gem_controllers/stages/base_controllers/three_point_controller.py
@@ -146,9 +146,9 @@ class ThreePointController(BaseController):
             _env_id(str): The corresponding environment-id to specify the concrete environment.
         """
 
-        torque_index = [env.state_names.index("reference")]
+        torque_index = [env.state_names.index("torque")]
         torque_limit = env.limits[torque_index]
-        self.referenced_state_indices = torque_index
+        self.referenced_state_indices = [env.state_names.index("omega")]
         action_range = (
             env.observation_space[0].low[torque_index] * torque_limit,
             env.observation_space[0].high[torque_index] * torque_limit,
-- 
2.43.0


From 35afa155163a788027fc90bb1353e3395ee4077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 069/102] fix: read the current time constant of the
 permanently excited motor as an array

---
 src/gem_controllers/parameter_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 6668b0f..3b9f5dd 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -180,8 +180,10 @@ tau_current_loop_reader = {
         ]
     ),
     "PermExDc": lambda env: np.array(
-        env.physical_system.electrical_motor.motor_parameter["l_a"]
-        / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        [
+            env.physical_system.electrical_motor.motor_parameter["l_a"]
+            / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        ]
     ),
     "PMSM": lambda env: np.array(
         [
-- 
2.43.0


From f1da14f59177c98314c385e84f05568d70579188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 070/102] fix: do not share the flux controller between
 induction motor controllers

---
 .../stages/operation_point_selection/scim_ops.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 16d2707..aa0d95d 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -19,7 +19,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self,
         max_modulation_level: float = 2 / np.sqrt(3),
         modulation_damping: float = 1.2,
-        psi_controller=PIController(control_task="FC"),
+        psi_controller=None,
     ):
         """
         Args:
@@ -40,7 +40,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_sd_count = None
         self.i_sq_count = None
 
-        self.psi_controller = psi_controller
+        self.psi_controller = PIController(control_task="FC") if psi_controller is None else psi_controller
 
     def _psi_opt(self):
         """Calculate the optimal flux for a given torque"""
-- 
2.43.0


From 91d39ec64f87bda6f29e07cf4fc406c36493b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:57 +0000
Subject: [PATCH 071/102] fix: reset the flux limitation state of the
 modulation controller

---
 .../operation_point_selection/foc_operation_point_selection.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/stages/operation_point_selection/foc_operation_point_selection.py b/src/gem_controllers/stages/operation_point_selection/foc_operation_point_selection.py
index ca605cf..28b1816 100644
--- a/src/gem_controllers/stages/operation_point_selection/foc_operation_point_selection.py
+++ b/src/gem_controllers/stages/operation_point_selection/foc_operation_point_selection.py
@@ -149,3 +149,4 @@ class FieldOrientedControllerOperationPointSelection(OperationPointSelection):
     def reset(self):
         """Reset the FOC operation point selcetion stage"""
         self.integrated = self.integrated_reset
+        self.limited = False
-- 
2.43.0


From ddf14ba34f8c05e5b33ef6196a697816cddd7a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 072/102] fix: initialize the stages of newly designed
 controllers

---
 src/gem_controllers/gem_controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index c4cefaa..c60b4b5 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -93,6 +93,7 @@ class GemController:
 
         # Fit the controllers parameters to the environment
         controller.tune(env, env_id, **tuner_kwargs)
+        controller.reset()
 
         if block_diagram:
             controller.build_block_diagram(env_id, save_block_diagram_as)
-- 
2.43.0


From a0b28c51456e8f8d03adfd1deaada22177b41cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 073/102] fix: accept the wrapped environments of gem.make in
 GemController.make

---
 src/gem_controllers/gem_controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index c60b4b5..dd61b4c 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -63,6 +63,8 @@ class GemController:
         Returns:
             GemController: An initialized (and tuned) instance of a controller that fits to the specified environment.
         """
+        # gym-electric-motor environments are wrapped by gymnasium when they are created by their id
+        env = env.unwrapped
         control_task = gc.utils.get_control_task(env_id)
         tuner_kwargs = dict()
 
-- 
2.43.0


From 4920d20e0b418de75a1d2999a51ba5ec52967f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 074/102] fix: no torque instead of nan for fluxes above the
 voltage limit

---
 .../stages/operation_point_selection/scim_ops.py           | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index aa0d95d..6c8b5bf 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -82,8 +82,11 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         for psi_ in psi:
             i_sd = psi_ / self.l_m
             i_sq = np.sqrt(
-                self.nominal_value[self.u_sd_idx] ** 2 / (self.nominal_value[self.omega_idx] ** 2 * self.l_s**2)
-                - i_sd**2
+                max(
+                    self.nominal_value[self.u_sd_idx] ** 2 / (self.nominal_value[self.omega_idx] ** 2 * self.l_s**2)
+                    - i_sd**2,
+                    0.0,
+                )
             )
 
             t = 3 / 2 * self.p * self.l_m / self.l_r * psi_ * i_sq
-- 
2.43.0


From fc255544403a59e4672d7433d96731e529519da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 075/102] fix: maximum current of the PermExDc operation point
 selection

---
 .../stages/operation_point_selection/permex_dc_ops.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
index 6f8e425..5099140 100644
--- a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
@@ -71,7 +71,7 @@ class PermExDcOperationPointSelection(OperationPointSelection):
 
     def _max_current_per_speed(self, state):
         """Calculate the maximum current for a given speed."""
-        return self._voltage_limit / (self._resistance + self._magnetic_flux * abs(state[self._omega_index]))
+        return (self._voltage_limit - self._magnetic_flux * abs(state[self._omega_index])) / self._resistance
 
     def tune(self, env, env_id, current_safety_margin=0.2):
         """
-- 
2.43.0


From 69c7ad08389fbc1b07b3b82159ff2e3e4295772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 076/102] fix: index the MTPF table of the synchronous motors
 by its actual length

---
 .../stages/operation_point_selection/pmsm_ops.py             | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 14a9d1e..430fab1 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -302,9 +302,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
     def _get_psi_idx_mtpf(self, psi):
         """Get the index of the flux of the MTPF lookup table."""
-        return np.clip(
-            int((self.psi_count - 1) - round(psi / self.psi_max_mtpf * (self.psi_count - 1))), 0, self.psi_count
-        )
+        last_idx = len(self.mtpf) // 2 - 1  # the table holds the rows of both signs and may have fewer than psi_count
+        return np.clip(int(last_idx - round(psi / self.psi_max_mtpf * last_idx)), 0, last_idx)
 
     def _get_t_idx_mtpc(self, torque):
         """Get the index of the torque of the mtpc lookup table."""
-- 
2.43.0


From bb7a9f18e5f631048d2fe4386a51a545d773d2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 077/102] fix: invert i_sq only where its sign is taken from
 the torque reference

---
 .../stages/operation_point_selection/pmsm_ops.py         | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 430fab1..701b628 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -347,22 +347,19 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             if self.i_d_inter[t_idx, psi_idx] <= self.mtpf[psi_max_idx, 2]:
                 i_d = self.mtpf[psi_max_idx, 2]
-                i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
+                i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
                 reference = np.sign(reference[0]) * t_max
             else:
                 i_d = self.i_d_inter[t_idx, psi_idx]
                 i_q = self.i_q_inter[t_idx, psi_idx]
                 if i_d > self.mtpc[psi_idx_, 1]:
                     i_d = self.mtpc[psi_idx_, 1]
-                    i_q = np.sign(reference[0]) * np.abs(self.mtpc[psi_idx_, 2])
+                    i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpc[psi_idx_, 2])
 
         # ensure that the mtpf characteristic curve is observed
         if i_d < self.mtpf[psi_max_idx, 2]:
             i_d = self.mtpf[psi_max_idx, 2]
-            i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
-
-        # invert the i_q if necessary
-        i_q = self.invert * i_q
+            i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
 
         return np.array([i_d, i_q])
 
-- 
2.43.0


From 9e13224f5a55aa0d9b52da2f708bab8e7ff4c0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 078/102] fix: advance the abc transformation by the electrical
 angle and the dead time

---
 .../stages/abc_transformation.py              | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/gem_controllers/stages/abc_transformation.py b/src/gem_controllers/stages/abc_transformation.py
index 59d51ec..15da57a 100644
--- a/src/gem_controllers/stages/abc_transformation.py
+++ b/src/gem_controllers/stages/abc_transformation.py
@@ -1,6 +1,7 @@
 import numpy as np
 
 import gem_controllers as gc
+from gym_electric_motor.physical_system_wrappers import DeadTimeProcessor, PhysicalSystemWrapper
 from gym_electric_motor.physical_systems.electric_motors import SynchronousMotor
 
 from .. import parameter_reader as reader
@@ -35,6 +36,7 @@ class AbcTransformation(Stage):
         super().__init__()
         self._tau = 1e-4
         self._advance_factor = 0.5
+        self._p = 1
         self.omega_idx = None
         self.angle_idx = None
         self._output_len = None
@@ -57,8 +59,8 @@ class AbcTransformation(Stage):
         return output
 
     def _angle_advance(self, state):
-        """Multiply the advance factor with the speed and the sampling time to calculate the advance angle"""
-        return state[self.angle_idx] + self._advance_factor * self.tau * state[self.omega_idx]
+        """Multiply the advance factor with the electrical speed and the sampling time to get the advance angle"""
+        return state[self.angle_idx] + self._advance_factor * self.tau * self._p * state[self.omega_idx]
 
     def tune(self, env, env_id, **_):
         """
@@ -73,9 +75,14 @@ class AbcTransformation(Stage):
         else:
             self.angle_idx = env.state_names.index("epsilon")
         self.omega_idx = env.state_names.index("omega")
-        if hasattr(env.physical_system.converter, "dead_time"):
-            self._advance_factor = 1.5 if env.physical_system.converter.dead_time else 0.5
-        else:
-            self._advance_factor = 0.5
+        self._tau = env.physical_system.tau
+        # Half a sampling time for the hold of the action and each step of dead time
+        self._advance_factor = 0.5
+        system = env.physical_system
+        while isinstance(system, PhysicalSystemWrapper):
+            if isinstance(system, DeadTimeProcessor):
+                self._advance_factor += system.dead_time
+            system = system.physical_system
         action_type, _, motor_type = gc.utils.split_env_id(env_id)
+        self._p = reader.p_reader[motor_type](env)
         self._output_len = len(reader.get_output_voltages(motor_type, action_type))
-- 
2.43.0


From 94e5c3788926cdee6a54de55bcea93661b0011a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 079/102] fix: episode length of the first episode in
 control_environment

---
 src/gem_controllers/gem_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index dd61b4c..3e7ee68 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -167,11 +167,11 @@ class GemController:
                 env.render()  # Plot the states
             action = self.control(state, reference)  # Calculate the action
             (state, reference), _, trun, done, _ = env.step(action)  # Simulate one step of the environment
+            current_episode_length = current_episode_length + 1
             if done or trun or current_episode_length >= max_episode_length:
                 # Reset the environment and controller
                 (state, reference), _ = env.reset()
                 self.reset()
                 current_episode_length = 0
-            current_episode_length = current_episode_length + 1
         if self.block_diagram:
             self.block_diagram.close()
-- 
2.43.0


From 3b47b7b506f3177445440601751574e164bd5c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:36 +0000
Subject: [PATCH 080/102] fix: do not drive the flux of the induction machine
 through zero

---
 .../stages/operation_point_selection/scim_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 6c8b5bf..6ab7237 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -182,7 +182,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
         # Control the i_sd current with a PI-Controller
         i_sd_ = self.psi_controller(np.array([psi]), np.array([psi_opt]))
-        i_sd = np.clip(i_sd_, -self.i_sd_limit, self.i_sd_limit)
+        i_sd = np.clip(i_sd_, 0, self.i_sd_limit)  # a negative current would reverse the flux
         if i_sd_ == i_sd:
             self.psi_controller.integrate(np.array([psi]), np.array([psi_opt]))
         i_sd = i_sd[0]
-- 
2.43.0


From 8f565a4ad207b20a2f7a4e61c21f2d7143bf5e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 081/102] fix: partition the ODE buffer before it is in use

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index ff06b55..a37fef8 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -221,9 +221,10 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
             motor_derivative = self._electrical_motor.electrical_ode(motor_state, u_in, state[self._omega_ode_idx])
             torque = self._electrical_motor.torque(motor_state)
             load_derivative = self._mechanical_load.mechanical_ode(t, state[self._load_ode_idx], torque)
-            self._system_eq_placeholder = np.concatenate((load_derivative, motor_derivative))
             self._motor_deriv_size = motor_derivative.size
             self._load_deriv_size = load_derivative.size
+            # At last, so that an interruption leaves no buffer of unknown partition behind
+            self._system_eq_placeholder = np.concatenate((load_derivative, motor_derivative))
         else:
             motor_state = state[self._motor_ode_idx]
             self._system_eq_placeholder[: self._load_deriv_size] = self._mechanical_load.mechanical_ode(
-- 
2.43.0


From 44438e9b2e75aad65106365ea7caa3934e81551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:21 +0000
Subject: [PATCH 082/102] fix: positive torque limit of PMSM and SynRM for
 either saliency

---
 .../electric_motors/permanent_magnet_synchronous_motor.py      | 3 ++-
 .../electric_motors/synchronous_reluctance_motor.py            | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
index c2e098f..0c92be5 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
@@ -127,7 +127,8 @@ class PermanentMagnetSynchronousMotor(SynchronousMotor):
             i_n = self.nominal_values["i"]
             _p = mp["psi_p"] / (2 * (mp["l_d"] - mp["l_q"]))
             _q = -(i_n**2) / 2
-            i_d_opt = -_p / 2 - np.sqrt((_p / 2) ** 2 - _q)
+            # field weakening or strengthening, whichever the reluctance torque needs
+            i_d_opt = -_p / 2 + np.sign(mp["l_d"] - mp["l_q"]) * np.sqrt((_p / 2) ** 2 - _q)
             i_q_opt = np.sqrt(i_n**2 - i_d_opt**2)
             return self.torque([i_d_opt, i_q_opt, 0])
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
index 603b953..b2a8b91 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
@@ -131,7 +131,7 @@ class SynchronousReluctanceMotor(SynchronousMotor):
 
     def _torque_limit(self):
         # Docstring of superclass
-        return self.torque([self._limits["i_sd"] / np.sqrt(2), self._limits["i_sq"] / np.sqrt(2), 0])
+        return abs(self.torque([self._limits["i_sd"] / np.sqrt(2), self._limits["i_sq"] / np.sqrt(2), 0]))
 
     def torque(self, currents):
         # Docstring of superclass
-- 
2.43.0


From 01a2913fbd9b981349472fa2d685845bb8b547f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:48 +0000
Subject: [PATCH 083/102] fix: solve the torque and flux equations of the
 synchronous motors correctly

---
 .../stages/operation_point_selection/pmsm_ops.py       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 701b628..fc8fe2b 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -272,13 +272,19 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * self.psi_p**2
             + 4 * self.l_d * self.psi_p**2 * (self.l_d - self.l_q)
             + (self.psi_p**2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
+            2 * self.l_d * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
             (self.psi_p**2 - psi**2) * self.psi_p**2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
         sol = np.roots(poly)  # Solve the equation
-        i_d = np.real(sol[-1])  # Select the correct solution for the i_sd current
+        # Select the correct solution for the i_sd current: the roots on (or nearest to) the real axis, and of them the
+        # one without field strengthening that needs the least current
+        distance = np.abs(np.imag(sol))
+        i_d = np.real(sol[distance <= np.min(distance) + 1e-6 * np.max(np.abs(sol))])
+        i_d = i_d[i_d <= 0] if np.any(i_d <= 0) else i_d
         i_q = 2 * torque / (3 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d))  # Calculate the i_sq current
+        idx = np.argmin(i_d**2 + i_q**2)
+        i_d, i_q = i_d[idx], i_q[idx]
         return i_d, i_q
 
     def _get_i_d_q(self, torque, psi, psi_idx):
-- 
2.43.0


From 742ad2cb13f3069c9d6e0c6efe30e2fd788d4628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 084/102] fix: use the operating point of the limited torque in
 flux weakening

---
 src/gem_controllers/stages/operation_point_selection/pmsm_ops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index fc8fe2b..5509ed7 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -341,6 +341,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         t_max = np.abs(self.mtpf[psi_max_idx, 1])
         if np.abs(reference) > t_max:
             reference = np.sign(reference) * t_max
+            psi_idx_ = self._get_t_idx_mtpc(reference)
 
         # calculate the currents online
         if self.torque_control_type == "online":
-- 
2.43.0


From 36884170e82fad2eebd7bbb444c14cb7fa5d2681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:18 +0000
Subject: [PATCH 085/102] fix: sign of the MTPC currents of PMSM with l_d above
 l_q

---
 .../stages/operation_point_selection/pmsm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 5509ed7..065d1c3 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -78,7 +78,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                 i_q_ret = i_q
                 i_d_ret = i_d
             else:
-                i_q_ret = np.sign((self.l_q - self.l_d) * t) * np.abs(i_q[min_idx])
+                i_q_ret = self.invert * np.sign(t) * np.abs(i_q[min_idx])
                 i_d_ret = i_d[min_idx]
 
             # The flow is finally calculated from the currents
-- 
2.43.0


From f8e2a7ff524360d6b0ce7b0b794461229c0b6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 086/102] fix: solve the torque and flux equations of the EESM
 correctly

---
 .../stages/operation_point_selection/eesm_ops.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 6361fb2..551af14 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -100,9 +100,9 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * (self.l_m * i_e) ** 2
             + 4 * self.l_d * (self.l_m * i_e) ** 2 * (self.l_d - self.l_q)
             + ((self.l_m * i_e) ** 2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * (self.l_m * i_e) ** 3
+            2 * self.l_d * (self.l_m * i_e) ** 3
             + 2 * ((self.l_m * i_e) ** 2 - psi**2) * self.l_m * i_e * (self.l_d - self.l_q),
-            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * torque / (3 * self.p)) ** 2,
+            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
         self._calculate_luts()
-- 
2.43.0


From d20d8b6131b4961d8710f671b200ff5dada9a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:48 +0000
Subject: [PATCH 087/102] fix: limit the torque of the EESM by the limited flux

---
 .../stages/operation_point_selection/eesm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 551af14..e84c8ca 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -251,7 +251,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
         psi = np.clip(psi_opt, 0, psi_max)
 
-        t_max = self.t_max_psi(psi_opt)
+        t_max = self.t_max_psi(psi)
         t_ref_clip = np.clip(t_ref_clip, 0, t_max)
 
         t_idx = self._get_t_idx(t_ref_clip)
-- 
2.43.0


From 937a7837573661a439b27629aa602f690606adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 088/102] fix: select the flux weakening root below the
 asymptote of the torque hyperbola

---
 .../stages/operation_point_selection/pmsm_ops.py      | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 065d1c3..7fbcd15 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -277,14 +277,15 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         ]
 
         sol = np.roots(poly)  # Solve the equation
-        # Select the correct solution for the i_sd current: the roots on (or nearest to) the real axis, and of them the
-        # one without field strengthening that needs the least current
+        # Of the roots on (or nearest to) the real axis, the correct solution for the i_sd current is the greatest one below
+        # the asymptote of the torque hyperbola
         distance = np.abs(np.imag(sol))
         i_d = np.real(sol[distance <= np.min(distance) + 1e-6 * np.max(np.abs(sol))])
-        i_d = i_d[i_d <= 0] if np.any(i_d <= 0) else i_d
+        if self.l_q > self.l_d or self.psi_p == 0:
+            below = i_d < 0.999 * self.psi_p / (self.l_q - self.l_d)
+            i_d = i_d[below] if np.any(below) else i_d
+        i_d = np.max(i_d)
         i_q = 2 * torque / (3 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d))  # Calculate the i_sq current
-        idx = np.argmin(i_d**2 + i_q**2)
-        i_d, i_q = i_d[idx], i_q[idx]
         return i_d, i_q
 
     def _get_i_d_q(self, torque, psi, psi_idx):
-- 
2.43.0


From e352f17e68ef89d8ec93e401327e422de0d2ce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 089/102] fix: MTPC table of the PMSM without saliency

---
 .../stages/operation_point_selection/pmsm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 7fbcd15..d3d9fae 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -73,11 +73,11 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             # Different current vectors are determined for each reference and the smallest magnitude is selected
             i = np.power(i_d, 2) + np.power(i_q, 2)
-            min_idx = np.where(i == np.amin(i))[0][0]
             if self.l_d == self.l_q:
                 i_q_ret = i_q
                 i_d_ret = i_d
             else:
+                min_idx = np.argmin(i)
                 i_q_ret = self.invert * np.sign(t) * np.abs(i_q[min_idx])
                 i_d_ret = i_d[min_idx]
 
-- 
2.43.0


From 5617866df5986cd4c51f0af8929a4cc1fae892f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:34 +0000
Subject: [PATCH 090/102] fix: MTPF table of the PMSM holds the maximum torque
 up to each flux

---
 .../stages/operation_point_selection/pmsm_ops.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index d3d9fae..1a4654a 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -123,8 +123,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                     i_q = i_q[i_idx]
                     torque = 1.5 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d_) * i_q
 
-                    # choose the maximum reference
-                    if np.size(torque) > 0:
+                    # choose the maximum reference that needs at most this flux
+                    if np.size(torque) > 0 and np.amax(torque) > t:
                         t = np.amax(torque)
                         i_idx = np.where(torque == t)[0][0]
                         i_d_best = i_d_[i_idx]
-- 
2.43.0


From 5d424fec8a93084fa04f19a423c6a79aa2a587dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:09 +0000
Subject: [PATCH 091/102] fix: flux weakening of the SynRM along the maximum
 torque per flux

---
 .../operation_point_selection/pmsm_ops.py     | 51 +++++++++----------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 1a4654a..0999aac 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -106,29 +106,24 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                 psi_i_d_q.append([psi_, t, i_d_, i_q])
 
             else:
-                if self.psi_p == 0:
-                    i_q_best = psi_ / np.sqrt(self.l_d**2 + self.l_q**2)
-                    i_d_best = -i_q_best
-                    t = 1.5 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d_best) * i_q_best
-                else:
-                    i_d_idx = np.where(psi_**2 - np.power(self.psi_p + self.l_d * i_d, 2) >= 0)
-                    i_d_ = i_d[i_d_idx]
-
-                    # calculate all possible i_q currents for i_d currents
-                    i_q = np.sqrt(psi_**2 - np.power(self.psi_p + self.l_d * i_d_, 2)) / self.l_q
-                    i_idx = np.where(
-                        np.sqrt(np.power(i_q / self.i_sq_limit, 2) + np.power(i_d_ / self.i_sd_limit, 2)) <= 1
-                    )
-                    i_d_ = i_d_[i_idx]
-                    i_q = i_q[i_idx]
-                    torque = 1.5 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d_) * i_q
-
-                    # choose the maximum reference that needs at most this flux
-                    if np.size(torque) > 0 and np.amax(torque) > t:
-                        t = np.amax(torque)
-                        i_idx = np.where(torque == t)[0][0]
-                        i_d_best = i_d_[i_idx]
-                        i_q_best = i_q[i_idx]
+                i_d_idx = np.where(psi_**2 - np.power(self.psi_p + self.l_d * i_d, 2) >= 0)
+                i_d_ = i_d[i_d_idx]
+
+                # calculate all possible i_q currents for i_d currents
+                i_q = np.sqrt(psi_**2 - np.power(self.psi_p + self.l_d * i_d_, 2)) / self.l_q
+                i_idx = np.where(
+                    np.sqrt(np.power(i_q / self.i_sq_limit, 2) + np.power(i_d_ / self.i_sd_limit, 2)) <= 1
+                )
+                i_d_ = i_d_[i_idx]
+                i_q = i_q[i_idx]
+                torque = 1.5 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d_) * self.invert * i_q
+
+                # choose the maximum reference that needs at most this flux
+                if np.size(torque) > 0 and np.amax(torque) > t:
+                    t = np.amax(torque)
+                    i_idx = np.where(torque == t)[0][0]
+                    i_d_best = i_d_[i_idx]
+                    i_q_best = i_q[i_idx]
                 if np.sqrt(i_d_best**2 + i_q_best**2) <= self.i_sq_limit:
                     psi_i_d_q.append([psi_, t, i_d_best, i_q_best])
 
@@ -277,14 +272,14 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         ]
 
         sol = np.roots(poly)  # Solve the equation
-        # Of the roots on (or nearest to) the real axis, the correct solution for the i_sd current is the greatest one below
-        # the asymptote of the torque hyperbola
+        # Of the roots on (or nearest to) the real axis, the correct solution for the i_sd current is the one below the
+        # asymptote of the torque hyperbola that is nearest to the maximum torque per current
         distance = np.abs(np.imag(sol))
         i_d = np.real(sol[distance <= np.min(distance) + 1e-6 * np.max(np.abs(sol))])
         if self.l_q > self.l_d or self.psi_p == 0:
             below = i_d < 0.999 * self.psi_p / (self.l_q - self.l_d)
             i_d = i_d[below] if np.any(below) else i_d
-        i_d = np.max(i_d)
+        i_d = self.invert * np.max(self.invert * i_d)
         i_q = 2 * torque / (3 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d))  # Calculate the i_sq current
         return i_d, i_q
 
@@ -292,7 +287,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         """Get the i_d and i_q current from the MTPC lut"""
 
         i_d, i_q = self.solve_analytical(torque, psi)
-        if i_d > self.mtpc[psi_idx, 1]:
+        if self.invert * i_d > self.invert * self.mtpc[psi_idx, 1]:
             i_d = self.mtpc[psi_idx, 1]
             i_q = self.mtpc[psi_idx, 2]
         return i_d, i_q
@@ -365,7 +360,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                     i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpc[psi_idx_, 2])
 
         # ensure that the mtpf characteristic curve is observed
-        if i_d < self.mtpf[psi_max_idx, 2]:
+        if self.invert * i_d < self.invert * self.mtpf[psi_max_idx, 2]:
             i_d = self.mtpf[psi_max_idx, 2]
             i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
 
-- 
2.43.0


From 66b9458a3cb1e603f164c12b0dbc18f63cd0b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:48 +0000
Subject: [PATCH 092/102] fix: current control of the SCIM uses the leakage
 inductance of the stator

---
 src/gem_controllers/parameter_reader.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 3b9f5dd..afd1dc9 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -72,15 +72,29 @@ l_reader = {
     "SCIM": lambda env: np.array(
         [
             (
+                env.physical_system.electrical_motor.motor_parameter["l_sigs"]
+                * env.physical_system.electrical_motor.motor_parameter["l_sigr"]
+                + env.physical_system.electrical_motor.motor_parameter["l_sigs"]
+                * env.physical_system.electrical_motor.motor_parameter["l_m"]
+                + env.physical_system.electrical_motor.motor_parameter["l_sigr"]
+                * env.physical_system.electrical_motor.motor_parameter["l_m"]
+            )
+            / (
                 env.physical_system.electrical_motor.motor_parameter["l_sigr"]
                 + env.physical_system.electrical_motor.motor_parameter["l_m"]
-            )
-            / env.physical_system.electrical_motor.motor_parameter["r_r"],
+            ),
             (
+                env.physical_system.electrical_motor.motor_parameter["l_sigs"]
+                * env.physical_system.electrical_motor.motor_parameter["l_sigr"]
+                + env.physical_system.electrical_motor.motor_parameter["l_sigs"]
+                * env.physical_system.electrical_motor.motor_parameter["l_m"]
+                + env.physical_system.electrical_motor.motor_parameter["l_sigr"]
+                * env.physical_system.electrical_motor.motor_parameter["l_m"]
+            )
+            / (
                 env.physical_system.electrical_motor.motor_parameter["l_sigr"]
                 + env.physical_system.electrical_motor.motor_parameter["l_m"]
-            )
-            / env.physical_system.electrical_motor.motor_parameter["r_r"],
+            ),
         ]
     ),
     "EESM": lambda env: np.array(
-- 
2.43.0


From a40d2b0229bdfb603501b5087293e55e1b229d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:04 +0000
Subject: [PATCH 093/102] fix: EMF feedforward of the SCIM works with the
 electrical speed

---
 src/gem_controllers/stages/emf_feedforward_ind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/emf_feedforward_ind.py b/src/gem_controllers/stages/emf_feedforward_ind.py
index 6b2c64b..f822b51 100644
--- a/src/gem_controllers/stages/emf_feedforward_ind.py
+++ b/src/gem_controllers/stages/emf_feedforward_ind.py
@@ -30,7 +30,7 @@ class EMFFeedforwardInd(EMFFeedforward):
         """
 
         # Calculate the stator angular velocity
-        omega_s = state[self.omega_idx] + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
+        omega_s = self.omega_el(state) + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
             np.abs(state[self.psi_abs_idx]), 1e-4
         ) * np.sign(state[self.psi_abs_idx])
 
@@ -38,7 +38,7 @@ class EMFFeedforwardInd(EMFFeedforward):
         action = (
             reference
             + omega_s * self.inductance * state[self.current_indices]
-            + np.array([-self.l_m * self.r_r / (self.l_r**2), state[self.omega_idx] * self.l_m / self.l_r])
+            + np.array([-self.l_m * self.r_r / (self.l_r**2), self.omega_el(state) * self.l_m / self.l_r])
             * state[self.psi_abs_idx]
         )
 
-- 
2.43.0


From 65d0bfaadd9402e52b7e8f2d61dff5af2be784d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:20 +0000
Subject: [PATCH 094/102] fix: decoupling of the EESM excitation current

---
 src/gem_controllers/parameter_reader.py            |  3 ++-
 src/gem_controllers/stages/emf_feedforward_eesm.py | 11 +++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index afd1dc9..ca8dd2a 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -159,7 +159,8 @@ l_emf_reader = {
         [
             -env.physical_system.electrical_motor.motor_parameter["l_q"],
             env.physical_system.electrical_motor.motor_parameter["l_d"],
-            env.physical_system.electrical_motor.motor_parameter["l_m"]
+            1.5
+            * env.physical_system.electrical_motor.motor_parameter["l_m"]
             * env.physical_system.electrical_motor.motor_parameter["l_q"]
             / env.physical_system.electrical_motor.motor_parameter["l_d"],
         ]
diff --git a/src/gem_controllers/stages/emf_feedforward_eesm.py b/src/gem_controllers/stages/emf_feedforward_eesm.py
index 83f1013..9f0403f 100644
--- a/src/gem_controllers/stages/emf_feedforward_eesm.py
+++ b/src/gem_controllers/stages/emf_feedforward_eesm.py
@@ -14,6 +14,7 @@ class EMFFeedforwardEESM(EMFFeedforward):
         self._i_e_idx = None
         self._decoupling_params = None
         self._action_decoupling = None
+        self._leakage = None
         self._currents_idx = None
         self._action_idx = None
 
@@ -30,8 +31,8 @@ class EMFFeedforwardEESM(EMFFeedforward):
         """
 
         self.psi = np.array([0, self._l_m * state[self._i_e_idx], 0])
-        action = super().__call__(state, reference)
-        action = action + self._decoupling_params * state[self._currents_idx]
+        compensation = super().__call__(state, np.zeros(3)) + self._decoupling_params * state[self._currents_idx]
+        action = reference + compensation / self._leakage
         action = action + self._action_decoupling * action[self._action_idx]
         return action
 
@@ -53,7 +54,9 @@ class EMFFeedforwardEESM(EMFFeedforward):
 
         self._l_m = l_m
         self._i_e_idx = env.state_names.index("i_e")
-        self._decoupling_params = np.array([-l_m * r_e / l_e, 0, -l_m * r_s / l_d])
-        self._action_decoupling = np.array([l_m / l_e, 0, l_m / l_d])
+        self._decoupling_params = np.array([-l_m * r_e / l_e, 0, -1.5 * l_m * r_s / l_d])
+        self._action_decoupling = np.array([l_m / l_e, 0, 1.5 * l_m / l_d])
+        sigma = 1 - 1.5 * l_m**2 / (l_d * l_e)
+        self._leakage = np.array([sigma, 1, sigma])
         self._currents_idx = [env.state_names.index("i_e"), 0, env.state_names.index("i_sd")]
         self._action_idx = [2, 1, 0]
-- 
2.43.0


From c0eb6bef89d512cbb7142cccd979b67ef0fe72eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:33 +0000
Subject: [PATCH 095/102] fix: axis of the violation plot grows with the
 violations

---
 .../cumulative_constraint_violation_plot.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
index bedfe05..c34f2ec 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
@@ -34,5 +34,5 @@ class CumulativeConstraintViolationPlot(StepPlot):
 
     def _scale_y_axis(self):
         # Read the limit before writing, because reading is fast, but writing is slow
-        if self._axis.get_xlim() != (-1, self._no_of_violations + 1):
+        if self._axis.get_ylim() != (-1, self._no_of_violations + 1):
             self._axis.set_ylim(-1, self._no_of_violations + 1)
-- 
2.43.0


From 2ccf558eb95674ae1d477140470ca778e2aba991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:12 +0000
Subject: [PATCH 096/102] fix: space of the supply voltage of the AC drives
 follows the supply

---
 .../physical_systems/physical_systems.py             | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index a37fef8..42665a3 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -439,8 +439,9 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
     def _build_state_space(self, state_names):
         # Docstring of superclass
         low = -1 * np.ones_like(state_names, dtype=float)
-        low[self.U_SUP_IDX] = 0.0
+        low[self.U_SUP_IDX] = min(self._supply.supply_range[0], 0.0) / self._supply.u_nominal
         high = np.ones_like(state_names, dtype=float)
+        high[self.U_SUP_IDX] = self._supply.supply_range[1] / self._supply.u_nominal
         return Box(low, high, dtype=np.float64)
 
     def _build_state_names(self):
@@ -569,8 +570,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
     def _build_state_space(self, state_names):
         # Docstring of superclass
         low = -1 * np.ones_like(state_names, dtype=float)
-        low[self.U_SUP_IDX] = 0.0
+        low[self.U_SUP_IDX] = min(self._supply.supply_range[0], 0.0) / self._supply.u_nominal
         high = np.ones_like(state_names, dtype=float)
+        high[self.U_SUP_IDX] = self._supply.supply_range[1] / self._supply.u_nominal
         return Box(low, high, dtype=np.float64)
 
     def _build_state_names(self):
@@ -714,8 +716,9 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
     def _build_state_space(self, state_names):
         # Docstring of superclass
         low = -1 * np.ones_like(state_names, dtype=float)
-        low[self.U_SUP_IDX] = 0.0
+        low[self.U_SUP_IDX] = min(self._supply.supply_range[0], 0.0) / self._supply.u_nominal
         high = np.ones_like(state_names, dtype=float)
+        high[self.U_SUP_IDX] = self._supply.supply_range[1] / self._supply.u_nominal
         return Box(low, high, dtype=np.float64)
 
     def _build_state_names(self):
@@ -885,8 +888,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
     def _build_state_space(self, state_names):
         # Docstring of superclass
         low = -1 * np.ones_like(state_names, dtype=float)
-        low[self.U_SUP_IDX] = 0.0
+        low[self.U_SUP_IDX] = min(self._supply.supply_range[0], 0.0) / self._supply.u_nominal
         high = np.ones_like(state_names, dtype=float)
+        high[self.U_SUP_IDX] = self._supply.supply_range[1] / self._supply.u_nominal
         return Box(low, high, dtype=np.float64)
 
     def _build_state_names(self):
-- 
2.43.0


From ececdeedf9a14c396cc66215cff25db8e7518113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:35 +0000
Subject: [PATCH 097/102] fix: normally distributed starts with a mean of zero

---
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 6347b46..0b97be6 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -241,7 +241,7 @@ class ElectricMotor(RandomComponent):
 
             elif random_dist in ["normal", "gaussian"]:
                 # specific input or middle of interval
-                mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
+                mue = (upper_bound - lower_bound) / 2 + lower_bound if random_params[0] is None else random_params[0]
                 sigma = random_params[1] or 1
                 # States whose bounds coincide (e.g. the flux without magnetizing current) cannot be drawn.
                 fixed = lower_bound == upper_bound
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index 41cbade..29b364f 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -142,7 +142,7 @@ class MechanicalLoad(RandomComponent):
 
             elif random_dist in ["normal", "gaussian"]:
                 # specific input or middle of interval
-                mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
+                mue = (upper_bound - lower_bound) / 2 + lower_bound if random_params[0] is None else random_params[0]
                 sigma = random_params[1] or 1
                 a = (lower_bound - mue) / sigma
                 b = (upper_bound - mue) / sigma
-- 
2.43.0


From 00ea1069f66d5c6fb688249fb049038714b651de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:45 +0000
Subject: [PATCH 098/102] fix: one infinite mean reward hides the finite mean
 rewards of later episodes

---
 .../motor_dashboard_plots/mean_episode_reward_plot.py      | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index d62db7e..a31c8b9 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -42,10 +42,9 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         # There is no mean reward, if the environment was reset without taking any step.
         mean_reward = self._reward_sum / self._episode_length if self._episode_length > 0 else np.nan
         self._reward_data.append(mean_reward)
-        if self._reward_range[0] > mean_reward:
-            self._reward_range[0] = mean_reward
-        if self._reward_range[1] < mean_reward:
-            self._reward_range[1] = mean_reward
+        if np.isfinite(mean_reward):
+            self._reward_range[0] = min(self._reward_range[0], mean_reward)
+            self._reward_range[1] = max(self._reward_range[1], mean_reward)
         self._reset = True
 
     def _scale_y_axis(self):
-- 
2.43.0


From 4ff2feb7d32d023ccf083f0a0ec43daaaa04c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:32 +0000
Subject: [PATCH 099/102] fix: label the maximum armature and excitation
 current references with valid math text

---
 src/gem_controllers/reference_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/reference_plotter.py b/src/gem_controllers/reference_plotter.py
index 76c892c..61753bb 100644
--- a/src/gem_controllers/reference_plotter.py
+++ b/src/gem_controllers/reference_plotter.py
@@ -50,7 +50,7 @@ class ReferencePlotter:
             for plot in self._referenced_plots:
                 if plot.state in ["i_e", "i_a", "i"] and plot.state in self._maximum_reference.keys():
                     label = dict(
-                        i="$i^*$$_{\mathrm{ max}}$", i_a="$i^*_{a}$$_\mathrm{ max}}$", i_e="$i^*_{e}$$_\mathrm{ max}}$"
+                        i="$i^*$$_{\mathrm{ max}}$", i_a="$i^*_{a}$$_{\mathrm{ max}}$", i_e="$i^*_{e}$$_{\mathrm{ max}}$"
                     )
                     plot._axis.axhline(self._maximum_reference[plot.state][0], c="g", linewidth=0.75, linestyle="--")
                     plot._axis.axhline(self._maximum_reference[plot.state][1], c="g", linewidth=0.75, linestyle="--")
-- 
2.43.0


From 206849d9696262afe9a879ba5daace8700e37508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:47 +0000
Subject: [PATCH 100/102] fix: let plot_references of GemController.make reach
 the reference plotter

---
 src/gem_controllers/gem_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/gem_adapter.py b/src/gem_controllers/gem_adapter.py
index 4ed6628..09c1769 100644
--- a/src/gem_controllers/gem_adapter.py
+++ b/src/gem_controllers/gem_adapter.py
@@ -112,7 +112,7 @@ class GymElectricMotorAdapter(GemController):
         self._reference_plotter.tune(
             env,
             self._controller.referenced_states,
-            plot_references=True,
+            plot_references=kwargs.get("plot_references", True),
             maximum_reference=self._controller.maximum_reference,
         )
 
-- 
2.43.0


From 7290dc89964cbb43105b5628ffc2f5d7deb49756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:54 +0000
Subject: [PATCH 101/102] fix: control with should_plot before the dashboard
 has been rendered

---
 src/gem_controllers/reference_plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/reference_plotter.py b/src/gem_controllers/reference_plotter.py
index 61753bb..1b706ab 100644
--- a/src/gem_controllers/reference_plotter.py
+++ b/src/gem_controllers/reference_plotter.py
@@ -46,7 +46,8 @@ class ReferencePlotter:
             references(np.ndarray): Array of all reference values of the subordinate stages.
         """
 
-        if not self._maximum_reference_set:
+        # The plots have no axis until the figures have been initialized with the first rendering
+        if not self._maximum_reference_set and all(plot._axis is not None for plot in self._referenced_plots):
             for plot in self._referenced_plots:
                 if plot.state in ["i_e", "i_a", "i"] and plot.state in self._maximum_reference.keys():
                     label = dict(
-- 
2.43.0


From 58da87883779ef0e3617b570c116ee1bc127bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:34 +0000
Subject: [PATCH 102/102] fix: keep periodic references with asymmetric margins
 from being cut off

---
 .../reference_generators/sawtooth_reference_generator.py        | 2 +-
 .../reference_generators/sinusoidal_reference_generator.py      | 2 +-
 .../reference_generators/triangle_reference_generator.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
index 0a6856a..a7740d1 100644
--- a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
@@ -44,7 +44,7 @@ class SawtoothReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
index 10afba4..ce309ca 100644
--- a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
@@ -47,7 +47,7 @@ class SinusoidalReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
index 32fb3b3..98181d4 100644
--- a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
@@ -50,7 +50,7 @@ class TriangularReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
-- 
2.43.0


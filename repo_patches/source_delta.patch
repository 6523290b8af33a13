From 56e4ac036b2563995fe4162c4d136104435bb0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 01/32] fix: stamp an updated interaction with the time of the
 update, not of the import

---
 sawatabi/model/logical_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f528bda..cf98f42 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -206,12 +206,14 @@ class LogicalModel(AbstractModel):
         coefficient=None,
         scale=None,
         attributes=None,
-        timestamp=current_time(),
+        timestamp=None,
     ):
         if (not target) and (not name):
             raise ValueError("Either 'target' or 'name' must be specified.")
         if target and name:
             raise ValueError("Both 'target' and 'name' cannot be specified simultaneously.")
+        if timestamp is None:
+            timestamp = current_time()
 
         if coefficient is not None:
             self._check_argument_type("coefficient", coefficient, numbers.Number)
@@ -219,8 +221,7 @@ class LogicalModel(AbstractModel):
             self._check_argument_type("scale", scale, numbers.Number)
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
-        if timestamp is not None:
-            self._check_argument_type("timestamp", timestamp, (int, float))
+        self._check_argument_type("timestamp", timestamp, (int, float))
 
         if target is not None:
             interaction_info = self._get_interaction_info_from_target(target)
-- 
2.43.0


From 4a6f13ca566c63d2816bd05bf01320858e2e3a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 02/32] fix: register attribute keys introduced by
 update_interaction

---
 sawatabi/model/logical_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index cf98f42..c853e05 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -256,6 +256,7 @@ class LogicalModel(AbstractModel):
                 attrs_key = f"attributes.{k}"
                 if attrs_key not in self._interactions_array:
                     self._interactions_array[attrs_key] = [np.nan] * self._interactions_length
+                    self._interactions_attrs.append(attrs_key)
                 self._interactions_array[attrs_key][update_idx] = v
         self._interactions_array["timestamp"][update_idx] = timestamp
         self._interactions_array["dirty"][update_idx] = True
-- 
2.43.0


From 010e6dce93ff5045d03292fa6005108e46afef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 03/32] fix: keep the attributes when updating a missing
 interaction adds it

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index c853e05..0761115 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -239,7 +239,7 @@ class LogicalModel(AbstractModel):
                 warnings.warn(f"An interaction named '{internal_name}' does not exist yet in the model, but will be added instead of updating it.")
                 _coefficient = 0.0 if coefficient is None else coefficient
                 _scale = 1.0 if scale is None else scale
-                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, timestamp=timestamp)
+                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, attributes=attributes, timestamp=timestamp)
 
         if self._is_removed(internal_name):
             raise ValueError(f"An interaction named '{internal_name}' is already removed.")
-- 
2.43.0


From 8a896c0ff758a09e5cf6a8b8cc1a6628fc4d4543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 04/32] fix: delete a variable from exactly those constraints
 which have it

---
 sawatabi/model/constraint/abstract_constraint.py        | 6 ++++++
 sawatabi/model/constraint/equality_constraint.py        | 4 ++++
 sawatabi/model/constraint/n_hot_constraint.py           | 3 +++
 sawatabi/model/constraint/zero_or_one_hot_constraint.py | 3 +++
 sawatabi/model/logical_model.py                         | 4 ++--
 5 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index 7197ea2..5b5cad9 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -44,6 +44,12 @@ class AbstractConstraint(BaseMixin):
             variables = [variables]
         return set(variables)
 
+    def discard_variable(self, label):
+        """
+        Drops the variable with the given label if the constraint has it (whichever type the variable is).
+        """
+        raise NotImplementedError("#{self.class}##{__method__} must be implemented.")
+
     def get_constraint_class(self):
         return self._constraint_class
 
diff --git a/sawatabi/model/constraint/equality_constraint.py b/sawatabi/model/constraint/equality_constraint.py
index 91a13a2..df265fa 100644
--- a/sawatabi/model/constraint/equality_constraint.py
+++ b/sawatabi/model/constraint/equality_constraint.py
@@ -54,6 +54,10 @@ class EqualityConstraint(AbstractConstraint):
                 raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
         self._variables_2 = self._variables_2.difference(variables_set)
 
+    def discard_variable(self, label):
+        self._variables_1 = {v for v in self._variables_1 if v.label != label}
+        self._variables_2 = {v for v in self._variables_2 if v.label != label}
+
     def get_variables_1(self):
         return self._variables_1
 
diff --git a/sawatabi/model/constraint/n_hot_constraint.py b/sawatabi/model/constraint/n_hot_constraint.py
index 91b437d..f9366ef 100644
--- a/sawatabi/model/constraint/n_hot_constraint.py
+++ b/sawatabi/model/constraint/n_hot_constraint.py
@@ -44,6 +44,9 @@ class NHotConstraint(AbstractConstraint):
                 raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
         self._variables = self._variables.difference(variables_set)
 
+    def discard_variable(self, label):
+        self._variables = {v for v in self._variables if v.label != label}
+
     def get_variables(self):
         return self._variables
 
diff --git a/sawatabi/model/constraint/zero_or_one_hot_constraint.py b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
index 5bcea72..b6ce49b 100644
--- a/sawatabi/model/constraint/zero_or_one_hot_constraint.py
+++ b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
@@ -44,6 +44,9 @@ class ZeroOrOneHotConstraint(AbstractConstraint):
                 raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
         self._variables = self._variables.difference(variables_set)
 
+    def discard_variable(self, label):
+        self._variables = {v for v in self._variables if v.label != label}
+
     def get_variables(self):
         return self._variables
 
diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 0761115..78aea14 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -362,8 +362,8 @@ class LogicalModel(AbstractModel):
         self._deleted[target.label] = True
 
         # Deal with constraints
-        for k, v in self.get_constraints().items():
-            v.remove_variable(variables=target)
+        for constraint in self.get_constraints().values():
+            constraint.discard_variable(target.label)
 
         # Remove related interations
         removed = self.select_interactions_by_variable(target)
-- 
2.43.0


From 2d5f4ae3281b6dc4c3ca4ee54460cdc8bc0354d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 05/32] fix: ignore logically removed interactions when fixing
 a variable

---
 sawatabi/model/logical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 78aea14..3f6b9ce 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -390,8 +390,8 @@ class LogicalModel(AbstractModel):
         # TODO: Delete variable physically
         self._fixed[target.label] = True
 
-        # Update related interations
-        selected = self.select_interactions_by_variable(target)
+        # Update related interations (except for ones already removed logically)
+        selected = [s for s in self.select_interactions_by_variable(target) if not self._is_removed(s)]
 
         if len(selected) <= 0:
             warnings.warn("No interactions updated.")
-- 
2.43.0


From 75e5728dc26591ebbdd0574c6e090bda1a98a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:02 +0000
Subject: [PATCH 06/32] fix: apply fixed variables to the constraints as well

---
 sawatabi/model/logical_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 3f6b9ce..151fbdd 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -388,7 +388,7 @@ class LogicalModel(AbstractModel):
                 raise ValueError("'value' must be one of [1, 0] because the model is a QUBO model.")
 
         # TODO: Delete variable physically
-        self._fixed[target.label] = True
+        self._fixed[target.label] = value
 
         # Update related interations (except for ones already removed logically)
         selected = [s for s in self.select_interactions_by_variable(target) if not self._is_removed(s)]
@@ -518,6 +518,11 @@ class LogicalModel(AbstractModel):
         # Resolve constraints, and convert them to the interactions
         for label, constraint in self._constraints.items():
             constraint_model = constraint.to_model()
+            # Apply the fixed variables to the constraint as well (note that constraint models are always QUBO)
+            for fixed_label, fixed_value in self._fixed.items():
+                fixed_variable = pyqubo.Binary(fixed_label)
+                if len(constraint_model.select_interactions_by_variable(fixed_variable)) > 0:
+                    constraint_model.fix_variable(fixed_variable, 1 if fixed_value == 1 else 0)
             self.merge(constraint_model)
 
         # group by key
-- 
2.43.0


From 5000bc7ba70fec304fd75a75770206cf1ff67267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:48 +0000
Subject: [PATCH 07/32] fix: import PyQUBO expressions into an Ising model with
 Ising coefficients

---
 sawatabi/model/logical_model.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 151fbdd..f7c4b7d 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -465,6 +465,9 @@ class LogicalModel(AbstractModel):
         compiled_qubo = pyqubo_model.compiled_qubo
         structure = pyqubo_model.structure
 
+        offset = compiled_qubo.offset
+        ising_linear = {}
+
         for k, v in compiled_qubo.qubo.items():
             # For the first variable.
             # - structure[k[0]][0] holds the variable name,
@@ -484,14 +487,29 @@ class LogicalModel(AbstractModel):
             else:
                 coeff *= -1
 
-            if k[0] == k[1]:
+            if self._mtype == constants.MODEL_ISING:
+                # PyQUBO compiles to a QUBO, so we need to replace its binary variables by x = (s+1)/2
+                if isinstance(coeff, pyqubo.Coefficient):
+                    raise ValueError("PyQUBO model with placeholders cannot be imported to an Ising model.")
+                if k[0] == k[1]:
+                    factor = 0.5
+                else:
+                    factor = 0.25
+                    ising_linear[target_1] = ising_linear.get(target_1, 0.0) + coeff * factor
+                    self.add_interaction(target=(target_0, target_1), coefficient=coeff * factor)
+                ising_linear[target_0] = ising_linear.get(target_0, 0.0) + coeff * factor
+                offset -= coeff * factor
+            elif k[0] == k[1]:
                 # 1-body
                 self.add_interaction(target=target_0, coefficient=coeff)
             else:
                 # 2-body
                 self.add_interaction(target=(target_0, target_1), coefficient=coeff)
 
-        self._offset = compiled_qubo.offset
+        for target, coeff in ising_linear.items():
+            self.add_interaction(target=target, coefficient=coeff)
+
+        self._offset = offset
 
     ################################
     # Converts
-- 
2.43.0


From 7a498937bf2c6b69a66d714f2d151bcbea2649a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:48 +0000
Subject: [PATCH 08/32] fix: allow placeholders on update as on add, which the
 model type conversions rely on

---
 sawatabi/model/logical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f7c4b7d..e74faa8 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -216,9 +216,9 @@ class LogicalModel(AbstractModel):
             timestamp = current_time()
 
         if coefficient is not None:
-            self._check_argument_type("coefficient", coefficient, numbers.Number)
+            self._check_argument_type("coefficient", coefficient, (numbers.Number, pyqubo.core.Express, pyqubo.core.Coefficient))
         if scale is not None:
-            self._check_argument_type("scale", scale, numbers.Number)
+            self._check_argument_type("scale", scale, (numbers.Number, pyqubo.core.Express))
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
         self._check_argument_type("timestamp", timestamp, (int, float))
-- 
2.43.0


From c4def709f830942d9b78b552d94b0625db4e88fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:48 +0000
Subject: [PATCH 09/32] fix: take the scale into account when converting the
 model type

---
 sawatabi/model/logical_model.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index e74faa8..95cd190 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -746,7 +746,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 0.5)
-                self._offset += coeff * 0.5
+                self._offset += coeff * h["scale"] * 0.5
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -754,12 +754,18 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=coeff * 0.25)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][0],
+                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=coeff * 0.25,
+                    scale=J["scale"],
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][1],
+                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=coeff * 0.25,
+                    scale=J["scale"],
                 )
-                self._offset += coeff * 0.25
+                self._offset += coeff * J["scale"] * 0.25
         else:
             warnings.warn("The model is already an Ising model.")
 
@@ -781,7 +787,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 2.0)
-                self._offset -= coeff
+                self._offset -= coeff * h["scale"]
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -789,12 +795,18 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][0],
+                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=-coeff * 2.0,
+                    scale=J["scale"],
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][1],
+                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=-coeff * 2.0,
+                    scale=J["scale"],
                 )
-                self._offset += coeff
+                self._offset += coeff * J["scale"]
         else:
             warnings.warn("The model is already a QUBO model.")
 
-- 
2.43.0


From 0f980393c25f02142d04d68caecbd98e83c8084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:48 +0000
Subject: [PATCH 10/32] fix: never generate an interaction name which is
 already used in the model

---
 sawatabi/model/logical_model.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 95cd190..1b00d88 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -339,6 +339,18 @@ class LogicalModel(AbstractModel):
     def _has_name(self, internal_name):
         return internal_name in self._interactions_array["name"]
 
+    def _get_unique_name(self, name, used=None):
+        """
+        Returns the name itself if it is not used yet, otherwise the name with the first free counter.
+        """
+        if used is None:
+            used = self._interactions_array["name"]
+        unique_name, counter = name, 1
+        while unique_name in used:
+            counter += 1
+            unique_name = f"{name} #{counter}"
+        return unique_name
+
     def _is_removed(self, internal_name):
         idx = self._interactions_array["name"].index(internal_name)
         return self._interactions_array["removed"][idx]
@@ -416,7 +428,7 @@ class LogicalModel(AbstractModel):
                         interacts_to = interacts[1]
                     elif interacts[1].label == target.label:
                         interacts_to = interacts[0]
-                    new_name = f"{interacts_to.label} (before fixed: {s})"
+                    new_name = self._get_unique_name(f"{interacts_to.label} (before fixed: {s})")
                     new_coefficient = value * self._interactions_array["coefficient"][idx] * self._interactions_array["scale"][idx]
                     self.add_interaction(target=interacts_to, name=new_name, coefficient=new_coefficient)
                     self.remove_interaction(name=s)
@@ -669,7 +681,8 @@ class LogicalModel(AbstractModel):
                 merged_interactions_with_duplication[attr] = self._interactions_array[attr] + ([np.nan] * other._interactions_length)
             elif attr in other._interactions_attrs:
                 merged_interactions_with_duplication[attr] = ([np.nan] * self._interactions_length) + other._interactions_array[attr]
-        duplicate_names = list(set(self._interactions_array["name"]) & set(other._interactions_array["name"]))
+        duplicate_names = set(self._interactions_array["name"]) & set(other._interactions_array["name"])
+        used_names = set(self._interactions_array["name"]) | set(other._interactions_array["name"])
 
         # Rename duplicate interaction names by adding suffix of model id
         for idx, name in enumerate(merged_interactions_with_duplication["name"]):
@@ -678,7 +691,9 @@ class LogicalModel(AbstractModel):
                     model_id = id(self)
                 else:
                     model_id = id(other)
-                merged_interactions_with_duplication["name"][idx] = f"{name} ({model_id})"
+                unique_name = self._get_unique_name(f"{name} ({model_id})", used=used_names)
+                used_names.add(unique_name)
+                merged_interactions_with_duplication["name"][idx] = unique_name
 
         self._interactions_array = merged_interactions_with_duplication
         self._interactions_attrs = merged_attrs
@@ -755,13 +770,13 @@ class LogicalModel(AbstractModel):
                 self.update_interaction(name=J["name"], coefficient=coeff * 0.25)
                 self.add_interaction(
                     target=J["interacts"][0],
-                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    name=self._get_unique_name(f"{J['key_0']} from {J['name']} (mtype additional {current_time()})"),
                     coefficient=coeff * 0.25,
                     scale=J["scale"],
                 )
                 self.add_interaction(
                     target=J["interacts"][1],
-                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    name=self._get_unique_name(f"{J['key_1']} from {J['name']} (mtype additional {current_time()})"),
                     coefficient=coeff * 0.25,
                     scale=J["scale"],
                 )
@@ -796,13 +811,13 @@ class LogicalModel(AbstractModel):
                 self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
                 self.add_interaction(
                     target=J["interacts"][0],
-                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    name=self._get_unique_name(f"{J['key_0']} from {J['name']} (mtype additional {current_time()})"),
                     coefficient=-coeff * 2.0,
                     scale=J["scale"],
                 )
                 self.add_interaction(
                     target=J["interacts"][1],
-                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    name=self._get_unique_name(f"{J['key_1']} from {J['name']} (mtype additional {current_time()})"),
                     coefficient=-coeff * 2.0,
                     scale=J["scale"],
                 )
-- 
2.43.0


From 79f211fcf4149b6e7d0bac2aaf92ba656ac0747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:08 +0000
Subject: [PATCH 11/32] fix: check that models can be merged before changing
 any of them

---
 sawatabi/model/logical_model.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 1b00d88..773c4d6 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -649,16 +649,21 @@ class LogicalModel(AbstractModel):
     def merge(self, other):
         self._check_argument_type("other", other, LogicalModel)
 
-        # Check type
-        if self._mtype != other._mtype:
-            other._convert_mtype()
-
         # Check variables
         for key, value in self._variables.items():
             if key in other._variables.keys():
                 if len(value.shape) != len(other._variables[key].shape):
                     raise ValueError(f"Cannot merge model since the dimension of '{key}' is different.")
 
+        # Check constraints
+        # If both models have a constraint with the same label, cannnot merge currently
+        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
+            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
+
+        # Check type
+        if self._mtype != other._mtype:
+            other._convert_mtype()
+
         # Merge variables
         for key, value in other._variables.items():
             if key not in self._variables:
@@ -700,9 +705,6 @@ class LogicalModel(AbstractModel):
         self._interactions_length = self._interactions_length + other._interactions_length
 
         # Merge constraints
-        # If both models have a constraint with the same label, cannnot merge currently
-        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
-            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
         self._constraints.update(other._constraints)
 
         # Merge other fields
-- 
2.43.0


From b2bc146920d9598ebdb309065d0255c00afa42a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:08 +0000
Subject: [PATCH 12/32] fix: give an index to every variable of the physical
 model

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 773c4d6..edd4d26 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -612,7 +612,7 @@ class LogicalModel(AbstractModel):
         for val in self._variables.values():
             flattened = list(Functions._flatten(val.bit_list))
             for v in flattened:
-                if (v.label not in self._deleted) and (v.label in physical._variables_set):
+                if v.label in physical._variables_set:
                     physical._label_to_index[v.label] = current_index
                     physical._index_to_label[current_index] = v.label
                     current_index += 1
-- 
2.43.0


From 406f091ca9a985730960f08d4d8304c1dc1115b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:08 +0000
Subject: [PATCH 13/32] fix: refuse to append variables of a different
 dimension instead of truncating the shape

---
 sawatabi/model/logical_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index edd4d26..eba22df 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -90,6 +90,9 @@ class LogicalModel(AbstractModel):
             warnings.warn(f"Variables name '{name}' is not defined in the model, but will be created instead of appending it.")
             return self.variables(name, shape)
 
+        if len(shape) != len(self._variables[name].shape):
+            raise ValueError(f"Cannot append to variables since the dimension of '{name}' is different.")
+
         # tuple elementwise addition
         new_shape = Functions.elementwise_add(self._variables[name].shape, shape)
         vartype = self._modeltype_to_vartype(self._mtype)
-- 
2.43.0


From 33d13fcb57673b2b511a684e4710a02b29b402cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 14/32] fix: leave the logical model untouched when the
 conversion to a physical model fails

---
 sawatabi/model/logical_model.py | 61 +++++++++++++--------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index eba22df..fae3a97 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -538,15 +538,11 @@ class LogicalModel(AbstractModel):
         linear, quadratic = {}, {}
         will_remove = []
 
-        # Save the model before merging constraints to restore it later
-        # original_variables = copy.deepcopy(self._variables)  # Variables will not be changed
-        original_offset = self._offset
-        original_deleted = copy.deepcopy(self._deleted)
-        original_fixed = copy.deepcopy(self._fixed)
-        # original_constraints = copy.deepcopy(self._constraints)  # Constraints will not be changed
-        original_interactions_array = copy.deepcopy(self._interactions_array)
-        original_interactions_attrs = copy.deepcopy(self._interactions_attrs)
-        original_interactions_length = self._interactions_length
+        # Merge constraints into a temporary model, so that this model stays as it is whenever an error occurs
+        resolved = copy.copy(self)
+        resolved._deleted = copy.copy(self._deleted)
+        resolved._fixed = copy.copy(self._fixed)
+        resolved._constraints = {}
 
         # Resolve constraints, and convert them to the interactions
         for label, constraint in self._constraints.items():
@@ -556,18 +552,18 @@ class LogicalModel(AbstractModel):
                 fixed_variable = pyqubo.Binary(fixed_label)
                 if len(constraint_model.select_interactions_by_variable(fixed_variable)) > 0:
                     constraint_model.fix_variable(fixed_variable, 1 if fixed_value == 1 else 0)
-            self.merge(constraint_model)
+            resolved.merge(constraint_model)
 
         # group by key
-        for i in range(self._interactions_length):
-            if self._interactions_array["removed"][i]:
-                will_remove.append(self._interactions_array["name"][i])
+        for i in range(resolved._interactions_length):
+            if resolved._interactions_array["removed"][i]:
+                will_remove.append(i)
                 continue
 
             # Resolve placeholders for coefficients and scales, using PyQUBO.
             # Firstly resolve placeholders if the coefficient is already Coefficient type
-            coeff_i = self._interactions_array["coefficient"][i]
-            scale_i = self._interactions_array["scale"][i]
+            coeff_i = resolved._interactions_array["coefficient"][i]
+            scale_i = resolved._interactions_array["scale"][i]
             if isinstance(coeff_i, pyqubo.core.Coefficient):
                 coeff_i = coeff_i.evaluate(feed_dict=placeholder)
 
@@ -577,22 +573,22 @@ class LogicalModel(AbstractModel):
             coeff_ph_resolved = coeff_model.to_qubo(feed_dict=placeholder)
             coeff = coeff_ph_resolved[1]  # We don't need the variable just prepared, extracting only offset
 
-            if self._interactions_array["body"][i] == constants.INTERACTION_LINEAR:
-                if self._interactions_array["key"][i] in linear:
-                    linear[self._interactions_array["key"][i]] += coeff
+            if resolved._interactions_array["body"][i] == constants.INTERACTION_LINEAR:
+                if resolved._interactions_array["key"][i] in linear:
+                    linear[resolved._interactions_array["key"][i]] += coeff
                 else:
-                    linear[self._interactions_array["key"][i]] = coeff
+                    linear[resolved._interactions_array["key"][i]] = coeff
 
-            elif self._interactions_array["body"][i] == constants.INTERACTION_QUADRATIC:
-                if self._interactions_array["key"][i] in quadratic:
-                    quadratic[self._interactions_array["key"][i]] += coeff
+            elif resolved._interactions_array["body"][i] == constants.INTERACTION_QUADRATIC:
+                if resolved._interactions_array["key"][i] in quadratic:
+                    quadratic[resolved._interactions_array["key"][i]] += coeff
                 else:
-                    quadratic[self._interactions_array["key"][i]] = coeff
+                    quadratic[resolved._interactions_array["key"][i]] = coeff
 
         # For offset as well
-        offset = self._offset
-        if isinstance(self._offset, pyqubo.core.Coefficient):
-            offset = self._offset.evaluate(feed_dict=placeholder)
+        offset = resolved._offset
+        if isinstance(resolved._offset, pyqubo.core.Coefficient):
+            offset = resolved._offset.evaluate(feed_dict=placeholder)
         # Calculate coefficient with the placeholder
         offset_model = (offset + pyqubo.Binary("sawatabi-fake-variable")).compile()  # We need a variable for a valid model for pyqubo
         offset_ph_resolved = offset_model.to_qubo(feed_dict=placeholder)
@@ -623,20 +619,9 @@ class LogicalModel(AbstractModel):
         # save the last physical model
         self._previous_physical_model = physical
 
-        # Restore the model before adding constraints
-        # self._variables = original_variables  # Variables were not changed
-        self._offset = original_offset
-        self._deleted = original_deleted
-        self._fixed = original_fixed
-        # self._constraints = original_constraints  # Constraints were not changed
-        self._interactions_array = original_interactions_array
-        self._interactions_attrs = original_interactions_attrs
-        self._interactions_length = original_interactions_length
-
         # Remove interactions
         # TODO: Physically remove the logically removed interactions
-        for rm in will_remove:
-            idx = self._interactions_array["name"].index(rm)
+        for idx in reversed([i for i in will_remove if i < self._interactions_length]):
             for k in self._interactions_array.keys():
                 self._interactions_array[k].pop(idx)
             self._interactions_length -= 1
-- 
2.43.0


From c6da80d26a68593233eb6b2cc3ae933671ef76d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 15/32] fix: cancel variables which are in both sides of an
 equality constraint

---
 .../model/constraint/equality_constraint.py     | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sawatabi/model/constraint/equality_constraint.py b/sawatabi/model/constraint/equality_constraint.py
index df265fa..b0a1430 100644
--- a/sawatabi/model/constraint/equality_constraint.py
+++ b/sawatabi/model/constraint/equality_constraint.py
@@ -69,21 +69,24 @@ class EqualityConstraint(AbstractConstraint):
 
         # Equality constraint:
         #   E = ( \sum{ x_i } - \sum{ y_i } )^2
-        for var in self._variables_1.union(self._variables_2):
+        # Note that variables in both sides cancel each other
+        variables_1 = self._variables_1.difference(self._variables_2)
+        variables_2 = self._variables_2.difference(self._variables_1)
+        for var in variables_1.union(variables_2):
             coeff = -1.0 * self._strength
             model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=coeff)
-        for var in self._variables_1:
-            for adj in self._variables_1:
+        for var in variables_1:
+            for adj in variables_1:
                 if var.label < adj.label:
                     coeff = -2.0 * self._strength
                     model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
-        for var in self._variables_2:
-            for adj in self._variables_2:
+        for var in variables_2:
+            for adj in variables_2:
                 if var.label < adj.label:
                     coeff = -2.0 * self._strength
                     model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
-        for var in self._variables_1:
-            for adj in self._variables_2:
+        for var in variables_1:
+            for adj in variables_2:
                 coeff = 2.0 * self._strength
                 model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
 
-- 
2.43.0


From 3cfc1a4752b65745bbc17a2d9a8375cdc953ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 16/32] fix: do not share the set of variables given by the
 caller with a constraint

---
 sawatabi/model/constraint/abstract_constraint.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index 5b5cad9..8bef307 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -36,8 +36,6 @@ class AbstractConstraint(BaseMixin):
         self._check_argument_type("variables", variables, (pyqubo.Array, pyqubo.Spin, pyqubo.Binary, list, set))
         if isinstance(variables, (list, set)):
             self._check_argument_type_in_list("variables", variables, (pyqubo.Spin, pyqubo.Binary))
-        if isinstance(variables, set):
-            return variables
         if isinstance(variables, pyqubo.Array):
             variables = list(Functions._flatten(variables.bit_list))
         elif isinstance(variables, (pyqubo.Spin, pyqubo.Binary)):
-- 
2.43.0


From 117c49bb29a9acb9a6331612d93ce4be77ca6805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 17/32] fix: respect seed=0 in SawatabiSolver

---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 39437be..8cdbd47 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -67,7 +67,7 @@ class SawatabiSolver(AbstractSolver):
                 raise ValueError("reverse_options must contain 'reverse_temperature'")
 
         # Use a rangom generator so that this random sequence is isolated
-        if seed:
+        if seed is not None:
             self._rng = np.random.default_rng(seed)
         else:
             self._rng = np.random.default_rng()
-- 
2.43.0


From 3e0ada10b92559268e5ba41933da2e2337565d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 18/32] fix: do not rewrite the initial states of the caller in
 SawatabiSolver

---
 sawatabi/solver/sawatabi_solver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 8cdbd47..425e312 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -81,10 +81,7 @@ class SawatabiSolver(AbstractSolver):
 
             # Convert initial states as well
             if initial_states:
-                for i, initial_state in enumerate(initial_states):
-                    for k, v in initial_state.items():
-                        if v == 0:
-                            initial_states[i][k] = -1
+                initial_states = [{k: (-1 if v == 0 else v) for k, v in initial_state.items()} for initial_state in initial_states]
 
         self._model = model
         self._bqm = bqm
-- 
2.43.0


From 84b256202fa98b647b2b5bc1de0fa2d9c4b821bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 19/32] fix: treat empty reverse options as forward annealing

---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 425e312..555f4de 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -168,7 +168,7 @@ class SawatabiSolver(AbstractSolver):
             reverse_target_temperature = reverse_options["reverse_temperature"]  # The max temperature when the phase is reverse annealing
 
         energy = initial_energy
-        reversing_phase = reverse_options is not None
+        reversing_phase = bool(reverse_options)
         sweep = 0
 
         energy_hist = []
-- 
2.43.0


From becd0057462eee875640b4e1536154ea4b122327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 20/32] fix: include the model offset in the energies of
 OptiganSolver

---
 sawatabi/solver/optigan_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sawatabi/solver/optigan_solver.py b/sawatabi/solver/optigan_solver.py
index 6bd0ea2..c85f1cf 100644
--- a/sawatabi/solver/optigan_solver.py
+++ b/sawatabi/solver/optigan_solver.py
@@ -106,7 +106,9 @@ class OptiganSolver(AbstractSolver):
         for spins in result["spins"]:
             sample = dict(zip(list(model._index_to_label.values()), spins))
             samples.append(sample)
-        sampleset = dimod.SampleSet.from_samples(samples, vartype=dimod.BINARY, energy=result["energies"], aggregate_samples=True, sort_labels=True)
+        # The polynomial does not have the offset, so that we need to add it
+        energies = [energy + model.get_offset() for energy in result["energies"]]
+        sampleset = dimod.SampleSet.from_samples(samples, vartype=dimod.BINARY, energy=energies, aggregate_samples=True, sort_labels=True)
         sampleset._info = result
 
         return sampleset
-- 
2.43.0


From 815f177bfbe28a6214149281af28d4e98f739bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 21/32] fix: respect boolean algorithm options which are set to
 False

---
 sawatabi/algorithm/abstract_algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 60b28ef..7649e9b 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -230,7 +230,7 @@ class AbstractAlgorithm(BaseMixin):
             | "Prepare key" >> beam.Map(lambda element: (None, element))
             | "Assign global index for Ising variables" >> beam.ParDo(AbstractAlgorithm.IndexAssigningStatefulDoFn()))
 
-        if "input.reassign_timestamp" in algorithm_options:
+        if algorithm_options.get("input.reassign_timestamp"):
             # Add (Re-assign) event timestamp based on the index
             # - element[0]: index
             # - element[1]: data
@@ -264,7 +264,7 @@ class AbstractAlgorithm(BaseMixin):
         # Output part
         # --------------------------------
 
-        if "output.with_timestamp" in algorithm_options:
+        if algorithm_options.get("output.with_timestamp"):
             solved = (solved
                 | "With timestamp for each window" >> beam.ParDo(AbstractAlgorithm.WithTimestampStrFn()))
 
-- 
2.43.0


From 3bfa51b5f34e90cd47da4c45a1eebdd8c5171f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 22/32] fix: judge and report outdated events by the timestamp
 which was processed before

---
 sawatabi/algorithm/abstract_algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 7649e9b..cea2554 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -79,7 +79,7 @@ class AbstractAlgorithm(BaseMixin):
 
             # Extract the previous timestamp, elements, and model from state
             if len(timestamp_state_as_list) == 0:
-                prev_timestamp = -1.0
+                prev_timestamp = float("-inf")
             else:
                 prev_timestamp = timestamp_state_as_list[-1]
             if len(elements_state_as_list) == 0:
@@ -100,7 +100,7 @@ class AbstractAlgorithm(BaseMixin):
             if float(timestamp) < float(prev_timestamp):
                 yield (
                     f"The received event is outdated: Timestamp is {timestamp.to_utc_datetime()}, "
-                    + f"while an event with timestamp of {timestamp.to_utc_datetime()} has been already processed."
+                    + f"while an event with timestamp of {prev_timestamp.to_utc_datetime()} has been already processed."
                 )
                 return
 
-- 
2.43.0


From dc685663d89f17258a3f43559ec8954bacd45992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 23/32] fix: do not duplicate retained elements in overlapping
 windows of Partial

---
 sawatabi/algorithm/abstract_algorithm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index cea2554..71d3add 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -112,8 +112,9 @@ class AbstractAlgorithm(BaseMixin):
             # Partial: Merge current window with the specified data.
             elif algorithm == sawatabi.constants.ALGORITHM_PARTIAL:
                 filter_fn = algorithm_options["filter_fn"]
-                filtered = filter(filter_fn, prev_elements)
-                sorted_elements = list(filtered) + sorted_elements
+                # Note that an element may already be in the current window because sliding windows can overlap
+                filtered = [e for e in prev_elements if filter_fn(e) and (e not in sorted_elements)]
+                sorted_elements = filtered + sorted_elements
                 sorted_elements = sorted(sorted_elements)
 
             # Resolve outgoing elements in this iteration
-- 
2.43.0


From 34a082baa6f5ccb66942a6662832f8cd410310ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:02 +0000
Subject: [PATCH 24/32] fix: report every element which left the window as
 outgoing

---
 sawatabi/algorithm/abstract_algorithm.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 71d3add..084ff23 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -119,12 +119,7 @@ class AbstractAlgorithm(BaseMixin):
 
             # Resolve outgoing elements in this iteration
             def resolve_outgoing(prev_elements, sorted_elements):
-                outgoing = []
-                for p in prev_elements:
-                    if p[0] >= sorted_elements[0][0]:
-                        break
-                    outgoing.append(p)
-                return outgoing
+                return [p for p in prev_elements if p not in sorted_elements]
 
             outgoing = resolve_outgoing(prev_elements, sorted_elements)
 
-- 
2.43.0


From c04b839fd04408fe01d1c9f965a135a998b76a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:42 +0000
Subject: [PATCH 25/32] fix: do not let the attenuation of a window abort the
 whole pipeline

---
 sawatabi/algorithm/abstract_algorithm.py | 25 +++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 084ff23..ca896a5 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -159,15 +159,22 @@ class AbstractAlgorithm(BaseMixin):
             # Algorithm specific operations
             # Attenuation: Update scale based on data timestamp.
             if algorithm == sawatabi.constants.ALGORITHM_ATTENUATION:
-                model.to_physical()  # Resolve removed interactions. TODO: Deal with placeholders.
-                ref_timestamp = model._interactions_array[algorithm_options["attenuation.key"]]
-                min_ts = min(ref_timestamp)
-                max_ts = max(ref_timestamp)
-                min_scale = algorithm_options["attenuation.min_scale"]
-                if min_ts < max_ts:
-                    for i, t in enumerate(ref_timestamp):
-                        new_scale = (1.0 - min_scale) / (max_ts - min_ts) * (t - min_ts) + min_scale
-                        model._interactions_array["scale"][i] = new_scale
+                try:
+                    model.to_physical()  # Resolve removed interactions. TODO: Deal with placeholders.
+                    # Note that interactions without the attribute (i.e., NaN) are not attenuated
+                    ref_timestamp = model._interactions_array.get(algorithm_options["attenuation.key"], [])
+                    valid_timestamp = [t for t in ref_timestamp if t == t]
+                    min_ts = min(valid_timestamp, default=0)
+                    max_ts = max(valid_timestamp, default=0)
+                    min_scale = algorithm_options["attenuation.min_scale"]
+                    if min_ts < max_ts:
+                        for i, t in enumerate(ref_timestamp):
+                            if t == t:
+                                new_scale = (1.0 - min_scale) / (max_ts - min_ts) * (t - min_ts) + min_scale
+                                model._interactions_array["scale"][i] = new_scale
+                except Exception as e:
+                    yield f"Failed to attenuate: {e}\n{traceback.format_exc()}"
+                    return
 
             # Solve and unmap to the solution
             try:
-- 
2.43.0


From f4095f6186451b6a8da88d2c25cb834ed73dd9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:42 +0000
Subject: [PATCH 26/32] fix: enumerate the partitions with zeros or an empty
 side in the NPP solver

---
 sawatabi/utils/npp.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sawatabi/utils/npp.py b/sawatabi/utils/npp.py
index 3012fb4..d9cfb8f 100644
--- a/sawatabi/utils/npp.py
+++ b/sawatabi/utils/npp.py
@@ -35,6 +35,14 @@ def solve_npp_with_dp(numbers, enumerate_all=False, print_dp_table=False):
     # Initialize the top row with True
     for j in range(n + 1):
         dp[0][j] = (True, [])
+    if enumerate_all:
+        # The sum of zero consists of any combinations of zeros
+        dp[0][0] = (True, [[]])
+        for j in range(1, n + 1):
+            solutions = dp[0][j - 1][1]
+            if numbers[j - 1] == 0:
+                solutions = solutions + [prev + [j - 1] for prev in solutions]
+            dp[0][j] = (True, solutions)
 
     # Initialize the left column with False (except 0)
     for i in range(1, s + 1):
@@ -53,7 +61,7 @@ def solve_npp_with_dp(numbers, enumerate_all=False, print_dp_table=False):
                     dp[i][j] = (True, dp[i - current_val][j - 1][1] + [j - 1])
                 else:
                     if i == current_val:
-                        dp[i][j] = (True, dp[i][j][1] + [[j - 1]])
+                        dp[i][j] = (True, dp[i][j][1] + [prev + [j - 1] for prev in dp[0][j - 1][1]])
                     else:
                         solution = []
                         for prev in dp[i - current_val][j - 1][1]:
-- 
2.43.0


From c315e1054a3b93cffec8fef2ef4b15f3c2493746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:47 +0000
Subject: [PATCH 27/32] fix: take the offset into account in the energy history
 of SawatabiSolver

---
 sawatabi/solver/sawatabi_solver.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 555f4de..65a25a0 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -156,7 +156,8 @@ class SawatabiSolver(AbstractSolver):
 
         initial_sample = dict(zip(list(self._model._index_to_label.values()), x))
         # logger.info(f"initial_spins: {initial_sample}")
-        initial_energy = self._bqm.energy(initial_sample) * -1.0  # Note that the signs of original bqm is opposite from ours
+        # Note that the signs of original bqm is opposite from ours, except for the offset
+        initial_energy = self._bqm.energy(initial_sample) * -1.0 + self._original_bqm.offset * 2
         # logger.info(f"initial_energy: {initial_energy}")
 
         if not reverse_options:
@@ -221,12 +222,9 @@ class SawatabiSolver(AbstractSolver):
         sample = dict(zip(list(self._model._index_to_label.values()), x))
 
         # Check energy if needed
-        # recalc_energy = self._bqm.energy(sample) * -1.0
+        # recalc_energy = self._bqm.energy(sample) * -1.0 + self._original_bqm.offset * 2
         # assert math.isclose(energy, recalc_energy, rel_tol=1e-9, abs_tol=1e-9)
 
-        # Deal with offset
-        energy += self._original_bqm.offset * 2
-
         return sample, energy, energy_hist, temperature_hist, acceptance_hist
 
     def calc_energy_diff(self, idx, x):
-- 
2.43.0


From a87c7ceab02e3adc7fccb5408143d02a870f00d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:16 +0000
Subject: [PATCH 28/32] fix: do not let a failing mapping modify the model of
 the previous window

---
 sawatabi/algorithm/abstract_algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index ca896a5..e2a86ef 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import copy
 import traceback
 
 import apache_beam as beam
@@ -145,8 +146,9 @@ class AbstractAlgorithm(BaseMixin):
             elements_state.add(sorted_elements)
 
             # Map problem input to the model
+            # Note that a mapping may update the given model in place before it fails, so that we give a copy
             try:
-                model = map_fn(prev_model, prev_sampleset, sorted_elements, incoming, outgoing)
+                model = map_fn(copy.deepcopy(prev_model), prev_sampleset, sorted_elements, incoming, outgoing)
             except Exception as e:
                 yield f"Failed to map: {e}\n{traceback.format_exc()}"
                 return
-- 
2.43.0


From 3df6349bbb4a39f7c58d18f5511fde526b388dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:44 +0000
Subject: [PATCH 29/32] fix: compare missing values of interactions as equal in
 LogicalModel

---
 sawatabi/model/logical_model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index fae3a97..f694534 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -913,7 +913,7 @@ class LogicalModel(AbstractModel):
             isinstance(other, LogicalModel)
             and (self._mtype == other._mtype)
             and (self._variables == other._variables)
-            and (self._interactions_array == other._interactions_array)
+            and self._is_same_interactions_array(self._interactions_array, other._interactions_array)
             and (self._interactions_attrs == other._interactions_attrs)
             and (self._interactions_length == other._interactions_length)
             and (self._constraints == other._constraints)
@@ -922,6 +922,16 @@ class LogicalModel(AbstractModel):
             and (self._offset == other._offset)
         )
 
+    @staticmethod
+    def _is_same_interactions_array(array, other):
+        # A missing value is a NaN, which does not equal another NaN (e.g., that of a model restored by pickle)
+        def is_same(a, b):
+            return (a is b) or (a == b) or ((a != a) and (b != b))
+
+        return (array.keys() == other.keys()) and all(
+            (len(array[k]) == len(other[k])) and all(is_same(a, b) for a, b in zip(array[k], other[k])) for k in array
+        )
+
     def __ne__(self, other):
         return not self.__eq__(other)
 
-- 
2.43.0


From 51bd05826d6d6a0ea6524a66c5dc66e95a60fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:27 +0000
Subject: [PATCH 30/32] fix: convert the variables of the constraints along
 with the model type

---
 sawatabi/model/constraint/abstract_constraint.py        | 5 +++++
 sawatabi/model/constraint/equality_constraint.py        | 4 ++++
 sawatabi/model/constraint/n_hot_constraint.py           | 3 +++
 sawatabi/model/constraint/zero_or_one_hot_constraint.py | 3 +++
 sawatabi/model/logical_model.py                         | 2 ++
 5 files changed, 17 insertions(+)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index 8bef307..187391f 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -48,6 +48,11 @@ class AbstractConstraint(BaseMixin):
         """
         raise NotImplementedError("#{self.class}##{__method__} must be implemented.")
 
+    def convert_variables(self, variable_class):
+        """
+        Converts the variables into the given type (i.e., pyqubo.Spin or pyqubo.Binary) along with the model.
+        """
+
     def get_constraint_class(self):
         return self._constraint_class
 
diff --git a/sawatabi/model/constraint/equality_constraint.py b/sawatabi/model/constraint/equality_constraint.py
index b0a1430..e920322 100644
--- a/sawatabi/model/constraint/equality_constraint.py
+++ b/sawatabi/model/constraint/equality_constraint.py
@@ -58,6 +58,10 @@ class EqualityConstraint(AbstractConstraint):
         self._variables_1 = {v for v in self._variables_1 if v.label != label}
         self._variables_2 = {v for v in self._variables_2 if v.label != label}
 
+    def convert_variables(self, variable_class):
+        self._variables_1 = {variable_class(v.label) for v in self._variables_1}
+        self._variables_2 = {variable_class(v.label) for v in self._variables_2}
+
     def get_variables_1(self):
         return self._variables_1
 
diff --git a/sawatabi/model/constraint/n_hot_constraint.py b/sawatabi/model/constraint/n_hot_constraint.py
index f9366ef..58e8a96 100644
--- a/sawatabi/model/constraint/n_hot_constraint.py
+++ b/sawatabi/model/constraint/n_hot_constraint.py
@@ -47,6 +47,9 @@ class NHotConstraint(AbstractConstraint):
     def discard_variable(self, label):
         self._variables = {v for v in self._variables if v.label != label}
 
+    def convert_variables(self, variable_class):
+        self._variables = {variable_class(v.label) for v in self._variables}
+
     def get_variables(self):
         return self._variables
 
diff --git a/sawatabi/model/constraint/zero_or_one_hot_constraint.py b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
index b6ce49b..35893c8 100644
--- a/sawatabi/model/constraint/zero_or_one_hot_constraint.py
+++ b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
@@ -47,6 +47,9 @@ class ZeroOrOneHotConstraint(AbstractConstraint):
     def discard_variable(self, label):
         self._variables = {v for v in self._variables if v.label != label}
 
+    def convert_variables(self, variable_class):
+        self._variables = {variable_class(v.label) for v in self._variables}
+
     def get_variables(self):
         return self._variables
 
diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f694534..63525bf 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -732,6 +732,8 @@ class LogicalModel(AbstractModel):
                     )
                 else:
                     self._interactions_array["interacts"][index] = pyqubo.Binary(interaction["interacts"].label)
+        for constraint in self._constraints.values():
+            constraint.convert_variables(pyqubo.Spin if self._mtype == constants.MODEL_ISING else pyqubo.Binary)
 
     def to_ising(self):
         """
-- 
2.43.0


From 888349e7c8ff0c44a9612c0896953dbac0101822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:21 +0000
Subject: [PATCH 31/32] fix: leave the model as it is when from_pyqubo is
 refused

An interaction name that already exists was only noticed when some of the
interactions of the expression had been added.
---
 sawatabi/model/logical_model.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 63525bf..38f15e7 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -158,10 +158,7 @@ class LogicalModel(AbstractModel):
             # Automatically named by the default name
             internal_name = interaction_info["name"]
 
-        if self._has_name(internal_name):
-            if not self._is_removed(internal_name):
-                raise ValueError(f"An interaction named '{internal_name}' already exists. Cannot add the same name.")
-            raise ValueError(f"An interaction named '{internal_name}' is already removed.")
+        self._check_new_name(internal_name)
 
         if body == 1:
             keys = (interaction_info["key"], np.nan)
@@ -198,6 +195,12 @@ class LogicalModel(AbstractModel):
 
         self._interactions_length += 1
 
+    def _check_new_name(self, internal_name):
+        if self._has_name(internal_name):
+            if not self._is_removed(internal_name):
+                raise ValueError(f"An interaction named '{internal_name}' already exists. Cannot add the same name.")
+            raise ValueError(f"An interaction named '{internal_name}' is already removed.")
+
     ################################
     # Update
     ################################
@@ -482,6 +485,7 @@ class LogicalModel(AbstractModel):
 
         offset = compiled_qubo.offset
         ising_linear = {}
+        terms = []
 
         for k, v in compiled_qubo.qubo.items():
             # For the first variable.
@@ -511,17 +515,23 @@ class LogicalModel(AbstractModel):
                 else:
                     factor = 0.25
                     ising_linear[target_1] = ising_linear.get(target_1, 0.0) + coeff * factor
-                    self.add_interaction(target=(target_0, target_1), coefficient=coeff * factor)
+                    terms.append(((target_0, target_1), coeff * factor))
                 ising_linear[target_0] = ising_linear.get(target_0, 0.0) + coeff * factor
                 offset -= coeff * factor
             elif k[0] == k[1]:
                 # 1-body
-                self.add_interaction(target=target_0, coefficient=coeff)
+                terms.append((target_0, coeff))
             else:
                 # 2-body
-                self.add_interaction(target=(target_0, target_1), coefficient=coeff)
+                terms.append(((target_0, target_1), coeff))
+
+        terms.extend(ising_linear.items())
+
+        # Check all the names in advance, so that this model stays as it is whenever an error occurs
+        for target, _ in terms:
+            self._check_new_name(self._get_interaction_info_from_target(target)["name"])
 
-        for target, coeff in ising_linear.items():
+        for target, coeff in terms:
             self.add_interaction(target=target, coefficient=coeff)
 
         self._offset = offset
-- 
2.43.0


From e62581fb35f2eb996670f78be610f051b3055511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:04 +0000
Subject: [PATCH 32/32] fix: do not negate the coefficients of an imported
 PyQUBO model in place

---
 sawatabi/model/logical_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 38f15e7..9640ab3 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -498,7 +498,8 @@ class LogicalModel(AbstractModel):
             variable_1 = self.get_variables_by_name(structure[k[1]][0])
             target_1 = variable_1[structure[k[1]][1:]]
 
-            coeff = v
+            # Do not negate the coefficient of the given expression itself
+            coeff = copy.deepcopy(v)
             if isinstance(coeff, pyqubo.Coefficient):
                 assert isinstance(coeff.terms, collections.defaultdict)
                 for placeholder_k, _ in coeff.terms.items():
-- 
2.43.0


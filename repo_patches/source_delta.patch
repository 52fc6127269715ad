From 56da3f90dd3d1246b6b51de9310002df674a50ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 01/57] fix: remove indirect dependencies in descending index
 order

Iterating over list(set(...)) does not give ascending indices once an
index reaches the hash table size, so removing one dependency shifted
the others and a wrong dependency was removed.
---
 omtools/core/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omtools/core/graph.py b/omtools/core/graph.py
index 34a3125..e9a4b28 100644
--- a/omtools/core/graph.py
+++ b/omtools/core/graph.py
@@ -21,8 +21,9 @@ def remove_indirect_dependencies(node: Variable):
             index = node.get_dependency_index(grandchild)
             if index is not None:
                 remove.append(index)
-    # remove duplicate indices
-    remove = list(set(remove))
+    # remove duplicate indices, in increasing order so that dependencies
+    # are removed from the last to the first and indices stay valid
+    remove = sorted(set(remove))
     terminal_index = 0
     # children form cycle
     # TODO: explain better
-- 
2.43.0


From 49affd72e47bf761e866925d35047a5468e4a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 02/57] fix: delete unused expressions from the record of nodes

---
 omtools/core/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 512dd93..690c004 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -62,7 +62,7 @@ def _post_setup(func: Callable) -> Callable:
             if len(node.dependents) == 0:
                 keys.append(name)
         for name in keys:
-            del node[name]
+            del self.nodes[name]
 
         # Compute branch costs and sort branches to get desired sparsity
         # pattern in system jacobian
-- 
2.43.0


From a5b062b5791be20cf8ef3e460891b48d21b0f418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 03/57] fix: flatten partials of sech and arcsin for arrays of
 rank 2 and up

---
 omtools/comps/arcsincomp.py | 2 +-
 omtools/comps/sechcomp.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/arcsincomp.py b/omtools/comps/arcsincomp.py
index 8414621..7c06424 100644
--- a/omtools/comps/arcsincomp.py
+++ b/omtools/comps/arcsincomp.py
@@ -48,7 +48,7 @@ class ArcsinComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = (1.0 / np.sqrt(1.0 - inputs[in_name]**2))
+        partials[out_name, in_name] = (1.0 / np.sqrt(1.0 - inputs[in_name]**2)).flatten()
 
 
 if __name__ == "__main__":
diff --git a/omtools/comps/sechcomp.py b/omtools/comps/sechcomp.py
index 06eca43..839fba6 100644
--- a/omtools/comps/sechcomp.py
+++ b/omtools/comps/sechcomp.py
@@ -48,8 +48,8 @@ class SechComp(ExplicitComponent):
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = -1.0 * np.tanh(
-            inputs[in_name]) * (1.0 / np.cosh(inputs[in_name])).flatten()
+        partials[out_name, in_name] = (-1.0 * np.tanh(inputs[in_name]) *
+                                       (1.0 / np.cosh(inputs[in_name]))).flatten()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 2510b39c3c301389538c04703dcd1fcd41ea1399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 04/57] fix: average over more than one axis

---
 omtools/comps/multiple_tensor_average_comp.py | 2 +-
 omtools/comps/single_tensor_average_comp.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/multiple_tensor_average_comp.py b/omtools/comps/multiple_tensor_average_comp.py
index 882906e..8b2de65 100644
--- a/omtools/comps/multiple_tensor_average_comp.py
+++ b/omtools/comps/multiple_tensor_average_comp.py
@@ -72,7 +72,7 @@ class MultipleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ),
                           1. / (num_entries_averaged * self.num_inputs))
             for in_name, in_val in zip(in_names, vals):
diff --git a/omtools/comps/single_tensor_average_comp.py b/omtools/comps/single_tensor_average_comp.py
index e46c784..6753aab 100644
--- a/omtools/comps/single_tensor_average_comp.py
+++ b/omtools/comps/single_tensor_average_comp.py
@@ -65,7 +65,7 @@ class SingleTensorAverageComp(ExplicitComponent):
             rows = np.delete(np.array(rows), axes, axis=0)
             rows = np.ravel_multi_index(rows, dims=self.output_shape)
 
-            num_entries_averaged = np.prod(np.array(shape)[axes])
+            num_entries_averaged = np.prod(np.array(shape)[list(axes)])
             val = np.full((input_size, ), 1. / num_entries_averaged)
             self.declare_partials(out_name,
                                   in_name,
-- 
2.43.0


From 9f09ca3a0450644d4144795ff165b401ecb73a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 05/57] fix: einsum partials when a repeated operand precedes
 another operand

---
 omtools/comps/einsum_comp_dense_derivs.py  | 2 +-
 omtools/comps/einsum_comp_sparse_derivs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/einsum_comp_dense_derivs.py b/omtools/comps/einsum_comp_dense_derivs.py
index e6c8ad0..12ff250 100644
--- a/omtools/comps/einsum_comp_dense_derivs.py
+++ b/omtools/comps/einsum_comp_dense_derivs.py
@@ -181,7 +181,7 @@ class EinsumComp(ExplicitComponent):
             partials[out_name, in_name] = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index 043e366..e9bcd9c 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -348,7 +348,7 @@ class SparsePartialEinsumComp(ExplicitComponent):
             partial = np.einsum(
                 new_operation,
                 *(inputs[in_name] for in_name in in_names[:in_name_index]),
-                self.I[in_name_index],
+                self.I[len(completed_in_names) - 1],
                 *(inputs[in_name] for in_name in in_names[in_name_index + 1:]))
 
             for i in locations[1:]:
-- 
2.43.0


From 9ff4dfa5c0d3e64eee2715dc9814fb687b5281bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 06/57] fix: sparse einsum partials: index with a tuple, one
 index list per distinct input

---
 omtools/comps/einsum_comp_sparse_derivs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/einsum_comp_sparse_derivs.py b/omtools/comps/einsum_comp_sparse_derivs.py
index e9bcd9c..3ad0681 100644
--- a/omtools/comps/einsum_comp_sparse_derivs.py
+++ b/omtools/comps/einsum_comp_sparse_derivs.py
@@ -292,6 +292,8 @@ class SparsePartialEinsumComp(ExplicitComponent):
 
             else:
                 self.declare_partials(out_name, in_name)
+                # keep one entry per distinct input
+                self.partial_indices_list.append(None)
 
     def compute(self, inputs, outputs):
         in_names = self.options['in_names']
@@ -381,7 +383,7 @@ class SparsePartialEinsumComp(ExplicitComponent):
                 partial_indices_list = self.partial_indices_list[
                     len(completed_in_names) - 1]
 
-                partials[out_name, in_name] = partial[partial_indices_list]
+                partials[out_name, in_name] = partial[tuple(partial_indices_list)]
 
             else:
                 partials[out_name, in_name] = partial
-- 
2.43.0


From 33f12e029b838ef0558ee6c38a44f3e1f18c4a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 07/57] fix: expand of a scalar input uses the declared value
 of the input

---
 omtools/comps/scalar_expansion_comp.py | 3 ++-
 omtools/std/expand.py                  | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/scalar_expansion_comp.py b/omtools/comps/scalar_expansion_comp.py
index 971729e..edff2c8 100644
--- a/omtools/comps/scalar_expansion_comp.py
+++ b/omtools/comps/scalar_expansion_comp.py
@@ -10,13 +10,14 @@ class ScalarExpansionComp(ExplicitComponent):
         self.options.declare('shape', types=tuple)
         self.options.declare('in_name', types=str)
         self.options.declare('out_name', types=str)
+        self.options.declare('val', types=np.ndarray)
 
     def setup(self):
         shape = self.options['shape']
         in_name = self.options['in_name']
         out_name = self.options['out_name']
 
-        self.add_input(in_name)
+        self.add_input(in_name, val=self.options['val'])
         self.add_output(out_name, shape=shape)
 
         rows = np.arange(np.prod(shape))
diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 43f84e6..6a84afe 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -57,5 +57,6 @@ def expand(expr: Variable, shape: tuple, indices=None):
             shape=shape,
             in_name=expr.name,
             out_name=out.name,
+            val=expr.val,
         )
     return out
-- 
2.43.0


From 7861d9b82cdcaed964d6697216b82b921e2f0819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 08/57] fix: do not scale an array coefficient in place when
 computing partials

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 65d02b5..66bba58 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -76,10 +76,6 @@ class PowerCombinationComp(ArrayExplicitComponent):
         powers = self.options['powers']
         coeff = self.options['coeff']
 
-        value = coeff
-        for in_name, power in zip(in_names, powers):
-            value *= inputs[in_name]**power
-
         for in_name in in_names:
             deriv = coeff * np.ones(self.options['shape'])
             for in_name2, power in zip(in_names, powers):
-- 
2.43.0


From 1a31beb1cec010e5f9e5decc252532ae17e10397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 09/57] fix: raise an exception instead of exiting the
 interpreter on division by zero

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 66bba58..49e7347 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -64,10 +64,10 @@ class PowerCombinationComp(ArrayExplicitComponent):
 
         outputs[out_name] = coeff
         for in_name, power in zip(in_names, powers):
-            if np.any(inputs[in_name] == 0) and power < 0:
-                print(in_name)
-                print(inputs[in_name])
-                exit()
+            if np.any((inputs[in_name] == 0) & (np.asarray(power) < 0)):
+                raise ZeroDivisionError(
+                    "Cannot raise zero to a negative power; " + in_name +
+                    " is " + repr(inputs[in_name]))
             outputs[out_name] *= inputs[in_name]**power
 
     def compute_partials(self, inputs, partials):
-- 
2.43.0


From d2a1aeda856a00fac04f71d9a7912071209404b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 10/57] fix: raise to an array power elementwise

---
 omtools/core/variable.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 024e921..b4e6269 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -701,14 +701,11 @@ class ElementwisePower(Variable):
                 shape=expr1.shape,
                 out_name=self.name,
                 in_names=[expr1.name],
-                powers=expr2,
+                powers=[expr2],
                 in_vals=[expr1.val],
             )
 
-        else:
-            # TODO: constant array exponent
-            # TODO: stock component where exponent is not a constant
-            return NotImplemented
+        # TODO: stock component where exponent is not a constant
 
     def __repr__(self):
         shape_str = "("
-- 
2.43.0


From 8aa0dac881e1b5e67f621637c7b9a6b8f596f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 11/57] fix: divide an expression by an array

---
 omtools/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index b4e6269..0320f88 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -647,7 +647,7 @@ class ElementwiseDivision(Variable):
 
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
-            if expr2 == 0:
+            if np.any(expr2 == 0):
                 raise ValueError("Cannot divide by zero")
 
             self.shape = expr1.shape
-- 
2.43.0


From c750f3826f7ad399f71f8eb9faca7f14544c9414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 12/57] fix: arithmetic on an expression and itself, e.g. x + x
 or x * x

---
 .../arithmetic_comps/power_combination_comp.py  | 11 ++++++++++-
 omtools/comps/linearcombination_comp.py         | 11 ++++++++++-
 omtools/utils/process_options.py                | 17 +++++++++++++++++
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 49e7347..4942350 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from omtools.comps.array_explicit_component import ArrayExplicitComponent
 from omtools.utils.process_options import name_types, get_names_list
-from omtools.utils.process_options import scalar_types, get_scalars_list
+from omtools.utils.process_options import scalar_types, get_scalars_list, merge_repeated_names
 
 
 class PowerCombinationComp(ArrayExplicitComponent):
@@ -44,6 +44,15 @@ class PowerCombinationComp(ArrayExplicitComponent):
             self.options['in_names'] = get_names_list(self.options['in_names'])
             self.options['powers'] = get_scalars_list(self.options['powers'],
                                                       self.options['in_names'])
+        (
+            self.options['in_names'],
+            self.options['powers'],
+            self.options['in_vals'],
+        ) = merge_repeated_names(
+            self.options['in_names'],
+            self.options['powers'],
+            self.options['in_vals'],
+        )
 
         in_names = self.options['in_names']
         in_vals = self.options['in_vals']
diff --git a/omtools/comps/linearcombination_comp.py b/omtools/comps/linearcombination_comp.py
index 5b2fa39..ce0d706 100644
--- a/omtools/comps/linearcombination_comp.py
+++ b/omtools/comps/linearcombination_comp.py
@@ -1,6 +1,6 @@
 import numpy as np
 from openmdao.api import ExplicitComponent
-from omtools.utils.process_options import name_types, get_names_list, shape_types, get_shapes_list, scalar_types, get_scalars_list
+from omtools.utils.process_options import name_types, get_names_list, shape_types, get_shapes_list, scalar_types, get_scalars_list, merge_repeated_names
 
 
 class LinearCombinationComp(ExplicitComponent):
@@ -36,6 +36,15 @@ class LinearCombinationComp(ExplicitComponent):
             self.options['in_names'] = get_names_list(self.options['in_names'])
             self.options['coeffs'] = get_scalars_list(self.options['coeffs'],
                                                       self.options['in_names'])
+        (
+            self.options['in_names'],
+            self.options['coeffs'],
+            self.options['in_vals'],
+        ) = merge_repeated_names(
+            self.options['in_names'],
+            self.options['coeffs'],
+            self.options['in_vals'],
+        )
 
         in_names = self.options['in_names']
         in_vals = self.options['in_vals']
diff --git a/omtools/utils/process_options.py b/omtools/utils/process_options.py
index c257204..850f2b4 100644
--- a/omtools/utils/process_options.py
+++ b/omtools/utils/process_options.py
@@ -28,6 +28,23 @@ def get_scalars_list(scalars, names):
     return scalars
 
 
+def merge_repeated_names(names, scalars, vals):
+    '''
+    Combine the scalars of names that appear more than once, so that each
+    name appears once
+    '''
+    merged = dict()
+    for name, scalar, val in zip(names, scalars, vals):
+        if name in merged:
+            scalar = merged[name][0] + scalar
+        merged[name] = (scalar, val)
+    return (
+        list(merged.keys()),
+        [scalar for scalar, _ in merged.values()],
+        [val for _, val in merged.values()],
+    )
+
+
 shape_types = (tuple, list)
 
 
-- 
2.43.0


From 2e5b50f900db8b95d9bade783b688b26e82659d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 13/57] fix: accept numpy numbers as literals in arithmetic

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 4 +++-
 omtools/comps/linearcombination_comp.py                  | 4 +++-
 omtools/utils/process_options.py                         | 6 ++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index 4942350..e626a33 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -1,3 +1,5 @@
+from numbers import Number
+
 import numpy as np
 
 from omtools.comps.array_explicit_component import ArrayExplicitComponent
@@ -19,7 +21,7 @@ class PowerCombinationComp(ArrayExplicitComponent):
                              allow_none=True)
         self.options.declare('coeff',
                              default=1.,
-                             types=(int, float, np.ndarray))
+                             types=(Number, np.ndarray))
         self.options.declare('in_vals', types=list)
 
         self.post_initialize()
diff --git a/omtools/comps/linearcombination_comp.py b/omtools/comps/linearcombination_comp.py
index ce0d706..d514480 100644
--- a/omtools/comps/linearcombination_comp.py
+++ b/omtools/comps/linearcombination_comp.py
@@ -1,3 +1,5 @@
+from numbers import Number
+
 import numpy as np
 from openmdao.api import ExplicitComponent
 from omtools.utils.process_options import name_types, get_names_list, shape_types, get_shapes_list, scalar_types, get_scalars_list, merge_repeated_names
@@ -18,7 +20,7 @@ class LinearCombinationComp(ExplicitComponent):
                              allow_none=True)
         self.options.declare('constant',
                              default=0.,
-                             types=(int, float, np.ndarray))
+                             types=(Number, np.ndarray))
         self.options.declare('in_vals', types=list)
 
     def setup(self):
diff --git a/omtools/utils/process_options.py b/omtools/utils/process_options.py
index 850f2b4..0b78342 100644
--- a/omtools/utils/process_options.py
+++ b/omtools/utils/process_options.py
@@ -1,3 +1,5 @@
+from numbers import Number
+
 import numpy as np
 
 name_types = (str, list)
@@ -14,11 +16,11 @@ def get_names_list(names):
     return names
 
 
-scalar_types = (int, float, list, np.ndarray)
+scalar_types = (Number, list, np.ndarray)
 
 
 def get_scalars_list(scalars, names):
-    if isinstance(scalars, (int, float)):
+    if isinstance(scalars, Number):
         scalars = [scalars] * len(names)
     elif isinstance(scalars, (list)):
         pass
-- 
2.43.0


From 7f9bb692510befcf61506c786d2f342578b2c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 14/57] fix: reject operands that arithmetic expressions do not
 support

---
 omtools/core/variable.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 0320f88..950d11d 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -455,6 +455,10 @@ class ElementwiseAddition(Variable):
                 in_vals=[expr1.val],
             )
 
+        if self.build is None:
+            raise TypeError("Unsupported operand types: " + repr(expr1) +
+                            " and " + repr(expr2))
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
@@ -522,6 +526,10 @@ class ElementwiseSubtraction(Variable):
                 in_vals=[expr1.val],
             )
 
+        if self.build is None:
+            raise TypeError("Unsupported operand types: " + repr(expr1) +
+                            " and " + repr(expr2))
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
@@ -591,6 +599,10 @@ class ElementwiseMultiplication(Variable):
                 in_vals=[expr1.val],
             )
 
+        if self.build is None:
+            raise TypeError("Unsupported operand types: " + repr(expr1) +
+                            " and " + repr(expr2))
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
@@ -662,6 +674,10 @@ class ElementwiseDivision(Variable):
                 in_vals=[expr1.val],
             )
 
+        if self.build is None:
+            raise TypeError("Unsupported operand types: " + repr(expr1) +
+                            " and " + repr(expr2))
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
@@ -707,6 +723,10 @@ class ElementwisePower(Variable):
 
         # TODO: stock component where exponent is not a constant
 
+        if self.build is None:
+            raise TypeError("Unsupported operand types: " + repr(expr1) +
+                            " and " + repr(expr2))
+
     def __repr__(self):
         shape_str = "("
         for dim in self.shape:
-- 
2.43.0


From d2ff4260acd33a84135a30b4b5b70a2d1f23f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 15/57] fix: cross product along an axis counted from the last
 axis

---
 omtools/std/cross.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omtools/std/cross.py b/omtools/std/cross.py
index c235144..8555ed2 100644
--- a/omtools/std/cross.py
+++ b/omtools/std/cross.py
@@ -39,7 +39,7 @@ def cross(in1, in2, axis: int):
         in1_name=in1.name,
         in2_name=in2.name,
         out_name=out.name,
-        axis=axis,
+        axis=axis % len(in1.shape),
         in1_val=in1.val,
         in2_val=in2.val,
     )
-- 
2.43.0


From 698a1d78175c1f63bb2ef185c32cf39e710db456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 16/57] fix: inner product along axes counted from the last
 axis

---
 omtools/std/inner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index ac0b582..b1ac216 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -39,6 +39,9 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         )
 
     else:
+        # count axes from the first axis
+        axes = tuple([int(axis) % len(expr.shape) for axis in np.atleast_1d(a)]
+                     for a, expr in zip(axes, (expr1, expr2)))
         new_in0_shape = np.delete(list(expr1.shape), axes[0])
         new_in1_shape = np.delete(list(expr2.shape), axes[1])
         out.shape = tuple(np.append(new_in0_shape, new_in1_shape))
-- 
2.43.0


From 33b02904667a4d979acf12476c6f4e9141f0af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 17/57] fix: shape of matmat for one-column matrices and
 vectors; matmat with a vector expression

---
 omtools/comps/matmat_comp.py | 10 ++++++++--
 omtools/std/matmat.py        |  6 ++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/omtools/comps/matmat_comp.py b/omtools/comps/matmat_comp.py
index 781b7fa..a2cd1b5 100644
--- a/omtools/comps/matmat_comp.py
+++ b/omtools/comps/matmat_comp.py
@@ -25,6 +25,7 @@ class MatMatComp(ExplicitComponent):
         self.options.declare('out_name', types=str)
         self.options.declare('in_shapes', types=list)
         self.options.declare('in_vals', types=list)
+        self.options.declare('out_shape', default=None, types=tuple)
 
     def setup(self):
         in_names = self.options['in_names']
@@ -35,7 +36,10 @@ class MatMatComp(ExplicitComponent):
         self.add_input(in_names[0], shape=in_shapes[0], val=in_vals[0])
         self.add_input(in_names[1], shape=in_shapes[1], val=in_vals[1])
 
-        if in_shapes[1][1] != 1:
+        if self.options['out_shape'] is not None:
+            output_shape = self.options['out_shape']
+
+        elif in_shapes[1][1] != 1:
             output_shape = (in_shapes[0][0], in_shapes[1][1])
 
         else:
@@ -68,7 +72,9 @@ class MatMatComp(ExplicitComponent):
         in_names = self.options['in_names']
         out_name = self.options['out_name']
 
-        outputs[out_name] = inputs[in_names[0]] @ inputs[in_names[1]]
+        outputs[out_name] = (inputs[in_names[0]]
+                             @ inputs[in_names[1]]).reshape(
+                                 outputs[out_name].shape)
 
     def compute_partials(self, inputs, partials):
         in_names = self.options['in_names']
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index 9f56e3c..b012067 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -34,10 +34,11 @@ def matmat(mat1, mat2):
             out_name=out.name,
             in_shapes=[mat1.shape, mat2.shape],
             in_vals=[mat1.val, mat2.val],
+            out_shape=out.shape,
         )
 
     elif mat1.shape[1] == mat2.shape[0] and len(mat2.shape) == 1:
-        out.shape = (mat1.shape[0], 1)
+        out.shape = (mat1.shape[0], )
 
         mat2_shape = (mat2.shape[0], 1)
 
@@ -45,7 +46,8 @@ def matmat(mat1, mat2):
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
             in_shapes=[mat1.shape, mat2_shape],
-            in_vals=[mat1.val, mat2.val.reshape(mat2_shape)],
+            in_vals=[mat1.val, mat2.val.reshape((-1, 1))],
+            out_shape=out.shape,
         )
     else:
         raise Exception("Cannot multiply: ", mat1.shape, "by", mat2.shape)
-- 
2.43.0


From 8b9c626463492d5cfee05ddb31ccae38209b71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 18/57] fix: library functions applied to an expression and
 itself, e.g. dot(x, x)

---
 omtools/std/average.py             |  3 +++
 omtools/std/cross.py               |  3 +++
 omtools/std/dot.py                 |  3 +++
 omtools/std/inner.py               |  3 +++
 omtools/std/matmat.py              |  3 +++
 omtools/std/max.py                 |  3 +++
 omtools/std/min.py                 |  3 +++
 omtools/std/outer.py               |  3 +++
 omtools/std/sum.py                 |  3 +++
 omtools/utils/distinct_operands.py | 27 +++++++++++++++++++++++++++
 10 files changed, 54 insertions(+)
 create mode 100644 omtools/utils/distinct_operands.py

diff --git a/omtools/std/average.py b/omtools/std/average.py
index 4ce82dc..a157a96 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -1,6 +1,7 @@
 from omtools.comps.single_tensor_average_comp import SingleTensorAverageComp
 from omtools.comps.multiple_tensor_average_comp import MultipleTensorAverageComp
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -26,6 +27,8 @@ def average(*operands: List[Variable], axes=None):
     for expr in operands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    operands = distinct_operands(*operands)
+    for expr in operands:
         out.add_dependency_node(expr)
 
     if axes == None:
diff --git a/omtools/std/cross.py b/omtools/std/cross.py
index 8555ed2..2e52b60 100644
--- a/omtools/std/cross.py
+++ b/omtools/std/cross.py
@@ -1,5 +1,6 @@
 from omtools.comps.cross_product_comp import CrossProductComp
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 
 
 def cross(in1, in2, axis: int):
@@ -21,6 +22,8 @@ def cross(in1, in2, axis: int):
 
     if not (isinstance(in1, Variable) and isinstance(in2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
+    in1, in2 = distinct_operands(in1, in2)
+
     out = Variable()
     out.add_dependency_node(in1)
     out.add_dependency_node(in2)
diff --git a/omtools/std/dot.py b/omtools/std/dot.py
index bd5f73e..90406de 100644
--- a/omtools/std/dot.py
+++ b/omtools/std/dot.py
@@ -2,6 +2,7 @@ from omtools.comps.tensor_dot_product_comp import TensorDotProductComp
 from omtools.comps.vector_inner_product_comp import VectorInnerProductComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -25,6 +26,8 @@ def dot(expr1: Variable, expr2: Variable, axis=None):
 
     if not (isinstance(expr1, Variable) and isinstance(expr2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
+    expr1, expr2 = distinct_operands(expr1, expr2)
+
     out = Variable()
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index b1ac216..e6f6a34 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -2,6 +2,7 @@ from omtools.comps.tensor_inner_product_comp import TensorInnerProductComp
 from omtools.comps.vector_inner_product_comp import VectorInnerProductComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -26,6 +27,8 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
     elif not isinstance(expr2, Variable):
         raise TypeError(expr2, " is not an Variable object")
 
+    expr1, expr2 = distinct_operands(expr1, expr2)
+
     out = Variable()
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index b012067..c996c64 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -1,5 +1,6 @@
 from omtools.comps.matmat_comp import MatMatComp
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -21,6 +22,8 @@ def matmat(mat1, mat2):
 
     if not (isinstance(mat1, Variable) and isinstance(mat2, Variable)):
         raise TypeError("Arguments must both be Variable objects")
+    mat1, mat2 = distinct_operands(mat1, mat2)
+
     out = Variable()
     out.add_dependency_node(mat1)
     out.add_dependency_node(mat2)
diff --git a/omtools/std/max.py b/omtools/std/max.py
index 0438e98..aea1d71 100644
--- a/omtools/std/max.py
+++ b/omtools/std/max.py
@@ -3,6 +3,7 @@ from omtools.comps.elementwise_max_comp import ElementwiseMaxComp
 from omtools.comps.scalar_extremum_comp import ScalarExtremumComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 
 import numpy as np
 
@@ -29,6 +30,8 @@ def max(*exprs, axis=None, rho=20.):
     for expr in exprs:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    exprs = distinct_operands(*exprs)
+    for expr in exprs:
         out.add_dependency_node(expr)
 
     if len(exprs) == 1 and axis != None:
diff --git a/omtools/std/min.py b/omtools/std/min.py
index 9f43b0a..0c74b09 100644
--- a/omtools/std/min.py
+++ b/omtools/std/min.py
@@ -3,6 +3,7 @@ from omtools.comps.elementwise_min_comp import ElementwiseMinComp
 from omtools.comps.scalar_extremum_comp import ScalarExtremumComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 
 import numpy as np
 
@@ -29,6 +30,8 @@ def min(*exprs, axis=None, rho=20.):
     for expr in exprs:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    exprs = distinct_operands(*exprs)
+    for expr in exprs:
         out.add_dependency_node(expr)
 
     if len(exprs) == 1 and axis != None:
diff --git a/omtools/std/outer.py b/omtools/std/outer.py
index ebbed1f..7bb734e 100644
--- a/omtools/std/outer.py
+++ b/omtools/std/outer.py
@@ -2,6 +2,7 @@ from omtools.comps.tensor_outer_product_comp import TensorOuterProductComp
 from omtools.comps.vector_outer_product_comp import VectorOuterProductComp
 
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -23,6 +24,8 @@ def outer(expr1: Variable, expr2: Variable):
         raise TypeError(expr1, " is not an Variable object")
     elif not isinstance(expr2, Variable):
         raise TypeError(expr2, " is not an Variable object")
+    expr1, expr2 = distinct_operands(expr1, expr2)
+
     out = Variable()
     out.add_dependency_node(expr1)
     out.add_dependency_node(expr2)
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index 9380911..c980753 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -1,6 +1,7 @@
 from omtools.comps.single_tensor_sum_comp import SingleTensorSumComp
 from omtools.comps.multiple_tensor_sum_comp import MultipleTensorSumComp
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 from typing import List
 import numpy as np
 
@@ -24,6 +25,8 @@ def sum(*summands: List[Variable], axes=None):
     for expr in summands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    summands = distinct_operands(*summands)
+    for expr in summands:
         out.add_dependency_node(expr)
 
     if axes == None:
diff --git a/omtools/utils/distinct_operands.py b/omtools/utils/distinct_operands.py
new file mode 100644
index 0000000..7a4d77e
--- /dev/null
+++ b/omtools/utils/distinct_operands.py
@@ -0,0 +1,27 @@
+from typing import List
+
+from omtools.core.variable import Variable
+
+
+def distinct_operands(*exprs: Variable) -> List[Variable]:
+    """
+    Replace repeated operands with copies, for operations whose
+    ``Component`` requires each of its inputs to have a different name
+
+    Parameters
+    ----------
+    exprs: Variable
+        Operands, some of which may be the same object
+
+    Returns
+    -------
+    list[Variable]
+        Operands that have the same values, and that are different
+        objects
+    """
+    operands: List[Variable] = []
+    for expr in exprs:
+        if any(expr is operand for operand in operands):
+            expr = 1 * expr
+        operands.append(expr)
+    return operands
-- 
2.43.0


From 822603cb79b6daa86bc11811f191262213f1f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 19/57] fix: matmat with a vector that is not a declared
 variable

---
 omtools/std/matmat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omtools/std/matmat.py b/omtools/std/matmat.py
index c996c64..c359f18 100644
--- a/omtools/std/matmat.py
+++ b/omtools/std/matmat.py
@@ -49,7 +49,10 @@ def matmat(mat1, mat2):
             in_names=[mat1.name, mat2.name],
             out_name=out.name,
             in_shapes=[mat1.shape, mat2_shape],
-            in_vals=[mat1.val, mat2.val.reshape((-1, 1))],
+            in_vals=[
+                mat1.val,
+                np.broadcast_to(mat2.val, mat2.shape).reshape(mat2_shape)
+            ],
             out_shape=out.shape,
         )
     else:
-- 
2.43.0


From 252971f5bdbaf07bfd80c009d47b1612c27f6a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 20/57] fix: reject expand indices that change the order of the
 axes

---
 omtools/std/expand.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omtools/std/expand.py b/omtools/std/expand.py
index 6a84afe..e3cd049 100644
--- a/omtools/std/expand.py
+++ b/omtools/std/expand.py
@@ -18,6 +18,11 @@ def expand(expr: Variable, shape: tuple, indices=None):
 
     if indices is not None:
         in_indices, out_indices = indices.split('->')
+
+        if [i for i in out_indices if i in in_indices] != list(in_indices):
+            raise ValueError(
+                indices + ' is invalid; indices of the input must appear '
+                'in the output in the same order')
         expand_indices = []
         for i in range(len(out_indices)):
             index = out_indices[i]
-- 
2.43.0


From 080e6ba8e7135610c9381a192e208cd90992c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 21/57] fix: if_else of arrays, and partials of if_else

---
 omtools/std/if_else.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 29b9c51..86d998a 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -17,10 +17,16 @@ class ConditionalComponent(ExplicitComponent):
         expr_true = self.options['expr_true']
         expr_false = self.options['expr_false']
 
-        self.add_input(condition.name, condition.val)
-        self.add_input(expr_true.name, expr_true.val)
-        self.add_input(expr_false.name, expr_false.val)
-        self.add_output(out_name)
+        shape = expr_true.shape
+
+        self.add_input(
+            condition.name,
+            shape=condition.shape,
+            val=condition.val,
+        )
+        self.add_input(expr_true.name, shape=shape, val=expr_true.val)
+        self.add_input(expr_false.name, shape=shape, val=expr_false.val)
+        self.add_output(out_name, shape=shape)
 
         self.declare_partials(
             of=out_name,
@@ -47,10 +53,10 @@ class ConditionalComponent(ExplicitComponent):
         expr_false = self.options['expr_false']
 
         if inputs[condition.name] < 0:
-            partials[out_name, expr_false.name] = inputs[expr_false.name]
+            partials[out_name, expr_false.name] = 1
             partials[out_name, expr_true.name] = 0
         else:
-            partials[out_name, expr_true.name] = inputs[expr_true.name]
+            partials[out_name, expr_true.name] = 1
             partials[out_name, expr_false.name] = 0
 
 
@@ -65,6 +71,7 @@ def if_else(
         )
 
     out = Variable()
+    out.shape = expr_true.shape
     out.add_dependency_node(condition)
     out.add_dependency_node(expr_true)
     out.add_dependency_node(expr_false)
-- 
2.43.0


From 22c7b24cf4f47ebce0a3b0ee34c3a76f25c222c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 22/57] fix: index expressions whose default value is a scalar

---
 omtools/core/variable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 950d11d..bbe5fdb 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -145,6 +145,9 @@ class Variable():
     ):
         if self._getitem_called == False:
             self._getitem_called = True
+            # expressions that are not declared by the user do not always
+            # have a value for each element
+            self.val = np.broadcast_to(self.val, self.shape)
             self._decomp = Variable(shape=self.shape, val=self.val[key])
             self._decomp.name = 'decompose_' + self.name
             self._decomp.add_dependency_node(self)
-- 
2.43.0


From f018d5b9365572cc92213c148092666bdf0f091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 23/57] fix: assign to elements an expression that is
 registered later

The name of the assigned expression was stored when it was assigned; a
later call to register_output renames the expression, which left the
input of the concatenation unconnected.
---
 omtools/core/explicit_output.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index d6f0d9f..e671ac3 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -39,7 +39,7 @@ class ExplicitOutput(Output):
         self.shape, self.val = get_shape_val(shape, val)
         self.defined = False
         self.indexed_assignment = False
-        self._tgt_indices: Dict[str, List[int]] = {}
+        self._tgt_indices: Dict[Variable, List[int]] = {}
         self.checked_indices = set()
         self.overlapping_indices = set()
         self._tgt_vals = dict()
@@ -142,12 +142,12 @@ class ExplicitOutput(Output):
             raise ValueError("Indices given are out of range for " +
                              self.__repr__())
 
-        if expr.name in self._tgt_indices.keys():
+        if expr in self._tgt_indices.keys():
             raise KeyError("Repeated use of expression " + expr.name +
                            " in assignment to elements in " + self.name +
                            ". Consider using omtools.expand")
-        self._tgt_indices[expr.name] = (expr.shape, tgt_indices)
-        self._tgt_vals[expr.name] = expr.val
+        self._tgt_indices[expr] = (expr.shape, tgt_indices)
+        self._tgt_vals[expr] = expr.val
 
         # Check for overlapping indices
         self.overlapping_indices = self.checked_indices.intersection(
@@ -157,10 +157,14 @@ class ExplicitOutput(Output):
             raise ValueError("Indices used for assignment must not overlap")
 
         self.build = lambda: IndexedPassThroughComp(
-            expr_indices=self._tgt_indices,
+            expr_indices={
+                expr.name: indices
+                for expr, indices in self._tgt_indices.items()
+            },
             out_name=self.name,
             out_shape=self.shape,
-            vals=self._tgt_vals,
+            vals={expr.name: val
+                  for expr, val in self._tgt_vals.items()},
         )
         self.indexed_assignment = True
         self.defined = True
-- 
2.43.0


From 53ef2cabab893f3bf35ee12330ed4c7463edf063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 24/57] fix: reject assignment to elements of an output that is
 already defined

---
 omtools/core/explicit_output.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index e671ac3..6221d3b 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -90,6 +90,11 @@ class ExplicitOutput(Output):
         key: Union[int, slice, Tuple[slice]],
         expr: Variable,
     ):
+        if self.defined == True and self.indexed_assignment == False:
+            raise ValueError(
+                "Variable for output " + self.name +
+                ", which forms a cycle to be computed iteratively, is already defined"
+            )
         self.add_dependency_node(expr)
         tgt_indices = []
 
-- 
2.43.0


From 31c921c751378601f3eda8c68aa608a9709fb8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 25/57] fix: reject definition of an output by an expression
 with another shape

---
 omtools/core/explicit_output.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 6221d3b..e1376f0 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -69,6 +69,9 @@ class ExplicitOutput(Output):
                 "Variable for output " + self.name +
                 ", which forms a cycle to be computed iteratively, is already defined"
             )
+        if expr.shape != self.shape:
+            raise ValueError("Shape of expression and output " + self.name +
+                             " do not match")
         self.defined = True
 
         self.add_dependency_node(expr)
-- 
2.43.0


From 426ddd5429be650a49f7a7f108392ec243793a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 26/57] fix: use the initial value given to create_output for
 outputs that form a cycle

---
 omtools/comps/pass_through_comp.py | 3 ++-
 omtools/core/explicit_output.py    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/pass_through_comp.py b/omtools/comps/pass_through_comp.py
index effad03..f51fdac 100644
--- a/omtools/comps/pass_through_comp.py
+++ b/omtools/comps/pass_through_comp.py
@@ -7,6 +7,7 @@ class PassThroughComp(ExplicitComponent):
     def initialize(self):
         self.options.declare('expr', types=Variable)
         self.options.declare('name', types=str)
+        self.options.declare('val', default=1.)
 
     def setup(self):
         shape = self.options['expr'].shape
@@ -15,7 +16,7 @@ class PassThroughComp(ExplicitComponent):
         out_name = self.options['name']
 
         self.add_input(in_name, shape=shape, val=val)
-        self.add_output(out_name, shape=shape)
+        self.add_output(out_name, shape=shape, val=self.options['val'])
 
         r = np.arange(np.prod(shape))
         self.declare_partials(
diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index e1376f0..b4c7982 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -84,6 +84,7 @@ class ExplicitOutput(Output):
         self.build = lambda: PassThroughComp(
             expr=expr,
             name=self.name,
+            val=self.val,
         )
 
     # TODO: index by tuple, not expression?
-- 
2.43.0


From a5dd0579995a4f442d95d33a049f6127970ce3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 27/57] fix: build the same model when Problem.setup is called
 again

---
 omtools/core/group.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 690c004..2f1296e 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -35,8 +35,22 @@ def _post_setup(func: Callable) -> Callable:
         User defined method to define expressions and add subsystems for
         model execution
         """
+        # OpenMDAO calls setup every time Problem.setup is called. If
+        # this group has been built within another group's setup method,
+        # e.g. using create_group, there is nothing left to build;
+        # otherwise, build the graph again
+        if self._built_statically:
+            return
+        self._clear_previous_setup()
+
         # The user-defined Group.setup() method
+        static_dependencies = list(self._root.dependencies)
         func(self)
+        self._setup_dependencies = [
+            dependency for dependency in self._root.dependencies
+            if dependency not in static_dependencies
+        ]
+        self._built_statically = self._static_mode
 
         # Create a record of all nodes in DAG
         self._root.register_nodes(self.nodes)
@@ -160,6 +174,30 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.res_out_map: Dict[str, str] = dict()
         self.brackets_map = None
         self.out_vals = dict()
+        self._setup_dependencies: list = []
+        self._built_statically: bool = False
+
+    def _clear_previous_setup(self):
+        """
+        Clear what the previous call to ``self.setup`` added to the
+        graph, and the results of analyzing the graph
+        """
+        for dependency in self._setup_dependencies:
+            self._root.remove_dependency_node(dependency)
+        self._setup_dependencies = []
+        subsystems = [
+            dependency for dependency in self._root.dependencies
+            if isinstance(dependency, Subsystem)
+        ]
+        if self._most_recently_added_subsystem not in subsystems:
+            self._most_recently_added_subsystem = None
+        self.nodes = dict()
+        nodes: dict = dict()
+        self._root.register_nodes(nodes)
+        for node in [self._root] + list(nodes.values()):
+            node.dependents = []
+            node.times_visited = 0
+            node._dag_cost = 1
 
     def initialize(self, *args, **kwargs):
         """
-- 
2.43.0


From 34c28773da1da4e7a06a8b21a6f3f88688786611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 28/57] fix: subclasses of Group that inherit setup or call it
 with super()

---
 omtools/comps/implicit_component.py |  4 +++-
 omtools/core/group.py               | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 912df33..76e5eb6 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -125,7 +125,9 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ProblemBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        # a subclass inherits setup if it does not define setup
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ProblemBuilder, cls).__new__(cls, name, bases, attr)
 
 
diff --git a/omtools/core/group.py b/omtools/core/group.py
index 2f1296e..7b85339 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -35,6 +35,12 @@ def _post_setup(func: Callable) -> Callable:
         User defined method to define expressions and add subsystems for
         model execution
         """
+        # When a subclass calls the setup method of its base class, build
+        # the components only after the setup method of the subclass runs
+        if self._calling_setup:
+            func(self)
+            return
+
         # OpenMDAO calls setup every time Problem.setup is called. If
         # this group has been built within another group's setup method,
         # e.g. using create_group, there is nothing left to build;
@@ -45,7 +51,11 @@ def _post_setup(func: Callable) -> Callable:
 
         # The user-defined Group.setup() method
         static_dependencies = list(self._root.dependencies)
-        func(self)
+        self._calling_setup = True
+        try:
+            func(self)
+        finally:
+            self._calling_setup = False
         self._setup_dependencies = [
             dependency for dependency in self._root.dependencies
             if dependency not in static_dependencies
@@ -138,7 +148,9 @@ def _post_setup(func: Callable) -> Callable:
 
 class _ComponentBuilder(type):
     def __new__(cls, name, bases, attr):
-        attr['setup'] = _post_setup(attr['setup'])
+        # a subclass inherits setup if it does not define setup
+        if 'setup' in attr:
+            attr['setup'] = _post_setup(attr['setup'])
         return super(_ComponentBuilder, cls).__new__(cls, name, bases, attr)
 
 
@@ -176,6 +188,7 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.out_vals = dict()
         self._setup_dependencies: list = []
         self._built_statically: bool = False
+        self._calling_setup: bool = False
 
     def _clear_previous_setup(self):
         """
-- 
2.43.0


From 3c411fb92450afd75a74844e4afb7e92a154aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 29/57] fix: an input of an ImplicitComponent may appear in
 more than one residual

---
 omtools/comps/implicit_component.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 76e5eb6..6cf409b 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -43,6 +43,8 @@ def _post_setup(func: Callable) -> Callable:
 
         _remove_nonresiduals(g._root)
 
+        in_names: Set[str] = set()
+
         # Collect residual expressions and their corresponding inputs
         # and outputs
         for res_expr in g._root.dependencies:
@@ -66,13 +68,16 @@ def _post_setup(func: Callable) -> Callable:
                 )
 
                 # add inputs, declare partials (out wrt in)
+                # an input may appear in more than one residual
                 for in_expr in in_exprs:
                     if in_expr.name != out_name:
-                        self.add_input(
-                            in_expr.name,
-                            shape=in_expr.shape,
-                            val=in_expr.val,
-                        )
+                        if in_expr.name not in in_names:
+                            in_names.add(in_expr.name)
+                            self.add_input(
+                                in_expr.name,
+                                shape=in_expr.shape,
+                                val=in_expr.val,
+                            )
                         self.declare_partials(
                             of=out_name,
                             wrt=in_expr.name,
-- 
2.43.0


From fc9b8e547636cf39e53f56be99d5b3a186fdca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 30/57] fix: use the initial value given to
 create_implicit_output

---
 omtools/comps/implicit_component.py | 7 ++-----
 omtools/core/implicit_output.py     | 1 +
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 6cf409b..6d8e45c 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -64,7 +64,7 @@ def _post_setup(func: Callable) -> Callable:
                 self.add_output(
                     out_name,
                     shape=res_expr.shape,
-                    val=res_expr.val,
+                    val=self.group.out_vals[out_name],
                 )
 
                 # add inputs, declare partials (out wrt in)
@@ -110,10 +110,7 @@ def _post_setup(func: Callable) -> Callable:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 out_name = self.group.res_out_map[res_expr.name]
-                if len(self.group.out_vals) == 0:
-                    self.prob[out_name] = 1
-                else:
-                    self.prob[out_name] = self.group.out_vals[out_name]
+                self.prob[out_name] = self.group.out_vals[out_name]
                 for in_expr in self.all_inputs[out_name]:
                     self.prob[in_expr.name] = in_expr.val
 
diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index b6a9974..35f55d5 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -154,6 +154,7 @@ class ImplicitOutput(Output):
 
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
+        self.group.out_vals[self.name] = self.val
         self.group.brackets_map = (dict(), dict())
         self.group.brackets_map[0][self.name] = x1
         self.group.brackets_map[1][self.name] = x2
-- 
2.43.0


From d05d9b440dad5d02182ab4aa20c3048b9ee5386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 31/57] fix: keep the brackets of each implicit output

---
 omtools/comps/implicit_component.py | 3 ++-
 omtools/core/implicit_output.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 6d8e45c..b0f411f 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -210,7 +210,8 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 out_name = self.group.res_out_map[res_expr.name]
                 shape = res_expr.shape
 
-                if self.group.brackets_map is not None:
+                if self.group.brackets_map is not None and out_name in self.group.brackets_map[
+                        0]:
                     x1 = self.group.brackets_map[0][out_name] * np.ones(shape)
                     x2 = self.group.brackets_map[1][out_name] * np.ones(shape)
 
diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index 35f55d5..de6a5f2 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -155,7 +155,8 @@ class ImplicitOutput(Output):
         # map residual name to user defined output name
         self.group.res_out_map[residual_expr.name] = self.name
         self.group.out_vals[self.name] = self.val
-        self.group.brackets_map = (dict(), dict())
+        if self.group.brackets_map is None:
+            self.group.brackets_map = (dict(), dict())
         self.group.brackets_map[0][self.name] = x1
         self.group.brackets_map[1][self.name] = x2
 
-- 
2.43.0


From 291529a7ed7d3b3b7c5fab0bf4488cf2469d4de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 32/57] fix: use the maximum number of iterations given to
 ImplicitComponent

---
 omtools/comps/implicit_component.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index b0f411f..c755791 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -162,7 +162,7 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
         self.derivs = dict()
-        self.maxiter = 100
+        self.maxiter = maxiter
         self.n2 = n2
 
     def _set_values(self, inputs, outputs):
@@ -239,7 +239,11 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                     outputs[out_name] = 0.5 * xp + 0.5 * xn
 
     def linearize(self, inputs, outputs, jacobian):
+        # evaluate the residuals at the point where the component is
+        # linearized
         self._set_values(inputs, outputs)
+        self.prob.run_model()
+
         in_exprs = set()
         for inputs in self.all_inputs.values():
             in_exprs = in_exprs.union(inputs)
-- 
2.43.0


From b786b4be696a97914b18d579a19623f0d073e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 33/57] fix: derivatives of coupled residuals, and solve_linear
 of ImplicitComponent

---
 omtools/comps/implicit_component.py | 45 ++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index c755791..d9cca4b 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -103,6 +103,11 @@ def _post_setup(func: Callable) -> Callable:
                     pass
                 else:
                     self.prob.model.add_design_var(out_name)
+        # residual wrt other outputs
+        for of in self.all_outputs:
+            for wrt in self.all_outputs:
+                if of != wrt:
+                    self.declare_partials(of=of, wrt=wrt)
         self.prob.setup()
 
         # set initial values for inputs and output
@@ -262,16 +267,34 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
                 for in_expr in self.all_inputs[out_name]:
                     jacobian[out_name, in_expr.name] = jac[res_name,
                                                            in_expr.name]
-                jacobian[out_name, out_name] = jac[res_name, out_name]
-
-                self.derivs[out_name] = np.diag(
-                    jac[res_name, out_name]).reshape(res_expr.shape)
+                for wrt in self.all_outputs:
+                    jacobian[out_name, wrt] = jac[res_name, wrt]
+
+        # derivatives of all residuals wrt all outputs, used to solve
+        # the linear system
+        self.derivs = {
+            (out_name, wrt): jac[res_name, wrt]
+            for res_name, out_name in self.group.res_out_map.items()
+            for wrt in self.all_outputs
+        }
 
     def solve_linear(self, d_outputs, d_residuals, mode):
-        for out_name in self.group.res_out_map.values():
-            if mode == 'fwd':
-                d_outputs[out_name] += 1. / self.derivs[
-                    out_name] * d_residuals[out_name]
-            else:
-                d_residuals[out_name] += 1. / self.derivs[
-                    out_name] * d_outputs[out_name]
+        out_names = list(self.group.res_out_map.values())
+        derivs = np.block([[self.derivs[out_name, wrt] for wrt in out_names]
+                           for out_name in out_names])
+        if mode == 'fwd':
+            lhs, rhs = d_outputs, d_residuals
+        else:
+            lhs, rhs = d_residuals, d_outputs
+            derivs = derivs.T
+        sol = np.linalg.solve(
+            derivs,
+            np.concatenate([rhs[out_name].flatten()
+                            for out_name in out_names]),
+        )
+        start = 0
+        for out_name in out_names:
+            size = lhs[out_name].size
+            lhs[out_name] = sol[start:start + size].reshape(
+                lhs[out_name].shape)
+            start += size
-- 
2.43.0


From 8e98711889410f9f38d57aef343350bace900f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 34/57] fix: build the same ImplicitComponent when
 Problem.setup is called again

---
 omtools/comps/implicit_component.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index d9cca4b..d601294 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -37,7 +37,22 @@ def _remove_nonresiduals(root: Variable):
 # TODO: disallow implicit variables in main group class
 def _post_setup(func: Callable) -> Callable:
     def _build_problem(self):
-        func(self)
+        # When a subclass calls the setup method of its base class, build
+        # the problem only after the setup method of the subclass runs
+        if self._calling_setup:
+            func(self)
+            return
+
+        # OpenMDAO calls setup every time Problem.setup is called
+        if self._setup_called:
+            self._create_problem()
+        self._setup_called = True
+
+        self._calling_setup = True
+        try:
+            func(self)
+        finally:
+            self._calling_setup = False
         # setup internal problem
         g = self.group
 
@@ -161,14 +176,19 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             ['apply_linear', 'apply_multi_linear', 'solve_multi_linear']
         }
 
+        self.maxiter = maxiter
+        self.n2 = n2
+        self._setup_called = False
+        self._calling_setup = False
+        self._create_problem()
+
+    def _create_problem(self):
         self.prob = Problem()
         self.prob.model = Group()
         self.group = self.prob.model
         self.all_inputs: Dict[Set[Input]] = dict()
         self.all_outputs: Set[str] = set()
         self.derivs = dict()
-        self.maxiter = maxiter
-        self.n2 = n2
 
     def _set_values(self, inputs, outputs):
         for res_expr in self.group._root.dependencies:
-- 
2.43.0


From 3b2445f661f10a621ea01b499908933101269c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 35/57] fix: bracketed outputs whose residuals depend on other
 bracketed outputs

---
 omtools/comps/implicit_component.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index d601294..fdb0884 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -229,14 +229,27 @@ class ImplicitComponent(OMImplicitComponent, metaclass=_ProblemBuilder):
             residuals[out_name] = np.array(prob[res_name])
 
     def solve_nonlinear(self, inputs, outputs):
+        # The residual of a bracketed output may depend on the other
+        # bracketed outputs; repeat until all of them are solved
+        if self.group.brackets_map is None:
+            return
+        out_names = list(self.group.brackets_map[0].keys())
+        for _ in out_names:
+            prev = [np.array(outputs[out_name]) for out_name in out_names]
+            self._solve_bracketed(inputs, outputs)
+            if all(
+                    np.array_equal(prev_val, outputs[out_name])
+                    for prev_val, out_name in zip(prev, out_names)):
+                break
+
+    def _solve_bracketed(self, inputs, outputs):
         for res_expr in self.group._root.dependencies:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
                 out_name = self.group.res_out_map[res_expr.name]
                 shape = res_expr.shape
 
-                if self.group.brackets_map is not None and out_name in self.group.brackets_map[
-                        0]:
+                if out_name in self.group.brackets_map[0]:
                     x1 = self.group.brackets_map[0][out_name] * np.ones(shape)
                     x2 = self.group.brackets_map[1][out_name] * np.ones(shape)
 
-- 
2.43.0


From 3b99472d90a866a6c247042ca62351e09cb9975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 36/57] fix: if_else with the same expression as two of its
 operands

---
 omtools/std/if_else.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omtools/std/if_else.py b/omtools/std/if_else.py
index 86d998a..4df718f 100644
--- a/omtools/std/if_else.py
+++ b/omtools/std/if_else.py
@@ -1,4 +1,5 @@
 from omtools.core.variable import Variable
+from omtools.utils.distinct_operands import distinct_operands
 # from omtools.comps.conditional_component import ConditionalComponent
 from openmdao.api import ExplicitComponent
 import numpy as np
@@ -70,6 +71,12 @@ def if_else(
             "Variable shapes must be the same for Variable objects for both branches of execution"
         )
 
+    condition, expr_true, expr_false = distinct_operands(
+        condition,
+        expr_true,
+        expr_false,
+    )
+
     out = Variable()
     out.shape = expr_true.shape
     out.add_dependency_node(condition)
-- 
2.43.0


From 57e07962401dcca8b5e704fb02bfb628c19ceae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 37/57] fix: options dictionary: list of types, and invalid
 default values

---
 omtools/utils/options_dictionary.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/omtools/utils/options_dictionary.py b/omtools/utils/options_dictionary.py
index b3e938c..82ca944 100644
--- a/omtools/utils/options_dictionary.py
+++ b/omtools/utils/options_dictionary.py
@@ -290,6 +290,11 @@ class OptionsDictionary(object):
 
         default_provided = default is not _undefined
 
+        # isinstance only accepts a type or a tuple of types
+        if isinstance(types, (set, list)):
+            types = tuple(types)
+
+        previous = self._dict.get(name)
         self._dict[name] = {
             'value': default,
             'values': values,
@@ -304,7 +309,15 @@ class OptionsDictionary(object):
 
         # If a default is given, check for validity
         if default_provided:
-            self._assert_valid(name, default)
+            try:
+                self._assert_valid(name, default)
+            except Exception:
+                # the option is not declared if the default is invalid
+                if previous is None:
+                    del self._dict[name]
+                else:
+                    self._dict[name] = previous
+                raise
 
     def undeclare(self, name):
         """
-- 
2.43.0


From 750a10d396a9599ca5a54cd3f5ced5b6cde3e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 38/57] fix: dot and inner of vectors that result from a
 reduction over axes

---
 omtools/std/dot.py   | 2 +-
 omtools/std/inner.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/std/dot.py b/omtools/std/dot.py
index 90406de..e9d83f2 100644
--- a/omtools/std/dot.py
+++ b/omtools/std/dot.py
@@ -42,7 +42,7 @@ def dot(expr1: Variable, expr2: Variable, axis=None):
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-            in_shape=expr1.shape[0],
+            in_shape=int(expr1.shape[0]),
             in_vals=[expr1.val, expr2.val],
         )
     else:
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index e6f6a34..73ef20c 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -37,7 +37,7 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
-            in_shape=expr1.shape[0],
+            in_shape=int(expr1.shape[0]),
             in_vals=[expr1.val, expr2.val],
         )
 
-- 
2.43.0


From 057b677a8e89c3190e3162a4524bd3d354299522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 39/57] fix: reject operands of different shapes in sum and
 average

---
 omtools/std/average.py | 2 ++
 omtools/std/sum.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/omtools/std/average.py b/omtools/std/average.py
index a157a96..3cf15fa 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -27,6 +27,8 @@ def average(*operands: List[Variable], axes=None):
     for expr in operands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+        if expr.shape != operands[0].shape:
+            raise ValueError("The shapes of the inputs must match!")
     operands = distinct_operands(*operands)
     for expr in operands:
         out.add_dependency_node(expr)
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index c980753..efbe1cb 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -25,6 +25,8 @@ def sum(*summands: List[Variable], axes=None):
     for expr in summands:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+        if expr.shape != summands[0].shape:
+            raise ValueError("The shapes of the inputs must match!")
     summands = distinct_operands(*summands)
     for expr in summands:
         out.add_dependency_node(expr)
-- 
2.43.0


From 68ab6680d7a1a7ce9e8ac19297100f91be5bf107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 40/57] fix: reject inner products along axes of different
 sizes

---
 omtools/std/inner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index 73ef20c..144a9b7 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -34,6 +34,8 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
     out.add_dependency_node(expr2)
 
     if len(expr1.shape) == 1 and len(expr2.shape) == 1:
+        if expr1.shape != expr2.shape:
+            raise ValueError("The shapes of the inputs must match!")
         out.build = lambda: VectorInnerProductComp(
             in_names=[expr1.name, expr2.name],
             out_name=out.name,
@@ -45,6 +47,9 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
         # count axes from the first axis
         axes = tuple([int(axis) % len(expr.shape) for axis in np.atleast_1d(a)]
                      for a, expr in zip(axes, (expr1, expr2)))
+        if [expr1.shape[axis] for axis in axes[0]
+            ] != [expr2.shape[axis] for axis in axes[1]]:
+            raise ValueError("Cannot contract axes of different sizes")
         new_in0_shape = np.delete(list(expr1.shape), axes[0])
         new_in1_shape = np.delete(list(expr2.shape), axes[1])
         out.shape = tuple(np.append(new_in0_shape, new_in1_shape))
-- 
2.43.0


From 5c845d4e66b96eeca1a6d8d48087071625759869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 41/57] fix: reject einsum over axes of different sizes

---
 omtools/utils/einsum_utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/omtools/utils/einsum_utils.py b/omtools/utils/einsum_utils.py
index 2fba882..9fc40f1 100644
--- a/omtools/utils/einsum_utils.py
+++ b/omtools/utils/einsum_utils.py
@@ -7,6 +7,18 @@ def compute_einsum_shape(
 ):
     out_shape = []
 
+    # each axis label stands for one size
+    sizes = dict()
+    for tensor_rep, in_shape in zip(operation_aslist[:-1], in_shapes):
+        for char, size in zip(tensor_rep, in_shape):
+            if sizes.setdefault(char, size) != size:
+                raise ValueError("Axes with label " + repr(char) +
+                                 " have different sizes")
+    for char in operation_aslist[-1]:
+        if char not in sizes:
+            raise ValueError("Axis label " + repr(char) +
+                             " of the output is not a label of an input")
+
     if operation_aslist[-1] == '' :
         out_shape = (1, )
 
-- 
2.43.0


From ef6115d2af2644f0c00deb34b12fcf5700c33a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 42/57] fix: reject reshape to another size

---
 omtools/std/reshape.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/std/reshape.py b/omtools/std/reshape.py
index 9d73f88..f1595a5 100644
--- a/omtools/std/reshape.py
+++ b/omtools/std/reshape.py
@@ -1,5 +1,6 @@
 from omtools.comps.reshape_comp import ReshapeComp
 from omtools.core.variable import Variable
+import numpy as np
 
 
 def reshape(expr: Variable, new_shape: tuple):
@@ -16,6 +17,9 @@ def reshape(expr: Variable, new_shape: tuple):
     '''
     if not isinstance(expr, Variable):
         raise TypeError(expr, " is not an Variable object")
+    if np.prod(new_shape) != np.prod(expr.shape):
+        raise ValueError("Cannot reshape " + repr(expr.shape) + " to " +
+                         repr(new_shape))
     out = Variable()
     out.shape = new_shape
     out.add_dependency_node(expr)
-- 
2.43.0


From 1cc3e52d37903f294dbe18c876092ea7ef5f1c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 43/57] fix: reject constant arrays whose shape does not fit
 the expression

---
 omtools/core/variable.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index bbe5fdb..34c7bea 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -20,6 +20,17 @@ def slice_to_tuple(key: slice, size: int) -> tuple:
     return (key.start, key.stop, key.step)
 
 
+def check_constant_shape(constant, shape: tuple):
+    """
+    Check that a constant (a number or array) can be combined
+    elementwise with an expression of the given shape
+    """
+    if np.broadcast_shapes(np.shape(constant), shape) != tuple(shape):
+        raise ValueError("Shape of constant " + repr(np.shape(constant)) +
+                         " does not match shape of expression " +
+                         repr(shape))
+
+
 class Variable():
     """
     The ``Variable`` class is a base type for nodes in a Directed
@@ -448,6 +459,7 @@ class ElementwiseAddition(Variable):
 
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
+            check_constant_shape(expr2, expr1.shape)
 
             self.build = lambda: LinearCombinationComp(
                 shape=expr1.shape,
@@ -517,6 +529,7 @@ class ElementwiseSubtraction(Variable):
 
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
+            check_constant_shape(expr2, expr1.shape)
             self.shape = expr1.shape
             self.val = expr1.val
 
@@ -589,6 +602,7 @@ class ElementwiseMultiplication(Variable):
 
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
+            check_constant_shape(expr2, expr1.shape)
 
             self.shape = expr1.shape
             self.val = expr1.val
@@ -662,6 +676,7 @@ class ElementwiseDivision(Variable):
 
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
+            check_constant_shape(expr2, expr1.shape)
             if np.any(expr2 == 0):
                 raise ValueError("Cannot divide by zero")
 
-- 
2.43.0


From 01f88520a0e22e7b42c53015209496d60054ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 44/57] fix: coupled residuals of an ImplicitComponent may
 share expressions

An output of the component that a residual of another output uses is not
an input of the component.
---
 omtools/comps/implicit_component.py | 33 +++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index fdb0884..1ce418f 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -59,14 +59,22 @@ def _post_setup(func: Callable) -> Callable:
         _remove_nonresiduals(g._root)
 
         in_names: Set[str] = set()
+        # names of all outputs of this component
+        out_names = set(g.res_out_map.values())
 
         # Collect residual expressions and their corresponding inputs
         # and outputs
         for res_expr in g._root.dependencies:
             if isinstance(res_expr, Subsystem) == False and isinstance(
                     res_expr, ExplicitOutput) == False:
-                # inputs for this residual only
-                in_exprs = set(collect_input_exprs([], res_expr, res_expr))
+                # inputs for this residual only; the residual may also
+                # use outputs of this component
+                in_exprs = {
+                    in_expr
+                    for in_expr in collect_input_exprs(
+                        [], res_expr, res_expr)
+                    if in_expr.name not in out_names
+                }
                 # output corresponding to this residual
                 out_name = self.group.res_out_map[res_expr.name]
 
@@ -85,18 +93,17 @@ def _post_setup(func: Callable) -> Callable:
                 # add inputs, declare partials (out wrt in)
                 # an input may appear in more than one residual
                 for in_expr in in_exprs:
-                    if in_expr.name != out_name:
-                        if in_expr.name not in in_names:
-                            in_names.add(in_expr.name)
-                            self.add_input(
-                                in_expr.name,
-                                shape=in_expr.shape,
-                                val=in_expr.val,
-                            )
-                        self.declare_partials(
-                            of=out_name,
-                            wrt=in_expr.name,
+                    if in_expr.name not in in_names:
+                        in_names.add(in_expr.name)
+                        self.add_input(
+                            in_expr.name,
+                            shape=in_expr.shape,
+                            val=in_expr.val,
                         )
+                    self.declare_partials(
+                        of=out_name,
+                        wrt=in_expr.name,
+                    )
 
                 # residual wrt output
                 self.declare_partials(
-- 
2.43.0


From 629292ad9e9a9b37ca0536121469ac4ffafc31fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 45/57] fix: total derivatives of coupled implicit outputs
 through each other

OpenMDAO leaves out inputs whose partials are not declared, so that an
output whose residual uses an input only through another output of the
component had zero derivatives with respect to that input.
---
 omtools/comps/implicit_component.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 1ce418f..3a3005e 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -125,6 +125,10 @@ def _post_setup(func: Callable) -> Callable:
                     pass
                 else:
                     self.prob.model.add_design_var(out_name)
+        # outputs depend on the inputs of all residuals they are coupled with
+        for of in self.all_outputs:
+            for wrt in in_names:
+                self.declare_partials(of=of, wrt=wrt)
         # residual wrt other outputs
         for of in self.all_outputs:
             for wrt in self.all_outputs:
-- 
2.43.0


From 1baed4b290f47614fd15b604cfafaaa4b8461c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 46/57] fix: wrong total derivatives after setting up a problem
 again

OpenMDAO stores in each group the names of the inputs that take part in a
linear solve.  The automatically chosen names change with every setup, so
derivatives through them were dropped after the second setup when the
group is part of another group.
---
 omtools/core/group.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/omtools/core/group.py b/omtools/core/group.py
index 7b85339..a630f3e 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -212,6 +212,16 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
             node.times_visited = 0
             node._dag_cost = 1
 
+        # The automatically chosen names change with every setup; discard
+        # the sets of names that OpenMDAO stores in this group and the
+        # groups that contain it
+        if self._problem_meta is not None:
+            system = self._problem_meta['model_ref']()
+            system._scope_cache = dict()
+            for name in self.pathname.split('.') if self.pathname else []:
+                system = system._get_subsystem(name)
+                system._scope_cache = dict()
+
     def initialize(self, *args, **kwargs):
         """
         User defined method to set options
-- 
2.43.0


From c2a9c7b5907ff9522982c673f1188b082cd01a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 47/57] fix: an input that is declared more than once in one
 group

---
 omtools/core/explicit_output.py    | 4 ++++
 omtools/core/variable.py           | 3 ++-
 omtools/utils/distinct_operands.py | 5 +++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index b4c7982..96868e3 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -155,6 +155,10 @@ class ExplicitOutput(Output):
             raise KeyError("Repeated use of expression " + expr.name +
                            " in assignment to elements in " + self.name +
                            ". Consider using omtools.expand")
+        if expr.name in [e.name for e in self._tgt_indices.keys()]:
+            # another declaration of the same input
+            expr = 1 * expr
+            self.add_dependency_node(expr)
         self._tgt_indices[expr] = (expr.shape, tgt_indices)
         self._tgt_vals[expr] = expr.val
 
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 34c7bea..4faff73 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -160,7 +160,8 @@ class Variable():
             # have a value for each element
             self.val = np.broadcast_to(self.val, self.shape)
             self._decomp = Variable(shape=self.shape, val=self.val[key])
-            self._decomp.name = 'decompose_' + self.name
+            # elements may be taken of several inputs with one name
+            self._decomp.name = 'decompose_' + self.name + self._decomp._id
             self._decomp.add_dependency_node(self)
 
         # store key as a tuple of tuples of ints
diff --git a/omtools/utils/distinct_operands.py b/omtools/utils/distinct_operands.py
index 7a4d77e..75c8d3d 100644
--- a/omtools/utils/distinct_operands.py
+++ b/omtools/utils/distinct_operands.py
@@ -11,7 +11,8 @@ def distinct_operands(*exprs: Variable) -> List[Variable]:
     Parameters
     ----------
     exprs: Variable
-        Operands, some of which may be the same object
+        Operands, some of which may be the same object, or refer to the
+        same variable
 
     Returns
     -------
@@ -21,7 +22,7 @@ def distinct_operands(*exprs: Variable) -> List[Variable]:
     """
     operands: List[Variable] = []
     for expr in exprs:
-        if any(expr is operand for operand in operands):
+        if any(expr.name == operand.name for operand in operands):
             expr = 1 * expr
         operands.append(expr)
     return operands
-- 
2.43.0


From 03efe1beaf76dfb654351612cd85495f8e4379c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:40 +0000
Subject: [PATCH 48/57] fix: reject a residual whose shape differs from the
 implicit output

---
 omtools/core/implicit_output.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index de6a5f2..d4abf92 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -87,6 +87,9 @@ class ImplicitOutput(Output):
         if self.defined == True:
             raise ValueError("Variable for residual of " + self.name +
                              " is already defined")
+        if tuple(residual_expr.shape) != tuple(self.shape):
+            raise ValueError("Shape of residual expression and output " +
+                             self.name + " do not match")
 
         # set flag so that this expression is a residual and not an
         # output of an ImplicitComponent
@@ -133,6 +136,9 @@ class ImplicitOutput(Output):
         if self.defined == True:
             raise ValueError("Variable for residual of " + self.name +
                              " is already defined")
+        if tuple(residual_expr.shape) != tuple(self.shape):
+            raise ValueError("Shape of residual expression and output " +
+                             self.name + " do not match")
 
         # set flag so that this expression is a residual and not an
         # output of an ImplicitComponent
-- 
2.43.0


From b7bb675e49b2a558a63f5c270c86527310a45102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 49/57] fix: reject outputs of an ImplicitComponent that are
 left undefined

---
 omtools/comps/implicit_component.py | 6 ++++++
 omtools/core/group.py               | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 3a3005e..72497fe 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -12,6 +12,7 @@ from omtools.core.explicit_output import ExplicitOutput
 from omtools.core.implicit_output import ImplicitOutput
 from omtools.core.group import Group
 from omtools.core.input import Input
+from omtools.core.output import Output
 from omtools.utils.collect_input_exprs import collect_input_exprs
 
 
@@ -56,6 +57,11 @@ def _post_setup(func: Callable) -> Callable:
         # setup internal problem
         g = self.group
 
+        # Check if outputs are defined
+        for expr in g._root.dependencies + g._implicit_outputs:
+            if isinstance(expr, Output) and expr.defined == False:
+                raise ValueError("Output not defined for " + repr(expr))
+
         _remove_nonresiduals(g._root)
 
         in_names: Set[str] = set()
diff --git a/omtools/core/group.py b/omtools/core/group.py
index a630f3e..fe59ffa 100644
--- a/omtools/core/group.py
+++ b/omtools/core/group.py
@@ -186,6 +186,7 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
         self.res_out_map: Dict[str, str] = dict()
         self.brackets_map = None
         self.out_vals = dict()
+        self._implicit_outputs: list = []
         self._setup_dependencies: list = []
         self._built_statically: bool = False
         self._calling_setup: bool = False
@@ -372,6 +373,7 @@ class Group(OMGroup, metaclass=_ComponentBuilder):
             val=val,
         )
         # self._root.add_dependency_node(im)
+        self._implicit_outputs.append(im)
         return im
 
     def register_output(self, name: str,
-- 
2.43.0


From 01120733c96c8434d1114956fb54cd676fda0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:24 +0000
Subject: [PATCH 50/57] fix: reject an output of an ImplicitComponent with the
 name of an implicit output

---
 omtools/comps/implicit_component.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omtools/comps/implicit_component.py b/omtools/comps/implicit_component.py
index 72497fe..7d4ff6c 100644
--- a/omtools/comps/implicit_component.py
+++ b/omtools/comps/implicit_component.py
@@ -62,6 +62,13 @@ def _post_setup(func: Callable) -> Callable:
             if isinstance(expr, Output) and expr.defined == False:
                 raise ValueError("Output not defined for " + repr(expr))
 
+        # Check if other outputs have the name of an implicit output
+        for expr in g._root.dependencies:
+            if isinstance(expr, (Subsystem, ImplicitOutput)) == False:
+                if expr.name in g.res_out_map.values():
+                    raise ValueError("Output " + repr(expr) +
+                                     " has the name of an implicit output")
+
         _remove_nonresiduals(g._root)
 
         in_names: Set[str] = set()
-- 
2.43.0


From 06799b8553c9b7f1a9954b025dc998bf061ab227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 51/57] fix: report the derivative zero of an expression raised
 to zero where the expression is zero

---
 omtools/comps/arithmetic_comps/power_combination_comp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/comps/arithmetic_comps/power_combination_comp.py b/omtools/comps/arithmetic_comps/power_combination_comp.py
index e626a33..3501c62 100644
--- a/omtools/comps/arithmetic_comps/power_combination_comp.py
+++ b/omtools/comps/arithmetic_comps/power_combination_comp.py
@@ -94,7 +94,8 @@ class PowerCombinationComp(ArrayExplicitComponent):
                 b = power
                 if in_name == in_name2:
                     a = power
-                    b = power - 1.
+                    # an expression raised to zero is constant
+                    b = np.where(np.asarray(power) == 0, 0., power - 1.)
                 deriv *= a * inputs[in_name2]**b
 
             partials[out_name, in_name] = deriv.flatten()
-- 
2.43.0


From eb701542d95575c4ff02e8d0db1441592ce132e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 52/57] fix: reduce over all axes of an expression to a scalar

sum and average raised TypeError, and max, min, pnorm and inner declared an
output of shape () that did not match their components.
---
 omtools/std/average.py | 3 +++
 omtools/std/inner.py   | 3 ++-
 omtools/std/max.py     | 4 ++++
 omtools/std/min.py     | 4 ++++
 omtools/std/pnorm.py   | 3 +++
 omtools/std/sum.py     | 3 +++
 6 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/omtools/std/average.py b/omtools/std/average.py
index 3cf15fa..1da2a19 100644
--- a/omtools/std/average.py
+++ b/omtools/std/average.py
@@ -29,6 +29,9 @@ def average(*operands: List[Variable], axes=None):
             raise TypeError(expr, " is not an Variable object")
         if expr.shape != operands[0].shape:
             raise ValueError("The shapes of the inputs must match!")
+    if axes != None and len(np.delete(expr.shape, axes)) == 0:
+        # all elements
+        return average(expr if len(operands) == 1 else average(*operands))
     operands = distinct_operands(*operands)
     for expr in operands:
         out.add_dependency_node(expr)
diff --git a/omtools/std/inner.py b/omtools/std/inner.py
index 144a9b7..94a80ea 100644
--- a/omtools/std/inner.py
+++ b/omtools/std/inner.py
@@ -52,7 +52,8 @@ def inner(expr1: Variable, expr2: Variable, axes=None):
             raise ValueError("Cannot contract axes of different sizes")
         new_in0_shape = np.delete(list(expr1.shape), axes[0])
         new_in1_shape = np.delete(list(expr2.shape), axes[1])
-        out.shape = tuple(np.append(new_in0_shape, new_in1_shape))
+        # all axes contracted: the inner product is a scalar
+        out.shape = tuple(np.append(new_in0_shape, new_in1_shape)) or (1, )
 
         out.build = lambda: TensorInnerProductComp(
             in_names=[expr1.name, expr2.name],
diff --git a/omtools/std/max.py b/omtools/std/max.py
index aea1d71..207c93f 100644
--- a/omtools/std/max.py
+++ b/omtools/std/max.py
@@ -30,6 +30,10 @@ def max(*exprs, axis=None, rho=20.):
     for expr in exprs:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    if len(exprs) == 1 and axis != None and len(
+            np.delete(expr.shape, axis)) == 0:
+        # all elements
+        axis = None
     exprs = distinct_operands(*exprs)
     for expr in exprs:
         out.add_dependency_node(expr)
diff --git a/omtools/std/min.py b/omtools/std/min.py
index 0c74b09..6cd13aa 100644
--- a/omtools/std/min.py
+++ b/omtools/std/min.py
@@ -30,6 +30,10 @@ def min(*exprs, axis=None, rho=20.):
     for expr in exprs:
         if not isinstance(expr, Variable):
             raise TypeError(expr, " is not an Variable object")
+    if len(exprs) == 1 and axis != None and len(
+            np.delete(expr.shape, axis)) == 0:
+        # all elements
+        axis = None
     exprs = distinct_operands(*exprs)
     for expr in exprs:
         out.add_dependency_node(expr)
diff --git a/omtools/std/pnorm.py b/omtools/std/pnorm.py
index 659133f..6683fda 100644
--- a/omtools/std/pnorm.py
+++ b/omtools/std/pnorm.py
@@ -26,6 +26,9 @@ def pnorm(expr, pnorm_type=2, axis=None):
     if axis is not None:
         if not isinstance(axis, int) and not isinstance(axis, tuple):
             raise TypeError("axis must be an integer or tuple of integers")
+        if len(np.delete(expr.shape, axis)) == 0:
+            # all elements
+            axis = None
     out = Variable()
     out.add_dependency_node(expr)
 
diff --git a/omtools/std/sum.py b/omtools/std/sum.py
index efbe1cb..8742880 100644
--- a/omtools/std/sum.py
+++ b/omtools/std/sum.py
@@ -27,6 +27,9 @@ def sum(*summands: List[Variable], axes=None):
             raise TypeError(expr, " is not an Variable object")
         if expr.shape != summands[0].shape:
             raise ValueError("The shapes of the inputs must match!")
+    if axes != None and len(np.delete(expr.shape, axes)) == 0:
+        # all elements
+        return sum(expr if len(summands) == 1 else sum(*summands))
     summands = distinct_operands(*summands)
     for expr in summands:
         out.add_dependency_node(expr)
-- 
2.43.0


From d06b0908edb83e18e7f09e7e0769f311b429c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:15 +0000
Subject: [PATCH 53/57] fix: expressions keep the constants and values they
 were written with

Arrays given as constants, values and brackets were kept by reference until
the components were built, so that filling an array again in setup changed
the expressions written before.
---
 omtools/core/implicit_output.py |  4 ++--
 omtools/core/variable.py        | 15 +++++++++++++++
 omtools/utils/get_shape_val.py  |  4 ++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/omtools/core/implicit_output.py b/omtools/core/implicit_output.py
index d4abf92..38c1e88 100644
--- a/omtools/core/implicit_output.py
+++ b/omtools/core/implicit_output.py
@@ -163,8 +163,8 @@ class ImplicitOutput(Output):
         self.group.out_vals[self.name] = self.val
         if self.group.brackets_map is None:
             self.group.brackets_map = (dict(), dict())
-        self.group.brackets_map[0][self.name] = x1
-        self.group.brackets_map[1][self.name] = x2
+        self.group.brackets_map[0][self.name] = deepcopy(x1)
+        self.group.brackets_map[1][self.name] = deepcopy(x2)
 
         self.defined = True
 
diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index 4faff73..bf13485 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -31,6 +31,16 @@ def check_constant_shape(constant, shape: tuple):
                          repr(shape))
 
 
+def copy_constant(constant):
+    """
+    Copy a constant array used in an expression, so that the expression
+    does not change when the array changes later
+    """
+    if isinstance(constant, np.ndarray):
+        return constant.copy()
+    return constant
+
+
 class Variable():
     """
     The ``Variable`` class is a base type for nodes in a Directed
@@ -461,6 +471,7 @@ class ElementwiseAddition(Variable):
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
             check_constant_shape(expr2, expr1.shape)
+            expr2 = copy_constant(expr2)
 
             self.build = lambda: LinearCombinationComp(
                 shape=expr1.shape,
@@ -531,6 +542,7 @@ class ElementwiseSubtraction(Variable):
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
             check_constant_shape(expr2, expr1.shape)
+            expr2 = copy_constant(expr2)
             self.shape = expr1.shape
             self.val = expr1.val
 
@@ -604,6 +616,7 @@ class ElementwiseMultiplication(Variable):
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
             check_constant_shape(expr2, expr1.shape)
+            expr2 = copy_constant(expr2)
 
             self.shape = expr1.shape
             self.val = expr1.val
@@ -678,6 +691,7 @@ class ElementwiseDivision(Variable):
         if (isinstance(expr2, numbers.Number) or isinstance(
                 expr2, np.ndarray)) and isinstance(expr1, Variable):
             check_constant_shape(expr2, expr1.shape)
+            expr2 = copy_constant(expr2)
             if np.any(expr2 == 0):
                 raise ValueError("Cannot divide by zero")
 
@@ -729,6 +743,7 @@ class ElementwisePower(Variable):
         if isinstance(expr2, np.ndarray):
             if expr1.shape != expr2.shape:
                 raise ValueError("Shape mismatch between base and power array")
+            expr2 = copy_constant(expr2)
             self.shape = expr1.shape
             self.val = expr1.val
 
diff --git a/omtools/utils/get_shape_val.py b/omtools/utils/get_shape_val.py
index 57d711d..013f25c 100644
--- a/omtools/utils/get_shape_val.py
+++ b/omtools/utils/get_shape_val.py
@@ -25,9 +25,9 @@ def get_shape_val(
     """
     if isinstance(val, Number):
         return shape, val * np.ones(shape)
-    if isinstance(val, list):
+    if isinstance(val, (list, np.ndarray)):
+        # copy, so that the value does not change when the array changes
         val = np.array(val)
-    if isinstance(val, np.ndarray):
         if shape == (1, ):
             return val.shape, val
         if val.shape != shape:
-- 
2.43.0


From 101083ac044dec8e59555dc8f5e83fb87b0da4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:41 +0000
Subject: [PATCH 54/57] fix: an assignment that is rejected changes the output
 and its dependencies

---
 omtools/core/explicit_output.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/omtools/core/explicit_output.py b/omtools/core/explicit_output.py
index 96868e3..c8c6b35 100644
--- a/omtools/core/explicit_output.py
+++ b/omtools/core/explicit_output.py
@@ -99,7 +99,6 @@ class ExplicitOutput(Output):
                 "Variable for output " + self.name +
                 ", which forms a cycle to be computed iteratively, is already defined"
             )
-        self.add_dependency_node(expr)
         tgt_indices = []
 
         # n-d array assignment
@@ -155,20 +154,24 @@ class ExplicitOutput(Output):
             raise KeyError("Repeated use of expression " + expr.name +
                            " in assignment to elements in " + self.name +
                            ". Consider using omtools.expand")
-        if expr.name in [e.name for e in self._tgt_indices.keys()]:
-            # another declaration of the same input
-            expr = 1 * expr
-            self.add_dependency_node(expr)
-        self._tgt_indices[expr] = (expr.shape, tgt_indices)
-        self._tgt_vals[expr] = expr.val
 
         # Check for overlapping indices
         self.overlapping_indices = self.checked_indices.intersection(
             tgt_indices)
-        self.checked_indices = self.checked_indices.union(tgt_indices)
         if len(self.overlapping_indices) > 0:
             raise ValueError("Indices used for assignment must not overlap")
 
+        # Nothing above changes the output, so that an assignment that is
+        # rejected has no effect
+        self.checked_indices = self.checked_indices.union(tgt_indices)
+        self.add_dependency_node(expr)
+        if expr.name in [e.name for e in self._tgt_indices.keys()]:
+            # another declaration of the same input
+            expr = 1 * expr
+            self.add_dependency_node(expr)
+        self._tgt_indices[expr] = (expr.shape, tgt_indices)
+        self._tgt_vals[expr] = expr.val
+
         self.build = lambda: IndexedPassThroughComp(
             expr_indices={
                 expr.name: indices
-- 
2.43.0


From 8a466444616995d76aa54d745e3ef223368bfd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:41 +0000
Subject: [PATCH 55/57] fix: indexing an expression fails after its first key
 was rejected

---
 omtools/core/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omtools/core/variable.py b/omtools/core/variable.py
index bf13485..7a3a6c8 100644
--- a/omtools/core/variable.py
+++ b/omtools/core/variable.py
@@ -165,7 +165,6 @@ class Variable():
         key: Union[int, slice, Tuple[slice]],
     ):
         if self._getitem_called == False:
-            self._getitem_called = True
             # expressions that are not declared by the user do not always
             # have a value for each element
             self.val = np.broadcast_to(self.val, self.shape)
@@ -173,6 +172,8 @@ class Variable():
             # elements may be taken of several inputs with one name
             self._decomp.name = 'decompose_' + self.name + self._decomp._id
             self._decomp.add_dependency_node(self)
+            # set flag here so that a key that is rejected has no effect
+            self._getitem_called = True
 
         # store key as a tuple of tuples of ints
         # no duplicate keys are stored
-- 
2.43.0


From 0294e6571b4ff0b2ea4b9e5bba4dc53cea02d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:12 +0000
Subject: [PATCH 56/57] fix: p-norm over all axes loses the imaginary part
 under complex step

---
 omtools/comps/vectorized_pnorm_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omtools/comps/vectorized_pnorm_comp.py b/omtools/comps/vectorized_pnorm_comp.py
index b35eaa7..207552e 100644
--- a/omtools/comps/vectorized_pnorm_comp.py
+++ b/omtools/comps/vectorized_pnorm_comp.py
@@ -47,8 +47,8 @@ class VectorizedPnormComp(ExplicitComponent):
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        self.outputs = outputs[out_name] = np.linalg.norm(
-            inputs[in_name].flatten(), ord=pnorm_type)
+        self.outputs = outputs[out_name] = np.sum(
+            inputs[in_name]**pnorm_type)**(1 / pnorm_type)
 
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
-- 
2.43.0


From 486387b4e9b5177ce6dceab10a5a2e34d13a9268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:58 +0000
Subject: [PATCH 57/57] fix: derivatives of max, min and pnorm are those of the
 last evaluation

---
 omtools/comps/axiswise_max_comp.py            | 24 ++++++++++----
 omtools/comps/axiswise_min_comp.py            | 24 ++++++++++----
 omtools/comps/scalar_extremum_comp.py         | 32 +++++++++++++------
 .../comps/vectorized_axiswise_pnorm_comp.py   |  7 ++--
 omtools/comps/vectorized_pnorm_comp.py        |  7 ++--
 5 files changed, 66 insertions(+), 28 deletions(-)

diff --git a/omtools/comps/axiswise_max_comp.py b/omtools/comps/axiswise_max_comp.py
index 7da60ad..8930799 100644
--- a/omtools/comps/axiswise_max_comp.py
+++ b/omtools/comps/axiswise_max_comp.py
@@ -74,6 +74,23 @@ class AxisMaxComp(ExplicitComponent):
         result = g_max + 1.0 / rho * np.log(summation)
         outputs[out_name] = result
 
+    def compute_partials(self, inputs, partials):
+        in_name = self.options['in_name']
+        out_name = self.options['out_name']
+        axis = self.options['axis']
+        rho = self.options['rho']
+
+        con_val = inputs[in_name]
+
+        g_max = np.max(con_val, axis=axis)
+        g_diff = con_val - np.einsum(
+            self.einsum_str,
+            g_max,
+            self.ones,
+        )
+        exponents = np.exp(rho * g_diff)
+        summation = np.sum(exponents, axis=axis)
+
         dsum_dg = rho * exponents
         dKS_dsum = 1.0 / (rho * np.einsum(
             self.einsum_str,
@@ -82,12 +99,7 @@ class AxisMaxComp(ExplicitComponent):
         ))
         dKS_dg = dKS_dsum * dsum_dg
 
-        self.dKS_dg = dKS_dg
-
-    def compute_partials(self, inputs, partials):
-        in_name = self.options['in_name']
-        out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        partials[out_name, in_name] = dKS_dg.flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/axiswise_min_comp.py b/omtools/comps/axiswise_min_comp.py
index db80ae7..4d32554 100644
--- a/omtools/comps/axiswise_min_comp.py
+++ b/omtools/comps/axiswise_min_comp.py
@@ -73,6 +73,23 @@ class AxisMinComp(ExplicitComponent):
         result = -g_max - 1.0 / rho * np.log(summation)
         outputs[out_name] = result
 
+    def compute_partials(self, inputs, partials):
+        in_name = self.options['in_name']
+        out_name = self.options['out_name']
+        axis = self.options['axis']
+        rho = self.options['rho']
+
+        con_val = -inputs[in_name]
+
+        g_max = np.max(con_val, axis=axis)
+        g_diff = con_val - np.einsum(
+            self.einsum_str,
+            g_max,
+            self.ones,
+        )
+        exponents = np.exp(rho * g_diff)
+        summation = np.sum(exponents, axis=axis)
+
         dsum_dg = rho * exponents
         dKS_dsum = 1.0 / (rho * np.einsum(
             self.einsum_str,
@@ -81,12 +98,7 @@ class AxisMinComp(ExplicitComponent):
         ))
         dKS_dg = dKS_dsum * dsum_dg
 
-        self.dKS_dg = dKS_dg
-
-    def compute_partials(self, inputs, partials):
-        in_name = self.options['in_name']
-        out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        partials[out_name, in_name] = dKS_dg.flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/scalar_extremum_comp.py b/omtools/comps/scalar_extremum_comp.py
index 94d7052..aef391b 100644
--- a/omtools/comps/scalar_extremum_comp.py
+++ b/omtools/comps/scalar_extremum_comp.py
@@ -66,15 +66,6 @@ class ScalarExtremumComp(ExplicitComponent):
         else:
             outputs[out_name] = result
 
-        dsum_dg = rho * exponents
-        dKS_dsum = 1.0 / (rho * summation * np.ones(shape))
-        dKS_dg = dKS_dsum * dsum_dg
-
-        self.dKS_dg = dKS_dg
-
-        # if lower_flag:
-        #     self.dKS_dg = -self.dKS_dg
-
     def compute_partials(self, inputs, partials):
         """
         Compute sub-jacobian parts. The model is assumed to be in an unscaled state.
@@ -87,7 +78,28 @@ class ScalarExtremumComp(ExplicitComponent):
         """
         in_name = self.options['in_name']
         out_name = self.options['out_name']
-        partials[out_name, in_name] = self.dKS_dg.flatten()
+        shape = self.options['shape']
+        lower_flag = self.options['lower_flag']
+        rho = self.options['rho']
+
+        if lower_flag:
+            g_max = np.max(-1.0 * inputs[in_name])
+            g_diff = -1.0 * inputs[in_name] - g_max
+        else:
+            g_max = np.max(inputs[in_name])
+            g_diff = inputs[in_name] - g_max
+
+        exponents = np.exp(rho * g_diff)
+        summation = np.sum(exponents)
+
+        dsum_dg = rho * exponents
+        dKS_dsum = 1.0 / (rho * summation * np.ones(shape))
+        dKS_dg = dKS_dsum * dsum_dg
+
+        # if lower_flag:
+        #     dKS_dg = -dKS_dg
+
+        partials[out_name, in_name] = dKS_dg.flatten()
 
 
 if __name__ == '__main__':
diff --git a/omtools/comps/vectorized_axiswise_pnorm_comp.py b/omtools/comps/vectorized_axiswise_pnorm_comp.py
index 7f2735c..04713e1 100644
--- a/omtools/comps/vectorized_axiswise_pnorm_comp.py
+++ b/omtools/comps/vectorized_axiswise_pnorm_comp.py
@@ -85,8 +85,8 @@ class VectorizedAxisWisePnormComp(ExplicitComponent):
         pnorm_type = self.options['pnorm_type']
         axis = self.options['axis']
 
-        self.outputs = outputs[out_name] = np.sum(inputs[in_name]**pnorm_type,
-                                                  axis=axis)**(1 / pnorm_type)
+        outputs[out_name] = np.sum(inputs[in_name]**pnorm_type,
+                                   axis=axis)**(1 / pnorm_type)
 
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
@@ -94,8 +94,9 @@ class VectorizedAxisWisePnormComp(ExplicitComponent):
         pnorm_type = self.options['pnorm_type']
         axis = self.options['axis']
 
+        norm = np.sum(inputs[in_name]**pnorm_type, axis=axis)**(1 / pnorm_type)
         partials[out_name, in_name] = np.einsum(
-            self.operation, self.outputs**(1 - pnorm_type),
+            self.operation, norm**(1 - pnorm_type),
             inputs[in_name]**(pnorm_type - 1)).flatten()
 
 
diff --git a/omtools/comps/vectorized_pnorm_comp.py b/omtools/comps/vectorized_pnorm_comp.py
index 207552e..edf87cb 100644
--- a/omtools/comps/vectorized_pnorm_comp.py
+++ b/omtools/comps/vectorized_pnorm_comp.py
@@ -47,15 +47,16 @@ class VectorizedPnormComp(ExplicitComponent):
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        self.outputs = outputs[out_name] = np.sum(
-            inputs[in_name]**pnorm_type)**(1 / pnorm_type)
+        outputs[out_name] = np.sum(inputs[in_name]**pnorm_type)**(1 /
+                                                                 pnorm_type)
 
     def compute_partials(self, inputs, partials):
         in_name = self.options['in_name']
         out_name = self.options['out_name']
         pnorm_type = self.options['pnorm_type']
 
-        partials[out_name, in_name] = self.outputs**(
+        norm = np.sum(inputs[in_name]**pnorm_type)**(1 / pnorm_type)
+        partials[out_name, in_name] = norm**(
             1 - pnorm_type) * inputs[in_name]**(pnorm_type - 1)
 
 
-- 
2.43.0


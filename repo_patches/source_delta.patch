From 57b5ce267f7e688327ae521733c6dc515b00a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:03 +0000
Subject: [PATCH 01/10] fix: NOT treats negative rolls as false, like its
 probability distribution

---
 python_dice/src/expression/not_expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/expression/not_expression.py b/python_dice/src/expression/not_expression.py
index 1ba395b..86269f8 100644
--- a/python_dice/src/expression/not_expression.py
+++ b/python_dice/src/expression/not_expression.py
@@ -27,7 +27,7 @@ class NotExpression(IDiceExpression):
         self._expression = expression
 
     def roll(self) -> int:
-        return 0 if self._expression.roll() else 1
+        return 0 if self._expression.roll() > 0 else 1
 
     def max(self) -> int:
         return self.get_probability_distribution().max()
-- 
2.43.0


From 165b4315f465daa6250a69151826bd69fda2ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:03 +0000
Subject: [PATCH 02/10] fix: rolling OR treats only values above 0 as true,
 like its probability distribution

---
 python_dice/src/expression/binary_operator_expression.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python_dice/src/expression/binary_operator_expression.py b/python_dice/src/expression/binary_operator_expression.py
index c0880ec..a5d7154 100644
--- a/python_dice/src/expression/binary_operator_expression.py
+++ b/python_dice/src/expression/binary_operator_expression.py
@@ -23,6 +23,12 @@ class BinaryOperatorExpression(IDiceExpression):
             return this.__not_equal__(other)
         return this != other
 
+    @staticmethod
+    def __or__(this: object, other: object):
+        if isinstance(this, IProbabilityDistribution) and isinstance(other, IProbabilityDistribution):
+            return this | other
+        return this > 0 or other > 0
+
     RULE = """expression : expression BINARY_OPERATOR expression"""
     OPERATOR_MAP = {
         "==": lambda x, y: BinaryOperatorExpression.__equal__(x, y),  # pylint: disable=unnecessary-lambda
@@ -32,7 +38,7 @@ class BinaryOperatorExpression(IDiceExpression):
         ">=": operator.ge,
         ">": operator.gt,
         "AND": operator.and_,
-        "OR": operator.or_,
+        "OR": lambda x, y: BinaryOperatorExpression.__or__(x, y),  # pylint: disable=unnecessary-lambda
     }
 
     @staticmethod
-- 
2.43.0


From 823e695737ca434a75bfcd89dd639395cf49c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:03 +0000
Subject: [PATCH 03/10] fix: the probability distribution of zero dice is
 always 0

---
 python_dice/src/expression/dice_expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python_dice/src/expression/dice_expression.py b/python_dice/src/expression/dice_expression.py
index 840e6c9..5e94e0f 100644
--- a/python_dice/src/expression/dice_expression.py
+++ b/python_dice/src/expression/dice_expression.py
@@ -56,6 +56,8 @@ class DiceExpression(IDiceExpression):
         return f"{self._string_form}"
 
     def get_probability_distribution(self) -> IProbabilityDistribution:
+        if self._number_of_dice == 0:
+            return self._probability_distribution_factory.create({0: 1})
         single_dice_distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
             self._single_dice_outcome_map
         )
-- 
2.43.0


From 137ba0cf394d040a751ebc98e5af59ef58aeaa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:03 +0000
Subject: [PATCH 04/10] fix: allow the documented trailing comma in custom dice

---
 python_dice/src/expression/dice_expression_helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index fb103bb..45c706e 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -35,6 +35,8 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
     else:
         value_dictionary = {}
         for value in re.split(r",", re.sub(r"(\[|\]|\s+)", "", dice_type_string)):
+            if value == "":  # trailing comma
+                continue
             multiplier = "1"
             if re.match(r"(-?\d+--?\d+|-?\d+)\*\d+", value) is not None:
                 value, multiplier = re.split(r"\*", value)
-- 
2.43.0


From c407e9d60bcf6849589eaf826602d634175ae33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:03 +0000
Subject: [PATCH 05/10] fix: a custom dice side repeated zero times is not a
 possible outcome

---
 python_dice/src/expression/dice_expression_helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index 45c706e..f3568bf 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -44,6 +44,8 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
                 range_values = _find_range(value)
             else:
                 range_values = [int(value)]
+            if int(multiplier) == 0:
+                continue
             for key in range_values:
                 safe_add(value_dictionary, key, int(multiplier))
     return value_dictionary
-- 
2.43.0


From 4922b2f8ea3e95a88b8bcc12b1d7c768e35657dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:03 +0000
Subject: [PATCH 06/10] fix: reject dice without any sides

---
 python_dice/src/expression/dice_expression_helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index f3568bf..b0f45c2 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -48,4 +48,6 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
                 continue
             for key in range_values:
                 safe_add(value_dictionary, key, int(multiplier))
+    if not value_dictionary:
+        raise ValueError(f"d{dice_type_string} has no sides")
     return value_dictionary
-- 
2.43.0


From b149c09b070e511f808a084708faa0ab2cfc6305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:03 +0000
Subject: [PATCH 07/10] fix: results are snapshots, not the live variable store
 of the interpreter

---
 .../probability_distribution_state.py                         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python_dice/src/probability_distribution/probability_distribution_state.py b/python_dice/src/probability_distribution/probability_distribution_state.py
index eb45b73..b9261e5 100644
--- a/python_dice/src/probability_distribution/probability_distribution_state.py
+++ b/python_dice/src/probability_distribution/probability_distribution_state.py
@@ -22,10 +22,10 @@ class ProbabilityDistributionState(IProbabilityDistributionState):
         self._constraint_factory = constraint_factory
 
     def get_var_dict(self):
-        return self._var
+        return copy.copy(self._var)
 
     def get_constant_dict(self):
-        return self._constants
+        return copy.copy(self._constants)
 
     def has_constant(self, name) -> bool:
         return name in self._constants
-- 
2.43.0


From 76aeb89f8f1b685354753d51e7c2855cca68436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:03 +0000
Subject: [PATCH 08/10] fix: a max or min assignment that fails leaves no half
 made assignment

---
 python_dice/src/expression/var_assignment_expression.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python_dice/src/expression/var_assignment_expression.py b/python_dice/src/expression/var_assignment_expression.py
index 7c1b05a..ec3f58a 100644
--- a/python_dice/src/expression/var_assignment_expression.py
+++ b/python_dice/src/expression/var_assignment_expression.py
@@ -40,14 +40,16 @@ class VarAssignmentExpression(IDiceExpression):
 
     def max(self) -> int:
         max_value = self._expression.max()
+        distribution = self._expression.get_probability_distribution()
         self._state.set_constant(self._name, max_value)
-        self._state.set_var(self._name, self._expression.get_probability_distribution())
+        self._state.set_var(self._name, distribution)
         return max_value
 
     def min(self) -> int:
         min_value = self._expression.min()
+        distribution = self._expression.get_probability_distribution()
         self._state.set_constant(self._name, min_value)
-        self._state.set_var(self._name, self._expression.get_probability_distribution())
+        self._state.set_var(self._name, distribution)
         return min_value
 
     def __str__(self) -> str:
-- 
2.43.0


From 5df55d40a598c200ae2dd56c586b0c849ef9fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:03 +0000
Subject: [PATCH 09/10] fix: close the figure once a chart is drawn

---
 .../probability_distribution/probability_distribution.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python_dice/src/probability_distribution/probability_distribution.py b/python_dice/src/probability_distribution/probability_distribution.py
index 9f0e577..9b51a32 100644
--- a/python_dice/src/probability_distribution/probability_distribution.py
+++ b/python_dice/src/probability_distribution/probability_distribution.py
@@ -136,7 +136,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
         bins = [value - 0.5 for value in x_values]
         bins.append(x_values[-1] + 0.5)
 
-        _, axis = pyplot.subplots()
+        figure, axis = pyplot.subplots()
         axis.hist(x_values, weights=y_values, bins=bins)
         axis.grid(True, linestyle="-.")
         axis.set_ylabel("odds")
@@ -152,6 +152,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
             )
         buffer = io.BytesIO()
         pyplot.savefig(buffer, format="tiff")
+        pyplot.close(figure)
         buffer.seek(0)
         image = Image.open(buffer)
         return image
@@ -167,7 +168,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
     ) -> Image:
         x_values_one, y_values_one = (list(t) for t in zip(*sorted(zip(x_values_one, y_values_one))))
         x_values_two, y_values_two = (list(t) for t in zip(*sorted(zip(x_values_two, y_values_two))))
-        _, axis = pyplot.subplots()
+        figure, axis = pyplot.subplots()
         axis.plot(x_values_one, y_values_one, "b", label=lable_one)
         axis.plot(x_values_two, y_values_two, "r", label=lable_two)
         axis.grid(True, linestyle="-.")
@@ -176,6 +177,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
         axis.legend()
         buffer = io.BytesIO()
         pyplot.savefig(buffer, format="png")
+        pyplot.close(figure)
         buffer.seek(0)
         image = Image.open(buffer)
         return image
-- 
2.43.0


From 072beb071a8d0cb1e54b7777b77d013eba9fb3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:46 +0000
Subject: [PATCH 10/10] fix: cost of ! rounds down exactly however large the
 operand's cost

---
 python_dice/src/expression/not_expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python_dice/src/expression/not_expression.py b/python_dice/src/expression/not_expression.py
index 86269f8..6a55ce3 100644
--- a/python_dice/src/expression/not_expression.py
+++ b/python_dice/src/expression/not_expression.py
@@ -1,4 +1,3 @@
-import math
 from typing import Callable, Set
 
 import rply  # type: ignore
@@ -39,7 +38,8 @@ class NotExpression(IDiceExpression):
         return f"!{str(self._expression)}"
 
     def estimated_cost(self) -> int:
-        return int(math.floor(self._expression.estimated_cost() * 1.1))
+        operand_cost = self._expression.estimated_cost()
+        return operand_cost + operand_cost // 10
 
     def get_probability_distribution(self) -> IProbabilityDistribution:
         return self._expression.get_probability_distribution().not_operator()
-- 
2.43.0


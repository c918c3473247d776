From 45138fb9700b425c516150ecdb20d80b9d39de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:41 +0000
Subject: [PATCH 01/22] fix: multiplying linear expressions no longer modifies
 or aliases the right operand

---
 src/andromede/simulation/linear_expression.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/andromede/simulation/linear_expression.py b/src/andromede/simulation/linear_expression.py
index 4421761..60e5749 100644
--- a/src/andromede/simulation/linear_expression.py
+++ b/src/andromede/simulation/linear_expression.py
@@ -378,16 +378,14 @@ class LinearExpression:
             elif is_close_abs(const_expr.constant, 1, EPS):
                 _copy_expression(left_expr, self)
             else:
-                left_expr.constant *= const_expr.constant
-                for term_key, term in left_expr.terms.items():
-                    left_expr.terms[term_key] = Term(
-                        term.coefficient * const_expr.constant,
-                        term.component_id,
-                        term.variable_name,
-                        term.time_index,
-                        term.scenario_index,
+                factor = const_expr.constant
+                self.constant = left_expr.constant * factor
+                self.terms = {
+                    term_key: dataclasses.replace(
+                        term, coefficient=term.coefficient * factor
                     )
-                _copy_expression(left_expr, self)
+                    for term_key, term in left_expr.terms.items()
+                }
         return self
 
     def __mul__(self, rhs: "LinearExpression") -> "LinearExpression":
@@ -434,5 +432,5 @@ class LinearExpression:
 
 
 def _copy_expression(src: LinearExpression, dst: LinearExpression) -> None:
-    dst.terms = src.terms
+    dst.terms = dict(src.terms)
     dst.constant = src.constant
-- 
2.43.0


From d4ba71c5599d0f55ae5dec04784c41ca4ff2be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:18 +0000
Subject: [PATCH 02/22] fix: subtraction of an expression from a literal
 negates the expression

---
 src/andromede/expression/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/expression/expression.py b/src/andromede/expression/expression.py
index ec91591..9043c77 100644
--- a/src/andromede/expression/expression.py
+++ b/src/andromede/expression/expression.py
@@ -62,7 +62,7 @@ class ExpressionNode:
 
     def __rsub__(self, lhs: Any) -> "ExpressionNode":
         lhs = _wrap_in_node(lhs)
-        return lhs + self
+        return lhs - self
 
     def __mul__(self, rhs: Any) -> "ExpressionNode":
         return _apply_if_node(rhs, lambda x: MultiplicationNode(self, x))
-- 
2.43.0


From fd378c4d432660394db52c940bf7a7b3193719c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:18 +0000
Subject: [PATCH 03/22] fix: time shift and time evaluation of parenthesised
 expressions are parsed instead of yielding None

---
 .../expression/parsing/parse_expression.py    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index 1dc3c3e..05f2427 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -147,6 +147,25 @@ class ExpressionNodeBuilderVisitor(ExprVisitor):
             return shifted_expr
         return shifted_expr.shift(time_shift)
 
+    # Visit a parse tree produced by ExprParser#timeIndexExpr.
+    def visitTimeIndexExpr(
+        self, ctx: ExprParser.TimeIndexExprContext
+    ) -> ExpressionNode:
+        expr = ctx.expr(0).accept(self)  # type: ignore
+        eval_time = ctx.expr(1).accept(self)  # type: ignore
+        return expr.eval(eval_time)
+
+    # Visit a parse tree produced by ExprParser#timeShiftExpr.
+    def visitTimeShiftExpr(
+        self, ctx: ExprParser.TimeShiftExprContext
+    ) -> ExpressionNode:
+        shifted_expr = ctx.expr().accept(self)  # type: ignore
+        time_shift = ctx.shift().accept(self)  # type: ignore
+        # specifics for (x)[t] ...
+        if expressions_equal(time_shift, literal(0)):
+            return shifted_expr
+        return shifted_expr.shift(time_shift)
+
     def visitTimeSum(self, ctx: ExprParser.TimeSumContext) -> ExpressionNode:
         shifted_expr = ctx.expr().accept(self)  # type: ignore
         from_shift = ctx.from_.accept(self)  # type: ignore
-- 
2.43.0


From bcdc5511339dfb75e23a84e342b4b9a9ab2e2c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:34 +0000
Subject: [PATCH 04/22] fix: expressions containing unknown characters are
 rejected instead of silently dropping them

---
 .../expression/parsing/parse_expression.py    | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index 05f2427..1c28db7 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -10,9 +10,10 @@
 #
 # This file is part of the Antares project.
 from dataclasses import dataclass
-from typing import Set
+from typing import Any, Set
 
 from antlr4 import CommonTokenStream, InputStream
+from antlr4.error.ErrorListener import ErrorListener
 from antlr4.error.ErrorStrategy import BailErrorStrategy
 
 from andromede.expression import ExpressionNode, literal, param, var
@@ -261,6 +262,23 @@ class AntaresParseException(Exception):
     pass
 
 
+class _RaisingErrorListener(ErrorListener):
+    """
+    Rejects characters unknown to the lexer, which ANTLR skips by default.
+    """
+
+    def syntaxError(
+        self,
+        recognizer: Any,
+        offendingSymbol: Any,
+        line: int,
+        column: int,
+        msg: str,
+        e: Any,
+    ) -> None:
+        raise ValueError(f"line {line}:{column} {msg}")
+
+
 def parse_expression(expression: str, identifiers: ModelIdentifiers) -> ExpressionNode:
     """
     Parses a string expression to create the corresponding AST representation.
@@ -268,6 +286,8 @@ def parse_expression(expression: str, identifiers: ModelIdentifiers) -> Expressi
     try:
         input = InputStream(expression)
         lexer = ExprLexer(input)
+        lexer.removeErrorListeners()
+        lexer.addErrorListener(_RaisingErrorListener())
         stream = CommonTokenStream(lexer)
         parser = ExprParser(stream)
         parser._errHandler = BailErrorStrategy()
-- 
2.43.0


From 95b4081cd93ee908d4ac8ac6899514851e0be7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:27 +0000
Subject: [PATCH 05/22] fix: constraints are instantiated for every index of
 their bounds

---
 src/andromede/simulation/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 0a4eba0..2c9a5c7 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -423,8 +423,8 @@ def _compute_indexing(
 ) -> IndexingStructure:
     return (
         context.compute_indexing(constraint.expression)
-        or context.compute_indexing(constraint.lower_bound)
-        or context.compute_indexing(constraint.upper_bound)
+        | context.compute_indexing(constraint.lower_bound)
+        | context.compute_indexing(constraint.upper_bound)
     )
 
 
-- 
2.43.0


From bdddae9c1fc6bb5c93d387ed23ebd793b26ff452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:00 +0000
Subject: [PATCH 06/22] fix: get_or_add only creates a value when the key is
 absent

---
 src/andromede/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/andromede/utils.py b/src/andromede/utils.py
index 7b5d0a9..253a17b 100644
--- a/src/andromede/utils.py
+++ b/src/andromede/utils.py
@@ -40,11 +40,9 @@ def get_or_add(dictionary: Dict[K, V], key: K, default_factory: Supplier[V]) ->
 
     Factory is only called if value is absent.
     """
-    value = dictionary.get(key)
-    if not value:
-        value = default_factory()
-        dictionary[key] = value
-    return value
+    if key not in dictionary:
+        dictionary[key] = default_factory()
+    return dictionary[key]
 
 
 def serialize(filename: str, message: str, path: pathlib.Path) -> None:
-- 
2.43.0


From ead60d6c603437bf327537f40d28450bd68ae631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:49 +0000
Subject: [PATCH 07/22] fix: data requirements are checked for nodes as well as
 for components

---
 src/andromede/study/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index f89537c..b1eb983 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -257,7 +257,7 @@ class DataBase:
             raise KeyError(f"Index {index} not found.")
 
     def requirements_consistency(self, network: Network) -> None:
-        for component in network.components:
+        for component in network.all_components:
             for param in component.model.parameters.values():
                 data_structure = self.get_data(component.id, param.name)
 
-- 
2.43.0


From c498fabfc272720b7f460b2b1547fca97613b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:41 +0000
Subject: [PATCH 08/22] fix: the scenario group of a parameter does not leak to
 the following parameters

---
 src/andromede/study/resolve_components.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index e9f5291..0b6c858 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -216,12 +216,13 @@ def build_scenarized_data_base(
     scenarizations = _resolve_scenarization(scenario_builder_data)
 
     for comp in input_comp.components:
-        scenarization = None
+        comp_scenarization = None
         if comp.scenario_group:
-            scenarization = scenarizations[comp.scenario_group]
+            comp_scenarization = scenarizations[comp.scenario_group]
 
         # This idiom allows mypy to 'ignore' the fact that comp.parameter can be None
         for param in comp.parameters or []:
+            scenarization = comp_scenarization
             if param.scenario_group:
                 scenarization = scenarizations[param.scenario_group]
             param_value = _build_data(
-- 
2.43.0


From 97e69b28f002be76fbde8ee9e1f490ec59b028de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:41 +0000
Subject: [PATCH 09/22] fix: scenarized data base also holds the parameters of
 nodes

---
 src/andromede/study/resolve_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index 0b6c858..019fdf5 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -215,7 +215,7 @@ def build_scenarized_data_base(
     database = DataBase()
     scenarizations = _resolve_scenarization(scenario_builder_data)
 
-    for comp in input_comp.components:
+    for comp in input_comp.components + input_comp.nodes:
         comp_scenarization = None
         if comp.scenario_group:
             comp_scenarization = scenarizations[comp.scenario_group]
-- 
2.43.0


From 70c7bde85e577bdbf9c4e2415499cd36c76aad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:36 +0000
Subject: [PATCH 10/22] fix: decision trees no longer share their coupling
 network and constraints

---
 src/andromede/simulation/decision_tree.py | 47 +++++++++++++++--------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 9c1ffb1..9aab19e 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -44,9 +44,6 @@ class DecisionTreeNode(NodeMixin):
     network: Network
     prob: float
 
-    coupling_network: Network
-    coupling_info: CouplingInfo
-
     def __init__(
         self,
         id: str,
@@ -55,14 +52,14 @@ class DecisionTreeNode(NodeMixin):
         parent: Optional["DecisionTreeNode"] = None,
         children: Optional[Iterable["DecisionTreeNode"]] = None,
         prob: float = 1.0,
-        coupling_network: Network = Network("_Coupler"),
-        coupling_info: CouplingInfo = CouplingInfo(),
+        coupling_network: Optional[Network] = None,
+        coupling_info: Optional[CouplingInfo] = None,
     ) -> None:
         self.id = id
         self.config = config
         self.network = network
-        self.coupling_network = coupling_network
-        self.coupling_info = coupling_info
+        self._coupling_network = coupling_network
+        self._coupling_info = coupling_info
         self.parent = parent
 
         if prob < 0 or 1 < prob:
@@ -72,6 +69,30 @@ class DecisionTreeNode(NodeMixin):
         if children:
             self.children = children
 
+    @property
+    def coupling_network(self) -> Network:
+        """
+        Network holding the coupling constraints, shared by all nodes of the same tree
+        unless specified otherwise.
+        """
+        if self._coupling_network is None:
+            if self.parent is not None:
+                return self.parent.coupling_network
+            self._coupling_network = Network("_Coupler")
+        return self._coupling_network
+
+    @property
+    def coupling_info(self) -> CouplingInfo:
+        """
+        Coupling variables and constraints, shared by all nodes of the same tree
+        unless specified otherwise.
+        """
+        if self._coupling_info is None:
+            if self.parent is not None:
+                return self.parent.coupling_info
+            self._coupling_info = CouplingInfo()
+        return self._coupling_info
+
     def traverse(
         self, depth: Optional[int] = None
     ) -> Generator["DecisionTreeNode", None, None]:
@@ -156,16 +177,8 @@ class DecisionTreeNode(NodeMixin):
         constraints: List[Constraint] = []
 
         """
-        Here and below, we use (and mostly abuse!) of the fact that
-        both coupling_network and coupling_info attributes are initialized,
-        or bounded, at the function definition since they are default arguments!
-        It allows us to not iterate over the tree, since all nodes share the same
-        coupling_network and coupling_info objects.
-
-        However, IT IS BAD DESIGN!
-        But for now it will suffice since the inner workings will change once
-        Thomas has changed the AST instantiation
-        TODO Update this once the new AST is merged
+        We do not need to iterate over the tree, since all nodes of the tree share
+        the same coupling_network and coupling_info objects.
         """
         for var_name in self.coupling_info.variables:
             variables.append(
-- 
2.43.0


From 584c0e6b26fc96058ea25bc56004ba3dfa9ac7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:32 +0000
Subject: [PATCH 11/22] fix: coupling constraints of a single node tree are
 kept in the master

---
 src/andromede/simulation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 2c9a5c7..5c39d9f 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -791,7 +791,7 @@ def build_problem(
 def fusion_problems(
     masters: List[OptimizationProblem], coupler: OptimizationProblem
 ) -> OptimizationProblem:
-    if len(masters) == 1:
+    if len(masters) == 1 and coupler.solver.NumConstraints() == 0:
         # Nothing to fusion. Just past down the master
         return masters[0]
 
-- 
2.43.0


From 9358e9fff67557503689d8540d349e3ae783b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:32 +0000
Subject: [PATCH 12/22] fix: fusion of masters keeps integer variables integer

---
 src/andromede/simulation/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 5c39d9f..a513e4c 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -815,7 +815,9 @@ def fusion_problems(
             # If variable not already in coupler, we add it
             # Otherwise we update its upper and lower bounds
             if var.name() not in root_vars:
-                root_var = root_master.solver.NumVar(var.lb(), var.ub(), var.name())
+                root_var = root_master.solver.Var(
+                    var.lb(), var.ub(), var.integer(), var.name()
+                )
                 root_master.context._solver_variables[var.name()] = SolverVariableInfo(
                     var.name(),
                     len(root_master.context._solver_variables),
@@ -825,6 +827,7 @@ def fusion_problems(
                 root_var = root_vars[var.name()]
                 root_var.SetLb(var.lb())
                 root_var.SetUb(var.ub())
+                root_var.SetInteger(var.integer())
                 root_master.context._solver_variables[
                     var.name()
                 ].is_in_objective = context._solver_variables[
-- 
2.43.0


From 4caf438751da1b731d3310df431399dd63cbfd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:32 +0000
Subject: [PATCH 13/22] fix: fusion of masters keeps the constant part of their
 objectives

---
 src/andromede/simulation/optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index a513e4c..8fa8143 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -850,4 +850,6 @@ def fusion_problems(
             if obj_coeff != 0:
                 root_objective.SetCoefficient(root_var, obj_coeff)
 
+        root_objective.SetOffset(root_objective.offset() + objective.offset())
+
     return root_master
-- 
2.43.0


From c293a731f566c892d489ea3d26c5410e4e7a497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:52 +0000
Subject: [PATCH 14/22] fix: the border management requested for a benders
 decomposition is used

---
 src/andromede/simulation/benders_decomposed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 69af497..4ea78dd 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -285,6 +285,7 @@ def build_benders_decomposed_problem(
                     block,
                     tree_node.config.scenarios,
                     problem_name=f"subproblem{suffix_tree}{suffix_block}",
+                    border_management=border_management,
                     solver_id=solver_id,
                     build_strategy=OperationalProblemStrategy(),
                     decision_tree_node=tree_node.id,
-- 
2.43.0


From 8b7a65f3585817168629657b4ca8a7b4a236a646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:52 +0000
Subject: [PATCH 15/22] fix: the working directory is restored when an external
 command cannot be run

---
 src/andromede/simulation/runner.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/andromede/simulation/runner.py b/src/andromede/simulation/runner.py
index ac52a04..252c954 100644
--- a/src/andromede/simulation/runner.py
+++ b/src/andromede/simulation/runner.py
@@ -45,13 +45,15 @@ class CommandRunner:
             return 0
 
         os.chdir(self.emplacement)
-        res = subprocess.run(
-            [self.current_dir / self.command, *self.arguments],
-            stdout=sys.stdout,
-            stderr=subprocess.DEVNULL,  # TODO For now, to avoid the "Invalid MIT-MAGIC-COOKIE-1 key" error
-            shell=False,
-        )
-        os.chdir(self.current_dir)
+        try:
+            res = subprocess.run(
+                [self.current_dir / self.command, *self.arguments],
+                stdout=sys.stdout,
+                stderr=subprocess.DEVNULL,  # TODO For now, to avoid the "Invalid MIT-MAGIC-COOKIE-1 key" error
+                shell=False,
+            )
+        finally:
+            os.chdir(self.current_dir)
 
         return res.returncode
 
-- 
2.43.0


From ef52339f0882636ca2d173b84cd36c88511b70b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:52 +0000
Subject: [PATCH 16/22] fix: setting an output value replaces the previous one

---
 src/andromede/simulation/output_values.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/andromede/simulation/output_values.py b/src/andromede/simulation/output_values.py
index c832148..6cd2cd4 100644
--- a/src/andromede/simulation/output_values.py
+++ b/src/andromede/simulation/output_values.py
@@ -101,6 +101,7 @@ class OutputValues:
         @value.setter
         def value(self, values: Union[float, List[float], List[List[float]]]) -> None:
             size_s, size_t = 1, 1
+            self._value.clear()
 
             if isinstance(values, list):
                 size_s = len(values)
-- 
2.43.0


From c946acb284281f8dbd2c2d2fe5d524e1a254a567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:31 +0000
Subject: [PATCH 17/22] fix: binary variables of the documented library format
 are accepted

---
 src/andromede/model/resolve_library.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 10f3285..ad4221c 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -225,9 +225,12 @@ def _to_expression_if_present(
 def _to_variable(var: InputVariable, identifiers: ModelIdentifiers) -> Variable:
     return Variable(
         name=var.id,
-        data_type={"continuous": ValueType.CONTINUOUS, "integer": ValueType.INTEGER}[
-            var.variable_type
-        ],
+        data_type={
+            "continuous": ValueType.CONTINUOUS,
+            "integer": ValueType.INTEGER,
+            "binary": ValueType.BOOLEAN,
+            "boolean": ValueType.BOOLEAN,
+        }[var.variable_type],
         structure=IndexingStructure(var.time_dependent, var.scenario_dependent),
         lower_bound=_to_expression_if_present(var.lower_bound, identifiers),
         upper_bound=_to_expression_if_present(var.upper_bound, identifiers),
-- 
2.43.0


From 7b04b1a73d80fc1f8ff1b620882b24f6813d637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:44 +0000
Subject: [PATCH 18/22] fix: the documented id and description of a system are
 accepted

---
 src/andromede/study/parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/andromede/study/parsing.py b/src/andromede/study/parsing.py
index 1f79d80..bada511 100644
--- a/src/andromede/study/parsing.py
+++ b/src/andromede/study/parsing.py
@@ -57,6 +57,8 @@ class InputComponent(ModifiedBaseModel):
 
 
 class InputSystem(ModifiedBaseModel):
+    id: Optional[str] = None  # No effect on the simulation
+    description: Optional[str] = None  # No effect on the simulation
     model_libraries: Optional[str] = None  # Parsed but unused for now
     nodes: List[InputComponent] = Field(default_factory=list)
     components: List[InputComponent] = Field(default_factory=list)
-- 
2.43.0


From 8d93560ea32818888a0589a1eebb84f74f0c8d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:07 +0000
Subject: [PATCH 19/22] fix: values computed for one study are no longer
 visible when converting another

---
 .../src/data_preprocessing/binding_constraints.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py b/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
index 0f8b527..cf2f6d1 100644
--- a/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
+++ b/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
@@ -35,12 +35,12 @@ DataType = Union[ThermalData, TimeseriesData, BindingConstraintData]
 
 
 class BindingConstraintsPreprocessing:
-    preprocessed_values: dict[str, float] = {}
     id: Optional[str] = None
 
     def __init__(self, study: Study):
         self.study = study
         self.study_path: Path = study.service.config.study_path  # type: ignore
+        self.preprocessed_values: dict[str, float] = {}
 
     def _process_time_series(self, area_id: str, obj) -> Union[float, str]:  # type: ignore
         area: Area = self.study.get_areas()[area_id]
-- 
2.43.0


From 623453b702a08d4626c0adf96548d3b9498c6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:07 +0000
Subject: [PATCH 20/22] fix: converting a parameter value no longer alters the
 description it is given

---
 .../src/data_preprocessing/binding_constraints.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py b/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
index cf2f6d1..2ad237c 100644
--- a/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
+++ b/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
@@ -119,6 +119,6 @@ class BindingConstraintsPreprocessing:
             raise ValueError(f"Unknown value type: {value_type}")
 
         if "operation" in data:
-            data["operation"] = Operation(**data["operation"])
+            data = {**data, "operation": Operation(**data["operation"])}
 
         return self.calculate_value(cls(**data))
-- 
2.43.0


From 229a709a7a83a30810ee9ae05dc40b0708301ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:17 +0000
Subject: [PATCH 21/22] fix: an area without battery no longer hides the
 batteries of the following areas

---
 .../input_converter/src/converter.py          | 63 +++++++++----------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/src/andromede/input_converter/src/converter.py b/src/andromede/input_converter/src/converter.py
index 5a9ca67..399d1eb 100644
--- a/src/andromede/input_converter/src/converter.py
+++ b/src/andromede/input_converter/src/converter.py
@@ -615,40 +615,39 @@ class AntaresStudyConverter:
         self.logger.info("Converting binding constraints to component list...")
 
         bc_data = read_yaml_file(BC_CONFIG_PATH).get("template")
-        try:
-            for area in valid_areas.values():
-                data_with_area: dict = self._match_area_pattern(bc_data, area.id)
-                bcp = BindingConstraintsPreprocessing(self.study)
-
-                components.append(
-                    InputComponent(
-                        id=data_with_area["component"]["id"],
-                        model=data_with_area["model"],
-                        parameters=[
-                            InputComponentParameter(
-                                id=str(param.get("id")),
-                                time_dependent=bool(param.get("time-dependent")),
-                                scenario_dependent=bool(
-                                    param.get("scenario-dependent")
-                                ),
-                                value=bcp.convert_param_value(
-                                    param.get("id"), param.get("value")
-                                ),
-                            )
-                            for param in data_with_area["component"]["parameters"]
-                        ],
-                    )
+        for area in valid_areas.values():
+            data_with_area: dict = self._match_area_pattern(bc_data, area.id)
+            bcp = BindingConstraintsPreprocessing(self.study)
+
+            try:
+                component = InputComponent(
+                    id=data_with_area["component"]["id"],
+                    model=data_with_area["model"],
+                    parameters=[
+                        InputComponentParameter(
+                            id=str(param.get("id")),
+                            time_dependent=bool(param.get("time-dependent")),
+                            scenario_dependent=bool(param.get("scenario-dependent")),
+                            value=bcp.convert_param_value(
+                                param.get("id"), param.get("value")
+                            ),
+                        )
+                        for param in data_with_area["component"]["parameters"]
+                    ],
                 )
-                connections.append(
-                    InputPortConnections(
-                        component1=data_with_area["component"]["id"],
-                        port1="injection_port",
-                        component2=area.id,
-                        port2="balance_port",
-                    )
+            except (KeyError, FileNotFoundError):
+                # No such object in this area
+                continue
+
+            components.append(component)
+            connections.append(
+                InputPortConnections(
+                    component1=data_with_area["component"]["id"],
+                    port1="injection_port",
+                    component2=area.id,
+                    port2="balance_port",
                 )
-        except (KeyError, FileNotFoundError) as e:
-            return components, connections
+            )
 
         return components, connections
 
-- 
2.43.0


From cd1d609fa6fa11b8f8f4be9e630ac8d97234176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:28 +0000
Subject: [PATCH 22/22] fix: inactive storage units and stores are refused by
 the PyPSA converter

---
 src/andromede/pypsa_converter/pypsa_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 4e97462..5bfa718 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -112,7 +112,7 @@ class PyPSAStudyConverter:
         if not (all((self.pypsa_network.links["active"] == 1))):
             raise ValueError(f"Converter supports only Links with active = 1")
         ### PyPSA components : Storage Units
-        if not (all((self.pypsa_network.links["active"] == 1))):
+        if not (all((self.pypsa_network.storage_units["active"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with active = 1")
         if not (all((self.pypsa_network.storage_units["sign"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with sign = 1")
@@ -125,7 +125,7 @@ class PyPSAStudyConverter:
         ):
             raise ValueError(f"Converter supports only Storage Units with linear cost")
         ### PyPSA components : Stores
-        if not (all((self.pypsa_network.links["active"] == 1))):
+        if not (all((self.pypsa_network.stores["active"] == 1))):
             raise ValueError(f"Converter supports only Stores with active = 1")
         if not (all((self.pypsa_network.stores["sign"] == 1))):
             raise ValueError(f"Converter supports only Stores with sign = 1")
-- 
2.43.0


From fcbbff451cdfac855e6f93ba23c039d2e228301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 01/34] fix: unary operators bind tighter than multiplication
 and division

The operand of a unary sign was parsed with term(), so '6 / -2 * 3' was read
as 6 / (-(2 * 3)) and '2 ^ -1 * 4' as 2 ^ (-(1 * 4)).
---
 pynare/parsing/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index b534eac..b812e2a 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -66,7 +66,7 @@ class BaseParser(object):
         atom : ID
              | NUMBER
              | LPARE expr RPARE
-             | (NIMUS | PLUS) term
+             | (MINUS | PLUS) exponent
         """
         token = self.current_token
 
@@ -86,11 +86,11 @@ class BaseParser(object):
 
         elif token.type in (base.MINUS, base.PLUS):
             self.eat(token.type)
-            # sending 'expr' to term() instead of expr() is what ensures
-            #    the proper unary operation functionality
+            # unary operators bind tighter than MUL and DIV but looser than
+            #    POWER: 6 / -2 * 3 = (6 / (-2)) * 3, and -2 ^ 2 = -(2 ^ 2)
             return ast.UnaryOp(
                 op=token,
-                expr=self.term()
+                expr=self.exponent()
             )
 
         self.error()
@@ -515,7 +515,7 @@ class DynareParser(BaseParser):
             self.eat(token.type)
             node = ast.UnaryOp(
                 op=token,
-                expr=self.mterm()
+                expr=self.mexponent()
             )
             return node
 
-- 
2.43.0


From 82109d6888aad5251100be21347e2c7f0d7ce111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 02/34] fix: reject input left over after an expression instead
 of dropping it

Text after a complete expression was silently ignored ('1e3' was read as 1.0,
'2 3' as 2.0), and of two consecutive function calls only the last was kept
('log(1) exp(0)' was read as exp(0)).
---
 pynare/core/expressions.py | 10 +++++++++-
 pynare/parsing/parser.py   | 26 ++++++++++++++------------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 1d99f42..83f5343 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -113,7 +113,15 @@ class ExprParser(DynareParser):
 
 
     def parse(self):
-        return self.model_expression()
+        node = self.model_expression()
+
+        # the closing semicolon is optional, but nothing can come after it
+        if self.current_token.type == base.SEMI:
+            self.eat(base.SEMI)
+        if self.current_token.type != base.EOF:
+            self.error()
+
+        return node
 
 
 
diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index b812e2a..a36bb56 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -102,9 +102,9 @@ class BaseParser(object):
 
         we don't call the lower-level method first like we do in other expression
         methods, because the atom() method doesn't recognize tokens of type
-        FUNCTION. Instead we do the try ... except below
+        FUNCTION. Instead we check the type of the current token below
         """
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -115,11 +115,9 @@ class BaseParser(object):
             )
 
             self.eat(base.RPARE)
-
-        try:
             return node
-        except UnboundLocalError:
-            return self.atom()
+
+        return self.atom()
 
     def exponent(self) -> AST:
         """
@@ -203,7 +201,13 @@ class BaseParser(object):
         return node
 
     def parse(self) -> AST:
-        return self.comp_expr()
+        node = self.comp_expr()
+
+        # anything left over is not a part of the expression
+        if self.current_token.type != base.EOF:
+            self.error()
+
+        return node
 
 COMPS = (base.LT, base.LTOE, base.GT, base.GTOE, base.EQUALITY)
 
@@ -522,7 +526,7 @@ class DynareParser(BaseParser):
         self.error()
 
     def mcall(self) -> AST:
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -531,11 +535,9 @@ class DynareParser(BaseParser):
                 expr=self.mexpr()
             )
             self.eat(base.RPARE)
-
-        try:
             return node
-        except UnboundLocalError:
-            return self.matom()
+
+        return self.matom()
 
     def mexponent(self) -> AST:
         node = self.mcall()
-- 
2.43.0


From 96e277e0789b9829ffc5fc3ceb071848b6b84cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 03/34] fix: lex comments up to their actual end

A multi-line comment ended at the first '*' (or right before any '/'), a
single-line comment following a multi-line one was lexed as tokens, and
comments and strings left open at the end of the file looped forever or raised
a TypeError.
---
 pynare/parsing/lexer.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 6c0d7e2..2095b03 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -173,7 +173,9 @@ class BaseLexer(object):
         """
         result = ''
         self.advance()
-        while self.current_char is not quote:
+        while self.current_char != quote:
+            if self.current_char is None:
+                raise SyntaxError('string was not closed')
             result += self.current_char
             self.advance()
         self.advance()
@@ -233,11 +235,14 @@ class BaseLexer(object):
                 else:
                     self.error(self.current_char)
 
-            while self.is_singleline_comment():
+            # start over after a comment, in case it's followed by another one
+            if self.is_singleline_comment():
                 self.skip_singleline_comment()
+                continue
 
-            while self.is_multiline_comment():
+            if self.is_multiline_comment():
                 self.skip_multiline_comment()
+                continue
 
             if self.valid_begchar(self.current_char):
                 return self._id()
@@ -422,7 +427,7 @@ class DynareLexer(BaseLexer):
 
     def skip_singleline_comment(self):
         """ single line comments are signified by '%' or '//' """
-        while self.current_char != '\n':
+        while self.current_char is not None and self.current_char != '\n':
             self.advance()
         self.skip_whitespace() # just in case
 
@@ -434,7 +439,9 @@ class DynareLexer(BaseLexer):
     def skip_multiline_comment(self):
         # multiline comments begin '/*' and end '*/' 
         self.advance(n=2)
-        while (self.current_char != '*') and (self.peek() != '/'):
+        while not (self.current_char == '*' and self.peek() == '/'):
+            if self.current_char is None:
+                raise SyntaxError('multi-line comment was not closed')
             self.advance()
 
         # skipping the closing '*/'
-- 
2.43.0


From 68a5173c4a2c22a34d293255acecaeac7d6cac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:17 +0000
Subject: [PATCH 04/34] fix: report unexpected tokens before the model block

variable_preamble() looped forever on any token that starts neither a
declaration nor an assignment, including the end of the file.
---
 pynare/parsing/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index a36bb56..8b1560f 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -274,6 +274,9 @@ class DynareParser(BaseParser):
                 assigned_parameter = self.variable_assignment()
                 parameter_list.append(assigned_parameter)
 
+            else:
+                self.error()
+
         return ast.VariablePreamble(
             declared_variables=declaration_list,
             assigned_parameters=parameter_list
-- 
2.43.0


From c9f1bab9df486458e627b0a3e6ccf5b1eefc9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:57 +0000
Subject: [PATCH 05/34] fix: accept models without a shocks block

The semantic analyzer and the model factory visited ModelActions.shocks even
when it was None, which raised 'No visit_NoneType method'.
---
 pynare/parsing/factory.py   | 5 ++++-
 pynare/parsing/semantics.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 4568268..055ebfe 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -351,7 +351,10 @@ class DynareModelFactory(base.ABCVisitor):
     # 
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+
+        # the shocks block is optional
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 1df7b10..645bd36 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -275,7 +275,10 @@ class DynareSemanticAnalyzer(ABCVisitor):
     #
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+
+        # the shocks block is optional
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
-- 
2.43.0


From 3371727c0428991db995f3061d3251b2670aaa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 06/34] fix: store the histval block as the historical values

The values of the endval block were stored instead, or a NameError was raised
when there was none.
---
 pynare/parsing/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 055ebfe..9de5f6f 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -368,7 +368,7 @@ class DynareModelFactory(base.ABCVisitor):
 
         if node.histval:
             hist_values = self.calculate_ModelBoundaryValues(node.histval)
-            self.outline._historical_values = end_values
+            self.outline._historical_values = hist_values
 
 
     def calculate_ModelBoundaryValues(self, boundaries):
-- 
2.43.0


From 3b8b9068eddc9fa1374feeccda625d501093836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:26 +0000
Subject: [PATCH 07/34] fix: report ill-formed models with the intended errors

Undeclared names in the initval and shocks blocks, parameters or undeclared
names used out-of-period, repeated assignments to non-model names, and
deterministic shocks all raised an AttributeError instead of the NameError,
TypeError or NotImplementedError that is meant to describe the problem.
---
 pynare/parsing/semantics.py | 42 +++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 645bd36..0f8c534 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -199,13 +199,14 @@ class DynareSemanticAnalyzer(ABCVisitor):
 
         if var_symbol is None:
             # assigning non-model parameters, validating the expression
-            var_symbol = VarSymbol(var_name, 'non_model')
+            stype = self.current_scope.lookup('non_model')
+            var_symbol = VarSymbol(var_name, stype)
             self.current_scope.insert(var_symbol)
             self.visit(node.right)
 
         else:
             # we don't want to assign values to non-parameter values
-            if var_symbol.stype.name != 'parameters':
+            if var_symbol.stype.name not in (dyn.PARAMETERS, 'non_model'):
                 token = node.left.token
                 raise TypeError(
                     f'row {token.line_number}, column {token.line_pos}. '
@@ -299,6 +300,9 @@ class DynareSemanticAnalyzer(ABCVisitor):
             var_name = assignment.left.value
             var_symbol = self.current_scope.lookup(var_name)
 
+            if var_symbol is None:
+                self._undeclared_error(assignment.left)
+
             if var_symbol.stype.name != dyn.VAR:
                 token = assignment.left.token
                 raise TypeError(
@@ -311,7 +315,18 @@ class DynareSemanticAnalyzer(ABCVisitor):
             self.visit(assignment.right)
 
 
-    def _check_shock_declaration(self, shock_sym, shock_def):
+    def _undeclared_error(self, var_node):
+        token = var_node.token
+        raise NameError(
+            f'row {token.line_number}, column {token.line_pos}. '
+            f'name {var_node.value} was not declared'
+        )
+
+
+    def _check_shock_declaration(self, shock_sym, shock_def, shock_node):
+        if shock_sym is None:
+            self._undeclared_error(shock_node)
+
         if shock_sym.stype.name not in (dyn.VAREXO, dyn.VAREXO_DET):
             token = shock_def.shock.token
             raise TypeError(
@@ -329,7 +344,10 @@ class DynareSemanticAnalyzer(ABCVisitor):
             # check that shock was declared as exogenous
             shock_name = sdef.shock.value
             shock_symbol = self.current_scope.lookup(shock_name)
-            self._check_shock_declaration(shock_symbol, sdef)
+            self._check_shock_declaration(shock_symbol, sdef, sdef.shock)
+
+            if sdef.shock_type == 'deterministic':
+                raise NotImplementedError('deterministic shocks')
 
             # check that moment expression is valid
             self.visit(sdef.expr)
@@ -338,7 +356,7 @@ class DynareSemanticAnalyzer(ABCVisitor):
             if sdef.shock_type in ('correlated', 'covarying'):
                 other_name = sdef.other.value
                 other_symbol = self.current_scope.lookup(other_name)
-                self._check_shock_declaration(other_symbol, sdef)
+                self._check_shock_declaration(other_symbol, sdef, sdef.other)
 
 
     #
@@ -365,11 +383,7 @@ class DynareSemanticAnalyzer(ABCVisitor):
         var_name = node.value
         var_symbol = self.current_scope.lookup(var_name)
         if var_symbol is None:
-            token = node.token
-            raise NameError(
-                f'row {token.line_number}, column {token.line_pos}. '
-                f'name {var_name} was not declared'
-            )
+            self._undeclared_error(node)
 
 
     def visit_PeriodVar(self, node):
@@ -377,14 +391,10 @@ class DynareSemanticAnalyzer(ABCVisitor):
         var_symbol = self.current_scope.lookup(var_name)
 
         if var_symbol is None:
-            token = node.token
-            raise NameError(
-                f'row {token.line_number}, column {token.line_pos}. '
-                f'name {var_name} was not declared'
-            )
+            self._undeclared_error(node.var)
 
         if var_symbol.stype.name == dyn.PARAMETERS:
-            token = node.token
+            token = node.var.token
             raise TypeError(
                 f'row {token.line_number}, column {token.line_pos}. '
                 f'parameters cannot be out-of-period'
-- 
2.43.0


From 4bd48c40371b6ae6806f711813bd67fbf5ca1844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 08/34] fix: do not halve the second-order coefficients twice

SecondOrderSolution already holds the coefficients of the Taylor expansion,
with the 1/2 included, but the simulations and the means of second-order
solutions divided them by two again. For y = exp(x), x = r*x(-1) + e, the
simulated second-order term was (r*x)^2/4 instead of (r*x)^2/2.
---
 pynare/simul.py         |  2 +-
 pynare/stats/moments.py | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index 1555eed..79afed6 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -227,7 +227,7 @@ class LinearSimulator(ModelSimulator):
         sol = self.model.solution
         first_sol = sol.lower_solution
         ghxx, ghxu, ghuu, del2 = unp.ensure_2darray(
-            (sol.ghxx/2, sol.ghxu, sol.ghuu/2, sol.del2/2))
+            (sol.ghxx, sol.ghxu, sol.ghuu, sol.del2))
         gy, gu = first_sol.gy, first_sol.gu
 
         # index management. use array of indices because of kronecker products
diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index f498047..bb3dc66 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -42,21 +42,22 @@ def mean(md: Model):
         var_state = md.statespace.sigma
         g_xtp1x, _ = md.statespace.kalman_transition
 
-        # second-order transition arrays. only select those determining state evolution
+        # second-order transition arrays. these already include the 1/2 of the taylor
+        #   expansion. only select those determining state evolution
         dr_sidx = md.indexes.dr.state
         del2, ghxx, ghuu = md.solution.del2, md.solution.ghxx, md.solution.ghuu
 
         # x_{t+1} = g_{xt+1, x}*x_t + g_{ut+1}*u_{t+1}
         #               + (1/2) * (del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
         # yields E[x] = g_{xt+1,x}*E[x] + (1/2)*(del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
-        second_order = (del2[dr_sidx] + np.dot(ghxx[dr_sidx], var_state.flatten()) \
-            + np.dot(ghuu[dr_sidx], md.sigma.flatten()))/2
+        second_order = del2[dr_sidx] + np.dot(ghxx[dr_sidx], var_state.flatten()) \
+            + np.dot(ghuu[dr_sidx], md.sigma.flatten())
         expt_x = linalg.solve(np.eye(*g_xtp1x.shape) - g_xtp1x, second_order)
 
         # calculate mean adjustment for observables & make them declaration order
         adj_mean_inv = unp.matmul_scalar(md.solution.lower_solution.gy, expt_x) \
-            + ( del2 + unp.matmul_scalar(ghxx, var_state.flatten()) \
-            + unp.matmul_scalar(ghuu, md.sigma.flatten()) ) / 2
+            + del2 + unp.matmul_scalar(ghxx, var_state.flatten()) \
+            + unp.matmul_scalar(ghuu, md.sigma.flatten())
         adj_mean = adj_mean_inv[md.indexes.dc_order]
 
         return ss + adj_mean
-- 
2.43.0


From 31b586bbb7561c11ff70eb9602a976b4024639e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:13 +0000
Subject: [PATCH 09/34] fix: keep matrix-vector products in
 matrix_kronecker_product one-dimensional

With one state variable and one shock, the product was returned as an (n, 1)
array, which made every second-order simulation (and impulse response) of such
a model raise a ValueError.
---
 pynare/utils/numpy.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index ecb49fb..dec3baf 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -386,10 +386,7 @@ def matrix_kronecker_product(A, B, C=None):
     else:
         K = np.kron(B, C)
 
-    if (A.shape[1] == 1) and (K.shape[0] == 1):
-        return np.outer(A, K)
-    else:
-        return np.matmul(A, K)
+    return np.matmul(A, K)
 
 
 
-- 
2.43.0


From 3c48508c7257c4877cf819bda99810aa79a47e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 10/34] fix: second-order solutions of models with one shock or
 one state

The arrays of such models are vectors or scalars, and their orientation was
lost: solving a model with several states and one shock, one state and one
forward variable, or one state and as many shocks as forward variables raised
a ValueError (or took an inner product), as did the mean of one-shock models.
---
 pynare/core/solve/second_order.py | 31 +++++++++++++------------------
 pynare/stats/moments.py           |  5 +++--
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index 9ba9172..adde0bd 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -115,7 +115,7 @@ class SecondOrderSolver(object):
         # construct the [dfdy' * dgdx + dfdx' | dfdy] array
         A = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
         A[:, ~np.isnan(self.dr_cont)] = cont_jac
-        tm1_update = unp.matmul_scalar(fore_jac, gy[~np.isnan(self.dr_fore)])
+        tm1_update = np.matmul(fore_jac, gy[~np.isnan(self.dr_fore)])
         A[:, self.tloc] = A[:, self.tloc] + tm1_update
 
         B = np.identity(nt**2, dtype=float)
@@ -167,11 +167,10 @@ class SecondOrderSolver(object):
         state_zero = np.zeros((nt, ne), dtype=float)
         cont_gu = gu[~np.isnan(self.dr_cont)]
 
-        try:
-            fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
-        except ValueError:
-            # one state var, > 1 stoch vars
-            fore_gy = np.outer(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
+        # these are vectors if there is only one state var or one stoch var
+        gy_fore = np.reshape(gy[~np.isnan(self.dr_fore)], (-1, nt))
+        gu_state = np.reshape(gu[self.tloc], (nt, ne))
+        fore_gy = np.matmul(gy_fore, gu_state)
 
         exo_eye = np.identity(ne, dtype=float)
 
@@ -288,11 +287,10 @@ def solve_ghxu(
     # `matrix_kronecker_product` throws ValueErrors when scalars are passed or matrix
     #    dimensions depend on row/column orientation. just cast to 2dims for now
     gy, gu = lower_sol.gy, lower_sol.gu
-    ghxx_arr, gy_arr, gu_arr = unp.ensure_2darray((ghxx, gy[tloc], gu[tloc]))
+    ghxx_arr, gy_arr = unp.ensure_2darray((ghxx, gy[tloc]))
 
-    if gu_arr.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        gu_arr = np.transpose(gu_arr)
+    # one row per state variable, one column per shock
+    gu_arr = np.reshape(gu[tloc], (np.size(tloc), -1))
 
     cross_prod = unp.matrix_kronecker_product(ghxx_arr, gy_arr, gu_arr).squeeze()
 
@@ -341,16 +339,13 @@ def solve_ghuu(
     E = -unp.matrix_kronecker_product(hess, zu)
 
     ghxx_tp1 = np.matmul(C, ghxx)
-    state_du = lower_sol.gu[tloc]
 
     # if theres only one state variable, ghxx_tp1 will be a vector (if there is
-    #    additionally only a single shock, state_du will be a scalar). for these
-    #    to conform with one another in the kronecker product, ensure 2d
-    ghxx_tp1, state_du = unp.ensure_2darray((ghxx_tp1, state_du))
-
-    if state_du.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        state_du = np.transpose(state_du)
+    #    additionally only a single shock, gu[tloc] will be a scalar). for these
+    #    to conform with one another in the kronecker product, ensure 2d, with one
+    #    row per state variable and one column per shock in the latter
+    ghxx_tp1 = unp.ensure_2darray(ghxx_tp1)
+    state_du = np.reshape(lower_sol.gu[tloc], (np.size(tloc), -1))
 
     ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, state_du).squeeze()
 
diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index bb3dc66..364f8b4 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -50,8 +50,9 @@ def mean(md: Model):
         # x_{t+1} = g_{xt+1, x}*x_t + g_{ut+1}*u_{t+1}
         #               + (1/2) * (del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
         # yields E[x] = g_{xt+1,x}*E[x] + (1/2)*(del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
-        second_order = del2[dr_sidx] + np.dot(ghxx[dr_sidx], var_state.flatten()) \
-            + np.dot(ghuu[dr_sidx], md.sigma.flatten())
+        second_order = del2[dr_sidx] \
+            + unp.matmul_scalar(ghxx[dr_sidx], var_state.flatten()) \
+            + unp.matmul_scalar(ghuu[dr_sidx], md.sigma.flatten())
         expt_x = linalg.solve(np.eye(*g_xtp1x.shape) - g_xtp1x, second_order)
 
         # calculate mean adjustment for observables & make them declaration order
-- 
2.43.0


From c7414eade812fa2e40fd41e33ddb89f4d21f2a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 11/34] fix: use np.isin, np.in1d is gone from numpy, in the
 solution summaries

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 6530636..c6afb4b 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -401,7 +401,7 @@ class FirstOrderSummary(SolutionSummary):
         # reorder gy columns (displayed as rows in string) to declaration order
         #   to align with labels, and match stoch vars which are also in dc order
         dr_idx = idx.dr_order
-        gy = gy[:, np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])]
+        gy = gy[:, np.argsort(dr_idx[np.isin(dr_idx, idx.state)])]
 
         arr = np.transpose(np.hstack((ss, gy, gu)))
 
@@ -532,7 +532,7 @@ class SecondOrderSummary(SolutionSummary):
         #   to align with labels, and match stoch vars which are also in dc order
         idx = self.obj.model.indexes
         dr_idx = idx.dr_order
-        st_idx = np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])
+        st_idx = np.argsort(dr_idx[np.isin(dr_idx, idx.state)])
 
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
-- 
2.43.0


From 724a719d917088f122cc4d765efe5e523523e6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 12/34] fix: reorder the state-shock terms of the second-order
 summary like its labels

---
 pynare/io/summary.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index c6afb4b..d937d39 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -537,8 +537,7 @@ class SecondOrderSummary(SolutionSummary):
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
         gyx_idx = n_st*np.repeat(st_idx, n_st) + np.tile(st_idx, n_st)
-        gyu_idx = n_st*np.repeat(np.arange(n_exog), n_st) \
-            + np.tile(np.arange(n_st), n_exog)
+        gyu_idx = n_exog*np.repeat(st_idx, n_exog) + np.tile(np.arange(n_exog), n_st)
 
         gy = gy[:, st_idx]
         gyx = gyx[:, gyx_idx]
-- 
2.43.0


From 870a3be51b9d5bb11995785373ef4e818dca5138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 13/34] fix: compare magnitudes with the display threshold of
 the summaries

---
 pynare/io/summary.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index d937d39..1f6caf4 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -480,7 +480,7 @@ class SecondOrderSummary(SolutionSummary):
             thresh = 10**(-(self.sig + self.thresh))
         else:
             thresh = 10**(-self.sig)
-        tloc = ~np.all(arr_dc < thresh, axis=1)
+        tloc = ~np.all(np.absolute(arr_dc) < thresh, axis=1)
 
         # always display steady state and del2 array
         tloc[0] = True
@@ -640,14 +640,14 @@ def _summarize_array(
     # optionally select a subset of displayed array
     if thresh is not None:
         thresh_ = 10 ** (-(sig + thresh))
-        pidx = ~np.all(arr < thresh_, axis=1)
+        pidx = ~np.all(np.absolute(arr) < thresh_, axis=0)
     else:
         pidx = np.ones(arr.shape[1], dtype=bool)
 
     # ensure that `labels` is an array so indexing with list works right
     labels = np.array(labels)
 
-    # only select rows that meet threshold
+    # only select columns that meet threshold
     arr, labels = arr[:, pidx], labels[pidx]
 
     # number of points to right and left of decimal. `+3` factors in minus signs
-- 
2.43.0


From 3b5218c61662113b481cf522252c8fb6a3c9d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 14/34] fix: label the autocorrelation summary with the lags it
 shows

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 1f6caf4..7a06d7e 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -308,7 +308,7 @@ class ModelStatisticsSummary(Summary):
         arr = np.transpose(np.array([np.diagonal(arr) for arr in acr_3d]))
 
         # column labels to display
-        headings = [f"p = {i}" for i in range(self.autocorr)]
+        headings = [f"p = {i+1}" for i in range(self.autocorr)]
         arr_str = _summarize_array(
             arr=arr,
             labels=headings,
@@ -322,7 +322,7 @@ class ModelStatisticsSummary(Summary):
         labels = [en.ljust(lpad) for en in endog]
 
         # add heading and pad all rows
-        acr_str = ['autocovariance of endogenous variables:']
+        acr_str = ['autocorrelation of endogenous variables:']
         acr_str = acr_str + [''.join((l, a)) for l, a in zip(labels, arr_str)]
         delim = f"\n{self.pad}"
         return delim.join(acr_str)
-- 
2.43.0


From 7bee96588eb1ffd35409128790dffa50cd56a4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 15/34] fix: reject leads and lags that the incidence array
 cannot hold

---
 pynare/core/variables.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 9bef434..80687bc 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -540,16 +540,18 @@ class VariableIndexManager(object):
         #    of endogenous variables at all periods
         llx = np.full((3, len(endog)), fill_value=np.nan)
         for idx, ll in enumerate(self.lead_lags.values()):
+            if not ll:
+                raise EndogIndexError(
+                    f"variable '{str(endog[idx])}' was declared as endog but was not "
+                    "seen at any time period"
+                )
+            if min(ll) < -1 or max(ll) > 1:
+                raise EndogIndexError(
+                    f"variable '{str(endog[idx])}' was seen at periods {ll}, but only "
+                    "leads and lags of one period are supported"
+                )
             lead_lag = np.array(list(ll)) + 1
-            try:
-                llx[lead_lag, idx] = 1
-            except IndexError:
-                if not lead_lag:
-                    problem_endog = endog[idx]
-                    raise EndogIndexError(
-                        f"variable '{str(problem_endog)}' was declared as endog but "
-                        "was not seen at any time period"
-                    ) from None
+            llx[lead_lag, idx] = 1
 
         # number of endog variables incidences at all periods. then replace indicators
         #   with the jacobian column index
-- 
2.43.0


From 7e36330389ef50647b405909050cf50438247369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 16/34] fix: treat a variable with an offset of zero as the
 current-period variable

---
 pynare/core/expressions.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 83f5343..dca5c4c 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -392,9 +392,7 @@ class DynamicFunc(base._BaseEvaluator):
         return self.dyn_vals[node.value]
 
     def visit_PeriodVar(self, node):
-        var_name = node.value
-        offset = node.period_offset
-        name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
+        name_offset = _offset_name(node)
         return self.dyn_vals[name_offset]
 
 
@@ -463,13 +461,22 @@ class _DynamicSubsitution(base._ASTSubstitution):
                 self.not_provided.add(var_name)
 
         elif isinstance(attribute, ast.PeriodVar):
-            var_name = attribute.value
-            offset = attribute.period_offset
-            name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
+            name_offset = _offset_name(attribute)
             self.not_provided.add(name_offset)
 
 
 
+def _offset_name(node: PeriodVar) -> str:
+    """
+    the name that dynamic_func gives to a PeriodVar
+    """
+    offset = node.period_offset
+    if offset == 0:
+        return node.value
+    return f'{node.value}p1' if offset > 0 else f'{node.value}m1'
+
+
+
 def model_signature(
     mvars: Iterable[str]
 ):
-- 
2.43.0


From 64f18d2041398bf0fd64b79f8b9d80990d68166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 17/34] fix: partition the QZ decomposition by the modulus of
 the eigenvalues

---
 pynare/utils/numpy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index dec3baf..3422dc5 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -266,8 +266,9 @@ def partitioned_qz(
         # locally silence RuntimeWarnings about dividing by zero or infinity
         eigs = alph/bet
 
-    # explosive eigenvalues
-    expl = find_first((eigs > 1) | np.isinf(eigs))
+    # explosive eigenvalues. without any, all of the arrays are in the (1, 1) blocks
+    explosive = (np.absolute(eigs) > 1) | np.isinf(eigs)
+    expl = find_first(explosive) if explosive.any() else len(eigs)
 
     # unitary matrix first
     Z = np.transpose(Zt)
-- 
2.43.0


From 2092c977d95473c84c429bf91d4890479a799683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:05 +0000
Subject: [PATCH 18/34] fix: second-order solutions of models without
 forward-looking variables

---
 pynare/core/solve/second_order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index adde0bd..6b176d6 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -122,7 +122,7 @@ class SecondOrderSolver(object):
 
         # construct the [0 | dfdy'] array
         C = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
-        C[:, -len(_nonnan_int(self.dr_fore)):] = fore_jac
+        C[:, ~np.isnan(self.dr_fore)] = fore_jac
 
         gy_state = gy[self.tloc]
         D = np.transpose(np.kron(gy_state, gy_state))
-- 
2.43.0


From e744c6dcb0dcdc1c2b58b915a8efec583763e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 19/34] fix: check the Blanchard-Kahn conditions before solving

---
 pynare/core/solve/first_order.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 71f159e..16fed69 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -77,6 +77,9 @@ def solve_first_order(
     indexes = M.indexes
     state = M.statespace
 
+    # the solution is only unique and stable under the Blanchard-Kahn conditions
+    state.verify()
+
     # retrieve state space matrices
     A, D, E = state.jacobian, state.lhs, state.rhs
 
-- 
2.43.0


From a47bb6ee949c2600bd3805eb0f61b12695ad4bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 20/34] fix: build the identification error from its counts and
 drop an undefined name

---
 pynare/core/solve/first_order.py | 5 +----
 pynare/core/solve/statespace.py  | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 16fed69..b66b473 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -92,10 +92,7 @@ def solve_first_order(
     gys = solve_static_endo(A, indexes, gym, gyp)
     gy = np.vstack((gys, gyd))
 
-    if indexes.n_exog > 0:
-        fu = A[:, indexes.exogenous_jacobian]
-    else:
-        fu = J[:, indexes.exogenous_jacobian]
+    fu = A[:, indexes.exogenous_jacobian]
     gu = solve_exo(A, indexes, gyp, fu)
 
     # remove any 1-dimensional axes
diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 7e484d3..0eb517d 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -149,7 +149,7 @@ def _compute_structural_state_space(model: Model):
 
         # for model to be properly identified, rank(R) must equal number of static vars
         if _r != indexes.n_static:
-            raise ModelIdentificationError(_r, indexes.n_static)
+            raise ModelIdentificationError(n0=_r, n1=indexes.n_static)
 
         # rotated jacobian
         A = np.dot(np.transpose(Q), J)
-- 
2.43.0


From efc71e1afcbec171a45a902448eb597f29953df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 21/34] fix: state space of models without purely backward
 variables

---
 pynare/core/solve/statespace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 0eb517d..25090a6 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -163,13 +163,14 @@ def _compute_structural_state_space(model: Model):
     Am_tilde = A[-nd:, indexes.dr.backward_timed[-1]]
     A0p_tilde = A[-nd:, indexes.dr.forward_timed[0]]
 
-    # model might not have any backward variables
+    # model might not have any purely backward variables. in that case, only the mixed
+    #   variables are in the state
+    nm = indexes.n_mixed
     A0m_tilde = A[-nd:, indexes.dr.pure_backward_timed[0]]
     if A0m_tilde.size == 0:
-        A0m_tilde = np.zeros((nd, 1))
+        A0m_tilde = np.zeros((nd, nm))
 
     # set up the structural state space representation
-    nm = indexes.n_mixed
     if nm > 0:
         # mixed variables are present
         nb, nf = indexes.n_backward, indexes.n_forward
-- 
2.43.0


From f00b818bcaebd6042804371f02cbcd5293442242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:15 +0000
Subject: [PATCH 22/34] fix: classify variables that are never seen at time t,
 and static ones at index zero

---
 pynare/core/variables.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 80687bc..a4c190e 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -578,8 +578,7 @@ class VariableIndexManager(object):
 
         static_idx = np.where(np.isnan(llx[0]) & np.isnan(llx[2]))[0]
 
-        not_forward = np.isnan(llx[1:]).any(axis=0)
-        back_idx = np.where(~np.isnan(llx[0]) & not_forward)[0]
+        back_idx = np.where(~np.isnan(llx[0]) & np.isnan(llx[2]))[0]
 
         mixed_idx = np.where(~np.isnan(llx[0]) & ~np.isnan(llx[2]))[0]
         pure_for_idx = np.where(np.isnan(llx[0]) & ~np.isnan(llx[2]))[0]
@@ -593,7 +592,7 @@ class VariableIndexManager(object):
     @cached_property
     def n_static(self):
         llx = self.llx
-        return np.count_nonzero(llx[1, np.isnan(llx[0]) & np.isnan(llx[2])])
+        return np.count_nonzero(np.isnan(llx[0]) & np.isnan(llx[2]))
 
     @cached_property
     def n_forward(self):
-- 
2.43.0


From b7d88890edc8269ee858fd389eec56802ba386b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 23/34] fix: calibrations do not share their definitions with
 the caller

---
 pynare/core/variables.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index a4c190e..5d6fbcd 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -784,15 +784,8 @@ class ModelCalibration(MutableMapping):
     """
 
     def __init__(self, defs):
-        self.defs = defs
-
-        calib = {}
-        for k, v in self.defs.items():
-            if isinstance(v, float):
-                calib[k] = v
-            elif isinstance(v, ast.Num):
-                calib[k] = v.value
-
+        # a copy, so that neither the caller's dict nor any default value is changed
+        self.defs = dict(getattr(defs, 'defs', defs))
         self.calib = solve_calibration(self.defs)
 
     def __getitem__(self, key):
-- 
2.43.0


From 1e1b42faa6938d53831414aec4ec0b09bbf67078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 24/34] fix: copies of a model keep its local parameters

---
 pynare/core/generic.py | 11 +++++++++--
 pynare/core/model.py   |  8 ++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 8685c63..223b5db 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -439,6 +439,14 @@ class DynamicModel(StructuredModel):
 
 
     def copy(self):
+        class_ = self.__class__
+        return class_(**self._copy_arguments())
+
+
+    def _copy_arguments(self):
+        """
+        the arguments that initialize a copy of the model
+        """
 
         # extract relevant information for endogenous variables
         endog, ll, init, term, hist = [], {}, {}, {}, {}
@@ -482,8 +490,7 @@ class DynamicModel(StructuredModel):
 
             shocks[name] = dt_dict
 
-        class_ = self.__class__
-        return class_(
+        return dict(
             endog=endog,
             stoch=stoch,
             determ=determ,
diff --git a/pynare/core/model.py b/pynare/core/model.py
index 22812fb..e5986c0 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -1,6 +1,7 @@
 
 from __future__ import annotations
 
+import copy
 from functools import cached_property
 
 from pynare.core.variables import ModelCalibration
@@ -286,6 +287,13 @@ class Model(DynamicModel):
         return ModelSummary(self, **kwargs)
 
 
+    def _copy_arguments(self):
+        return {
+            **super()._copy_arguments(),
+            'local_params': copy.deepcopy(self.local_params)
+        }
+
+
     @property
     def model_scope(self):
         return {**self.params, **self.local_params}
-- 
2.43.0


From 59e91d775b893b0387242177738d25d50e572515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 25/34] fix: drop the solution of a model that was altered

---
 pynare/core/model.py | 16 ++++++++++++++++
 pynare/simul.py      |  5 +----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index e5986c0..f024b09 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -287,6 +287,13 @@ class Model(DynamicModel):
         return ModelSummary(self, **kwargs)
 
 
+    def update(self, *args, **kwargs):
+        # the solution of the model before it was altered is not the current one's
+        if self.is_altered:
+            self.__dict__.pop('_solution', None)
+        super().update(*args, **kwargs)
+
+
     def _copy_arguments(self):
         return {
             **super()._copy_arguments(),
@@ -314,6 +321,9 @@ class Model(DynamicModel):
         explicitly been called, then the default parameter values are used to
         derive the solution
         """
+        if self.is_altered:
+            self.update()
+
         try:
             return self._solution
         except AttributeError:
@@ -326,6 +336,9 @@ class Model(DynamicModel):
         """
         returns the solution order. if the model hasn't been solved yet, return None
         """
+        if self.is_altered:
+            self.update()
+
         try:
             return self._solution.order
         except AttributeError:
@@ -339,6 +352,9 @@ class Model(DynamicModel):
         solved at order 1, return. if the model is already solved at order 2, return
         the reference to `lower_solution`. if not solve, solve at default order
         """
+        if self.is_altered:
+            self.update()
+
         try:
             sol = self._solution
         except AttributeError:
diff --git a/pynare/simul.py b/pynare/simul.py
index 79afed6..1716c4b 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -314,10 +314,7 @@ def simulate(
         solution = model.solve(order=order)
     else:
         # if no `order`, use existing solution if there is one. otherwise, default
-        try:
-            solution = model._solution
-        except AttributeError:
-            solution = model.solve()
+        solution = model.solution
 
     if isinstance(solution, LinearSolution):
         simulator = LinearSimulator(model)
-- 
2.43.0


From 02efaa833449ecffd9da67d7b027a021b4db49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 26/34] fix: report the number of occbin constraints

---
 pynare/core/solve/binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 2ebd71c..c69f91b 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -270,7 +270,7 @@ def solve_occbin_one_constraint(
     """
 
     if len(constraint) != 1:
-        raise ValueError(f"n constraints = {len(constraints)}")
+        raise ValueError(f"n constraints = {len(constraint)}")
 
     # throws an error if endog, stoch, or params are misaligned between models
     _ensure_variables_match(ref, alt)
-- 
2.43.0


From a0ef54de221469fe9851dc29cae10f024b915897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 27/34] fix: keep the names of the variables of a model when
 adding to them

---
 pynare/core/generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 223b5db..ee5c9f5 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -91,7 +91,7 @@ class ModelSkeleton(object):
         None
         """
         _endog = _create_endog_vars(endog, **kwargs)
-        self.endog = np.concatenate((self.endog, _endog))
+        self.endog = VarArray([*self.endog, *_endog])
 
         self.is_altered = True
 
@@ -282,7 +282,7 @@ class DynamicModel(StructuredModel):
         None
         """
         _stoch = _create_stoch_vars(stoch, **kwargs)
-        self.stoch = np.concatenate((self.stoch, _stoch))
+        self.stoch = VarArray([*self.stoch, *_stoch])
 
         self.is_altered = True
 
@@ -303,7 +303,7 @@ class DynamicModel(StructuredModel):
         None
         """
         _determ = _create_determ_vars(determ, **kwargs)
-        self.determ = np.concatenate((self.determ, _determ))
+        self.determ = VarArray([*self.determ, *_determ])
 
         self.is_altered = True
 
-- 
2.43.0


From 142e6f2969eea757b7ae6de7608269af10ed1ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 28/34] fix: locate several variables at once

---
 pynare/core/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 5d6fbcd..96b641c 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -113,7 +113,7 @@ class VarArray(np.ndarray):
                 loc = np.where(name == self.names)[0]
                 if not loc.size:
                     raise KeyError(f"{repr(var)} is not a variable")
-                idx[i] = loc
+                idx[i] = loc.item()
 
             return idx
 
-- 
2.43.0


From 79fcf2fc7e8501bbf26bba1e5d8fbf276153fa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 29/34] fix: correlate shocks that have no variance of their
 own

---
 pynare/core/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index ee5c9f5..1801b49 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -411,7 +411,7 @@ class DynamicModel(StructuredModel):
         for i, shk in enumerate(self.stoch):
             if isinstance(shk.corr, (int, float)):
                 j = np.where(stoch_names == shk.other)[0]
-                cov = np.sqrt(shk.variance*sig[j, j]) * shk.corr
+                cov = np.sqrt(sig[i, i]*sig[j, j]) * shk.corr
 
                 sig[i, j], sig[j, i] = cov, cov
 
-- 
2.43.0


From 5d9aed5d0af5f77aed8ea172ce369135ffb6c478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 30/34] fix: create models from pathlib paths

---
 pynare/core/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index f024b09..78ecf74 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -84,6 +84,7 @@ class Model(DynamicModel):
         -------
         Model
         """
+        filepath = str(filepath)
         try:
             model_definition = read_file(filepath)
         except FileNotFoundError:
-- 
2.43.0


From ea67e54a52ff40c8298cc2516658c401ad953ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 31/34] fix: keep rejecting models that do not meet the
 Blanchard-Kahn conditions

---
 pynare/core/solve/statespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 25090a6..fa27c38 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -46,7 +46,7 @@ class StateSpace(object):
         front-facing method for checking whether or not the BK conditions are met
         by this model specification
         """
-        if self.is_verified is None:
+        if not self.is_verified:
             self._run_verification()
         return None
 
-- 
2.43.0


From f8e553880e0782aece0848d35db5f76e3a1b5b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:24 +0000
Subject: [PATCH 32/34] fix: give every appearance of a reserved word its own
 location

---
 pynare/parsing/lexer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 2095b03..270d4bd 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -6,6 +6,8 @@ https://www.dynare.org/manual.pdf
 
 
 
+import copy
+
 import pynare.parsing.base as base
 
 from pynare.parsing.base import Token
@@ -148,6 +150,8 @@ class BaseLexer(object):
             token = self.reserved_kw[result]
         except KeyError:
             token = base.reserved_funcs.get(result, Token(base.ID, result))
+        # every appearance of a reserved word has a location of its own
+        token = copy.copy(token)
         token.assign_loc(self.current_line, self.line_pos)
         return token
 
-- 
2.43.0


From 49881086e7b40e74ee35b07b671caa3089b67c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:23 +0000
Subject: [PATCH 33/34] fix: select and check shocks in the variance
 decomposition of models with one shock

---
 pynare/stats/var.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pynare/stats/var.py b/pynare/stats/var.py
index 6e70982..afcbae9 100644
--- a/pynare/stats/var.py
+++ b/pynare/stats/var.py
@@ -41,6 +41,17 @@ def var_decomp(
         # quick check for models with only one stochastic variable
         decomp_shares = np.ones((len(md.endog), 1), dtype=float)
 
+        if stoch:
+            stoch_names = md.stoch.names
+            stoch_idx = []
+
+            for sc in ensure_list(stoch):
+                try:
+                    stoch_idx.append(np.where(stoch_names == sc)[0].item())
+                except ValueError:
+                    raise ValueError(f"'{sc}' is not a stochastic variable") from None
+            decomp_shares = decomp_shares[:, stoch_idx]
+
         if endog:
             endog_names = md.endog.names
             endog_idx = []
-- 
2.43.0


From 38e462a9796d16ae5a07b33b3ca114615fae87d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:00 +0000
Subject: [PATCH 34/34] fix: a model defined from the equations of another
 shared its list of equations

---
 pynare/core/expressions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index dca5c4c..7ef82fb 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -32,8 +32,9 @@ class ModelExprs(MutableSequence):
     def __init__(self, exprs: Iterable[AST, str] = []):
         super().__init__()
         if isinstance(exprs, ModelExprs):
-            self.exprs = exprs.exprs
-            self.exprs_str = exprs.exprs_str
+            # copies, so that neither changes with the other
+            self.exprs = list(exprs.exprs)
+            self.exprs_str = list(exprs.exprs_str)
 
         else:
             self.exprs = [self.parse(ep) for ep in exprs]
-- 
2.43.0


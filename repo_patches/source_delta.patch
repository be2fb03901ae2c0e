From b0b0f90a8079d4458465b6c566a14b0081bab70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 01/50] fix: discard values left on the stack by expression
 statements

A value left behind by a statement inside a function without locals (or inside
a produz block) was read by the caller as one of its own operands.
---
 amanda/compiler/codegen.py   | 40 +++++++++++++++++++++++++-----------
 amanda/compiler/transform.py |  4 ++++
 amanda/vm/src/opcode.rs      |  4 +++-
 amanda/vm/src/vm.rs          |  5 +++++
 4 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 11a55e3..9d7e99e 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -121,6 +121,8 @@ class OpCode(Enum):
     BIND_MATCH_ARGS = auto()
     # Checks if the variant at TOS is has the integer tag specified by the 64-bit argument.
     MATCH_VARIANT = auto()
+    # Discards TOS.
+    POP_TOP = auto()
     # Stops execution of the VM. Must always be added to stop execution of the vm
     HALT = 0xFF
 
@@ -129,7 +131,7 @@ class OpCode(Enum):
         # uses
         num_ops = len(list(OpCode))
         assert (
-            num_ops == 43
+            num_ops == 44
         ), f"Please update the size of ops after adding a new Op. New size: {num_ops}"
         match self:
             case (
@@ -439,16 +441,29 @@ class ByteGen:
         self.scope_symtab = self.scope_symtab.enclosing_scope
         num_locals = len(self.func_locals)
 
+    def gen_children(self, children):
+        for child in children:
+            self.gen(child)
+            if self.leaves_value(child):
+                self.append_op(OpCode.POP_TOP)
+
+    def leaves_value(self, node: ast.ASTNode) -> bool:
+        """Whether the code of a node used as a statement leaves an
+        unused value on the stack"""
+        if not isinstance(node, ast.Expr):
+            return False
+        if isinstance(node, ast.Iguala):
+            return node.eval_type != Builtins.Vazio
+        return not isinstance(node, (ast.Assign, ast.IndexSet, ast.Set))
+
     def compile_block(self, node):
         self.enter_block(node.symbols)
-        for child in node.children:
-            self.gen(child)
+        self.gen_children(node.children)
         self.exit_block()
 
     def gen_yieldblock(self, node: ast.YieldBlock):
         self.enter_block(node.symbols)
-        for child in node.children:
-            self.gen(child)
+        self.gen_children(node.children)
         self.exit_block()
 
     def get_variant_index(self, variant: Variant) -> int:
@@ -695,8 +710,7 @@ class ByteGen:
         self.gen(node.condition)
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Block
-        for child in block.children:
-            self.gen(child)
+        self.gen_children(block.children)
         self.append_op(OpCode.JUMP, loop)
         # END LOOP
         self.patch_label_loc(after_loop)
@@ -731,8 +745,7 @@ class ByteGen:
         self.append_op(OpCode.OP_LESS)
         self.append_op(OpCode.JUMP_IF_FALSE, after_loop)
         # Body
-        for child in block.children:
-            self.gen(child)
+        self.gen_children(block.children)
         # update: control_var += inc
         if not range_expr.inc:
             self.load_const(1)
@@ -842,8 +855,7 @@ class ByteGen:
 
         if not func_symbol.is_builtin():
             self.enter_block(block.symbols)
-            for child in block.children:
-                self.gen(child)
+            self.gen_children(block.children)
             self.exit_block()
 
         # default return
@@ -894,7 +906,11 @@ class ByteGen:
         self.append_op(OpCode.RETURN)
 
     def gen_produz(self, node: ast.Produz):
-        self.gen(unwrap(node.exp))
+        exp = unwrap(node.exp)
+        self.gen(exp)
+        # A block that produces 'vazio' does not yield a value
+        if exp.eval_type == Builtins.Vazio and self.leaves_value(exp):
+            self.append_op(OpCode.POP_TOP)
 
     def gen_converta(self, node: ast.Converta):
         target_t = node.target.eval_type
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index d034a5c..6855d5e 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -33,6 +33,10 @@ class ASTTransformer:
             return node
         if new_node == node:
             return node
+        # The new node stands for the same value
+        if isinstance(node, ast.Expr) and isinstance(new_node, ast.Expr):
+            new_node.eval_type = node.eval_type
+            new_node.prom_type = node.prom_type
         parent: ast.ASTNode = node.parent
         if not parent:
             raise ValueError(
diff --git a/amanda/vm/src/opcode.rs b/amanda/vm/src/opcode.rs
index 7bb0f8d..a9b46a2 100644
--- a/amanda/vm/src/opcode.rs
+++ b/amanda/vm/src/opcode.rs
@@ -45,12 +45,13 @@ pub enum OpCode {
     BuildVariant,
     BindMatchArgs,
     MatchVariant,
+    PopTop,
     Halt = 255,
 }
 
 impl From<&u8> for OpCode {
     fn from(number: &u8) -> Self {
-        let ops: [OpCode; 42] = [
+        let ops: [OpCode; 43] = [
             OpCode::Mostra,
             OpCode::LoadConst,
             OpCode::LoadName,
@@ -93,6 +94,7 @@ impl From<&u8> for OpCode {
             OpCode::BuildVariant,
             OpCode::BindMatchArgs,
             OpCode::MatchVariant,
+            OpCode::PopTop,
         ];
         if *number == 0xff {
             OpCode::Halt
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index f29b003..f3f9021 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -362,6 +362,8 @@ impl<'a> AmaVM<'a> {
                             } else if func.locals > 0 {
                                 func.bp = self.sp + 1;
                                 self.reserve_stack_space(func.locals);
+                            } else {
+                                func.bp = self.sp + 1;
                             }
                             //Set return addr in caller
                             self.frames.peek_mut().ip += 1;
@@ -543,6 +545,9 @@ impl<'a> AmaVM<'a> {
                         self.op_push(val);
                     }
                 }
+                OpCode::PopTop => {
+                    self.op_pop();
+                }
                 OpCode::Halt => break,
             }
             self.frames.peek_mut().ip += 1;
-- 
2.43.0


From 5e95a728790d18d97ac38a82927234bf245c130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 02/50] fix: generate code for the unary plus operator

---
 amanda/compiler/codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 9d7e99e..669973d 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -601,7 +601,7 @@ class ByteGen:
             self.append_op(OpCode.OP_INVERT)
         elif operator == TT.NAO:
             self.append_op(OpCode.OP_NOT)
-        else:
+        elif operator != TT.PLUS:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-- 
2.43.0


From fad778785bf03a52dd5ed995d095ec0b6edb2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 03/50] fix: convert promoted values everywhere and keep the
 value of chained field and element assignments

Promotion casts were only generated for some expressions, and the value side
of 'a.x = b.y' was generated as an assignment target. The value of a chained
assignment to a field or element was never left for the outer assignment.
---
 amanda/compiler/check/core.py |  1 +
 amanda/compiler/codegen.py    | 80 +++++++++++++++++++++++------------
 2 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 0932214..7b7af61 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -958,6 +958,7 @@ class Analyzer(ast.Visitor):
                     else f"Itens do tipo '{idx_ty}' não podem ser modificadas por meio de índices"
                 )
         self.visit(value)
+        value.prom_type = value.eval_type.promote_to(index.eval_type)
         if not self.types_match(index.eval_type, value.eval_type):
             self.ctx_node = node
             self.error(
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 669973d..2e95042 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -12,8 +12,9 @@ from amanda.compiler.check.exhaustiveness import (
 )
 from amanda.compiler.symbols.base import Constructor, Symbol
 import amanda.compiler.symbols.core as symbols
-from amanda.compiler.types.builtins import Builtins
+from amanda.compiler.types.builtins import Builtins, SrcBuiltins
 from amanda.compiler.types.core import (
+    ConstructedTy,
     IntCons,
     Primitive,
     Registo,
@@ -430,8 +431,40 @@ class ByteGen:
             result = gen_method(node, args)
         else:
             result = gen_method(node)
+        # An assignment does not leave its value on the stack
+        if isinstance(node, ast.Expr) and not isinstance(
+            node, (ast.Assign, ast.Set, ast.IndexSet)
+        ):
+            self.gen_auto_cast(node)
         return result
 
+    def gen_value(self, node: ast.Expr):
+        """Generates an expression whose value is going to be assigned.
+        Deals with consecutive assignments"""
+        match node:
+            case ast.Assign(left=ast.Variable(var_symbol=var_sym)):
+                self.gen(node)
+                self.load_variable(var_sym)
+            case ast.Set():
+                self.gen_set(node, keep_value=True)
+                self.load_saved_value()
+            case ast.IndexSet():
+                self.gen_indexset(node, keep_value=True)
+                self.load_saved_value()
+            case _:
+                self.gen(node)
+                return
+        self.gen_auto_cast(node)
+
+    def save_value(self):
+        # Keep a copy of TOS in a local reserved by the compiler
+        idx = self.func_locals.setdefault("_value_", len(self.func_locals))
+        self.append_op(OpCode.SET_LOCAL, idx)
+        self.load_saved_value()
+
+    def load_saved_value(self):
+        self.append_op(OpCode.GET_LOCAL, self.func_locals["_value_"])
+
     def enter_block(self, scope):
         self.depth += 1
         self.scope_symtab = scope
@@ -488,7 +521,6 @@ class ByteGen:
         literal = str(node.token.lexeme)
         idx = self.get_table_index(literal, self.CONST_TABLE)
         self.append_op(OpCode.LOAD_CONST, idx)
-        self.gen_auto_cast(node.prom_type)
 
     def load_variable(self, symbol: Symbol):
         name = symbol.name
@@ -518,11 +550,8 @@ class ByteGen:
         # 'visit_variable' so that symbol attribute can be set
         if symbol is None:
             symbol = self.scope_symtab.resolve(name)
-        # TODO: Handle prom_type later
-        prom_type = node.prom_type
         var_scope = self.scope_symtab.resolve_scope(name, self.depth)
         self.load_variable(symbol)
-        self.gen_auto_cast(prom_type)
 
     def gen_path(self, node: ast.Path):
         # raise ValueError("Symbol should have been resolved before codegen!")
@@ -577,16 +606,8 @@ class ByteGen:
         self.func_locals[symbol.out_id] = idx
         return idx
 
-    # TODO: Test whether chained assign still with
-    # mixture of normal assigns and index set (Potential bug)
     def gen_assign(self, node):
-        expr = node.right
-        self.gen(expr)
-        # Deal with consecutive assignments
-        if isinstance(expr, ast.Assign):
-            var_sym = expr.left.var_symbol
-            name = expr.left.token.lexeme
-            self.load_variable(var_sym)
+        self.gen_value(node.right)
         var = node.left
         assert isinstance(
             var, ast.Variable
@@ -605,7 +626,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_binop(self, node: ast.BinOp):
         operator = node.token.token
@@ -664,7 +684,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_se(self, node):
         else_branch = node.else_branch
@@ -892,7 +911,6 @@ class ByteGen:
             self.append_op(OpCode.BUILD_OBJ, len(node.fargs))
         else:
             self.append_op(OpCode.CALL_FUNCTION, len(node.fargs))
-        self.gen_auto_cast(node.prom_type)
 
     def gen_namedarg(self, node: ast.NamedArg):
         self.load_name(node.name.lexeme)
@@ -924,8 +942,13 @@ class ByteGen:
         arg = 0 if target_t != Builtins.Indef else 1
         self.append_op(OpCode.CAST, arg)
 
-    def gen_auto_cast(self, prom_type: Type):
-        if not prom_type or prom_type != Builtins.Real:
+    def gen_auto_cast(self, node: ast.Expr):
+        prom_type = node.prom_type
+        if isinstance(
+            prom_type, ConstructedTy
+        ) and prom_type.is_constructed_from(SrcBuiltins.Opcao):
+            prom_type = prom_type.bound_ty_args["T"]
+        if node.eval_type != Builtins.Int or prom_type != Builtins.Real:
             return
         self.load_variable(prom_type)
         self.append_op(OpCode.CAST, 0)
@@ -943,9 +966,11 @@ class ByteGen:
         if gen_get:
             self.append_op(OpCode.OP_INDEX_GET)
 
-    def gen_indexset(self, node):
+    def gen_indexset(self, node, keep_value=False):
         self.gen_indexget(node.index, gen_get=False)
-        self.gen(node.value)
+        self.gen_value(node.value)
+        if keep_value:
+            self.save_value()
         self.append_op(OpCode.OP_INDEX_SET)
 
     def gen_fmtstr(self, node):
@@ -969,14 +994,15 @@ class ByteGen:
     def gen_get(self, node: ast.Get):
         self.gen(node.target)
         self.load_name(node.member.lexeme)
-        assert node.parent, "Parent must not be none"
-        if node.child_of(ast.Set):
-            return
         self.append_op(OpCode.GET_PROP)
 
-    def gen_set(self, node: ast.Set):
-        self.gen(node.target)
-        self.gen(node.expr)
+    def gen_set(self, node: ast.Set, keep_value=False):
+        # Load the instance and the name of the field that will be modified
+        self.gen(node.target.target)
+        self.load_name(node.target.member.lexeme)
+        self.gen_value(node.expr)
+        if keep_value:
+            self.save_value()
         self.append_op(OpCode.SET_PROP)
 
     def gen_unwrap(self, node: ast.Unwrap):
-- 
2.43.0


From 3f5597783c006740ee25072f5eda7968cc2252fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 04/50] fix: apply the operator of compound assignments to
 fields

---
 amanda/compiler/ast.py   |  3 ---
 amanda/compiler/parse.py | 15 ++++++++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 7c9aa0e..1814c84 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -456,9 +456,6 @@ class IndexSet(Expr):
         self.index = index
         self.value = value
 
-    def is_assignable(self):
-        return True
-
 
 class Set(Expr):
     def __init__(self, *, target: Get, expr: Expr):
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index c1dff76..4a60ccf 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -998,21 +998,30 @@ class Parser:
             )
             token, lexeme = self.compound_operator()
             token = Token(token, lexeme, line=line, col=col)
+            # The target is also an operand. The two must be separate nodes
+            operand = copy.deepcopy(expr)
 
             self.consume(current)
             if isinstance(expr, ast.Get):
-                expr = ast.Set(target=expr, expr=self.assignment())
+                expr = ast.Set(
+                    target=expr,
+                    expr=ast.BinOp(
+                        token,
+                        left=operand,
+                        right=self.equality(),
+                    ),
+                )
             elif isinstance(expr, ast.IndexGet):
                 expr = ast.IndexSet(
                     token,
                     expr,
-                    ast.BinOp(token, left=expr, right=self.equality()),
+                    ast.BinOp(token, left=operand, right=self.equality()),
                 )
             else:
                 expr = ast.Assign(
                     eq,
                     left=expr,
-                    right=ast.BinOp(token, left=expr, right=self.equality()),
+                    right=ast.BinOp(token, left=operand, right=self.equality()),
                 )
         return expr
 
-- 
2.43.0


From b777638be5468411f201b89c72b31f601843c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 05/50] fix: evaluate the target of compound assignments only
 once

---
 amanda/compiler/ast.py     |  6 +++--
 amanda/compiler/codegen.py | 53 ++++++++++++++++++++++++++++----------
 amanda/compiler/parse.py   |  2 ++
 3 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 1814c84..66e177e 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -451,15 +451,17 @@ class IndexGet(Expr):
 
 
 class IndexSet(Expr):
-    def __init__(self, token, index, value):
+    def __init__(self, token, index, value, compound=False):
         super().__init__(token)
+        self.compound = compound
         self.index = index
         self.value = value
 
 
 class Set(Expr):
-    def __init__(self, *, target: Get, expr: Expr):
+    def __init__(self, *, target: Get, expr: Expr, compound=False):
         super().__init__(expr.token)
+        self.compound = compound
         self.target = target
         self.expr = expr
 
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 2e95042..b49631d 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -25,7 +25,7 @@ from amanda.compiler.types.core import (
     VariantCons,
 )
 import amanda.compiler.ast as ast
-from amanda.compiler.tokens import TokenType as TT
+from amanda.compiler.tokens import Token, TokenType as TT
 from amanda.compiler.error import AmandaError, throw_error
 from amanda.compiler import bindump
 from amanda.compiler.module import Module
@@ -447,23 +447,36 @@ class ByteGen:
                 self.load_variable(var_sym)
             case ast.Set():
                 self.gen_set(node, keep_value=True)
-                self.load_saved_value()
+                self.load_saved_value("_value_")
             case ast.IndexSet():
                 self.gen_indexset(node, keep_value=True)
-                self.load_saved_value()
+                self.load_saved_value("_value_")
             case _:
                 self.gen(node)
                 return
         self.gen_auto_cast(node)
 
-    def save_value(self):
-        # Keep a copy of TOS in a local reserved by the compiler
-        idx = self.func_locals.setdefault("_value_", len(self.func_locals))
+    def gen_compound_value(self, node: ast.BinOp, get_op: OpCode):
+        # TOS - 1 and TOS are the object and the key of the target. They are
+        # used twice but must be evaluated only once
+        self.save_value("_key_")
+        self.save_value("_object_")
+        for _ in range(2):
+            self.load_saved_value("_object_")
+            self.load_saved_value("_key_")
+        self.append_op(get_op)
+        self.gen_auto_cast(node.left)
+        self.gen(node.right)
+        self.gen_operator(node.token)
+        self.gen_auto_cast(node)
+
+    def save_value(self, name: str):
+        # Moves TOS to a local that is reserved by the compiler
+        idx = self.func_locals.setdefault(name, len(self.func_locals))
         self.append_op(OpCode.SET_LOCAL, idx)
-        self.load_saved_value()
 
-    def load_saved_value(self):
-        self.append_op(OpCode.GET_LOCAL, self.func_locals["_value_"])
+    def load_saved_value(self, name: str):
+        self.append_op(OpCode.GET_LOCAL, self.func_locals[name])
 
     def enter_block(self, scope):
         self.depth += 1
@@ -652,6 +665,10 @@ class ByteGen:
 
         self.gen(node.left)
         self.gen(node.right)
+        self.gen_operator(node.token)
+
+    def gen_operator(self, token: Token):
+        operator = token.token
         if operator == TT.PLUS:
             self.append_op(OpCode.OP_ADD)
         elif operator == TT.MINUS:
@@ -682,7 +699,7 @@ class ByteGen:
             self.append_op(OpCode.OP_LESSEQ)
         else:
             raise NotImplementedError(
-                f"OP {node.token.token} has not yet been implemented"
+                f"OP {operator} has not yet been implemented"
             )
 
     def gen_se(self, node):
@@ -968,9 +985,13 @@ class ByteGen:
 
     def gen_indexset(self, node, keep_value=False):
         self.gen_indexget(node.index, gen_get=False)
-        self.gen_value(node.value)
+        if node.compound:
+            self.gen_compound_value(node.value, OpCode.OP_INDEX_GET)
+        else:
+            self.gen_value(node.value)
         if keep_value:
-            self.save_value()
+            self.save_value("_value_")
+            self.load_saved_value("_value_")
         self.append_op(OpCode.OP_INDEX_SET)
 
     def gen_fmtstr(self, node):
@@ -1000,9 +1021,13 @@ class ByteGen:
         # Load the instance and the name of the field that will be modified
         self.gen(node.target.target)
         self.load_name(node.target.member.lexeme)
-        self.gen_value(node.expr)
+        if node.compound:
+            self.gen_compound_value(node.expr, OpCode.GET_PROP)
+        else:
+            self.gen_value(node.expr)
         if keep_value:
-            self.save_value()
+            self.save_value("_value_")
+            self.load_saved_value("_value_")
         self.append_op(OpCode.SET_PROP)
 
     def gen_unwrap(self, node: ast.Unwrap):
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 4a60ccf..1091778 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1010,12 +1010,14 @@ class Parser:
                         left=operand,
                         right=self.equality(),
                     ),
+                    compound=True,
                 )
             elif isinstance(expr, ast.IndexGet):
                 expr = ast.IndexSet(
                     token,
                     expr,
                     ast.BinOp(token, left=operand, right=self.equality()),
+                    compound=True,
                 )
             else:
                 expr = ast.Assign(
-- 
2.43.0


From f57b677a8299f63769c1e90a18db31fad57ba294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 06/50] fix: allow the assignment of elements of vectors of
 texto

---
 amanda/compiler/check/core.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 7b7af61..88f9905 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -949,14 +949,13 @@ class Analyzer(ast.Visitor):
         index = node.index
         value = node.value
         self.visit(index)
-        idx_ty = index.eval_type
-        if not idx_ty.supports_index_set():
-            if idx_ty.tag == Types.TTEXTO:
-                self.error(
-                    f"As strings não podem ser modificadas por meio de índices"
-                    if idx_ty.tag == Types.TTEXTO
-                    else f"Itens do tipo '{idx_ty}' não podem ser modificadas por meio de índices"
-                )
+        target_ty = index.target.eval_type
+        if not target_ty.supports_index_set():
+            self.error(
+                f"As strings não podem ser modificadas por meio de índices"
+                if target_ty.tag == Types.TTEXTO
+                else f"Itens do tipo '{target_ty}' não podem ser modificadas por meio de índices"
+            )
         self.visit(value)
         value.prom_type = value.eval_type.promote_to(index.eval_type)
         if not self.types_match(index.eval_type, value.eval_type):
-- 
2.43.0


From 28b516cf75f0a6aad17ed3ebccc94cbf286922bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 07/50] fix: evaluate the expression of 'escolha' once and
 transform the nodes inside it

---
 amanda/compiler/codegen.py   | 20 +++++++++++++++++
 amanda/compiler/transform.py | 43 ------------------------------------
 2 files changed, 20 insertions(+), 43 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index b49631d..b3baf9c 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -728,6 +728,26 @@ class ByteGen:
 
         self.patch_label_loc(after_if)
 
+    def gen_escolha(self, node: ast.Escolha):
+        after_escolha = self.new_label()
+        # The expression must be evaluated only once
+        value = f"_escolha{len(self.func_locals)}_"
+        self.gen(node.expression)
+        self.save_value(value)
+        for case in node.cases:
+            after_case = self.new_label()
+            self.gen(case.expression)
+            self.load_saved_value(value)
+            self.append_op(OpCode.OP_EQ)
+            self.append_op(OpCode.JUMP_IF_FALSE, after_case)
+            self.compile_block(case.block)
+            self.append_op(OpCode.JUMP, after_escolha)
+            self.patch_label_loc(after_case)
+
+        if node.default_case:
+            self.compile_block(node.default_case)
+        self.patch_label_loc(after_escolha)
+
     def gen_enquanto(self, node):
         after_loop = self.new_label()
         # Set the current loop exit
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index 6855d5e..cc8aa02 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -67,49 +67,6 @@ class ASTTransformer:
         if node.of_type(ast.Converta):
             return node
 
-    def transform_escolha(self, node: ast.Escolha) -> ast.ASTNode:
-        token = node.token
-        new_token = lambda tt, lexeme: Token(tt, lexeme, token.line, token.col)
-        equality_op = lambda left, right: ast.BinOp(
-            new_token(TT.DOUBLEEQUAL, "=="),
-            left=left,
-            right=right,
-            ty=Builtins.Bool,
-        )
-        # check node
-        # transform node into ifs
-        expr = node.expression
-        # let
-        se_node = ast.Se(token, None, None, elsif_branches=[], else_branch=None)
-        if not node.cases and not node.default_case:
-            return ast.NoOp()
-        elif not node.cases and node.default_case:
-            se_node.condition = ast.Constant(
-                new_token(TT.VERDADEIRO, "verdadeiro")
-            )
-            se_node.then_branch = node.default_case
-            return se_node
-        else:
-            first_case = node.cases[0]
-            del node.cases[0]
-            se_node.condition = equality_op(
-                left=first_case.expression,
-                right=node.expression,
-            )
-            se_node.then_branch = first_case.block
-            se_node.else_branch = node.default_case
-            for case in node.cases:
-                se_node.elsif_branches.append(
-                    ast.SenaoSe(
-                        token,
-                        equality_op(
-                            left=case.expression, right=node.expression
-                        ),
-                        case.block,
-                    )
-                )
-            return se_node
-
     def _is_option(self, ty: Type) -> bool:
         return ty.is_constructed_from(SrcBuiltins.Opcao)
 
-- 
2.43.0


From 6c5ab3bf8f47542af583c928613d2c9556f67984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 08/50] fix: support 'quebra' and 'continua' in 'para' loops

---
 amanda/compiler/check/core.py |  6 ++++++
 amanda/compiler/codegen.py    | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 88f9905..b24c10e 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1156,8 +1156,14 @@ class Analyzer(ast.Visitor):
         )
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
+
+        in_loop_state = self.in_loop
+        self.in_loop = True
+
         self.visit(node.statement, scope)
 
+        self.in_loop = in_loop_state
+
     def visit_paraexpr(self, node: ast.ParaExpr):
         # self.visit(node.name)
         self.visit(node.range_expr)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index b3baf9c..dbb53dc 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -787,6 +787,12 @@ class ByteGen:
         # BEGIN LOOP
         after_loop = self.new_label()
         loop = self.new_label()
+        update = self.new_label()
+        # 'continua' must not skip the update of the control variable
+        loop_exit_state = self.ctx_loop_exit
+        loop_start_state = self.ctx_loop_start
+        self.ctx_loop_exit = after_loop
+        self.ctx_loop_start = update
         block = node.statement
         self.enter_block(block.symbols)
 
@@ -803,6 +809,7 @@ class ByteGen:
         # Body
         self.gen_children(block.children)
         # update: control_var += inc
+        self.patch_label_loc(update)
         if not range_expr.inc:
             self.load_const(1)
         else:
@@ -816,6 +823,9 @@ class ByteGen:
         self.patch_label_loc(after_loop)
         self.exit_block()
 
+        self.ctx_loop_start = loop_start_state
+        self.ctx_loop_exit = loop_exit_state
+
     def gen_iguala(self, node: ast.Iguala):
         self.gen_iguala_from_ir(node, node.ir.tree)
 
-- 
2.43.0


From f9f74ec1f88107bac58a89e0e70f90e127a072e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 09/50] fix: keep the literal parts of f-strings as text

---
 amanda/compiler/parse.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 1091778..696b287 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1193,6 +1193,10 @@ class Parser:
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
+            if not self.match(Lexer.EOF):
+                self.error(
+                    "String de formatação inválida. Cada par de '{' e '}' deve conter apenas uma expressão"
+                )
         except AmandaError as e:
             raise AmandaError.syntax_error(
                 self.filename, e.message, token.line, token.col
@@ -1211,7 +1215,13 @@ class Parser:
         parts = []
 
         tokenify_str = lambda lexeme: ast.Constant(
-            Token(TT.STRING, lexeme=lexeme, line=token.line, col=token.col)
+            # String literals must be delimited
+            Token(
+                TT.STRING,
+                lexeme=f'"{lexeme}"',
+                line=token.line,
+                col=token.col,
+            )
         )
         # TODO: Reuse this buffer
         current_str = StringIO()
@@ -1243,7 +1253,7 @@ class Parser:
             char = format_str.read(1)
 
         buff_str = current_str.getvalue()
-        if buff_str:
+        if buff_str or not parts:
             parts.append(tokenify_str(buff_str))
         if not has_expr:
             return parts[0]
-- 
2.43.0


From b7bcc5b15aac06e984c8af77c0a9c33888ba9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 10/50] fix: give methods of different types different
 identifiers and a place for 'alvo'

---
 amanda/compiler/check/core.py | 9 ++++++---
 amanda/compiler/codegen.py    | 3 +++
 amanda/compiler/transform.py  | 8 +-------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index b24c10e..1c305fd 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -631,6 +631,11 @@ class Analyzer(ast.Visitor):
             module=self.ctx_module,
         )
         symbol.set_annotations(node.annotations)
+        # TODO: Refactor method definitions to not rely on the underlying type
+        target_ty.define_method(symbol)
+        # Types can have methods with the same name. The identifier of the
+        # method must be different for each one of them
+        symbol.name = symbol.out_id = method_id
 
         scope, params = self.make_func_symbol(method_id, node, symbol)
         symbol.params = params
@@ -654,9 +659,7 @@ class Analyzer(ast.Visitor):
                 f"{method_desc} não possui a instrução 'retorna'",
             )
             self.check_function_body(node, symbol, scope)
-        # TODO: Refactor method definitions to not rely on the underlying type
         node.symbol = symbol
-        target_ty.define_method(symbol)
         self.leave_ty_ctx()
 
     def get_generic_params(
@@ -1324,7 +1327,7 @@ class Analyzer(ast.Visitor):
     ):
         if arg_len != arity:
             if isinstance(symbol, symbols.MethodSym):
-                name = symbol.target_ty.full_field_path(symbol.name)
+                name = symbol.name
             callable_desc = (
                 f"o método {name}" if is_method else f"a função {name}"
             )
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index dbb53dc..d6c5dee 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -914,6 +914,9 @@ class ByteGen:
         block = node.block
         prev_func_locals = self.func_locals
         self.func_locals = {}
+        if isinstance(func_symbol, symbols.MethodSym):
+            # The first argument of a method is always the instance
+            self.func_locals["alvo"] = 0
         for param in func_symbol.params.values():
             local = param.out_id
             idx = len(self.func_locals)
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index cc8aa02..f83743e 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -110,17 +110,11 @@ class ASTTransformer:
             # Common method call
             sym = cast(MethodSym, node.symbol)
             instance = cast(ast.Get, node.callee).target
-            sym.params = {
-                "alvo": VariableSymbol("alvo", sym.return_ty, self.module),
-                **sym.params,
-            }
             node.fargs.insert(0, instance)
-            if sym.is_external(self.module):
-                sym.name = sym.out_id = f"{sym.module.fpath}::{sym.name}"
-                self.program.symbols.define(sym.name, sym)
         else:
             raise NotImplementedError("Unknown case")
         var = var_node(sym.name, node.token)
+        var.var_symbol = sym
         call_node = ast.Call(callee=var, fargs=node.fargs)
         call_node.symbol = sym
         return call_node
-- 
2.43.0


From 932e1a96d51bb563a1c99a6135115a81c7970166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 11/50] fix: generate the fallback, the target and the bindings
 of 'iguala' correctly

---
 amanda/compiler/check/core.py           |  2 +-
 amanda/compiler/check/exhaustiveness.py | 40 +++++++++++----------
 amanda/compiler/check/iguala.py         |  5 ++-
 amanda/compiler/codegen.py              | 47 ++++++++++++++-----------
 amanda/compiler/symbols/core.py         |  2 +-
 5 files changed, 51 insertions(+), 45 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 1c305fd..aa5e893 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -173,7 +173,7 @@ class Analyzer(ast.Visitor):
         self, symbol: symbols.Symbol, depth: int, scope: symbols.Scope
     ):
         if not self.is_valid_name(symbol.name) or depth >= 1:
-            symbol.out_id = f"_r{depth}{scope.count()}_"
+            symbol.out_id = f"_r{depth}_{scope.count()}_"
         scope.define(symbol.name, symbol)
 
     def get_type_sym_or_err(self, type_id: str) -> Type:
diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 4e907af..9f7337a 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -17,6 +17,10 @@ from amanda.compiler.types.core import BoolCons, IntCons, StrCons, VariantCons
 from utils.tycheck import unreachable, unwrap
 
 
+# Name of the variable that stores the target of an 'iguala'
+IGUALA_TARGET = "_target_"
+
+
 def var_node(name: str) -> ast.Variable:
     return ast.Variable(
         token=tokens.Token(tokens.TokenType.IDENTIFIER, name),
@@ -53,6 +57,13 @@ class Row:
     guard: int | None
     body: Body
 
+    def clone(self) -> Row:
+        return Row(
+            list(self.columns),
+            self.guard,
+            Body(list(self.body.bindings), self.body.value),
+        )
+
     def remove_column(self, variable: VariableSymbol) -> Column | None:
         try:
             idx = list(map(lambda c: c.variable, self.columns)).index(variable)
@@ -210,7 +221,7 @@ class Match:
                             terms.append(
                                 Term(var, "true" if val == 1 else "false", [])
                             )
-                        case IntCons():
+                        case IntCons() | StrCons():
                             terms.append(Term(var, "_", []))
                         case VariantCons(name=name):
                             args = case.arguments
@@ -224,22 +235,6 @@ class Match:
                 if node := fallback:
                     self.add_missing_patterns(node, terms, missing)
 
-    def declare_block_symbols(self):
-        self._declare_block_symbols(self.tree)
-
-    def _declare_block_symbols(self, tree: Decision):
-        match tree:
-            case DSuccess(body):
-                for name, var in body.bindings:
-                    unwrap(body.value.symbols).define(
-                        name, VariableSymbol(name, var.type, var.module)
-                    )
-            case DSwitch(cases=cases):
-                for case in cases:
-                    self._declare_block_symbols(case.body)
-            case _:
-                pass
-
 
 @dataclass
 class IgualaCompiler:
@@ -280,6 +275,9 @@ class IgualaCompiler:
 
         # self._expand_or_patterns(rows)
 
+        # The same row can be used by many cases, each case must modify its own
+        rows = [row.clone() for row in rows]
+
         for row in rows:
             self.move_variable_patterns(row)
 
@@ -289,7 +287,10 @@ class IgualaCompiler:
 
         if rows and not rows[0].columns:
             row = rows.pop(0)
-            self.diagnostics.reachable.append(row.body.value)
+            if not any(
+                row.body.value is block for block in self.diagnostics.reachable
+            ):
+                self.diagnostics.reachable.append(row.body.value)
             guard = row.guard
             return (
                 DGuard(guard, row.body, self._compile_rows(rows))
@@ -354,7 +355,8 @@ class IgualaCompiler:
                     case _:
                         raise NotImplementedError("Invalid pattern")
 
-                if index := tested.get(key):
+                index = tested.get(key)
+                if index is not None:
                     raw_cases[index][2].append(row)
                     continue
 
diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 2826a1f..bad6cef 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -1,6 +1,6 @@
 import typing
 import amanda.compiler.ast as ast
-from amanda.compiler.check.exhaustiveness import IgualaCompiler
+from amanda.compiler.check.exhaustiveness import IGUALA_TARGET, IgualaCompiler
 import amanda.compiler.symbols.core as symbols
 from amanda.compiler.check.checker import Checker
 from amanda.compiler.error import Errors
@@ -31,7 +31,7 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
             iguala.target_binding = target.var_symbol
         case _:
             sym = symbols.VariableSymbol(
-                "_target_", target.eval_type, checker.ctx_module
+                IGUALA_TARGET, target.eval_type, checker.ctx_module
             )
             checker.define_symbol(sym, checker.scope_depth, scope)
             iguala.target_binding = sym
@@ -61,7 +61,6 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
                 Errors.NON_EXHAUSTIVE_PATTERN_MATCH_INFINITE,
             )
     # Validate reachable blocks
-    tree.declare_block_symbols()
     first_block = tree.diagnostics.reachable[0]
     checker.visit(first_block)
     iguala.eval_type = first_block.eval_type
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index d6c5dee..a389aca 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -8,6 +8,7 @@ from amanda.compiler.check.exhaustiveness import (
     DSuccess,
     DSwitch,
     Decision,
+    IGUALA_TARGET,
     Match,
 )
 from amanda.compiler.symbols.base import Constructor, Symbol
@@ -260,6 +261,8 @@ class ByteGen:
                 continue
             compiler = ByteGen(mod)
             compiler.modules = self.modules
+            # The index of a variant must be the same in all of the modules
+            compiler.uniao_variants = self.uniao_variants
             module_out = compiler.compile({}, raw=False)
             compiled_imports.append(module_out)
             mod.compiled = True
@@ -573,7 +576,7 @@ class ByteGen:
             raise ValueError("Symbol should have been resolved before codegen!")
         match symbol:
             case Variant():
-                tag = self.uniao_variants[symbol.variant_id()]
+                tag = self.get_variant_index(symbol)
                 self.load_const(tag)
                 if not symbol.is_callable():
                     # No args means we can generate the code for creating the variant here
@@ -615,9 +618,10 @@ class ByteGen:
             self.append_op(OpCode.SET_LOCAL, self.func_locals[local])
 
     def declare_local(self, symbol: Symbol) -> int:
-        idx = len(self.func_locals)
-        self.func_locals[symbol.out_id] = idx
-        return idx
+        # Symbols with the same id share the same slot
+        return self.func_locals.setdefault(
+            symbol.out_id, len(self.func_locals)
+        )
 
     def gen_assign(self, node):
         self.gen_value(node.right)
@@ -827,6 +831,11 @@ class ByteGen:
         self.ctx_loop_exit = loop_exit_state
 
     def gen_iguala(self, node: ast.Iguala):
+        target_binding = unwrap(node.target_binding)
+        # If the target is not a variable, it has to be stored in one
+        if target_binding.name == IGUALA_TARGET:
+            self.gen(node.target)
+            self.set_variable(target_binding)
         self.gen_iguala_from_ir(node, node.ir.tree)
 
     def gen_iguala_from_ir(self, node: ast.Iguala, decision: Decision):
@@ -838,8 +847,8 @@ class ByteGen:
                         unwrap(unwrap(body.value.symbols).resolve(name))
                     )
                 self.gen(body.value)
-            case DSwitch(variable=var, cases=cases):
-                self.gen_iguala_cases(node, var, cases)
+            case DSwitch(variable=var, cases=cases, fallback=fallback):
+                self.gen_iguala_cases(node, var, cases, fallback)
             case _:
                 unreachable("Invalid decision node")
         pass
@@ -855,18 +864,18 @@ class ByteGen:
             case VariantCons(tag=tag, uniao=uniao):
                 variant = uniao.variant_by_tag(tag)
                 # TODO: Fix this please!!!
-                idx = self.uniao_variants[variant.variant_id()]
+                idx = self.get_variant_index(variant)
                 self.append_op(OpCode.MATCH_VARIANT, idx)
             case _:
                 unreachable("Unknown constructor")
 
     def gen_iguala_case_bindings(self, var: symbols.VariableSymbol, case: Case):
-        self.load_variable(var)
         match case.constructor:
             case VariantCons(name=name):
                 cargs = case.arguments
                 if not cargs:
                     return
+                self.load_variable(var)
                 for arg in cargs:
                     # Declare local and push local index into stack
                     idx = self.declare_local(arg)
@@ -876,22 +885,15 @@ class ByteGen:
                 pass
 
     def gen_iguala_cases(
-        self, node: ast.Iguala, var: symbols.VariableSymbol, cases: list[Case]
+        self,
+        node: ast.Iguala,
+        var: symbols.VariableSymbol,
+        cases: list[Case],
+        fallback: Decision | None,
     ):
         after_if = self.new_label()
-        after_block = self.new_label()
-
-        first_case = cases[0]
-        # Generate test
-        self.gen_iguala_test(var, first_case.constructor)
-        self.append_op(OpCode.JUMP_IF_FALSE, after_block)
 
-        self.gen_iguala_case_bindings(var, first_case)
-        self.gen_iguala_from_ir(node, first_case.body)
-        self.append_op(OpCode.JUMP, after_if)
-        self.patch_label_loc(after_block)
-
-        for case in cases[1:]:
+        for case in cases:
             after_elsif = self.new_label()
             self.gen_iguala_test(var, case.constructor)
             self.append_op(OpCode.JUMP_IF_FALSE, after_elsif)
@@ -901,6 +903,9 @@ class ByteGen:
             self.append_op(OpCode.JUMP, after_if)
             self.patch_label_loc(after_elsif)
 
+        if fallback:
+            self.gen_iguala_from_ir(node, fallback)
+
         self.patch_label_loc(after_if)
 
     def gen_functiondecl(self, node: ast.FunctionDecl):
diff --git a/amanda/compiler/symbols/core.py b/amanda/compiler/symbols/core.py
index 42c46c1..b654512 100644
--- a/amanda/compiler/symbols/core.py
+++ b/amanda/compiler/symbols/core.py
@@ -165,7 +165,7 @@ class Scope:
         return len(self.symbols)
 
     def new_unique_var(self, type: Type, module: Module) -> VariableSymbol:
-        symbol = VariableSymbol(f"_r{self.count()}_", type, module)
+        symbol = VariableSymbol(f"_m{self.count()}_", type, module)
         self.define(symbol.name, symbol)
         return symbol
 
-- 
2.43.0


From 61f5d0827caef17d30649fa2c8cd348afe1c0a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 12/50] fix: check the nested patterns of 'iguala' and reject
 invalid ones with a diagnostic

---
 amanda/compiler/check/iguala.py | 93 +++++++++++++++++++--------------
 amanda/compiler/error.py        |  4 ++
 amanda/compiler/parse.py        |  2 +-
 3 files changed, 59 insertions(+), 40 deletions(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index bad6cef..c446246 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -77,9 +77,13 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
 
 
 def check_binding_pattern(
-    checker: Checker, arm: ast.IgualaArm, target_ty: Type, var: ast.Variable
+    checker: Checker,
+    arm: ast.IgualaArm,
+    pattern: ast.BindingPattern,
+    target_ty: Type,
 ):
-    arm.pattern.eval_type = target_ty
+    var = pattern.var
+    pattern.eval_type = target_ty
     scope = tycheck.unwrap(arm.body.symbols)
     var_name = var.token.lexeme
     if var_name in scope.symbols:
@@ -93,53 +97,64 @@ def check_binding_pattern(
     )
 
 
-def check_pattern(checker: Checker, arm: ast.IgualaArm, target_ty: Type):
-    match arm.pattern:
-        case ast.ADTPattern(adt, args):
-            checker.visit(adt)
-            sym = tycheck.unwrap(
-                adt.symbol if isinstance(adt, ast.Path) else adt.var_symbol
-            )
-            match sym:
-                case Variant(params=params):
-                    if not sym.is_callable() and args:
-                        checker.error(
-                            Errors.VARIANT_TAKES_NO_ARGS,
-                            variant=sym.qualified_name(),
-                        )
-                    for pattern, ty in zip(args, params):
-                        match pattern:
-                            case ast.BindingPattern(var=var):
-                                check_binding_pattern(checker, arm, ty, var)
-                            case ast.IntPattern():
-                                pattern.eval_type = Builtins.Int
-                            case ast.StrPattern():
-                                pattern.eval_type = Builtins.Texto
-                            case _:
-                                tycheck.unreachable("unknown subpattern")
-                case _:
-                    tycheck.unreachable("Unhandled ADT sym")
-            arm.pattern.eval_type = sym.uniao
-            arm.pattern.cons = VariantCons(
-                sym.tag, sym.uniao, sym.qualified_name(), sym.params
-            )
+def check_adt_pattern(
+    checker: Checker, arm: ast.IgualaArm, pattern: ast.ADTPattern
+):
+    adt = pattern.adt
+    args = pattern.args
+    checker.visit(adt)
+    sym = adt.symbol if isinstance(adt, ast.Path) else adt.var_symbol
+    if not isinstance(sym, Variant):
+        checker.error_with_loc(
+            adt.token, Errors.PATTERN_NOT_A_VARIANT, name=adt.token.lexeme
+        )
+    if not sym.is_callable() and args:
+        checker.error(
+            Errors.VARIANT_TAKES_NO_ARGS,
+            variant=sym.qualified_name(),
+        )
+    if len(args) != len(sym.params):
+        checker.error_with_loc(
+            adt.token,
+            Errors.INVALID_PATTERN_ARITY,
+            variant=sym.qualified_name(),
+            expected=len(sym.params),
+            received=len(args),
+        )
+    for arg, ty in zip(args, sym.params):
+        check_pattern(checker, arm, arg, ty)
+    pattern.eval_type = sym.uniao
+    pattern.cons = VariantCons(
+        sym.tag, sym.uniao, sym.qualified_name(), sym.params
+    )
+
+
+def check_pattern(
+    checker: Checker,
+    arm: ast.IgualaArm,
+    pattern: ast.Pattern,
+    target_ty: Type,
+):
+    match pattern:
+        case ast.ADTPattern():
+            check_adt_pattern(checker, arm, pattern)
         case ast.IntPattern():
-            arm.pattern.eval_type = Builtins.Int
+            pattern.eval_type = Builtins.Int
         case ast.StrPattern():
-            arm.pattern.eval_type = Builtins.Texto
-        case ast.BindingPattern(var=var):
-            check_binding_pattern(checker, arm, target_ty, var)
+            pattern.eval_type = Builtins.Texto
+        case ast.BindingPattern():
+            check_binding_pattern(checker, arm, pattern, target_ty)
         case _:
             tycheck.unreachable("Unhandled pattern type")
-    if arm.pattern.eval_type != target_ty:
+    if pattern.eval_type != target_ty:
         checker.error(
             Errors.INVALID_PATTERN_TYPE,
             expected=target_ty,
-            received=arm.pattern.eval_type,
+            received=pattern.eval_type,
         )
 
 
 def check_arm(checker: Checker, iguala: ast.Iguala, arm: ast.IgualaArm):
     # 1. Check pattern
     arm.body.symbols = symbols.Scope(checker.ctx_scope)
-    check_pattern(checker, arm, iguala.target.eval_type)
+    check_pattern(checker, arm, arm.pattern, iguala.target.eval_type)
diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 0f466ff..7d1eeb6 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -10,6 +10,10 @@ class Errors:
     VARIANT_ALREADY_DECLARED = "A variante '{variant}' já foi declarada anteriormente na união '{uniao}'"
     VOID_FN_MATCH_TARGET = "Funções sem retorno não podem ser usadas como o alvo da instrução 'iguala'"
     VARIANT_TAKES_NO_ARGS = "Padrão inválido. A variante '{variant}' não espera receber nenhum argumento"
+    PATTERN_NOT_A_VARIANT = (
+        "Padrão inválido. '{name}' não é uma variante de uma união"
+    )
+    INVALID_PATTERN_ARITY = "Padrão inválido. A variante '{variant}' espera {expected} argumento(s), porém o padrão especifica {received}"
     BINDING_ALREADY_IN_USE = (
         "Padrão inválido. A variável '{var}' já foi utilizada neste padrão"
     )
diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 696b287..892f559 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -843,7 +843,7 @@ class Parser:
                     case TT.STRING:
                         return ast.StrPattern(token)
                     case _:
-                        unreachable("Unhandled constant pattern")
+                        self.error("Padrão inválido")
             case _:
                 self.error("Padrão inválido")
 
-- 
2.43.0


From c9e369bd314cad4a341bf10ffa3cae19e1b76a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 13/50] fix: check the alternatives of 'iguala' that can't be
 reached

---
 amanda/compiler/check/iguala.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index c446246..b0d2062 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -61,10 +61,17 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
                 Errors.NON_EXHAUSTIVE_PATTERN_MATCH_INFINITE,
             )
     # Validate reachable blocks
-    first_block = tree.diagnostics.reachable[0]
+    blocks = tree.diagnostics.reachable
+    # Alternatives that can't be reached must also be valid
+    blocks += [
+        arm.body
+        for arm in iguala.arms
+        if not any(arm.body is block for block in blocks)
+    ]
+    first_block = blocks[0]
     checker.visit(first_block)
     iguala.eval_type = first_block.eval_type
-    for block in tree.diagnostics.reachable[1:]:
+    for block in blocks[1:]:
         checker.visit(block)
         if block.eval_type != iguala.eval_type:
             checker.error(
-- 
2.43.0


From 1d5f97752b7ee6a0de250ed4ab63ebbb5b18fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 14/50] fix: require 'retorna' in the 'senaose' branches of non
 void functions

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index aa5e893..84d4dbf 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -100,6 +100,10 @@ class Analyzer(ast.Visitor):
             False
             if not node.else_branch
             else self.has_return(node.then_branch)
+            and all(
+                self.has_return(branch.then_branch)
+                for branch in node.elsif_branches
+            )
             and self.has_return(node.else_branch)
         )
 
-- 
2.43.0


From 23469e836d2a3df4eb745a87ccf0a08fd4e9bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 15/50] fix: truncate the quotient of reals in '//' instead of
 the operands

---
 amanda/vm/src/ama_value.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index a56d77d..bb47335 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -208,10 +208,11 @@ impl<'a> AmaValue<'a> {
                 }
             }
             OpCode::OpFloorDiv => {
-                if right.take_int() == 0 {
+                if right.take_float() == 0.0 {
                     Err("não pode dividir um número por zero")
+                } else if let Type::Real = res_type {
+                    Ok(AmaValue::F64((left.take_float() / right.take_float()).trunc()))
                 } else {
-                    let res_type = Type::Int;
                     arith_ops!(res_type, left, /, checked_div, right)
                 }
             }
-- 
2.43.0


From 721b8548b0433bcff46c40a365a86a58b3208075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 16/50] fix: report the overflow of the negation of the
 smallest integer

---
 amanda/vm/src/vm.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index f3f9021..56bffa5 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -247,7 +247,13 @@ impl<'a> AmaVM<'a> {
                     let op = OpCode::from(&op);
                     if let OpCode::OpInvert = op {
                         match operand {
-                            AmaValue::Int(num) => self.op_push(AmaValue::Int(-num)), 
+                            AmaValue::Int(num) => {
+                                if let Some(result) = num.checked_neg() {
+                                    self.op_push(AmaValue::Int(result));
+                                } else {
+                                    return self.panic_and_throw("Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis");
+                                }
+                            }
                             AmaValue::F64(num) => self.op_push(AmaValue::F64(-num)), 
                             _ => panic!("Fatal error!"),
                         };
-- 
2.43.0


From fdb729f84dd1134777fb7dba5f85d11e03366bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 17/50] fix: make the equality of any two values total

---
 amanda/vm/src/ama_value.rs | 41 +++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index bb47335..034b1b5 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -42,18 +42,6 @@ macro_rules! comp_ops {
     };
 }
 
-macro_rules! eq_ops {
-    ($res_type: ident, $left: ident, $op: tt, $right: ident) => {
-        Ok(match $res_type {
-            Type::Int => AmaValue::Bool($left.take_int() $op $right.take_int()),
-            Type::Real => AmaValue::Bool($left.take_float() $op $right.take_float()),
-            Type::Bool => AmaValue::Bool($left.take_bool() $op $right.take_bool()),
-            Type::Texto => AmaValue::Bool($left.take_str() $op $right.take_str()),
-            _ => unimplemented!("Operand type not supported"),
-        })
-    };
-}
-
 macro_rules! is_fn {
     ($fn_name: ident, $to_match: path) => {
         pub fn $fn_name(&self) -> bool {
@@ -175,7 +163,34 @@ impl<'a> AmaValue<'a> {
         Ok(())
     }
 
+    //Equality between any two values. Vectors and instances are equal when they're the same object
+    fn equals(&self, other: &Self) -> bool {
+        match (self, other) {
+            (AmaValue::Int(left), AmaValue::Int(right)) => left == right,
+            (AmaValue::Int(_) | AmaValue::F64(_), AmaValue::Int(_) | AmaValue::F64(_)) => {
+                self.take_float() == other.take_float()
+            }
+            (AmaValue::Bool(left), AmaValue::Bool(right)) => left == right,
+            (AmaValue::Str(left), AmaValue::Str(right)) => left == right,
+            (AmaValue::None, AmaValue::None) => true,
+            (AmaValue::Vector(left), AmaValue::Vector(right)) => Rc::ptr_eq(left, right),
+            (AmaValue::RegObj(left), AmaValue::RegObj(right)) => Rc::ptr_eq(left, right),
+            (AmaValue::Variant(left, None), AmaValue::Variant(right, None)) => left == right,
+            (AmaValue::Variant(left, Some(left_items)), AmaValue::Variant(right, Some(right_items))) => {
+                left == right
+                    && left_items.len() == right_items.len()
+                    && left_items.iter().zip(right_items.iter()).all(|(l, r)| l.equals(r))
+            }
+            _ => false,
+        }
+    }
+
     pub fn binop(left: &Self, op: OpCode, right: &Self) -> Result<Self, &'a str> {
+        match op {
+            OpCode::OpEq => return Ok(AmaValue::Bool(left.equals(right))),
+            OpCode::OpNotEq => return Ok(AmaValue::Bool(!left.equals(right))),
+            _ => (),
+        }
         let res_type = if left.is_float() || right.is_float() {
             Type::Real
         } else if left.is_int() && right.is_int() {
@@ -218,8 +233,6 @@ impl<'a> AmaValue<'a> {
             }
             OpCode::OpAnd => Ok(AmaValue::Bool(left.take_bool() && right.take_bool())),
             OpCode::OpOr => Ok(AmaValue::Bool(left.take_bool() || right.take_bool())),
-            OpCode::OpEq => eq_ops!(res_type, left, ==, right),
-            OpCode::OpNotEq => eq_ops!(res_type, left, !=,  right),
             OpCode::OpGreater => comp_ops!(res_type, left, >, right),
             OpCode::OpGreaterEq => comp_ops!(res_type, left, >=, right),
             OpCode::OpLess => comp_ops!(res_type, left, <, right),
-- 
2.43.0


From 6bca6918e6ff66466604996d91523f0358a14cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 18/50] fix: allow '_' more than once in a pattern

---
 amanda/compiler/check/iguala.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index b0d2062..3e23289 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -93,6 +93,9 @@ def check_binding_pattern(
     pattern.eval_type = target_ty
     scope = tycheck.unwrap(arm.body.symbols)
     var_name = var.token.lexeme
+    # '_' can be used any number of times
+    if var_name == "_" and var_name in scope.symbols:
+        return
     if var_name in scope.symbols:
         checker.error_with_loc(
             var.token, Errors.BINDING_ALREADY_IN_USE, var=var_name
-- 
2.43.0


From f7c2e43a27b5cf14fc075696de874be3af2535fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 19/50] fix: keep the order of the alternatives of 'iguala'
 that test a literal

---
 amanda/compiler/check/exhaustiveness.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 9f7337a..d072fc0 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -361,12 +361,13 @@ class IgualaCompiler:
                     continue
 
                 tested[key] = len(raw_cases)
-                raw_cases.append((cons, [], [row]))
+                # Rows that match any value must keep their position
+                # in relation to the other rows
+                raw_cases.append((cons, [], fallback_rows + [row]))
             else:
                 fallback_rows.append(row)
-
-        for _, _, rows in raw_cases:
-            rows.extend(fallback_rows)
+                for _, _, case_rows in raw_cases:
+                    case_rows.append(row)
 
         cases = list(
             map(
-- 
2.43.0


From 28e25bb97b8ad41e66e359536a9bebe9becca2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 20/50] fix: make every row built by 'vec' a distinct vector

---
 amanda/vm/src/modules/builtins/embutidos.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 841102d..881fd1d 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -113,9 +113,12 @@ fn build_vec<'a>(
         if size == 0 {
             Vec::with_capacity(0)
         } else {
-            let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
-            let mut container = Vec::with_capacity(inner.len());
-            container.resize_with(size, || (AmaValue::Vector(alloc.alloc_ref(inner.clone()))));
+            let mut container = Vec::with_capacity(size);
+            // Every element must be a distinct vector
+            for _ in 0..size {
+                let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
+                container.push(AmaValue::Vector(alloc.alloc_ref(inner)));
+            }
             container
         }
     }
-- 
2.43.0


From 28b4b49951acfffad5afafe2ab8e7687890d40a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 21/50] fix: remove the newline of the text read by 'leia' in
 every build

---
 amanda/vm/src/modules/builtins/embutidos.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 881fd1d..eddaa78 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -31,11 +31,10 @@ fn leia<'a>(args: FuncArgs<'a, '_>, alloc: &mut Alloc<'a>) -> AmaResult<'a> {
     let mut input = String::from("");
     //TODO: Propagate possible errors to caller
     io::stdin().read_line(&mut input).unwrap();
-    //Remove newline at the end
-    debug_assert!(
-        input.remove(input.len() - 1) == 0xA as char,
-        "Removing wrong char"
-    );
+    //Remove newline at the end. The last line of the input may not have one
+    if input.ends_with('\n') {
+        input.pop();
+    }
 
     Ok(AmaValue::Str(Cow::Owned(input)))
 }
-- 
2.43.0


From bd4c81cdef6e3e5ff783c57b2d45b8a131d7fd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 22/50] fix: report a condition or size of any other type
 instead of failing

---
 amanda/compiler/check/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 84d4dbf..69aa64d 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1102,7 +1102,7 @@ class Analyzer(ast.Visitor):
 
     def visit_se(self, node: ast.Se):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.error(f"a condição da instrução 'se' deve ser um valor lógico")
         self.visit(node.then_branch)
         elsif_branches = node.elsif_branches
@@ -1115,7 +1115,7 @@ class Analyzer(ast.Visitor):
         expr = node.expression
         self.visit(expr)
         expr_type = expr.eval_type
-        if expr_type.tag not in (Types.TINT, Types.TTEXTO):
+        if expr_type not in (Builtins.Int, Builtins.Texto):
             self.error(
                 f"A directiva escolha só pode ser usada para avaliar números inteiros e strings"
             )
@@ -1140,7 +1140,7 @@ class Analyzer(ast.Visitor):
 
     def visit_enquanto(self, node: ast.Enquanto):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.ctx_node = node
             self.error(
                 f"a condição da instrução 'enquanto' deve ser um valor lógico"
@@ -1264,7 +1264,7 @@ class Analyzer(ast.Visitor):
             # Is size given valid?
             for arg in node.fargs[1:]:
                 self.visit(arg)
-                if arg.eval_type.tag != Types.TINT:
+                if arg.eval_type != Builtins.Int:
                     self.error(
                         "Os tamanhos de um vector devem ser representado por inteiros"
                     )
-- 
2.43.0


From 3891db8f789bbfbe1a5f9bcfe4e5cf4fa425774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 23/50] fix: check the number of arguments of 'anexa' and
 'remova' before using them

---
 amanda/compiler/check/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 69aa64d..4120c50 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1280,9 +1280,9 @@ class Analyzer(ast.Visitor):
                 vec_type = Vector(self.ctx_module, vec_type)
             node.eval_type = vec_type
         elif fn == BuiltinFn.ANEXA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             value = node.fargs[1]
-            self.check_vec_op(fn, node)
 
             vec_t = vec_expr.eval_type
             el_type = vec_t.element_type
@@ -1294,9 +1294,9 @@ class Analyzer(ast.Visitor):
             value.prom_type = val_t.promote_to(el_type)
             node.eval_type = cast(Type, self.global_scope.resolve("vazio"))
         elif fn == BuiltinFn.REMOVA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             index = node.fargs[1]
-            self.check_vec_op(fn, node)
             if index.eval_type != Builtins.Int:
                 self.error(
                     "O argumento 2 da função 'remova' deve ser um número inteiro"
-- 
2.43.0


From cdc673598d9604afcc06a4b3243b52c387a3a953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 24/50] fix: limit the integers of a pattern like any other
 integer

---
 amanda/compiler/check/iguala.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 3e23289..8607aad 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -149,6 +149,8 @@ def check_pattern(
         case ast.ADTPattern():
             check_adt_pattern(checker, arm, pattern)
         case ast.IntPattern():
+            # Same limits as any other integer literal
+            checker.visit(ast.Constant(pattern.token))
             pattern.eval_type = Builtins.Int
         case ast.StrPattern():
             pattern.eval_type = Builtins.Texto
-- 
2.43.0


From c52ac6d5da3d02d4599131028d22cf35eabd7803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 25/50] fix: report a 'vec' whose first argument is not a type

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 4120c50..959ef0b 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1270,6 +1270,10 @@ class Analyzer(ast.Visitor):
                     )
 
             type_node = cast(ast.Type, node.fargs[0])
+            if not isinstance(
+                type_node, (ast.Variable, ast.Type, ast.ArrayType, ast.TypePath)
+            ):
+                self.error("O argumento 1 da função 'vec' deve ser um tipo")
             el_type = self.get_type(type_node)  # Attempt to get type
             # Is arg 1 a vector type?
             if type(el_type) == Vector:
-- 
2.43.0


From 09effa49a9265cd60ad58d9d974bfe71abc886e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 26/50] fix: allow a reference to a method or variant only as
 the target of a call

---
 amanda/compiler/ast.py        |  3 +++
 amanda/compiler/check/core.py | 18 ++++--------------
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 66e177e..582ff9f 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -71,6 +71,9 @@ class ASTNode:
         assert self.parent, "parent should not be none"
         return isinstance(self.parent, ty)
 
+    def is_callee(self) -> bool:
+        return isinstance(self.parent, Call) and self.parent.callee is self
+
     def of_type(self, ty: PyTy[T]) -> TypeGuard[T]:
         return isinstance(self, ty)
 
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 959ef0b..8cb6ada 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -850,10 +850,10 @@ class Analyzer(ast.Visitor):
                         f"O item '{current_sym.name}' não possui sub-itens"
                     )
 
-        # If variant not referenced in the context of a call
+        # If variant is not the callee of a call
         # and it has params, error out
         if (
-            not node.child_of(ast.Call)
+            not node.is_callee()
             and isinstance(current_sym, Variant)
             and len(current_sym.params) > 0
             and not node.child_of(ast.ADTPattern)
@@ -895,19 +895,9 @@ class Analyzer(ast.Visitor):
             return
         # TODO: Add specific node for method call
         # Check if valid use of get
-        # References to methods can only be used in the context of
+        # References to methods can only be used as the callee of
         # a call expression
-        in_eval_ctx = (
-            node.child_of(ast.Expr)
-            or node.child_of(ast.Set)
-            or node.child_of(ast.Assign)
-            or node.child_of(ast.Statement)
-        )
-        if (
-            in_eval_ctx
-            and not node.child_of(ast.Call)
-            and not field_sym.can_evaluate()
-        ):
+        if not node.is_callee() and not field_sym.can_evaluate():
             self.error(self.INVALID_REF, name=field_sym.name)
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
-- 
2.43.0


From db9cb6e366cc98fcab2b7bc56324c8e7d3049273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 27/50] fix: reject any reference to a variable inside its own
 initializer

---
 amanda/compiler/check/core.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 8cb6ada..fdafe7b 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -54,6 +54,8 @@ class Analyzer(ast.Visitor):
         self.ctx_reg = None
         self.ctx_func = None
         self.ctx_yield_block: ast.YieldBlock | None = None
+        # Variables being declared and the target of their initialization
+        self.ctx_decls: list[tuple[symbols.VariableSymbol, ast.ASTNode]] = []
         self.in_loop = False
         self.imports = {}
         # Module currently being executed
@@ -488,11 +490,9 @@ class Analyzer(ast.Visitor):
                     "Erro de inicialização. Variáveis de tipos não primitivos devem ser inicializadas"
                 )
         else:
-            if assign.right.token.lexeme == name:
-                self.error(
-                    f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
-                )
+            self.ctx_decls.append((symbol, assign.left))
             self.visit(assign)
+            self.ctx_decls.pop()
         if self.scope_depth == 0:
             symbol.is_global = True
 
@@ -822,6 +822,14 @@ class Analyzer(ast.Visitor):
         elif not sym.can_evaluate():
             self.ctx_node = node
             self.error(self.INVALID_REF, name=name)
+        # The initializer of a variable can't refer to the variable
+        elif any(
+            sym is decl_sym and node is not decl_target
+            for decl_sym, decl_target in self.ctx_decls
+        ):
+            self.error(
+                f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
+            )
         node.eval_type = sym.type
         node.var_symbol = sym
         assert node.var_symbol
-- 
2.43.0


From a08be7c0b3fa8646ead352a3b43b915892d6c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 28/50] fix: show messages that quote text with braces

---
 amanda/compiler/check/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index fdafe7b..c6adb93 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -149,13 +149,15 @@ class Analyzer(ast.Visitor):
         )
 
     def error(self, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        # A message without arguments may contain text of the program
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, self.ctx_node.token.line
         )
 
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        # A message without arguments may contain text of the program
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, loc_tok.line
         )
-- 
2.43.0


From 704bdfc12599224d0991dd57271f2ad07dd6c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 29/50] fix: count the lines of a string that spans several
 lines

---
 amanda/compiler/parse.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 892f559..131c2c7 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -153,6 +153,7 @@ class Lexer:
     def string(self):
         result = StringIO()
         symbol = self.current_char
+        start_line = self.line
         start_pos = self.pos
         self.advance()
         while self.current_char != symbol:
@@ -169,7 +170,12 @@ class Lexer:
                     self.advance()
                 continue
             if self.current_char == Lexer.EOF:
+                # Report the beginning of the string
+                self.line, self.pos = start_line, start_pos
                 self.error(self.INVALID_STRING, line=self.line)
+            if self.current_char == "\n":
+                self.line += 1
+                self.pos = 1
             result.write(self.current_char)
             self.advance()
         self.advance()
@@ -178,7 +184,7 @@ class Lexer:
         return Token(
             TT.STRING,
             f"{symbol}{whole_str}{symbol}",
-            self.line,
+            start_line,
             start_pos,
         )
 
-- 
2.43.0


From e98ab87d39f8f45936c2ef922c566a18a02a1eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 30/50] fix: give the expressions of a format string the line
 of the string

---
 amanda/compiler/parse.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 131c2c7..b72da25 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -259,6 +259,22 @@ class Lexer:
         self.error(self.INVALID_SYMBOL, symbol=self.current_char)
 
 
+class FmtExprLexer(Lexer):
+    """
+    Lexer of an expression of a format string. The expression belongs to the
+    line of the string.
+    """
+
+    def __init__(self, filename, src, str_token: Token):
+        super().__init__(filename, src)
+        self.str_token = str_token
+
+    def get_token(self) -> Token:
+        token = super().get_token()
+        token.line = self.str_token.line
+        return token
+
+
 class Parser:
     # Errors messages
     MISSING_TERM = (
@@ -1195,7 +1211,7 @@ class Parser:
                 "String de formatação inválida. Não pode ter uma f-string dentro de outra f-string"
             )
         expr.seek(0)
-        self.lexer = Lexer(self.filename, expr)
+        self.lexer = FmtExprLexer(self.filename, expr, token)
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
-- 
2.43.0


From 9befabe2c90bb3571ffbe1294ebb5545f6aea1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 31/50] fix: reject '\n' outside of a string and name the
 symbol that was not recognized

---
 amanda/compiler/parse.py  | 8 ++++----
 amanda/compiler/tokens.py | 2 ++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index b72da25..9842223 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -215,14 +215,14 @@ class Lexer:
                     return tok
                 else:
                     tok = Token.from_char(char, self.line, self.pos)
-                    self.advance()
-                    return tok
             case (False, char, lookahead):
                 tok = Token.from_char(char, self.line, self.pos)
-                self.advance()
-                return tok
             case _:
                 return self.error(self.INVALID_SYMBOL, symbol=self.current_char)
+        # The symbol that was not recognized is the current one
+        if tok:
+            self.advance()
+        return tok
 
     def format_str(self):
         self.advance()
diff --git a/amanda/compiler/tokens.py b/amanda/compiler/tokens.py
index 849cdf6..e1f2df1 100644
--- a/amanda/compiler/tokens.py
+++ b/amanda/compiler/tokens.py
@@ -108,6 +108,8 @@ def build_tokens_dict() -> Dict[str, TokenType]:
     return {
         token_type.value.lower(): token_type
         for token_type in tt_list[start_index : end_index + 1]
+        # Newlines are not written as the value of their token type
+        if token_type != TokenType.NEWLINE
     }
 
 
-- 
2.43.0


From c28796bed47df0b534666924183e8ee29ce9240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 32/50] fix: reject digits that are not decimal in a number

---
 amanda/compiler/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 9842223..06eb6bb 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -122,15 +122,15 @@ class Lexer:
 
     def number(self):
         result = ""
-        while self.current_char.isdigit():
+        while self.current_char.isdecimal():
             result += self.current_char
             self.advance()
         if self.current_char == ".":
             # lookahead to see next char i
-            if self.lookahead().isdigit():
+            if self.lookahead().isdecimal():
                 result += "."
                 self.advance()
-                while self.current_char.isdigit():
+                while self.current_char.isdecimal():
                     result += self.current_char
                     self.advance()
         if "." in result:
@@ -248,7 +248,7 @@ class Lexer:
             if self.current_char == "f" and self.lookahead() in ('"', "'"):
                 return self.format_str()
             return self.identifier()
-        elif self.current_char.isdigit():
+        elif self.current_char.isdecimal():
             return self.number()
         elif self.current_char == Lexer.EOF:
             return Token(Lexer.EOF, "", line=self.line, col=self.pos)
-- 
2.43.0


From 468504700db2a2a693dd3bafc8b69eef41741dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 33/50] fix: read one control sequence at a time in a string

---
 amanda/compiler/parse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 06eb6bb..3cf214d 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -161,10 +161,11 @@ class Lexer:
                 # Attempt to read different control sequences
                 # if control sequence is not read, just process
                 # the char combination as is
-                is_ctl_seq = False
-                is_ctl_seq |= self.escape_seq("n", result, "\n")
-                is_ctl_seq |= self.escape_seq("'", result, "'")
-                is_ctl_seq |= self.escape_seq('"', result, '"')
+                is_ctl_seq = (
+                    self.escape_seq("n", result, "\n")
+                    or self.escape_seq("'", result, "'")
+                    or self.escape_seq('"', result, '"')
+                )
                 if not is_ctl_seq:
                     result.write("\\")
                     self.advance()
-- 
2.43.0


From def6a5b87ed643e34b00770482818087b7728d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 34/50] fix: report an invalid field of a record on the line of
 the field

---
 amanda/compiler/check/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index c6adb93..f0b30d4 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -713,7 +713,7 @@ class Analyzer(ast.Visitor):
         self.enter_scope(reg_scope)
 
         for field in node.fields:
-            self.visit_vardecl(field)
+            self.visit(field)
 
         for symbol in cast(symbols.Scope, self.ctx_scope).symbols.values():
             symbol.is_property = True
-- 
2.43.0


From 3870b46a2d2aac7037129ff033780faec2ef8627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 35/50] fix: report an invalid pattern on its own line

---
 amanda/compiler/check/iguala.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 8607aad..df66dff 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -119,7 +119,8 @@ def check_adt_pattern(
             adt.token, Errors.PATTERN_NOT_A_VARIANT, name=adt.token.lexeme
         )
     if not sym.is_callable() and args:
-        checker.error(
+        checker.error_with_loc(
+            adt.token,
             Errors.VARIANT_TAKES_NO_ARGS,
             variant=sym.qualified_name(),
         )
@@ -159,7 +160,8 @@ def check_pattern(
         case _:
             tycheck.unreachable("Unhandled pattern type")
     if pattern.eval_type != target_ty:
-        checker.error(
+        checker.error_with_loc(
+            pattern.token,
             Errors.INVALID_PATTERN_TYPE,
             expected=target_ty,
             received=pattern.eval_type,
-- 
2.43.0


From 4f702aac01d7709987b5193c2a8ba5b09dfc872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 36/50] fix: report an invalid conversion of a record, union or
 nulo held by indef instead of panicking

---
 amanda/vm/src/ama_value.rs      | 3 +++
 amanda/vm/src/values/amatype.rs | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index 034b1b5..5bab442 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -79,6 +79,9 @@ impl<'a> AmaValue<'a> {
             AmaValue::F64(_) => Type::Real,
             AmaValue::Bool(_) => Type::Bool,
             AmaValue::Vector(_) => Type::Vector,
+            AmaValue::RegObj(_) => Type::Registo,
+            AmaValue::Variant(..) => Type::Uniao,
+            AmaValue::None => Type::Nulo,
             _ => unimplemented!("Cannot return type for this value: {:?}", self),
         }
     }
diff --git a/amanda/vm/src/values/amatype.rs b/amanda/vm/src/values/amatype.rs
index abe3451..3424e10 100644
--- a/amanda/vm/src/values/amatype.rs
+++ b/amanda/vm/src/values/amatype.rs
@@ -7,6 +7,9 @@ pub enum Type {
     Texto,
     Bool,
     Vector,
+    Registo,
+    Uniao,
+    Nulo,
 }
 
 impl Type {
@@ -17,6 +20,9 @@ impl Type {
             Type::Texto => "texto",
             Type::Bool => "bool",
             Type::Vector => "Vector",
+            Type::Registo => "Registo",
+            Type::Uniao => "Uniao",
+            Type::Nulo => "nulo",
         }
     }
 }
-- 
2.43.0


From 2970fcd17d6cf4aaa2c3b8a53274abd20c4e4e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 37/50] fix: conversion to an optional type no longer crashes
 the VM

---
 amanda/compiler/codegen.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index a389aca..fdca8a4 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -987,22 +987,29 @@ class ByteGen:
 
     def gen_converta(self, node: ast.Converta):
         target_t = node.target.eval_type
-        new_t = node.eval_type
+        new_t = self.unwrap_opcao(node.eval_type)
         self.gen(node.target)
         # Converting to same type, can ignore this
         # TODO: Do this in sem analysis
         if new_t == target_t or new_t == Builtins.Indef:
             return
+        # A null optional needs no conversion
+        if target_t == Builtins.Nulo:
+            return
         self.load_variable(new_t)
         arg = 0 if target_t != Builtins.Indef else 1
         self.append_op(OpCode.CAST, arg)
 
+    def unwrap_opcao(self, ty: Type | None) -> Type | None:
+        """Optionals are represented by the value they hold"""
+        if isinstance(ty, ConstructedTy) and ty.is_constructed_from(
+            SrcBuiltins.Opcao
+        ):
+            return ty.bound_ty_args["T"]
+        return ty
+
     def gen_auto_cast(self, node: ast.Expr):
-        prom_type = node.prom_type
-        if isinstance(
-            prom_type, ConstructedTy
-        ) and prom_type.is_constructed_from(SrcBuiltins.Opcao):
-            prom_type = prom_type.bound_ty_args["T"]
+        prom_type = self.unwrap_opcao(node.prom_type)
         if node.eval_type != Builtins.Int or prom_type != Builtins.Real:
             return
         self.load_variable(prom_type)
-- 
2.43.0


From dbd08dcc08ec2133bdc013c886664e46b49381a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 38/50] fix: a function whose exhaustive iguala returns in
 every arm always returns

---
 amanda/compiler/check/core.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index f0b30d4..fd9504a 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -113,15 +113,8 @@ class Analyzer(ast.Visitor):
         return self.has_return_block(node.body)
 
     def has_return_iguala(self, node: ast.Iguala):
-        has_return = True
-        has_var_pattern = False
-        for arm in node.arms:
-            has_return = has_return and self.has_return(arm)
-            if not has_return:
-                return False
-            if isinstance(arm.pattern, ast.BindingPattern):
-                has_var_pattern = True
-        return has_return and has_var_pattern
+        # Every 'iguala' is exhaustive, so one of the arms is always taken
+        return all(self.has_return(arm) for arm in node.arms)
 
     def has_return_seiguala(self, node: ast.SeIguala):
         """Method checks for return within
-- 
2.43.0


From a62d713c975617544911d01495634f877871868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 39/50] fix: keep the line of every instruction in the line
 table

---
 amanda/compiler/codegen.py | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index fdca8a4..1a425ab 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -199,9 +199,9 @@ class ByteGen:
         self.ctx_module: Module = module
         self.ctx_loop_start: int = -1
         self.ctx_loop_exit: int = -1
-        self.src_map: dict[int, list[int]] = (
-            {}
-        )  # Maps source lines to bytecode offset
+        # Maps bytecode offsets to source lines. Each entry is
+        # [first offset, last offset, line]
+        self.src_map: list[list[int]] = []
         self.modules: dict[str, int] = {}
 
     def compile_builtin(self, raw: bool = True) -> bytes | dict:
@@ -280,18 +280,9 @@ class ByteGen:
         ops.close()
 
         src_map = []
-        for lineno, offsets in self.src_map.items():
-            if lineno == 0:
-                continue
-            # Offset array must contain start and end
-            # If it only contains one value, start == end
-            if len(offsets) == 1:
-                offsets.append(offsets[0])
-            assert (
-                len(offsets) == 2
-            ), f"Found line with offset != 2: {(lineno, offsets)}"
-            offsets.append(lineno)
-            src_map.extend(offsets)
+        for first, last, lineno in self.src_map:
+            if lineno > 0:
+                src_map.extend((first, last, lineno))
         module = {
             "name": path.split(self.ctx_module.fpath)[1].replace(".ama", ""),
             "builtin": 1 if self.ctx_module.builtin else 0,
@@ -321,14 +312,10 @@ class ByteGen:
         self.labels[label] = self.ip
 
     def append_op(self, op: OpCode, *args: int):
-        if self.lineno in self.src_map:
-            offsets = self.src_map[self.lineno]
-            if len(offsets) < 2:
-                offsets.append(self.ip)
-            elif offsets[-1] < self.ip:
-                offsets[-1] = self.ip
+        if self.src_map and self.src_map[-1][2] == self.lineno:
+            self.src_map[-1][1] = self.ip
         else:
-            self.src_map[self.lineno] = [self.ip]
+            self.src_map.append([self.ip, self.ip, self.lineno])
         self.ip += op.op_size() // OP_SIZE
         self.ops.append((op, args))
 
@@ -429,7 +416,8 @@ class ByteGen:
         node_class = type(node).__name__.lower()
         method_name = f"gen_{node_class}"
         gen_method = getattr(self, method_name, self.bad_gen)
-        self.lineno = getattr(node, "lineno", self.lineno)
+        lineno = self.lineno
+        self.lineno = getattr(node, "lineno", lineno)
         if node_class == "block":
             result = gen_method(node, args)
         else:
@@ -439,6 +427,8 @@ class ByteGen:
             node, (ast.Assign, ast.Set, ast.IndexSet)
         ):
             self.gen_auto_cast(node)
+        # What follows belongs to the enclosing node
+        self.lineno = lineno
         return result
 
     def gen_value(self, node: ast.Expr):
-- 
2.43.0


From e90f25ef6add7a372f8c68c0f9bfcaed9e965a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 40/50] fix: run imported modules and traces in the module of
 each frame

---
 amanda/vm/src/binload.rs |  9 +++++----
 amanda/vm/src/vm.rs      | 24 +++++++++++++-----------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/amanda/vm/src/binload.rs b/amanda/vm/src/binload.rs
index 731a84f..f1208d4 100644
--- a/amanda/vm/src/binload.rs
+++ b/amanda/vm/src/binload.rs
@@ -243,13 +243,14 @@ pub fn load_bin<'bin>(amac_bin: &'bin mut [u8]) -> (Module<'bin>, Vec<Module<'bi
     let mut prog_data = unpack_bson_doc(amac_bin);
     let imports = bson_take!(BSONType::Array, prog_data.remove("imports").unwrap())
         .into_iter()
-        .map(|module| build_module(bson_take!(BSONType::Doc, module)))
+        .enumerate()
+        .map(|(i, module)| build_module(bson_take!(BSONType::Doc, module), FuncModule::Imported(i)))
         .collect();
-    let module = build_module(prog_data);
+    let module = build_module(prog_data, FuncModule::Main);
     (module, imports)
 }
 
-fn build_module<'bin>(mut prog_data: HashMap<String, BSONType>) -> Module<'bin> {
+fn build_module<'bin>(mut prog_data: HashMap<String, BSONType>, func_module: FuncModule) -> Module<'bin> {
     let raw_consts = prog_data.remove("constants").unwrap().take_vec();
     let mut constants = Vec::with_capacity(raw_consts.len());
     raw_consts
@@ -336,7 +337,7 @@ fn build_module<'bin>(mut prog_data: HashMap<String, BSONType>) -> Module<'bin>
             last_i: 0,
             ip: 0,
             locals: entry_locals as usize,
-            module: FuncModule::Main,
+            module: func_module,
         },
         functions,
         globals: Default::default(),
diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 56bffa5..4672503 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -41,7 +41,7 @@ impl<'a> FrameStack<'a> {
         Ok(())
     }
 
-    pub fn pop(&mut self) -> Result<AmaFunc, ()> {
+    pub fn pop(&mut self) -> Result<AmaFunc<'a>, ()> {
         if self.sp < -1 {
             Err(())
         } else {
@@ -373,9 +373,7 @@ impl<'a> AmaVM<'a> {
                             }
                             //Set return addr in caller
                             self.frames.peek_mut().ip += 1;
-                            if let FuncModule::Imported(mod_idx) = func.module {
-                                self.ctx_module.replace(&self.imports[mod_idx]);
-                            }
+                            self.ctx_module.replace(self.module_of(func.module));
                             if let Err(()) = self.frames.push(func) {
                                 return self.panic_and_throw("Limite máximo de recursão atingido");
                             }
@@ -405,11 +403,7 @@ impl<'a> AmaVM<'a> {
                     self.sp = if frame_bp > -1 { frame_bp - 1 } else { self.sp };
                     self.frames.pop().unwrap();
                     self.op_push(val);
-                    let ctx_module = if let FuncModule::Imported(mod_idx) = self.frames.peek().module {
-                        &self.imports[mod_idx]
-                    } else {
-                        self.main_module
-                    };
+                    let ctx_module = self.module_of(self.frames.peek().module);
                     self.ctx_module.replace(ctx_module);
                     continue;
                 }
@@ -566,6 +560,14 @@ impl<'a> AmaVM<'a> {
         Ok(())
     }
 
+    /// The module that a function belongs to
+    fn module_of(&self, module: FuncModule) -> &'a Module<'a> {
+        match module {
+            FuncModule::Imported(mod_idx) => &self.imports[mod_idx],
+            FuncModule::Main => self.main_module,
+        }
+    }
+
     fn panic_and_throw(&mut self, error: &str) -> Result<(), AmaErr> {
         let mut frames_sp = self.frames.sp;
         let mut err_str = if frames_sp > 0 {
@@ -577,14 +579,14 @@ impl<'a> AmaVM<'a> {
             if frames_sp == 0 {
                 err_str.push_str(&format!(
                     "Erro na linha {}: {}.",
-                    offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                    offset_to_line(func.last_i, &self.module_of(func.module).src_map),
                     error
                 ));
                 break;
             }
             err_str.push_str(&format!(
                 "    Linha {}, na função {}\n",
-                offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                offset_to_line(func.last_i, &self.module_of(func.module).src_map),
                 func.name
             ));
             frames_sp = self.frames.sp;
-- 
2.43.0


From 9b3120f5d38c8bd121860c56ee4e8e44163cb6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 41/50] fix: keep the name of a function reached through a
 module alias

---
 amanda/compiler/transform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index f83743e..4904ad3 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -124,9 +124,8 @@ class ASTTransformer:
         if node.target.eval_type.is_module():
             imp_mod = node.target.eval_type
             sym = imp_mod.module.ast.symbols.resolve(node.member.lexeme)
-            sym.name = sym.out_id = f"{imp_mod.module.fpath}::{sym.name}"
             var = var_node(sym.name, node.token)
-            self.program.symbols.define(sym.name, sym)
+            var.var_symbol = sym
             return var
         else:
             return (
-- 
2.43.0


From 545e2e1000a971f1dc3217418a82db0efdcb4e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 42/50] fix: run imported modules after the modules they import

---
 amanda/compiler/check/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index fd9504a..b745f32 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -425,6 +425,8 @@ class Analyzer(ast.Visitor):
                 )
 
         module.loaded = True
+        # A module must come after the modules it imports
+        self.imports[module.fpath] = self.imports.pop(module.fpath)
         self.ctx_module = prev_module
 
     def resolve_import(self, fpath: str) -> str | None:
-- 
2.43.0


From 48f65729eede20ba8cdb4c444c74c44b51f8df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 43/50] fix: import the names of a module that was already
 loaded

---
 amanda/compiler/check/core.py | 20 ++++++++++++++++++--
 amanda/compiler/module.py     |  4 +++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index b745f32..bac2704 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -346,6 +346,20 @@ class Analyzer(ast.Visitor):
             ),
         )
 
+    def define_module_globals(self, imported_mod: Module):
+        """Make visible the definitions of a module that has been loaded"""
+        # These are visible in every module
+        if imported_mod.fpath == builtin_module.fpath:
+            return
+        for name, sym in list(imported_mod.ast.symbols.symbols.items()):
+            if sym.module.fpath != imported_mod.fpath or not sym.is_global:
+                continue
+            if self.global_scope.get(name) is not sym:
+                self.assert_can_use_ident(self.ctx_node, name)
+                self.global_scope.define(name, sym)
+        for module in imported_mod.global_imports:
+            self.define_module_globals(module)
+
     def define_module_items(
         self, *, imported_mod: Module, prev_module: Module, usa_items: list[str]
     ):
@@ -387,8 +401,9 @@ class Analyzer(ast.Visitor):
                         prev_module=self.ctx_module,
                         usa_items=usa_items,
                     )
-                case _:
-                    pass
+                case ast.UsaMode.Global:
+                    self.define_module_globals(existing_mod)
+                    self.ctx_module.global_imports.append(existing_mod)
             return
 
         # Check for a cycle
@@ -406,6 +421,7 @@ class Analyzer(ast.Visitor):
         match mode:
             case ast.UsaMode.Global:
                 self.visit_module(parse(module.fpath))
+                prev_module.global_imports.append(module)
             case ast.UsaMode.Scoped:
                 if not alias:
                     raise TypeError("Arg 'alias' should not be None")
diff --git a/amanda/compiler/module.py b/amanda/compiler/module.py
index 4c89259..d2a0257 100644
--- a/amanda/compiler/module.py
+++ b/amanda/compiler/module.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Any
 from os import path
 
@@ -10,6 +10,8 @@ class Module:
     loaded: bool = False
     builtin: bool = False
     compiled: bool = False
+    # Modules whose definitions this module makes visible
+    global_imports: list["Module"] = field(default_factory=list, compare=False)
 
     def __str__(self) -> str:
         _, tail = path.split(self.fpath)
-- 
2.43.0


From 8422c572849392def27191204c634dd9fb147ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 44/50] fix: types of the same name from different modules are
 different types

---
 amanda/compiler/types/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 0b19797..8695a41 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -407,7 +407,11 @@ class Registo(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Registo) and self.name == other.name
+        return (
+            isinstance(other, Registo)
+            and self.name == other.name
+            and self.module.fpath == other.module.fpath
+        )
 
     def __str__(self) -> str:
         return self.name
@@ -532,7 +536,11 @@ class Uniao(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Uniao) and self.name == other.name
+        return (
+            isinstance(other, Uniao)
+            and self.name == other.name
+            and self.module.fpath == other.module.fpath
+        )
 
     def __str__(self) -> str:
         return self.name
-- 
2.43.0


From 60593603b1c2e2c52e46fce51c95bee2d963d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 45/50] fix: reject a module used as a value

---
 amanda/compiler/ast.py        | 3 +++
 amanda/compiler/check/core.py | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 582ff9f..79bb318 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -74,6 +74,9 @@ class ASTNode:
     def is_callee(self) -> bool:
         return isinstance(self.parent, Call) and self.parent.callee is self
 
+    def is_get_target(self) -> bool:
+        return isinstance(self.parent, Get) and self.parent.target is self
+
     def of_type(self, ty: PyTy[T]) -> TypeGuard[T]:
         return isinstance(self, ty)
 
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index bac2704..44067b1 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -835,6 +835,10 @@ class Analyzer(ast.Visitor):
         elif not sym.can_evaluate():
             self.ctx_node = node
             self.error(self.INVALID_REF, name=name)
+        # A module is not a value
+        elif sym.type.is_module() and not node.is_get_target():
+            self.ctx_node = node
+            self.error(self.INVALID_REF, name=name)
         # The initializer of a variable can't refer to the variable
         elif any(
             sym is decl_sym and node is not decl_target
@@ -923,6 +927,9 @@ class Analyzer(ast.Visitor):
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
         )
+        # A module is not a value
+        if node.eval_type.is_module() and not node.is_get_target():
+            self.error(self.INVALID_REF, name=field_sym.name)
         return field_sym
 
     def visit_set(self, node):
-- 
2.43.0


From bb5e513010debba790bb40ddd88d2e4f17d45465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 46/50] fix: report a clash of module aliases in the importing
 file

---
 amanda/compiler/check/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 44067b1..bee79b0 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -426,6 +426,7 @@ class Analyzer(ast.Visitor):
                 if not alias:
                     raise TypeError("Arg 'alias' should not be None")
                 imported_mod, _ = self.load_module_scoped(module)
+                self.ctx_module = prev_module
                 self.define_module_alias(
                     alias, importing_mod=prev_module, imported_mod=module
                 )
-- 
2.43.0


From 9ecf170469604ed63f54614af8e7b27f9c727e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:45 +0000
Subject: [PATCH 47/50] fix: report operands that do not fit in an instruction
 as a located error

---
 amanda/__main__.py         |  5 ++++-
 amanda/compiler/codegen.py | 23 ++++++++++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index 05ae739..eae01ea 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -33,7 +33,10 @@ def run_frontend(filename) -> tuple:
 def run_file(args):
     module, imports = run_frontend(args.file)
     compiler = ByteGen(module)
-    bin_obj = compiler.compile(imports)
+    try:
+        bin_obj = compiler.compile(imports)
+    except AmandaError as e:
+        throw_error(e)
 
     if args.debug:
         write_file("debug.amasm", compiler.make_debug_asm())
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 1a425ab..72ac06e 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -311,7 +311,25 @@ class ByteGen:
             )
         self.labels[label] = self.ip
 
+    def operand_error(self):
+        # Code that does not belong to any line (e.g. the tables of the module)
+        # is reported at the beginning of the file
+        raise AmandaError.common_error(
+            self.ctx_module.fpath,
+            "O programa excede os limites suportados pela máquina virtual",
+            max(self.lineno, 1),
+        )
+
+    def check_operands(self, op: OpCode, args: Sequence[int]):
+        # Addresses of jumps are only known after labels are patched
+        if not args or op in (OpCode.JUMP, OpCode.JUMP_IF_FALSE):
+            return
+        operand_bits = (op.op_size() - OP_SIZE) // len(args)
+        if any(arg < 0 or arg >= 2**operand_bits for arg in args):
+            self.operand_error()
+
     def append_op(self, op: OpCode, *args: int):
+        self.check_operands(op, args)
         if self.src_map and self.src_map[-1][2] == self.lineno:
             self.src_map[-1][1] = self.ip
         else:
@@ -518,9 +536,8 @@ class ByteGen:
         else:
             idx = len(tab)
             tab[item] = idx
-        assert (
-            idx < (2**16) - 1
-        ), f"Too many items in a single table for the current file."
+        if idx >= 2**16:
+            self.operand_error()
         return idx
 
     def gen_constant(self, node: ast.Constant):
-- 
2.43.0


From c58f9158c135cb4b5c9b539edf45316d8c160043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 48/50] fix: reserve stack space for all of the locals of a
 module

---
 amanda/vm/src/vm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 4672503..0e47589 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -101,6 +101,10 @@ impl<'a> AmaVM<'a> {
     }
 
     fn init(&mut self, main: AmaFunc<'a>) {
+        // The locals of the module come before any value that it pushes
+        if main.locals > self.values.len() {
+            self.values.resize(main.locals, AmaValue::None);
+        }
         self.sp = self.values.len() as isize - 1;
         self.frames.push(main).unwrap();
         self.frames.peek_mut().bp = if self.sp > -1 { 0 } else { -1 };
-- 
2.43.0


From 7fcd754a303813744c76c1ca31c7b4b7ed9aa3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:56 +0000
Subject: [PATCH 49/50] fix: release the stack space of a function when it
 returns

---
 amanda/vm/src/vm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 0e47589..a32428e 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -404,7 +404,11 @@ impl<'a> AmaVM<'a> {
                 OpCode::Return => {
                     let val = self.op_pop();
                     let frame_bp = self.frames.peek().bp;
-                    self.sp = if frame_bp > -1 { frame_bp - 1 } else { self.sp };
+                    if frame_bp > -1 {
+                        self.sp = frame_bp - 1;
+                        // Release the arguments and the locals of the function
+                        self.values.truncate(frame_bp as usize);
+                    }
                     self.frames.pop().unwrap();
                     self.op_push(val);
                     let ctx_module = self.module_of(self.frames.peek().module);
-- 
2.43.0


From 837366c026a6d0dac97f3b1d9bffbaae0ab95d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:31 +0000
Subject: [PATCH 50/50] fix: reject mostra of an expression without value

---
 amanda/compiler/check/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index bee79b0..7b94d92 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1062,7 +1062,10 @@ class Analyzer(ast.Visitor):
             )
 
     def visit_mostra(self, node):
-        sym = self.visit(node.exp)
+        self.visit(node.exp)
+        if node.exp.eval_type == Builtins.Vazio:
+            self.ctx_node = node
+            self.error("a instrução 'mostra' espera um valor")
 
     def visit_loopctlstmt(self, node):
         token = node.token
-- 
2.43.0


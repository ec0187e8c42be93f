From d4b61fb96bdda6c4947ecf0a8239353684918e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 01/39] fix: only carry into the high word on unsigned overflow
 in u64_add_u32

2147483648 was read as 0x180000000: going from 0x7fffffff to 0x80000000 is not
a carry.
---
 pnut.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index 3bb6a91..3c9216f 100644
--- a/pnut.c
+++ b/pnut.c
@@ -989,8 +989,8 @@ void u64_mul_u32(int *x, int y) {
 // x = x + y
 void u64_add_u32(int *x, int y) {
   int lo = x[0] + y;
-  // Carry (using signed integers)
-  x[1] += ((x[0] < 0) != (lo < 0));
+  // Carry (using signed integers, y is small and non-negative)
+  x[1] += (x[0] < 0 && lo >= 0);
   x[0] = lo;
 }
 
-- 
2.43.0


From 1cdcab93d24af44a63c6d954d3cc7d3db393e6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 02/39] fix: shift the left operand when pasting the integer 0

1 ## 0 produced 1 instead of 10.
---
 pnut.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 3c9216f..343b5a0 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1932,7 +1932,8 @@ int paste_integers(int left_val, int right_val) {
 #ifdef SUPPORT_64_BIT_LITERALS
   if (left_val < 0 || right_val < 0) fatal_error("Only small integers can be pasted");
 #endif
-  while (right_digits > 0) {
+  result *= 10; // There's always at least one digit on the right (0 is 1 digit long)
+  while (right_digits > 9) {
     result *= 10;
     right_digits /= 10;
   }
-- 
2.43.0


From 270d8e43f7b7b808b5a325a942f14bb18481eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 03/39] fix: do not treat negative enum constants as large
 integer objects

Enum constants always are small integers (eval_constant rejects large ones), so
a negative one, stored as a positive value, is not a pointer to a large integer.
---
 exe.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/exe.c b/exe.c
index a70980c..2a29126 100644
--- a/exe.c
+++ b/exe.c
@@ -1425,11 +1425,7 @@ void codegen_rvalue(ast node) {
           push_reg(reg_X);
           break;
         case BINDING_ENUM_CST:
-#ifdef SUPPORT_64_BIT_LITERALS
-          mov_reg_large_imm(reg_X, get_val(heap[binding+3]));
-#else
           mov_reg_imm(reg_X, -get_val_(INTEGER, heap[binding+3]));
-#endif
           push_reg(reg_X);
           break;
 
-- 
2.43.0


From 00f47f1f1cd4df8e85a49c1a8a1fb1ba420c434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 04/39] fix: make continue evaluate the condition of do-while
 loops (exe)

It jumped to the start of the body.
---
 exe.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 2a29126..e4e5e33 100644
--- a/exe.c
+++ b/exe.c
@@ -2165,13 +2165,15 @@ void codegen_statement(ast node) {
 
     lbl1 = alloc_label(0); // do statement start
     lbl2 = alloc_label(0); // break point
+    lbl3 = alloc_label(0); // continue point
 
     save_fs = cgc_fs;
     save_locals = cgc_locals;
 
-    cgc_add_enclosing_loop(cgc_fs, lbl2, lbl1);
+    cgc_add_enclosing_loop(cgc_fs, lbl2, lbl3);
     def_label(lbl1);
     codegen_statement(get_child_(DO_KW, node, 0));
+    def_label(lbl3);
     codegen_rvalue(get_child_(DO_KW, node, 1));
     pop_reg(reg_X);
     grow_fs(-1);
-- 
2.43.0


From b68711e92a47497d56e397c694149d557eaa751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 05/39] fix: && and || evaluate to 0 or 1 (exe)

They evaluated to the value of the last operand evaluated, so 1 && 5 was 5.
---
 exe.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/exe.c b/exe.c
index e4e5e33..cb78da3 100644
--- a/exe.c
+++ b/exe.c
@@ -1565,16 +1565,24 @@ void codegen_rvalue(ast node) {
       write_mem_location(reg_Y, 0, reg_X, left_width);
       push_reg(reg_X);
     } else if (op == AMP_AMP || op == BAR_BAR) {
-      lbl1 = alloc_label(0);
+      lbl1 = alloc_label(0); // short-circuit label
+      lbl2 = alloc_label(0); // end label
       codegen_rvalue(child0);
       pop_reg(reg_X);
-      push_reg(reg_X);
+      grow_fs(-1);
       xor_reg_reg(reg_Y, reg_Y);
       jump_cond_reg_reg(op == AMP_AMP ? EQ : NE, lbl1, reg_X, reg_Y);
-      pop_reg(reg_X); grow_fs(-1);
       codegen_rvalue(child1);
+      pop_reg(reg_X);
       grow_fs(-1);
+      xor_reg_reg(reg_Y, reg_Y);
       def_label(lbl1);
+      // Here reg_X is the last operand evaluated and reg_Y is 0.
+      // The result is 0 or 1, depending on whether the operand is non-zero.
+      jump_cond_reg_reg(EQ, lbl2, reg_X, reg_Y);
+      mov_reg_imm(reg_X, 1);
+      def_label(lbl2);
+      push_reg(reg_X);
     } else if (op == '(') {
       codegen_call(node);
     } else if (op == '.') {
-- 
2.43.0


From 2b2bed3e1fcdcf130f1accc02cb105abf8e4445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 06/39] fix: use signed division for pointer differences (exe)

The difference of 2 pointers can be negative.
---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index cb78da3..058ba4a 100644
--- a/exe.c
+++ b/exe.c
@@ -281,7 +281,7 @@ void div_for_pointer_arith(int reg, int width) {
     }
 
     mov_reg_imm(reg_Y, width);
-    div_reg_reg(reg_X, reg_Y);
+    idiv_reg_reg(reg_X, reg_Y); // The difference is signed
 
     if (reg_start != reg_X) {
       mov_reg_reg(reg_start, reg_X);
-- 
2.43.0


From bd69f1ea9a0d8f63464c4cc36fefe94e28ad5b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 07/39] fix: && and || evaluate to 0 or 1 in constant
 expressions

---
 pnut.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index 343b5a0..d70fff0 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1365,12 +1365,12 @@ int eval_constant(ast expr, bool if_macro) {
     case AMP_AMP:
       op1 = eval_constant(child0, if_macro);
       if (!op1) return 0;
-      else return eval_constant(child1, if_macro);
+      else return eval_constant(child1, if_macro) != 0;
 
     case BAR_BAR:
       op1 = eval_constant(child0, if_macro);
       if (op1) return 1;
-      else return eval_constant(child1, if_macro);
+      else return eval_constant(child1, if_macro) != 0;
 
     case '(': // defined operators are represented as fun calls
       if (if_macro && get_val_(IDENTIFIER, child0) == DEFINED_ID) {
-- 
2.43.0


From 89f3bf16ad8c58f26990315ef643d98ce667af7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 08/39] fix: report divisions by zero in constant expressions

They crashed the compiler (SIGFPE).
---
 pnut.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pnut.c b/pnut.c
index d70fff0..baadb75 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1344,6 +1344,7 @@ int eval_constant(ast expr, bool if_macro) {
     case '>':
       op1 = eval_constant(child0, if_macro);
       op2 = eval_constant(child1, if_macro);
+      if ((op == '/' || op == '%') && op2 == 0) fatal_error("division by zero in constant expression");
       switch (op) {
         case '*':     return op1 * op2;
         case '/':     return op1 / op2;
-- 
2.43.0


From e008a085c937383b4fa6f015cf072f0471759b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 09/39] fix: distinguish interned strings that differ after a
 null character

end_ident stopped comparing at the first null character, so different string
literals with embedded null characters could be merged.
---
 pnut.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index baadb75..67c8689 100644
--- a/pnut.c
+++ b/pnut.c
@@ -647,7 +647,10 @@ int end_ident() {
     c1 = string_pool[string_start+end_ident_i];
     c2 = string_pool[probe_start+end_ident_i];
     while (c1 == c2) {
-      if (c1 == 0) {
+      // Strings can contain null characters, so the end of the string is
+      // determined by its length and not by the first null character.
+      if (c1 == 0 && (end_ident_i == string_pool_alloc - string_start - 1 || end_ident_i == heap[probe+4])) {
+        if (heap[probe+4] != string_pool_alloc - string_start - 1) break; // one is a prefix of the other
         string_pool_alloc = string_start; // undo string allocation
         return probe;
       }
-- 
2.43.0


From d229a34c654cb88e94edd1756e1fc7bbf0212e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 10/39] fix: check for string pool overflows when adding the
 terminator

The next character was written past the end of the pool.
---
 pnut.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pnut.c b/pnut.c
index 67c8689..1c9fa8a 100644
--- a/pnut.c
+++ b/pnut.c
@@ -638,6 +638,9 @@ int end_ident_i;
 int end_ident() {
   string_pool[string_pool_alloc] = 0; // terminate string
   string_pool_alloc += 1; // account for terminator
+  if (string_pool_alloc >= STRING_POOL_SIZE) {
+    fatal_error("string pool overflow");
+  }
 
   probe = heap[hash];
 
-- 
2.43.0


From 2f24c93fa9bdd9383b2d1a1d54e7f1ab9fc39b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 11/39] fix: check for overflows of the glo_decls table

---
 sh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sh.c b/sh.c
index 22ba1e6..a4ffa6a 100644
--- a/sh.c
+++ b/sh.c
@@ -372,6 +372,7 @@ void init_comp_context() {
 }
 
 void append_glo_decl(text decl) {
+  if (glo_decl_ix + 3 > GLO_DECL_SIZE) fatal_error("too many lines of generated code");
   glo_decls[glo_decl_ix] = nest_level;
   glo_decls[glo_decl_ix + 1] = 1; // If it's active or not. Used by undo_glo_decls and replay_glo_decls
   glo_decls[glo_decl_ix + 2] = decl;
@@ -379,6 +380,7 @@ void append_glo_decl(text decl) {
 }
 
 int append_glo_decl_fixup() {
+  if (glo_decl_ix + 3 > GLO_DECL_SIZE) fatal_error("too many lines of generated code");
   glo_decls[glo_decl_ix] = -nest_level; // Negative value to indicate that it's a fixup
   glo_decls[glo_decl_ix + 1] = 1; // If it's active or not. Used by undo_glo_decls and replay_glo_decls
   glo_decls[glo_decl_ix + 2] = 0;
-- 
2.43.0


From bfbe6f90b2aefd4b7436a29a6d6fde75d4009920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 12/39] fix: compile ~ and ! of integer literals (sh)

~5 and !5 were compiled to -5.
---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index a4ffa6a..4ca98bf 100644
--- a/sh.c
+++ b/sh.c
@@ -1247,7 +1247,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       // +x is equivalent to x
       return comp_rvalue_go(child0, context, test_side_effects, outer_op);
     } else if (op == '-' || op == '~' || op == '!') {
-      if (get_op(child0) == INTEGER || op == INTEGER_HEX || op == INTEGER_OCT) {
+      if (op == '-' && get_op(child0) == INTEGER) {
         return wrap_in_condition_if_needed(context, test_side_effects, wrap_integer(-1, child0));
       } else {
         sub1 = comp_rvalue_go(child0, RVALUE_CTX_ARITH_EXPANSION, 0, op);
-- 
2.43.0


From dce0d40c5cd3d628d57ae5f7d13a7c9675c7c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 13/39] fix: == is not associative (sh)

a == (b == c) was compiled to a == b == c.
---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 4ca98bf..582ad14 100644
--- a/sh.c
+++ b/sh.c
@@ -1163,7 +1163,7 @@ text with_prefixed_side_effects(ast test_side_effects, text code) {
 // Associative operators can be chained without parentheses.
 bool is_associative_operator(int op) {
   return (op == '+')   | (op == '*')     | (op == '&')    | (op == '|')    | (op == '^')
-      |  (op == EQ_EQ) | (op == AMP_AMP) | (op == BAR_BAR);
+      |  (op == AMP_AMP) | (op == BAR_BAR);
 }
 
 // Wrap code in $((...)) if it's not already and if it's already in $(( )), wrap
-- 
2.43.0


From dea97a249c0d04b01a16563db7f479042a3cf709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 14/39] fix: make continue evaluate the condition of do-while
 loops (sh)

The condition was skipped.
---
 sh.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sh.c b/sh.c
index 582ad14..be99211 100644
--- a/sh.c
+++ b/sh.c
@@ -1996,9 +1996,10 @@ bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX
   // modifying comp_statement to accomodate this, we just remove the code
   // generated by comp_statement using undo_glo_decls and save the indices of
   // the declarations of the loop end actions so they can replayed later.
-  if (loop_end_stmt) {
+  if (loop_end_stmt || last_line) {
     heap[loop_binding + 2] = glo_decl_ix;
-    comp_statement(loop_end_stmt, stmt_ctx);
+    if (loop_end_stmt) comp_statement(loop_end_stmt, stmt_ctx);
+    else append_glo_decl(last_line); // The condition of do-while loops is also evaluated by continue
     undo_glo_decls(heap[loop_binding + 2]);
     heap[loop_binding + 3] = glo_decl_ix;
   }
@@ -2007,7 +2008,6 @@ bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX
   nest_level += 1;
   start_glo_decl_idx = glo_decl_ix;
   always_returns = comp_statement(body, stmt_ctx);
-  append_glo_decl(last_line);
   replay_glo_decls(heap[loop_binding + 2], heap[loop_binding + 3], true);
   // while loops cannot be empty so we insert ':' if it's empty
   if (!any_active_glo_decls(start_glo_decl_idx)) append_glo_decl(wrap_char(':'));
-- 
2.43.0


From e0d00320593851db964c130eba0b1762e2fe1d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 15/39] fix: do not compile -(-x) to --x (sh)

In bash, --x decrements x.
---
 sh.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sh.c b/sh.c
index be99211..59211e5 100644
--- a/sh.c
+++ b/sh.c
@@ -1200,6 +1200,17 @@ text wrap_in_condition_if_needed(int context, ast test_side_effects, text code)
   }
 }
 
+// Return true if the code of the unparenthesized expression starts with a unary
+// minus: unary +, casts and parentheses produce no code.
+bool starts_with_minus(ast node) {
+  int op = get_op(node);
+  if (op == PARENS) return starts_with_minus(get_child_(PARENS, node, 0));
+  if (op == CAST)   return starts_with_minus(get_child_(CAST, node, 1));
+  if (get_nb_children(node) != 1) return false;
+  if (op == '+')    return starts_with_minus(get_child_('+', node, 0));
+  return op == '-';
+}
+
 text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op) {
   int op = get_op(node);
   int nb_children = get_nb_children(node);
@@ -1251,6 +1262,9 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         return wrap_in_condition_if_needed(context, test_side_effects, wrap_integer(-1, child0));
       } else {
         sub1 = comp_rvalue_go(child0, RVALUE_CTX_ARITH_EXPANSION, 0, op);
+        if (op == '-' && starts_with_minus(child0)) { // -(-x) is not --x
+          sub1 = string_concat3(wrap_char('('), sub1, wrap_char(')'));
+        }
         return wrap_if_needed(false, context, test_side_effects, string_concat(wrap_char(op), sub1), outer_op, op);
       }
     } else if (op == MINUS_MINUS_PRE) {
-- 
2.43.0


From 25e57812c2d58e68ba7839a16825b3cc8edd36e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 16/39] fix: parenthesize x++ and x-- when needed (sh)

2 * x++ was compiled to 2 * (x += 1) - 1.
---
 sh.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index 59211e5..82f6c24 100644
--- a/sh.c
+++ b/sh.c
@@ -1200,6 +1200,12 @@ text wrap_in_condition_if_needed(int context, ast test_side_effects, text code)
   }
 }
 
+// Return true if the operands of the operator must be parenthesized when they
+// are sums. Used for x++ and x--, which compile to (x += 1) - 1 and (x -= 1) + 1.
+bool binds_tighter_than_sum(int op) {
+  return (op == '*') | (op == '/') | (op == '%') | (op == '-') | (op == '~') | (op == '!') | (op == CAST);
+}
+
 // Return true if the code of the unparenthesized expression starts with a unary
 // minus: unary +, casts and parentheses produce no code.
 bool starts_with_minus(ast node) {
@@ -1275,10 +1281,10 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       return wrap_if_needed(true, context, test_side_effects, string_concat(sub1, wrap_str_lit(" += 1")), outer_op, op);
     } else if (op == MINUS_MINUS_POST) {
       sub1 = comp_lvalue(child0);
-      return wrap_if_needed(false, context, test_side_effects,string_concat4(wrap_char('('), sub1, wrap_str_lit(" -= 1)"), wrap_str_lit(" + 1")), outer_op, '+');
+      return wrap_if_needed(binds_tighter_than_sum(outer_op), context, test_side_effects,string_concat4(wrap_char('('), sub1, wrap_str_lit(" -= 1)"), wrap_str_lit(" + 1")), outer_op, '+');
     } else if (op == PLUS_PLUS_POST) {
       sub1 = comp_lvalue(child0);
-      return wrap_if_needed(false, context, test_side_effects, string_concat4(wrap_char('('), sub1, wrap_str_lit(" += 1)"), wrap_str_lit(" - 1")), outer_op, '-');
+      return wrap_if_needed(binds_tighter_than_sum(outer_op), context, test_side_effects, string_concat4(wrap_char('('), sub1, wrap_str_lit(" += 1)"), wrap_str_lit(" - 1")), outer_op, '-');
     } else if (op == SIZEOF_KW) {
       // child0 is either an abstract declaration or an expression
       if (get_op(child0) == DECL) {
-- 
2.43.0


From b994dac02aacfba87dd3c72b1deb36c14eb3d068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 17/39] fix: apply the integer promotions to the type of
 arithmetic expressions

---
 exe.c | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/exe.c b/exe.c
index 058ba4a..5d34f31 100644
--- a/exe.c
+++ b/exe.c
@@ -818,6 +818,29 @@ int resolve_identifier(int ident_probe) {
   return 0;
 }
 
+// Integer promotions: operands narrower than int are converted to int
+ast promote_type(ast type) {
+  switch (get_op(type)) {
+    case CHAR_KW:
+    case SHORT_KW:
+      return int_type;
+    default:
+      return type;
+  }
+}
+
+// Usual arithmetic conversions: the type of the result of a binary arithmetic
+// operator is the widest type, unsigned types first.
+ast arithmetic_type(ast left_type, ast right_type) {
+  left_type = promote_type(left_type);
+  right_type = promote_type(right_type);
+
+  if (!is_numeric_type(left_type) || !is_numeric_type(right_type)) return right_type;
+  if (type_width(left_type, false, false) > type_width(right_type, false, false)) return left_type;
+  if (type_width(left_type, false, false) < type_width(right_type, false, false)) return right_type;
+  return is_signed_numeric_type(left_type) ? right_type : left_type;
+}
+
 // Compute the type of an expression
 ast value_type(ast node) {
   int op = get_op(node);
@@ -885,8 +908,10 @@ ast value_type(ast node) {
       return pointer_type(left_type, false);
     } else if (op == '!') {
       return int_type; // Logical not always returns an integer
-    } else if (op == '+' || op == '-' || op == '~' || op == MINUS_MINUS || op == PLUS_PLUS || op == MINUS_MINUS_POST || op == PLUS_PLUS_POST || op == PLUS_PLUS_PRE || op == MINUS_MINUS_PRE || op == PARENS) {
-      // Unary operation don't change the type
+    } else if (op == '+' || op == '-' || op == '~') {
+      return promote_type(value_type(child0));
+    } else if (op == MINUS_MINUS || op == PLUS_PLUS || op == MINUS_MINUS_POST || op == PLUS_PLUS_POST || op == PLUS_PLUS_PRE || op == MINUS_MINUS_PRE || op == PARENS) {
+      // These unary operations don't change the type
       return value_type(child0);
     } else if (op == SIZEOF_KW) {
       return int_type; // sizeof always returns an integer
@@ -907,9 +932,13 @@ ast value_type(ast node) {
       } else if (is_pointer_type(left_type)) {
         // if left is an array or a pointer, the type is also a pointer
         return left_type;
-      } else {
-        // if left is not a pointer, the type is the type of the right operand
+      } else if (is_pointer_type(right_type)) {
         return right_type;
+      } else if (op == LSHIFT || op == RSHIFT) {
+        // The type of a shift is the type of its left operand
+        return promote_type(left_type);
+      } else {
+        return arithmetic_type(left_type, right_type);
       }
     } else if (op == '<' || op == '>' || op == EQ_EQ || op == EXCL_EQ || op == LT_EQ || op == GT_EQ) {
       return int_type; // Comparison always returns an integer
-- 
2.43.0


From a14b1a3d176880db5d6660dd05c7607283ea6c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 18/39] fix: promote the operands before choosing signed or
 unsigned operations

---
 exe.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exe.c b/exe.c
index 5d34f31..db18490 100644
--- a/exe.c
+++ b/exe.c
@@ -1022,8 +1022,8 @@ void codegen_binop(int op, ast lhs, ast rhs) {
   int lbl1;
   int lbl2;
   int cond = -1;
-  ast left_type = value_type(lhs);
-  ast right_type = value_type(rhs);
+  ast left_type = promote_type(value_type(lhs));
+  ast right_type = promote_type(value_type(rhs));
   bool left_is_numeric = is_numeric_type(left_type);
   bool right_is_numeric = is_numeric_type(right_type);
   int width;
@@ -1099,7 +1099,8 @@ void codegen_binop(int op, ast lhs, ast rhs) {
   }
   else if (op == RSHIFT || op == RSHIFT_EQ) {
     if (!left_is_numeric || !right_is_numeric) fatal_error("invalid operands to >>");
-    if (is_signed) sar_reg_reg(reg_X, reg_Y);
+    // The signedness of a shift is that of its left operand
+    if (is_signed_numeric_type(left_type)) sar_reg_reg(reg_X, reg_Y);
     else shr_reg_reg(reg_X, reg_Y);
   }
   else if (op == LSHIFT || op == LSHIFT_EQ) {
-- 
2.43.0


From 6728cd6161e93c495712c511bc01c91e6977c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 19/39] fix: && and || have type int

---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index db18490..1ab989f 100644
--- a/exe.c
+++ b/exe.c
@@ -962,7 +962,7 @@ ast value_type(ast node) {
       return value_type(child0); // Only the left side is relevant here
     } else if (op == AMP_AMP || op == BAR_BAR) {
       // TODO: Check that the operands have compatible types?
-      return value_type(child0);
+      return int_type; // Logical operators always return an integer
     } else if (op == '(') {
       binding = cgc_lookup_fun(get_val_(IDENTIFIER, child0), cgc_globals);
       if (binding != 0) {
-- 
2.43.0


From 93d0a975a622ef349d0b0149e7aea43da693244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:55 +0000
Subject: [PATCH 20/39] fix: scale and load elements of multidimensional arrays

---
 exe.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/exe.c b/exe.c
index 1ab989f..95e8e8d 100644
--- a/exe.c
+++ b/exe.c
@@ -659,7 +659,7 @@ int type_width(ast type, bool array_value, bool word_align) {
 
 // Width of an object pointed to by a reference type.
 ast ref_type_width(ast type) {
-  return type_width(dereference_type(type), false, false);
+  return type_width(dereference_type(type), true, false);
 }
 
 // Structs, enums and unions types come in 2 variants:
@@ -1026,7 +1026,6 @@ void codegen_binop(int op, ast lhs, ast rhs) {
   ast right_type = promote_type(value_type(rhs));
   bool left_is_numeric = is_numeric_type(left_type);
   bool right_is_numeric = is_numeric_type(right_type);
-  int width;
   // If any of the operands is unsigned, the result is unsigned
   bool is_signed = false;
   if (is_signed_numeric_type(left_type) && is_signed_numeric_type(right_type)) is_signed = true;
@@ -1124,19 +1123,20 @@ void codegen_binop(int op, ast lhs, ast rhs) {
     // Same as pointer addition for address calculation
     if (is_pointer_type(left_type) && is_not_pointer_type(right_type)) {
       mul_for_pointer_arith(reg_Y, ref_type_width(left_type));
-      width = ref_type_width(left_type);
-      is_signed = is_signed_numeric_type(dereference_type(left_type));
+      left_type = dereference_type(left_type);
     } else if (is_pointer_type(right_type) && is_not_pointer_type(left_type)) {
       mul_for_pointer_arith(reg_X, ref_type_width(right_type));
-      width = ref_type_width(right_type);
-      is_signed = is_signed_numeric_type(dereference_type(right_type));
+      left_type = dereference_type(right_type);
     } else {
       fatal_error("codegen_binop: invalid array access operands");
       return;
     }
 
     add_reg_reg(reg_X, reg_Y);
-    load_mem_location(reg_X, reg_X, 0, width, is_signed);
+    // arrays/structs/unions are represented by their address, so no need to load them
+    if (!is_aggregate_type(left_type)) {
+      load_mem_location(reg_X, reg_X, 0, type_width(left_type, true, false), is_signed_numeric_type(left_type));
+    }
   } else {
     putstr("op="); putint(op); putchar('\n');
     fatal_error("codegen_binop: unknown op");
@@ -1483,9 +1483,12 @@ void codegen_rvalue(ast node) {
       grow_fs(-1);
       if (is_function_type(type1)) {
       } else if (is_pointer_type(type1)) {
-        pop_reg(reg_X);
-        load_mem_location(reg_X, reg_X, 0, ref_type_width(type1), is_signed_numeric_type(dereference_type(type1)));
-        push_reg(reg_X);
+        // arrays/structs/unions are represented by their address, so no need to load them
+        if (!is_aggregate_type(dereference_type(type1))) {
+          pop_reg(reg_X);
+          load_mem_location(reg_X, reg_X, 0, ref_type_width(type1), is_signed_numeric_type(dereference_type(type1)));
+          push_reg(reg_X);
+        }
       } else {
         fatal_error("codegen_rvalue: non-pointer is being dereferenced with *");
       }
-- 
2.43.0


From 5de590214a09d908fe9cab76a8bf3561b18cdb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 21/39] fix: extend casts between signed and unsigned types of
 the same width

---
 exe.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/exe.c b/exe.c
index 95e8e8d..2e2bd46 100644
--- a/exe.c
+++ b/exe.c
@@ -1661,8 +1661,13 @@ void codegen_rvalue(ast node) {
       // to truncate the value. This is done by writing the value to the stack
       // and then reading it back, sign extending it if necessary.
       child0 = get_child_(DECL, child0, 1); // child 1 of cast is the type
-      if (type_width(child0, false, false) < type_width(value_type(child1), false, false)) {
-        load_mem_location(reg_X, reg_SP, 0, type_width(child0, false, false), is_signed_numeric_type(child0));
+      // Casts between signed and unsigned types of the same width also need to
+      // be sign or zero extended.
+      left_width = type_width(child0, false, false);
+      type1 = value_type(child1);
+      if (left_width < type_width(type1, false, false)
+       || (left_width < WORD_SIZE && left_width == type_width(type1, false, false) && is_signed_numeric_type(child0) != is_signed_numeric_type(type1))) {
+        load_mem_location(reg_X, reg_SP, 0, left_width, is_signed_numeric_type(child0));
         grow_stack(-1);
         push_reg(reg_X);
       }
-- 
2.43.0


From 621b65e7df3ea0025c6a928470a552790b5f8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:13 +0000
Subject: [PATCH 22/39] fix: align struct members in struct_member_offset as in
 struct_union_size

---
 exe.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/exe.c b/exe.c
index 2e2bd46..baa6a16 100644
--- a/exe.c
+++ b/exe.c
@@ -747,21 +747,21 @@ int struct_member_offset_go(ast struct_type, ast member_ident) {
   while (members != 0) {
     decl = car_(DECL, members);
     ident = get_child_opt_(DECL, IDENTIFIER, decl, 0);
-    if (ident == 0) { // Anonymous struct member, search that struct
-      sub_offset = struct_member_offset_go(get_child_(DECL, decl, 1), member_ident);
-      if (sub_offset != -1) return offset + sub_offset;
-    } else if (get_val_(IDENTIFIER, member_ident) == get_val_(IDENTIFIER, ident)) {
-      return offset;
-    }
-
     if (get_op(struct_type) == STRUCT_KW) {
       // For unions, fields are always at offset 0. We must still iterate
       // because the field may be in an anonymous struct, in which case the
       // final offset is not 0.
       member_size = type_width(get_child_(DECL, decl, 1), true, false);
       if (member_size != 0) offset = align_to(type_largest_member(get_child_(DECL, decl, 1)), offset);
-      offset += member_size;
     }
+    if (ident == 0) { // Anonymous struct member, search that struct
+      sub_offset = struct_member_offset_go(get_child_(DECL, decl, 1), member_ident);
+      if (sub_offset != -1) return offset + sub_offset;
+    } else if (get_val_(IDENTIFIER, member_ident) == get_val_(IDENTIFIER, ident)) {
+      return offset;
+    }
+
+    if (get_op(struct_type) == STRUCT_KW) offset += member_size;
     members = tail(members);
   }
 
-- 
2.43.0


From c1f52e31c7120e8b7dc562124944f572a8945128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:13 +0000
Subject: [PATCH 23/39] fix: width of the lvalue i[p] when the index comes
 first

---
 exe.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/exe.c b/exe.c
index baa6a16..04e7043 100644
--- a/exe.c
+++ b/exe.c
@@ -1319,12 +1319,11 @@ int codegen_lvalue(ast node) {
   } else if (nb_children == 2) {
 
     if (op == '[') {
-      type = value_type(child0);
       codegen_rvalue(child0);
       codegen_rvalue(child1);
       codegen_binop('+', child0, child1);
       grow_fs(-2);
-      lvalue_width = ref_type_width(type);
+      lvalue_width = type_width(value_type(node), true, false); // i[p] is p[i]
     } else if (op == '.') {
       type = value_type(child0);
       if (is_struct_or_union_type(type)) {
-- 
2.43.0


From 526f1c2ff2eb321e165159fddf9b35e777415cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 24/39] fix: zero extend casts of signed values to wider
 unsigned types

---
 exe.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exe.c b/exe.c
index 04e7043..3b87b53 100644
--- a/exe.c
+++ b/exe.c
@@ -1660,12 +1660,12 @@ void codegen_rvalue(ast node) {
       // to truncate the value. This is done by writing the value to the stack
       // and then reading it back, sign extending it if necessary.
       child0 = get_child_(DECL, child0, 1); // child 1 of cast is the type
-      // Casts between signed and unsigned types of the same width also need to
-      // be sign or zero extended.
+      // Casts between signed and unsigned types also need to be sign or zero
+      // extended.
       left_width = type_width(child0, false, false);
       type1 = value_type(child1);
       if (left_width < type_width(type1, false, false)
-       || (left_width < WORD_SIZE && left_width == type_width(type1, false, false) && is_signed_numeric_type(child0) != is_signed_numeric_type(type1))) {
+       || (left_width < WORD_SIZE && is_signed_numeric_type(child0) != is_signed_numeric_type(type1))) {
         load_mem_location(reg_X, reg_SP, 0, left_width, is_signed_numeric_type(child0));
         grow_stack(-1);
         push_reg(reg_X);
-- 
2.43.0


From 52fe7f1dbbd2692b87ad77ed33f14503e60ff9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 25/39] fix: allow && and || in the index of an array
 assignment (sh)

---
 sh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sh.c b/sh.c
index 82f6c24..cc9a9b9 100644
--- a/sh.c
+++ b/sh.c
@@ -1031,6 +1031,8 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
       fatal_error("unexpected operator");
       return 0;
     }
+  } else if (nb_children == 4 && (op == AMP_AMP || op == BAR_BAR)) {
+    return node; // The side effects of the operands are already extracted
   } else if (nb_children == 3 && op == '?') {
     previous_conditional_fun_calls = conditional_fun_calls;
     conditional_fun_calls = 0;
-- 
2.43.0


From 08ccc2c7ed7be81c5a1007e28d2635fb98fd0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 26/39] fix: parenthesize the address of an array element or
 member inside of an expression (sh)

---
 sh.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index cc9a9b9..e4ba809 100644
--- a/sh.c
+++ b/sh.c
@@ -1313,7 +1313,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         return 0;
       }
     } else if (op == '&') {
-      return wrap_if_needed(false, context, test_side_effects, comp_lvalue_address(child0), outer_op, op);
+      return wrap_if_needed(true, context, test_side_effects, comp_lvalue_address(child0), outer_op, '+'); // &a[i] is a + i
     } else {
       printf("op=%d %c", op, op);
       fatal_error("comp_rvalue_go: unexpected operator");
@@ -1333,7 +1333,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       sub2 = comp_rvalue_go(child1, RVALUE_CTX_ARITH_EXPANSION, 0, '+');
       return wrap_if_needed(false, context, test_side_effects, string_concat5(wrap_str_lit("_$(("), sub1, wrap_str_lit(" + "), sub2, wrap_str_lit("))")), outer_op, op);
     } else if (op == ARROW) { // member access is implemented like array access
-      sub1 = comp_rvalue_go(child0, RVALUE_CTX_ARITH_EXPANSION, 0, op);
+      sub1 = comp_rvalue_go(child0, RVALUE_CTX_ARITH_EXPANSION, 0, '+');
       sub2 = struct_member_var(child1);
       return wrap_if_needed(false, context, test_side_effects, string_concat5(wrap_str_lit("_$(("), sub1, wrap_str_lit(" + "), sub2, wrap_str_lit("))")), outer_op, op);
     } else if (op == EQ_EQ || op == EXCL_EQ || op == LT_EQ || op == GT_EQ || op == '<' || op == '>') {
-- 
2.43.0


From b9cd1a07a72a0642ffebbffb3e2ddfc54e16723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 27/39] fix: parenthesized lvalues are lvalues, not addresses
 (sh)

---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index e4ba809..42cb1c8 100644
--- a/sh.c
+++ b/sh.c
@@ -1518,7 +1518,7 @@ text comp_lvalue(ast node) {
   } else if (op == CAST) {
     return comp_lvalue(get_child_(CAST, node, 1));
   } else if (op == PARENS) {
-    return comp_lvalue_address(get_child_(PARENS, node, 0));
+    return comp_lvalue(get_child_(PARENS, node, 0));
   } else {
     printf("op=%d %c\n", op, op);
     fatal_error("comp_lvalue: unknown lvalue");
-- 
2.43.0


From 27b08bf473ea436716cc5c33fc8d21bf6448fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 28/39] fix: align struct members in struct initializers

---
 exe.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/exe.c b/exe.c
index 3b87b53..d43cca2 100644
--- a/exe.c
+++ b/exe.c
@@ -1868,6 +1868,7 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
   ast inner_type;
   int arr_len;
   int inner_type_width;
+  int member_offset = 0;
 
   type = canonicalize_type(type);
 
@@ -1910,8 +1911,11 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
           members = get_child_(STRUCT_KW, type, 2);
           while (init != 0 && members != 0) {
             inner_type = get_child_(DECL, car_(DECL, members), 1);
-            codegen_initializer(local, car(init), inner_type, base_reg, offset);
-            offset += type_width(inner_type, true, false);
+            inner_type_width = type_width(inner_type, true, false);
+            // Align the member, as in struct_member_offset
+            if (inner_type_width != 0) member_offset = align_to(type_largest_member(inner_type), member_offset);
+            codegen_initializer(local, car(init), inner_type, base_reg, offset + member_offset);
+            member_offset += inner_type_width;
             init = tail(init);
             members = tail(members);
           }
@@ -1919,8 +1923,10 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
           // Initialize rest of the members to 0
           while (local && members != 0) {
             inner_type = get_child_(DECL, car_(DECL, members), 1);
-            initialize_memory(0, base_reg, offset, type_width(inner_type, true, false));
-            offset += type_width(inner_type, true, false);
+            inner_type_width = type_width(inner_type, true, false);
+            if (inner_type_width != 0) member_offset = align_to(type_largest_member(inner_type), member_offset);
+            initialize_memory(0, base_reg, offset + member_offset, inner_type_width);
+            member_offset += inner_type_width;
             members = tail(members);
           }
           break;
-- 
2.43.0


From 604bc99d609d58638f4204b7fce130babd5ef1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 29/39] fix: do not copy past the end of a struct in
 initializers

---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index d43cca2..a7b2b8b 100644
--- a/exe.c
+++ b/exe.c
@@ -1961,7 +1961,7 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
         codegen_lvalue(init);
         pop_reg(reg_X);
         grow_fs(-1);
-        copy_obj(base_reg, offset, reg_X, 0, type_width(type, true, true));
+        copy_obj(base_reg, offset, reg_X, 0, type_width(type, true, false));
       } else if (get_op(type) != '[') {
         codegen_rvalue(init);
         pop_reg(reg_X);
-- 
2.43.0


From aad52f8b4f455920e0b5e24739caf0963b4aadef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:44 +0000
Subject: [PATCH 30/39] fix: statements after an infinite loop with a break are
 reachable (sh)

---
 env.c | 3 ++-
 sh.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/env.c b/env.c
index f601322..1fe27b1 100644
--- a/env.c
+++ b/env.c
@@ -136,11 +136,12 @@ void cgc_add_local_var(enum BINDING binding_type, int ident, ast type) {
 }
 
 void cgc_add_enclosing_loop() {
-  int binding = alloc_obj(4);
+  int binding = alloc_obj(5);
   heap[binding+0] = cgc_locals;
   heap[binding+1] = BINDING_LOOP;
   heap[binding+2] = 0; // loop end action start
   heap[binding+3] = 0; // loop end action end
+  heap[binding+4] = false; // whether the loop contains a break statement
   cgc_locals = binding;
 }
 
diff --git a/sh.c b/sh.c
index 42cb1c8..96ae172 100644
--- a/sh.c
+++ b/sh.c
@@ -2038,13 +2038,14 @@ bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX
   cgc_locals = start_cgc_locals;
 
   // If the condition is always true and the loop always returns
-  return cond == wrap_char(':') && always_returns;
+  return cond == wrap_char(':') && always_returns && !heap[loop_binding + 4];
 }
 
 bool comp_break() {
   int binding = cgc_lookup_enclosing_loop_or_switch(cgc_locals);
   if (binding == 0) fatal_error("comp_statement: break not in loop or switch");
   if (binding_kind(binding) == BINDING_LOOP) {
+    heap[binding + 4] = true; // The statements after the loop are reachable
     append_glo_decl(wrap_str_lit("break"));
   }
   return true;
-- 
2.43.0


From 4509c0f3f5a4475a204d55f438e89eb8ad258156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 31/39] fix: parameters are not in scope after their function

---
 exe.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exe.c b/exe.c
index a7b2b8b..d8bc7f7 100644
--- a/exe.c
+++ b/exe.c
@@ -2461,6 +2461,7 @@ void codegen_glo_fun_decl(ast node) {
 
   ret();
 
+  cgc_locals = 0; // The parameters are not visible outside of the function
   cgc_locals_fun = save_locals_fun;
 }
 
-- 
2.43.0


From 929112aa0a012af7055904f508382a5323d12b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:16 +0000
Subject: [PATCH 32/39] fix: members of an anonymous struct in a union have an
 offset

---
 exe.c | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/exe.c b/exe.c
index d8bc7f7..29cef44 100644
--- a/exe.c
+++ b/exe.c
@@ -1329,10 +1329,8 @@ int codegen_lvalue(ast node) {
       if (is_struct_or_union_type(type)) {
         codegen_lvalue(child0);
         pop_reg(reg_X);
-        // union members are at the same offset: 0
-        if (get_op(type) == STRUCT_KW) {
-          add_reg_imm(reg_X, struct_member_offset(type, child1));
-        }
+        // union members are at offset 0, except those of anonymous structs
+        add_reg_imm(reg_X, struct_member_offset(type, child1));
         push_reg(reg_X);
         grow_fs(-1);
         lvalue_width = type_width(get_child_(DECL, struct_member(type, child1), 1), true, false); // child 1 of member is the type
@@ -1346,10 +1344,8 @@ int codegen_lvalue(ast node) {
         type = get_child_('*', type, 1);
         codegen_rvalue(child0);
         pop_reg(reg_X);
-        // union members are at the same offset: 0
-        if (get_op(type) == STRUCT_KW) {
-          add_reg_imm(reg_X, struct_member_offset(type, child1));
-        }
+        // union members are at offset 0, except those of anonymous structs
+        add_reg_imm(reg_X, struct_member_offset(type, child1));
         push_reg(reg_X);
         grow_fs(-1);
         lvalue_width = type_width(get_child_(DECL, struct_member(type, child1), 1), true, false); // child 1 of member is the type
@@ -1624,10 +1620,8 @@ void codegen_rvalue(ast node) {
         codegen_lvalue(child0);
         pop_reg(reg_Y);
         grow_fs(-1);
-        // union members are at the same offset: 0
-        if (get_op(type1) == STRUCT_KW) {
-          add_reg_imm(reg_Y, struct_member_offset(type1, child1));
-        }
+        // union members are at offset 0, except those of anonymous structs
+        add_reg_imm(reg_Y, struct_member_offset(type1, child1));
         if (!is_aggregate_type(type2)) {
           load_mem_location(reg_Y, reg_Y, 0, type_width(type2, false, false), is_signed_numeric_type(type2));
         }
@@ -1643,10 +1637,8 @@ void codegen_rvalue(ast node) {
         codegen_rvalue(child0);
         pop_reg(reg_Y);
         grow_fs(-1);
-        // union members are at the same offset: 0
-        if (get_op(type1) == STRUCT_KW) {
-          add_reg_imm(reg_Y, struct_member_offset(type1, child1));
-        }
+        // union members are at offset 0, except those of anonymous structs
+        add_reg_imm(reg_Y, struct_member_offset(type1, child1));
         if (!is_aggregate_type(type2)) {
           load_mem_location(reg_Y, reg_Y, 0, type_width(type2, false, false), is_signed_numeric_type(type2));
         }
-- 
2.43.0


From 4265487b5173fc7cf4a0f8e392ad2e54287da55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:48 +0000
Subject: [PATCH 33/39] fix: negative enumerators are written in decimal in the
 shell

---
 pnut.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 1c9fa8a..5830c68 100644
--- a/pnut.c
+++ b/pnut.c
@@ -2670,7 +2670,9 @@ ast parse_enum() {
         // literal type to determine which type to use when creating a new node.
         value = non_parenthesized_operand(value);
         if (get_op(value) != INTEGER && get_op(value) != INTEGER_HEX && get_op(value) != INTEGER_OCT) {
-          value = new_ast0(last_literal_type, -eval_constant(value, false));
+          next_value = -eval_constant(value, false);
+          // Negative values can only be written in decimal
+          value = new_ast0(next_value > 0 ? INTEGER : last_literal_type, next_value);
         }
         last_literal_type = get_op(value);
 #else
-- 
2.43.0


From c66f7b2c25a0d43a0fb291b2e5b4ab1fd1518033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:05 +0000
Subject: [PATCH 34/39] fix: sh: keep the calls and the grouping of operands of
 && and || behind casts and unary +

---
 sh.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sh.c b/sh.c
index 96ae172..bdad5b3 100644
--- a/sh.c
+++ b/sh.c
@@ -1219,6 +1219,16 @@ bool starts_with_minus(ast node) {
   return op == '-';
 }
 
+// Return the operand of && or || without the parentheses, casts and unary +,
+// which produce no code.
+ast test_operand(ast node) {
+  int op = get_op(node);
+  if (op == PARENS) return test_operand(get_child_(PARENS, node, 0));
+  if (op == CAST)   return test_operand(get_child_(CAST, node, 1));
+  if (op == '+' && get_nb_children(node) == 1) return test_operand(get_child_('+', node, 0));
+  return node;
+}
+
 text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op) {
   int op = get_op(node);
   int nb_children = get_nb_children(node);
@@ -1347,7 +1357,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         return wrap_if_needed(true, context, test_side_effects, string_concat3(sub1, op_to_str(op), sub2), outer_op, op);
       }
     } else if (op == CAST) { // Casts are no-op
-      return comp_rvalue_go(child1, context, 0, op);
+      return comp_rvalue_go(child1, context, test_side_effects, op);
     } else {
       fatal_error("comp_rvalue_go: unknown rvalue with 2 children");
       return 0;
@@ -1372,8 +1382,8 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       //
       // As a heuristic, we add parenthesis whenever the left or right side of
       // the operator is a different comparison operator.
-      sub1 = non_parenthesized_operand(child0); // un-parenthesized lhs
-      sub2 = non_parenthesized_operand(child1); // un-parenthesized rhs
+      sub1 = test_operand(child0); // un-parenthesized lhs
+      sub2 = test_operand(child1); // un-parenthesized rhs
 
       // if lhs is && or ||, and different from the current operator
       if ((get_op(sub1) == AMP_AMP || get_op(sub1) == BAR_BAR) && get_op(sub1) != op) {
-- 
2.43.0


From 9f52c59e6ac041d54fcd65f2a3e8fc49a29fdb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:05 +0000
Subject: [PATCH 35/39] fix: sh: %% in a printf with a single argument printed
 two percent signs

---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index bdad5b3..5d06796 100644
--- a/sh.c
+++ b/sh.c
@@ -1770,7 +1770,7 @@ text comp_fun_call_code(ast node, ast assign_to) {
     if (((name_id == PUTS_ID || name_id == PUTSTR_ID || name_id == PRINTF_ID)
         && (param = list_singleton(params)) != 0
         && get_op(param) == STRING)) { // puts("..."), putstr("..."), printf("...")
-      return printf_call(STRING_BUF(get_val_(STRING, param)), 0, 0, true);
+      return printf_call(STRING_BUF(get_val_(STRING, param)), 0, 0, name_id != PRINTF_ID); // In printf, %% is already escaped
     } else if (name_id == PRINTF_ID && params != 0 && get_op(car(params)) == STRING) { // printf("...", ...)
       handle_printf_call(STRING_BUF(get_val_(STRING, car(params))), tail(params));
       return 0;
-- 
2.43.0


From aee67f0fc676a93e1b95ba741e73966b5e4490de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:05 +0000
Subject: [PATCH 36/39] fix: sh: cases after the default of a switch were never
 selected

---
 sh.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 5d06796..200a9d5 100644
--- a/sh.c
+++ b/sh.c
@@ -1891,8 +1891,23 @@ text make_switch_pattern(ast statement) {
   }
 }
 
+// Whether the pattern of the conditional block includes default.
+bool is_default_clause(ast statement) {
+  while (get_op(statement) == CASE_KW) statement = get_child_(CASE_KW, statement, 1);
+  return get_op(statement) == DEFAULT_KW;
+}
+
+// Skip the conditional block at the start of the list of statements.
+ast next_switch_clause(ast node) {
+  do {
+    node = get_child_('{', node, 1);
+  } while (get_op(node) == '{' && get_op(get_child_('{', node, 0)) != CASE_KW);
+  return node;
+}
+
 bool comp_switch(ast node) {
   ast statement;
+  ast default_clause = 0; // Default block that isn't last, -1 once compiled
   int start_cgc_locals = cgc_locals;
 
   append_glo_decl(string_concat3(
@@ -1914,7 +1929,17 @@ bool comp_switch(ast node) {
   }
 
   if (node == 0 || get_op(node) != '{') fatal_error("comp_statement: switch without body");
-  while (get_op(node) == '{') {
+  while (get_op(node) == '{' || default_clause > 0) {
+    // Shell picks the first pattern that matches, so the default block goes last
+    if (get_op(node) != '{') {
+      node = default_clause;
+      default_clause = -1;
+    } else if (is_default_clause(get_child_('{', node, 0))) {
+      default_clause = node;
+      node = next_switch_clause(node);
+      continue;
+    }
+
     statement = get_child_('{', node, 0);
     node = get_child_('{', node, 1);
 
@@ -1939,6 +1964,7 @@ bool comp_switch(ast node) {
 
     nest_level -= 1;
     append_glo_decl(wrap_str_lit(";;"));
+    if (default_clause == -1) break;
   }
 
   nest_level -= 1;
-- 
2.43.0


From cadd55d8a5dabd2fa2e0ae0ca09311e03233ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:28 +0000
Subject: [PATCH 37/39] fix: sh: keep the calls that precede a ternary operator
 in an operand of && or ||

---
 sh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sh.c b/sh.c
index 200a9d5..1f48b94 100644
--- a/sh.c
+++ b/sh.c
@@ -1044,6 +1044,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     if (left_conditional_fun_calls != 0 || right_conditional_fun_calls != 0) {
       fatal_error("Conditional function calls in ternary operator not allowed");
     }
+    conditional_fun_calls = previous_conditional_fun_calls;
 
     return new_ast3('?', handle_side_effects_go(child0, executes_conditionally), sub1, sub2);
   } else {
-- 
2.43.0


From ffb5390c04a69b5aa67104c6ea6e10f8c85fcff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:57 +0000
Subject: [PATCH 38/39] fix: sh: (*p++ = f()) in an expression evaluated its
 left hand side twice

---
 sh.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index 1f48b94..f14a3f0 100644
--- a/sh.c
+++ b/sh.c
@@ -942,6 +942,28 @@ ast handle_fun_call_side_effect(ast node, ast assign_to, bool executes_condition
   return assign_to;
 }
 
+// Whether an expression can be evaluated more than once: it has no function
+// call, assignment or increment/decrement.
+bool has_no_side_effects(ast node) {
+  int op = get_op(node);
+  int nb_children = get_nb_children(node);
+  if (nb_children == 0 || op == SIZEOF_KW) {
+    return true;
+  } else if (op == CAST) {
+    return has_no_side_effects(get_child(node, 1));
+  } else if (nb_children == 1 && (op == '&' || op == '*' || op == '+' || op == '-' || op == '~' || op == '!' || op == PARENS)) {
+    return has_no_side_effects(get_child(node, 0));
+  } else if (nb_children == 2
+    && ( op == '&' || op == '|' || op == '<' || op == '>' || op == '+' || op == '-' || op == '*' || op == '/'
+      || op == '%' || op == '^' || op == EQ_EQ || op == EXCL_EQ || op == LT_EQ || op == GT_EQ || op == LSHIFT || op == RSHIFT || op == '['
+      || op == ARROW)) {
+    if (!has_no_side_effects(get_child(node, 0))) return false;
+    return has_no_side_effects(get_child(node, 1));
+  } else {
+    return false;
+  }
+}
+
 // We can't have function calls and other side effects in $(( ... )), so we need to handle them separately.
 // For unconditional function calls, they are replaced with unique identifiers and returned as a list with their new identifiers.
 // For pre/post-increments/decrements, we map them to a pre-side-effects and replace with the corresponding operation.
@@ -991,8 +1013,9 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     if (op == '(') { // Function call
       return handle_fun_call_side_effect(node, 0, executes_conditionally);
     } else if (op == '=') {
-      if (get_op(child1) == '(') { // Function call
-        // In that case, we reuse the left hand side of the assignment as the result location
+      if (get_op(child1) == '(' && has_no_side_effects(child0)) { // Function call
+        // In that case, we reuse the left hand side of the assignment as the
+        // result location, and as the value of the assignment.
         return handle_fun_call_side_effect(child1, child0, executes_conditionally);
       } else {
         sub1 = handle_side_effects_go(child0, executes_conditionally);
-- 
2.43.0


From c1910a0890753b9185b71bbf17acc23ea5684e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:57 +0000
Subject: [PATCH 39/39] fix: sh: expression statements kept only ++, -- and
 compound assignments, not plain ones

---
 sh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sh.c b/sh.c
index f14a3f0..da3ec4d 100644
--- a/sh.c
+++ b/sh.c
@@ -1018,6 +1018,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
         // result location, and as the value of the assignment.
         return handle_fun_call_side_effect(child1, child0, executes_conditionally);
       } else {
+        contains_side_effects = true;
         sub1 = handle_side_effects_go(child0, executes_conditionally);
         sub2 = handle_side_effects_go(child1, executes_conditionally); // We could inline that one since the assignment to the global variable is done after the last handle_side_effects_go call
         return new_ast2(op, sub1, sub2);
-- 
2.43.0


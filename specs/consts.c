/* P03: constant expressions.  eval_constant is checked one operator at a time, the operands by its own contract. */
#include "vf.h"
#include "repo/pnut.c"
CONTRACT(void fatal_error(char *msg) __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))
CONTRACT(void putstr(char *str) __CPROVER_assigns() __CPROVER_ensures(1))   /* text of error messages */
CONTRACT(void putint(int n) __CPROVER_assigns() __CPROVER_ensures(1))
#ifndef OPC
#define OPC '+'
#endif
int g_N, C1, C2, C3, V1, V2, V3, g_im, g_ev;
#ifdef VF_CBMC
CONTRACT(int eval_constant(ast expr, bool if_macro)
  __CPROVER_requires(expr == g_N || expr == C1 || expr == C2 || expr == C3) __CPROVER_requires(if_macro == g_im)
  __CPROVER_assigns(g_ev, __CPROVER_object_whole(vf_out), vf_out_n)
  __CPROVER_ensures(expr == g_N ? 1 : __CPROVER_return_value == (expr == C1 ? V1 : expr == C2 ? V2 : V3) && g_ev == __CPROVER_old(g_ev) * 8 + (expr == C1 ? 1 : expr == C2 ? 2 : 3)))
#define BEGIN() IN(int, a); IN(int, b); IN(int, c); INR(int, im, 0, 1); int r; V1 = a; V2 = b; V3 = c; g_im = im; g_ev = 0; heap_alloc = 20; C1 = new_ast0(INTEGER, 0); C2 = new_ast0(INTEGER, 0); C3 = new_ast0(INTEGER, 0);
#define RUN(n) g_N = (n); r = eval_constant(g_N, im);
#define LIM 100000
void H_binary(void) { BEGIN()
  if (OPC == '/' || OPC == '%') REQUIRE(b != 0 && !(b == -1 && a == -2147483647 - 1));
  if (OPC == LSHIFT || OPC == RSHIFT) REQUIRE(b >= 0 && b < 32);
#ifdef NARROW   /* signed operands of 8 bits: the multiplier circuits of both sides are out of reach for more */
  REQUIRE(a >= -NARROW && a < NARROW && b >= -NARROW && b < NARROW);
#endif
  RUN(new_ast2(OPC, C1, C2))
  ENSURE(r == (OPC == '+' ? (int) ((unsigned) a + (unsigned) b) : OPC == '-' ? (int) ((unsigned) a - (unsigned) b) : OPC == '*' ? (int) ((unsigned) a * (unsigned) b) : OPC == '/' ? a / (b ? b : 1) : OPC == '%' ? a % (b ? b : 1) :
    OPC == '&' ? (a & b) : OPC == '|' ? (a | b) : OPC == '^' ? (a ^ b) : OPC == LSHIFT ? (int) ((unsigned) a << (b & 31)) : OPC == RSHIFT ? a >> (b & 31) : OPC == '<' ? a < b : OPC == '>' ? a > b : OPC == LT_EQ ? a <= b : OPC == GT_EQ ? a >= b :
    OPC == EQ_EQ ? a == b : OPC == EXCL_EQ ? a != b : OPC == AMP_AMP ? a && b : a || b), "value of the operation");
  ENSURE(g_ev == (OPC == AMP_AMP && !a || OPC == BAR_BAR && a ? 1 : 8 + 2), "the operands are evaluated once, in order; the right operand of && and || only when it matters");
  REACH(); }
void H_unary(void) { BEGIN() RUN(new_ast1(OPC, C1))
  ENSURE(r == (OPC == '-' ? (int) (0u - (unsigned) a) : OPC == '+' ? a : OPC == '~' ? ~a : OPC == '!' ? !a : a), "value of the operation");
  ENSURE(g_ev == 1, "the operand is evaluated once");
  REACH(); }
void H_ternary(void) { BEGIN() RUN(new_ast3('?', C1, C2, C3)) ENSURE(r == (a ? b : c), "value of the conditional"); ENSURE(g_ev == (a ? 10 : 11), "only the selected operand is evaluated"); REACH(); }
void H_leaf(void) { INR(int, v, -2147483647, 0); INR(int, ch_, 0, 255); INR(int, im, 0, 1); INR(int, isdef, 0, 1); IN(int, id); int r;
  heap_alloc = 20; g_im = im; DEFINED_ID = 11;
  REQUIRE(id != 11);
  g_N = new_ast0(OPC, OPC == CHARACTER ? ch_ : v); r = eval_constant(g_N, im); ENSURE(r == (OPC == CHARACTER ? ch_ : -v), "value of the literal");
  REACH(); }
/* in #if only: an identifier that is not a macro is 0, defined X is whether X is a macro */
void H_ifonly(void) { INR(int, isdef, 0, 1); IN(int, id); int r;
  heap_alloc = 20; g_im = 1; DEFINED_ID = 11;
  REQUIRE(id != 11);
  g_N = OPC ? new_ast0(IDENTIFIER, id) : new_ast2('(', new_ast0(IDENTIFIER, 11), isdef ? MACRO : IDENTIFIER); r = eval_constant(g_N, 1);
  ENSURE(r == (OPC ? 0 : isdef), "identifiers and defined in #if");
  REACH(); }
/* a constant expression that cannot be evaluated stops the compiler */
void H_reject(void) { INR(int, im, 0, 1); IN(int, id); IN(int, a); int r; heap_alloc = 20; g_im = im; DEFINED_ID = 11; vf_exit_ok = 1; vf_out_n = 0;
#if OPC == 0
  C1 = new_ast0(INTEGER, 0); C2 = new_ast0(INTEGER, 0); V1 = a; V2 = 0; g_N = new_ast2(id & 1 ? '/' : '%', C1, C2);
#elif OPC == 1
  REQUIRE(!im); g_N = new_ast0(IDENTIFIER, id);
#elif OPC == 2
  REQUIRE(!im || id != 11); g_N = new_ast2('(', new_ast0(IDENTIFIER, id), 0);
#elif OPC == 3
  REQUIRE(a > 0); g_N = new_ast0(INTEGER, a);   /* does not fit in 31 bits */
#else
  C1 = new_ast0(INTEGER, 0); C2 = new_ast0(INTEGER, 0); g_N = new_ast2(id & 1 ? '=' : id & 2 ? ',' : id & 4 ? PLUS_EQ : '[', C1, C2);
#endif
  REACH();
  r = eval_constant(g_N, im);
  ENSURE(0, "not a constant expression: rejected"); }
#endif

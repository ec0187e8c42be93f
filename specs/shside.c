/* VF_DROP_OK: the contracts call no function */
/* S02, S04: side effects, calls and lvalues of expressions of the shell back end.
 * A shell arithmetic expansion cannot call functions, so the calls of an expression are taken out of it
 * (handle_side_effects_go), in order, their results kept in temporaries, and emitted before it (comp_rvalue).
 * Operand i is node A(i); the contract of the recursion gives R(i) for it and appends the call cell(i), if g_L[i]. */
#include "vf.h"
#include "repo/pnut.c"
CONTRACT(void fatal_error(char *msg) __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))
#ifndef OPC
#define OPC '+'
#endif
#ifndef LS
#define LS "11"
#endif
#ifndef PRV
#define PRV 3
#endif
#ifndef COND
#define COND 0
#endif
#ifndef K
#define K 0
#endif
#ifndef N
#define N 1
#endif
#ifndef CTX
#define CTX RVALUE_CTX_BASE
#endif
#ifdef VF_CBMC
int g_M, g_A1, g_w, g_order, g_L[6], g_d[6], g_s[6], g_calls[6], g_cond[6], g_gs[6], g_when[6], g_cell[6], g_R[6], g_D[6], g_ncall, g_call, g_to, g_ccond;
int g_V, g_go, g_goctx, g_gocse, g_ncalls, g_fn[4], g_ft[4], g_dn[4], g_ds[4], g_nd, g_rl, g_ll, g_cs, g_res, g_rc[6], g_rx[6], g_lv, g_mem, g_seq[16], g_nseq;
#define AI(n) (((n) == g_D[1]) + 2 * ((n) == g_D[2]) + ((n) >= g_A1) * ((n) <= g_A1 + 3 * g_w) * (((n) - g_A1) / g_w + 1))
CONTRACT(ast handle_side_effects_go(ast node, bool executes_conditionally)
  __CPROVER_requires(node == g_M || AI(node) >= 1 && AI(node) <= 4 && g_calls[AI(node)] == 0)
  __CPROVER_assigns(node == g_M: __CPROVER_object_whole(text_pool), text_alloc, __CPROVER_object_whole(heap), heap_alloc, alloc_result, ast_result, gensym_ix, fun_gensym_ix, max_gensym_ix, string_counter, literals_inits, contains_side_effects, conditional_fun_calls, conditional_fun_calls_tail, replaced_fun_calls, replaced_fun_calls_tail, g_order, g_ncall, g_call, g_to, g_ccond, __CPROVER_object_whole(g_calls), __CPROVER_object_whole(g_cond), __CPROVER_object_whole(g_gs), __CPROVER_object_whole(g_when);
    node != g_M: gensym_ix, fun_gensym_ix, max_gensym_ix, contains_side_effects, g_order, g_calls[AI(node)], g_cond[AI(node)], g_gs[AI(node)], g_when[AI(node)];
    node != g_M && g_L[AI(node)] && executes_conditionally: conditional_fun_calls, conditional_fun_calls_tail, heap[conditional_fun_calls_tail + 2];
    node != g_M && g_L[AI(node)] && !executes_conditionally: replaced_fun_calls, replaced_fun_calls_tail, heap[replaced_fun_calls_tail + 2])
  __CPROVER_ensures(node == g_M || gensym_ix == __CPROVER_old(gensym_ix) + g_d[AI(node)] && fun_gensym_ix >= __CPROVER_old(fun_gensym_ix) && fun_gensym_ix >= gensym_ix && contains_side_effects == (__CPROVER_old(contains_side_effects) || g_s[AI(node)]))
  __CPROVER_ensures(node == g_M || g_order == __CPROVER_old(g_order) + 1 && g_calls[AI(node)] == 1 && g_cond[AI(node)] == executes_conditionally && g_gs[AI(node)] == __CPROVER_old(gensym_ix) && g_when[AI(node)] == g_order)
  __CPROVER_ensures(node == g_M || !g_L[AI(node)] || !executes_conditionally || conditional_fun_calls == (__CPROVER_old(conditional_fun_calls) == 0 ? g_cell[AI(node)] : __CPROVER_old(conditional_fun_calls)) && conditional_fun_calls_tail == g_cell[AI(node)] && heap[__CPROVER_old(conditional_fun_calls_tail) + 2] == (__CPROVER_old(conditional_fun_calls) == 0 ? __CPROVER_old(heap[conditional_fun_calls_tail + 2]) : g_cell[AI(node)]))
  __CPROVER_ensures(node == g_M || !g_L[AI(node)] || executes_conditionally || replaced_fun_calls == (__CPROVER_old(replaced_fun_calls) == 0 ? g_cell[AI(node)] : __CPROVER_old(replaced_fun_calls)) && replaced_fun_calls_tail == g_cell[AI(node)] && heap[__CPROVER_old(replaced_fun_calls_tail) + 2] == (__CPROVER_old(replaced_fun_calls) == 0 ? __CPROVER_old(heap[replaced_fun_calls_tail + 2]) : g_cell[AI(node)]))
  __CPROVER_ensures(node == g_M || __CPROVER_return_value == g_R[AI(node)]))
CONTRACT(ast handle_fun_call_side_effect(ast node, ast assign_to, bool executes_conditionally) __CPROVER_assigns(g_ncall, g_call, g_to, g_ccond, g_order) __CPROVER_ensures(g_ncall == __CPROVER_old(g_ncall) + 1 && g_call == node && g_to == assign_to && g_ccond == executes_conditionally && __CPROVER_return_value == g_R[4]))
/* comp_rvalue */
CONTRACT(ast handle_side_effects(ast node) __CPROVER_requires(node == g_V) __CPROVER_assigns(replaced_fun_calls, conditional_fun_calls, literals_inits, contains_side_effects) __CPROVER_ensures(replaced_fun_calls == g_rl && literals_inits == g_ll && contains_side_effects == g_cs && __CPROVER_return_value == g_res))
#define LINE(c) __CPROVER_ensures(glo_decl_ix == __CPROVER_old(glo_decl_ix) + 3 && glo_decls[__CPROVER_old(glo_decl_ix)] == nest_level && glo_decls[__CPROVER_old(glo_decl_ix) + 1] == 1 && glo_decls[__CPROVER_old(glo_decl_ix) + 2] == -(c))
#define LINEA glo_decls[glo_decl_ix], glo_decls[glo_decl_ix + 1], glo_decls[glo_decl_ix + 2], glo_decl_ix
CONTRACT(void comp_fun_call(ast node, ast to) __CPROVER_requires(g_ncalls < 3) __CPROVER_assigns(LINEA, replaced_fun_calls, literals_inits, contains_side_effects, g_ncalls, g_fn[g_ncalls], g_ft[g_ncalls]) LINE('F' + __CPROVER_old(g_ncalls)) __CPROVER_ensures(g_ncalls == __CPROVER_old(g_ncalls) + 1 && g_fn[__CPROVER_old(g_ncalls)] == node && g_ft[__CPROVER_old(g_ncalls)] == to && literals_inits == 0))
CONTRACT(void comp_defstr(ast ident, int string_probe, int array_size) __CPROVER_requires(g_nd < 3) __CPROVER_assigns(LINEA, g_nd, g_dn[g_nd], g_ds[g_nd]) LINE('P' + __CPROVER_old(g_nd)) __CPROVER_ensures(g_nd == __CPROVER_old(g_nd) + 1 && g_dn[__CPROVER_old(g_nd)] == ident && g_ds[__CPROVER_old(g_nd)] == string_probe))
CONTRACT(text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op) __CPROVER_requires(test_side_effects == 0 && outer_op == 0) __CPROVER_assigns(g_go, g_goctx, contains_side_effects) __CPROVER_ensures(g_go == node && g_goctx == context && contains_side_effects == (__CPROVER_old(contains_side_effects) || g_gocse) && __CPROVER_return_value == -'C'))
/* lvalues, arguments */
CONTRACT(text comp_rvalue(ast node, int context) __CPROVER_requires(AI(node) >= 1 && AI(node) <= 4 && g_rc[AI(node)] == 0) __CPROVER_assigns(g_rc[AI(node)], g_rx[AI(node)], g_order, g_when[AI(node)], contains_side_effects) __CPROVER_ensures(g_rc[AI(node)] == 1 && g_rx[AI(node)] == context && contains_side_effects == g_cs && g_order == __CPROVER_old(g_order) + 1 && g_when[AI(node)] == g_order && __CPROVER_return_value == -('A' + AI(node))))
CONTRACT(text env_var_with_prefix(ast node, ast d) __CPROVER_assigns(g_lv) __CPROVER_ensures(g_lv == node && __CPROVER_return_value == -'v'))
CONTRACT(text struct_member_var(ast node) __CPROVER_assigns(g_mem) __CPROVER_ensures(g_mem == node && __CPROVER_return_value == -'m'))
CONTRACT(text comp_lvalue(ast node) __CPROVER_requires(node == g_M || node == g_V) __CPROVER_assigns(node == g_M: __CPROVER_object_whole(text_pool), text_alloc, __CPROVER_object_whole(g_rc), __CPROVER_object_whole(g_rx), g_order, __CPROVER_object_whole(g_when), contains_side_effects, g_lv, g_mem, g_go; node == g_V: g_go) __CPROVER_ensures(node == g_M || g_go == node && __CPROVER_return_value == -'L'))
CONTRACT(text comp_lvalue_address(ast node) __CPROVER_requires(node == g_M || node == g_V) __CPROVER_assigns(node == g_M: __CPROVER_object_whole(text_pool), text_alloc, __CPROVER_object_whole(g_rc), __CPROVER_object_whole(g_rx), g_order, __CPROVER_object_whole(g_when), contains_side_effects, g_lv, g_mem, g_go; node == g_V: g_go) __CPROVER_ensures(node == g_M || g_go == node && __CPROVER_return_value == -'L'))
CONTRACT(text fun_call_params(ast params) __CPROVER_assigns(g_ncall) __CPROVER_ensures(g_ncall == params && __CPROVER_return_value == -'P'))
CONTRACT(text printf_call(char *format_str, char *format_str_end, text params_text, bool escape) __CPROVER_assigns(g_ft[0], g_ft[1]) __CPROVER_ensures(g_ft[0] == (format_str == string_pool + 3 && format_str_end == 0 && params_text == 0) && g_ft[1] == escape && __CPROVER_return_value == -'Q'))
CONTRACT(void handle_printf_call(char *format_str, ast params) __CPROVER_assigns(g_ft[0], g_ft[1]) __CPROVER_ensures(g_ft[0] == (format_str == string_pool + 3) && g_ft[1] == params))
CONTRACT(text comp_putchar_inline(ast param) __CPROVER_assigns(g_ft[0]) __CPROVER_ensures(g_ft[0] == param && __CPROVER_return_value == -'Q'))

unsigned char x[200]; int xn;
static void put(int c) { x[xn] = c; xn += 1; }
static void str(char *s) { int i; for (i = 0; s[i] != 0; i += 1) put(s[i]); }
static int same(void) { int i, ok; ok = xn == vf_out_n; for (i = 0; i < xn; i += 1) if (x[i] != vf_out[i]) ok = 0; return ok; }
#define A(i) (g_A1 + ((i) - 1) * g_w)
static int idn(void) { return new_ast0(IDENTIFIER_INTERNAL, 0); }
static int exp_[6], ne; 
static int chain(int l) { int i, ok; ok = 1; for (i = 0; i < ne; i += 1) { if (l == 0) ok = 0; else { if (l != exp_[i]) ok = 0; l = tail(l); } } return ok && l == 0; }
int z1, z2, gs0, fg0, cs0, ll0;
#define BEGIN() int i, r, n; static char ls[] = LS; { char ls_[] = LS; for (i = 0; i < sizeof ls_; i += 1) ls[i] = ls_[i]; } \
  vf_exit_ok = 0; heap_alloc = 10; text_alloc = 1; vf_out_n = 0; xn = 0; glo_decl_ix = 0; nest_level = 0; g_order = g_ncall = g_call = g_to = g_nd = g_ncalls = g_lv = g_mem = g_go = 0; top_level_stmt = false; string_counter = 3; \
  for (i = 0; i < VF_OUT_MAX; i += 1) vf_out[i] = 0; for (i = 0; i < HEAP_SIZE; i += 1) heap[i] = 0; for (i = 0; i < 6; i += 1) { g_calls[i] = g_rc[i] = g_when[i] = g_gs[i] = g_L[i] = 0; g_R[i] = g_D[i] = -1; } \
  for (i = 1; i < 5; i += 1) { int d_; bool s_; REQUIRE(d_ >= 0 && d_ <= 1000); g_d[i] = d_; g_s[i] = s_ != 0; } \
  g_A1 = idn(); g_w = idn() - g_A1; idn(); idn(); for (i = 1; i < 5; i += 1) { g_R[i] = idn(); g_cell[i] = cons(g_R[i], 0); } for (i = 1; ls[i - 1] != 0; i += 1) g_L[i] = ls[i - 1] - '0'; \
  { int q1, q2; bool q3; REQUIRE(q1 >= 0 && q1 <= 1000 && q2 >= q1 && q2 <= 2000); gs0 = gensym_ix = q1; fg0 = fun_gensym_ix = q2; max_gensym_ix = 2000; cs0 = contains_side_effects = q3 != 0; } \
  z1 = cons(g_R[4], 0); z2 = cons(g_R[4], 0); replaced_fun_calls = (PRV & 1) ? z1 : 0; replaced_fun_calls_tail = (PRV & 1) ? z1 : 0; conditional_fun_calls = (PRV & 2) ? z2 : 0; conditional_fun_calls_tail = (PRV & 2) ? z2 : 0; ll0 = literals_inits = cons(g_R[4], 0);
#define SAMEW(c) ((c) ? COND : COND)
/* the calls of the operands in ord follow the ones before, in the list of executes_conditionally */
#define CALLS(ord) { int o_[] = ord; int k_; ne = 0; if (PRV & (COND ? 2 : 1)) { exp_[ne] = COND ? z2 : z1; ne += 1; } for (k_ = 0; o_[k_] != 0; k_ += 1) if (g_L[o_[k_]]) { exp_[ne] = g_cell[o_[k_]]; ne += 1; } \
  ENSURE(chain(COND ? conditional_fun_calls : replaced_fun_calls), "the calls of the operands, in order, after the ones before"); ne = 0; if (PRV & (COND ? 1 : 2)) { exp_[0] = COND ? z1 : z2; ne = 1; } ENSURE(chain(COND ? replaced_fun_calls : conditional_fun_calls), "the other calls unchanged"); }
#define OTHER() ENSURE(literals_inits == ll0, "no string literal"); ENSURE(g_ncall == 0, "no call"); ENSURE(fun_gensym_ix >= fg0 && fun_gensym_ix >= gensym_ix, "temporaries are saved");
#define L1(a) {a, 0}
#define L2_(a, b) {a, b, 0}
#define O2 {1, 2, 0}
#define O1 {1, 0}
#define O0 {0}
#define ONCE(i) ENSURE(g_calls[i] == 1 && g_cond[i] == (COND), "operand treated once, in the condition of the expression");
void H_leaf(void) { BEGIN() g_M = new_ast0(OPC, 0); r = handle_side_effects_go(g_M, COND); ENSURE(r == g_M && gensym_ix == gs0 && contains_side_effects == cs0, "a leaf is itself"); CALLS(O0) OTHER() REACH(); }
void H_string(void) { BEGIN() n = heap_alloc; heap_alloc += 6; { bool q; int t; REQUIRE(t > 0); heap[n + 3] = q ? t : 0; i = heap[n + 3]; } g_M = new_ast0(STRING, n); r = handle_side_effects_go(g_M, COND);
  ENSURE(get_op(r) == IDENTIFIER_STRING && text_pool[get_val(r)] == TEXT_INTEGER && text_pool[get_val(r) + 1] == (i ? i : 3) && heap[n + 3] == text_pool[get_val(r) + 1], "every occurrence of a string has the same name, and other strings other ones"); ENSURE(string_counter == (i ? 3 : 4), "a name of its own");
  ENSURE(tail(literals_inits) == ll0 && get_op(car(literals_inits)) == '=' && get_child(car(literals_inits), 0) == r && get_child(car(literals_inits), 1) == n, "the string is defined before the expression"); ENSURE(gensym_ix == gs0 && contains_side_effects == cs0, "nothing else"); CALLS(O0) REACH(); }
/* K: operand 1 is a call (1), an identifier (2) */
void H_unary(void) { BEGIN() g_M = new_ast1(OPC, A(1)); r = handle_side_effects_go(g_M, COND); ONCE(1) ENSURE(get_op(r) == OPC && get_nb_children(r) == 1 && get_child(r, 0) == g_R[1], "the operation on the operand"); ENSURE(g_gs[1] >= gs0 && gensym_ix >= g_gs[1] + g_d[1], "temporaries of the operand stay live");
  ENSURE(contains_side_effects == (cs0 || g_s[1] || OPC == PLUS_PLUS_PRE || OPC == PLUS_PLUS_POST || OPC == MINUS_MINUS_PRE || OPC == MINUS_MINUS_POST), "side effects are known"); CALLS(O1) OTHER() REACH(); }
void H_sizeof(void) { BEGIN() g_M = new_ast1(SIZEOF_KW, A(1)); r = handle_side_effects_go(g_M, COND); ENSURE(r == g_M && g_calls[1] == 0 && gensym_ix == gs0 && contains_side_effects == cs0, "the operand of sizeof is not evaluated"); CALLS(O0) OTHER() REACH(); }
void H_cast(void) { BEGIN() g_M = new_ast2(CAST, A(2), A(1)); r = handle_side_effects_go(g_M, COND); ONCE(1) ENSURE(get_op(r) == CAST && get_child(r, 0) == A(2) && get_child(r, 1) == g_R[1] && g_calls[2] == 0, "the operation on the operand"); ENSURE(g_gs[1] >= gs0 && gensym_ix >= g_gs[1] + g_d[1], "temporaries of the operand stay live"); ENSURE(contains_side_effects == (cs0 || g_s[1]), "side effects are known"); CALLS(O1) OTHER() REACH(); }
/* K == 1: the left operand of = has side effects and the right one is a call */
static int a1(void) { return K == 1 ? (g_D[1] = new_ast1('*', new_ast1(PLUS_PLUS_POST, A(1)))) : A(1); }
static int a2(void) { return K == 1 ? (g_D[2] = new_ast2('(', A(1), 0)) : A(2); }
void H_binary(void) { int asg; BEGIN() i = a1(); g_M = new_ast2(OPC, i, a2()); r = handle_side_effects_go(g_M, COND); ONCE(1) ONCE(2) ENSURE(get_op(r) == OPC && get_nb_children(r) == 2 && get_child(r, 0) == g_R[1] && get_child(r, 1) == g_R[2], "the operation on the operands");
  ENSURE(g_gs[1] >= gs0 && g_when[1] < g_when[2] && g_gs[2] >= g_gs[1] + g_d[1] && gensym_ix >= g_gs[2] + g_d[2], "temporaries of an operand stay live");
  asg = OPC == '=' || OPC == AMP_EQ || OPC == BAR_EQ || OPC == CARET_EQ || OPC == LSHIFT_EQ || OPC == MINUS_EQ || OPC == PERCENT_EQ || OPC == PLUS_EQ || OPC == RSHIFT_EQ || OPC == SLASH_EQ || OPC == STAR_EQ;
  ENSURE(contains_side_effects == (cs0 || asg || g_s[1] || g_s[2]), "side effects are known"); CALLS(O2) OTHER() REACH(); }
/* assignment of a call to a left operand without side effects; K: kinds of left operand */
void H_assigncall(void) { int lhs; BEGIN() lhs = K == 0 ? A(1) : K == 1 ? new_ast1('*', A(1)) : K == 2 ? new_ast2('[', A(1), new_ast2('+', A(2), new_ast0(INTEGER, -3))) : new_ast2(ARROW, new_ast2(CAST, A(2), A(1)), A(3)); n = new_ast2('(', A(1), 0); g_M = new_ast2('=', lhs, n);
  r = handle_side_effects_go(g_M, COND); ENSURE(r == g_R[4] && g_ncall == 1 && g_call == n && g_to == lhs && g_ccond == (COND), "the call stores its result in the left operand"); CALLS(O0) REACH(); }
void H_call(void) { BEGIN() g_M = new_ast2('(', A(1), 0); r = handle_side_effects_go(g_M, COND); ENSURE(r == g_R[4] && g_ncall == 1 && g_call == g_M && g_to == 0 && g_ccond == (COND), "the call stores its result in a temporary"); CALLS(O0) REACH(); }
void H_logic(void) { int l; BEGIN() g_M = new_ast2(OPC, A(1), A(2)); r = handle_side_effects_go(g_M, COND);
  ENSURE(get_op(r) == OPC && get_nb_children(r) == 4 && get_child(r, 0) == g_R[1] && get_child(r, 1) == g_R[2], "the operation on the operands"); ENSURE(g_calls[1] == 1 && g_calls[2] == 1 && g_cond[1] && g_cond[2] && g_when[1] < g_when[2], "operands are treated once, conditionally");
  ne = 0; if (g_L[1]) { exp_[0] = g_cell[1]; ne = 1; } ENSURE(chain(get_child(r, 2)), "the calls of the left operand belong to it"); ne = 0; if (g_L[2]) { exp_[0] = g_cell[2]; ne = 1; } ENSURE(chain(get_child(r, 3)), "the calls of the right operand belong to it");
  ENSURE(g_gs[1] >= gs0 && g_gs[2] >= gs0 && gensym_ix >= gs0, "live temporaries are kept"); ENSURE(contains_side_effects == (cs0 || g_s[1] || g_s[2]), "side effects are known"); CALLS(O0) OTHER() REACH(); }
void H_again(void) { BEGIN() g_M = new_ast4(OPC, A(1), A(2), g_cell[1], g_cell[2]); r = handle_side_effects_go(g_M, COND); ENSURE(r == g_M && g_calls[1] == 0 && g_calls[2] == 0 && gensym_ix == gs0, "calls are taken out once"); CALLS(O0) OTHER() REACH(); }
void H_ternary(void) { BEGIN() if (g_L[2] || g_L[3]) { vf_exit_ok = 1; REACH(); } g_M = new_ast3('?', A(1), A(2), A(3)); r = handle_side_effects_go(g_M, COND); ENSURE(!vf_exit_ok, "calls in the last two operands are rejected"); ONCE(1)
  ENSURE(get_op(r) == '?' && get_nb_children(r) == 3 && get_child(r, 0) == g_R[1] && get_child(r, 1) == g_R[2] && get_child(r, 2) == g_R[3], "the operation on the operands"); ENSURE(g_calls[2] == 1 && g_cond[2] && g_calls[3] == 1 && g_cond[3], "the last two operands are conditional"); ENSURE(g_gs[1] >= gs0 && gensym_ix >= g_gs[1] + g_d[1], "temporaries stay live");
  ENSURE(contains_side_effects == (cs0 || g_s[1] || g_s[2] || g_s[3]), "side effects are known"); CALLS(O1) OTHER() if (!vf_exit_ok) REACH(); }
/* N arguments; K: 1 the result has a place (assign_to) */
static int alist(int i) { return i > N ? 0 : cons(A(i), alist(i + 1)); }
void H_funcall(void) { int l, a[5], res; BEGIN() g_M = 0; l = 0; for (i = N; i >= 1; i -= 1) { l = cons(A(i), l); a[i] = l; } n = new_ast2('(', A(4), l); res = K ? g_R[4] : 0;
  r = handle_fun_call_side_effect(n, res, COND);
  ENSURE(K ? r == res : get_op(r) == IDENTIFIER_INTERNAL && text_pool[get_val(r)] == TEXT_INTEGER && text_pool[get_val(r) + 1] > gs0 && text_pool[get_val(r) + 1] <= gensym_ix && text_pool[get_val(r) + 1] <= fun_gensym_ix, "the result has a place that holds no other value, and keeps it");
  ENSURE(get_child(n, 1) == l && get_child(n, 0) == A(4), "the function called");
  ne = 0; if (PRV & (COND ? 2 : 1)) { exp_[ne] = COND ? z2 : z1; ne += 1; }
  for (i = 1; i <= N; i += 1) { ONCE(i) ENSURE(car(a[i]) == g_R[i] && tail(a[i]) == (i < N ? a[i + 1] : 0), "arguments in order"); ENSURE(g_when[i] == i && g_gs[i] >= (i == 1 ? gs0 : g_gs[i - 1] + g_d[i - 1]), "temporaries of the arguments stay live"); if (g_L[i]) { exp_[ne] = g_cell[i]; ne += 1; } }
  i = COND ? conditional_fun_calls_tail : replaced_fun_calls_tail; exp_[ne] = i; ne += 1; ENSURE(get_op(car(i)) == '=' && get_child(car(i), 0) == r && get_child(car(i), 1) == n, "the call, with its place");
  ENSURE(chain(COND ? conditional_fun_calls : replaced_fun_calls), "the calls of the arguments come before the call"); ne = 0; if (PRV & (COND ? 1 : 2)) { exp_[0] = COND ? z1 : z2; ne = 1; } ENSURE(chain(COND ? replaced_fun_calls : conditional_fun_calls), "the other calls unchanged");
  ENSURE(gensym_ix >= gs0 && fun_gensym_ix >= gensym_ix && literals_inits == ll0, "live temporaries are kept"); REACH(); }
/* comp_rvalue: N calls, K string literals */
void H_rvalue(void) { int test, l; BEGIN() g_V = A(1); g_res = A(2); { bool q, w; g_cs = q != 0; g_gocse = w != 0; } g_ll = g_rl = 0; append_glo_decl(-'Z');
  for (i = N; i >= 1; i -= 1) g_rl = cons(new_ast2('=', g_R[i], A(i)), g_rl); for (i = K; i >= 1; i -= 1) g_ll = cons(new_ast2('=', g_R[i], i + 100), g_ll);
  l = glo_decl_ix; r = comp_rvalue(A(1), CTX); test = (CTX) == RVALUE_CTX_TEST || (CTX) == RVALUE_CTX_TEST_ELSEIF;
  ENSURE(g_go == A(2) && g_goctx == (test ? RVALUE_CTX_TEST : CTX), "the expression without its calls"); ENSURE(!(g_cs || g_gocse) || contains_side_effects, "side effects are known");
  ENSURE(g_ncalls == N && g_nd == K, "calls and strings, once"); for (i = 0; i < N; i += 1) ENSURE(g_fn[i] == A(i + 1) && g_ft[i] == g_R[i + 1], "call with the place of its result"); for (i = 0; i < K; i += 1) ENSURE(g_dn[i] == g_R[i + 1] && g_ds[i] == i + 101, "string with its name");
  str("Z\n"); if ((CTX) != RVALUE_CTX_TEST_ELSEIF) for (i = 0; i < K; i += 1) { put('P' + i); put('\n'); } if (!test) for (i = 0; i < N; i += 1) { put('F' + i); put('\n'); }
  if ((CTX) == RVALUE_CTX_TEST_ELSEIF) for (i = 0; i < K; i += 1) { put('P' + i); put(';'); put(' '); } if (test) for (i = 0; i < N; i += 1) { put('F' + i); put(';'); put(' '); } put('C');
  print_glo_decls(); print_text(r); ENSURE(same(), "strings, then calls in order, then the expression; in a test, calls are part of it"); REACH(); }
void H_all(void) { BEGIN() g_M = 0; replaced_fun_calls = conditional_fun_calls = literals_inits = 7; r = handle_side_effects(A(1)); ENSURE(r == g_R[1] && g_calls[1] == 1 && !g_cond[1] && contains_side_effects == g_s[1], "the expression"); ENSURE(literals_inits == 0 && conditional_fun_calls == 0, ""); ne = 0; if (g_L[1]) { exp_[0] = g_cell[1]; ne = 1; } ENSURE(chain(replaced_fun_calls), "with its calls"); REACH(); }
/* lvalues */
void H_lvalue(void) { int ctx; BEGIN() g_V = A(4); g_M = OPC == '[' ? new_ast2('[', A(1), A(2)) : OPC == '*' ? new_ast1('*', A(1)) : OPC == ARROW ? new_ast2(ARROW, A(1), A(3)) : OPC == CAST ? new_ast2(CAST, A(1), A(4)) : OPC == PARENS ? new_ast1(PARENS, A(4)) : new_ast0(OPC, 0);
  r = K ? comp_lvalue_address(g_M) : comp_lvalue(g_M); print_text(r);
  if (OPC == '[') str(K ? "B + C" : "_$((B + C))"); else if (OPC == ARROW) str(K ? "B + m" : "_$((B + m))"); else if (OPC == '*') str(K ? "B" : "_B"); else if (OPC == CAST || OPC == PARENS) str("L"); else str("v");
  ENSURE(same(), "the object the lvalue designates"); ctx = OPC == '*' ? RVALUE_CTX_BASE : RVALUE_CTX_ARITH_EXPANSION; ENSURE(OPC != '[' && OPC != ARROW && OPC != '*' || g_rc[1] == 1 && g_rx[1] == ctx, "base evaluated once"); ENSURE(OPC != '[' || g_rc[2] == 1 && g_rx[2] == ctx, "index evaluated once"); ENSURE(OPC != ARROW || g_mem == A(3), "member"); ENSURE(OPC != CAST && OPC != PARENS || g_go == A(4), "lvalue behind"); ENSURE(OPC == '[' || OPC == ARROW || OPC == '*' || OPC == CAST || OPC == PARENS || g_lv == g_M, "variable"); REACH(); }
void H_params(void) { int l; BEGIN() l = 0; for (i = N; i >= 1; i -= 1) l = cons(A(i), l); r = fun_call_params(l); if (r) print_text(r); for (i = 1; i <= N; i += 1) { if (i > 1) put(' '); put('A' + i); ENSURE(g_rc[i] == 1 && g_rx[i] == RVALUE_CTX_BASE && g_when[i] == i, "arguments are words, in order"); } ENSURE(same(), "arguments separated by spaces"); REACH(); }
void H_callcode(void) { int nm, to, pr; BEGIN() g_M = -1; string_pool[0] = 'f'; string_pool[1] = 0; string_pool[3] = 'h'; string_pool[4] = 0; n = heap_alloc; heap_alloc += 5; heap[n + 1] = K == 2 ? 3 : 0; pr = n; nm = n; if (OPC == 0) { PUTS_ID = PUTSTR_ID = PRINTF_ID = PUTCHAR_ID = EXIT_ID = 5; }
  else { PUTS_ID = PUTSTR_ID = PRINTF_ID = PUTCHAR_ID = EXIT_ID = 5; if (OPC == 1) PUTCHAR_ID = nm; if (OPC == 2) EXIT_ID = nm; if (OPC == 3) PRINTF_ID = nm; if (OPC == 4) PUTS_ID = nm; if (OPC == 5) PUTSTR_ID = nm; }
  to = K ? new_ast0(IDENTIFIER_EMPTY, 0) : A(4); g_V = to; i = cons(A(1), N > 1 ? cons(A(2), 0) : 0);
  r = comp_fun_call_code(new_ast2('(', new_ast0(IDENTIFIER, nm), i), to); print_text(r);
  if (K && OPC == 1 && N == 1) { str("Q"); ENSURE(g_ft[0] == A(1), "prints its argument"); }
  else if (K && OPC == 2 && N == 1) { str("exit B"); ENSURE(g_rc[1] == 1 && g_rx[1] == RVALUE_CTX_BASE, "exit with the value"); }
  else { str("_f L P"); ENSURE(g_go == to && g_ncall == i, "function, place of the result, arguments"); }
  ENSURE(same(), "the call"); REACH(); }
void H_putchar(void) { int c; BEGIN() g_cs = K; 
  c = g_A1; if (OPC != 0) { heap[g_A1] = heap[new_ast0(OPC, 0)]; heap[g_A1 + 1] = N; } g_V = -1; g_M = -1; gensym_ix = 4; fun_gensym_ix = 4;
  r = comp_putchar_inline(g_A1); g_V = OPC == IDENTIFIER ? 'B' : 0;
  print_glo_decls(); print_text(r);
  if (OPC == CHARACTER && N >= 32 && N < 127) { str("printf \""); put(N); put('"'); } else if (K) { str("v=$((B))\n"); str("printf \\\\$((v/64))$((v/8%8))$((v%8))"); } else if (OPC == IDENTIFIER) str("printf \\\\$((B/64))$((B/8%8))$((B%8))"); else str("printf \\\\$(((B)/64))$(((B)/8%8))$(((B)%8))");
  ENSURE(same(), "the three octal digits of the value, which is computed once"); REACH(); }
#endif

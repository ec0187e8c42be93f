/* VF_DROP_OK: the contracts call no function */
/* S03: statements of the shell back end.  Each statement form is compiled by the real code, its sub-statements and
 * expressions by their contracts: sub-statement i emits one line with the letter 'R' + i (or none, EM[i] = '0'), which
 * stands for any lines, and returns TM[i] (it never completes normally); expression i is the letter 'B' + i.  The lines
 * printed by the real print_glo_decls are compared with the shell construct that has the meaning of the C statement. */
#include "vf.h"
#include "repo/pnut.c"
CONTRACT(void fatal_error(char *msg) __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))
#ifndef TM
#define TM "00000"
#endif
#ifndef EM
#define EM "11111"
#endif
#ifndef TAIL
#define TAIL 0
#endif
#ifndef K
#define K 0
#endif
#ifndef ENV
#define ENV ""
#endif
#ifndef CTX
#define CTX 0
#endif
#ifndef BRK
#define BRK 0
#endif
#ifndef PRE1
#define PRE1 0
#endif
#ifndef NULL1
#define NULL1 0
#endif
#ifndef OPC
#define OPC 0
#endif
#ifndef SOP
#define SOP IDENTIFIER_INTERNAL
#endif
#ifdef VF_CBMC
int g_M, g_S1, g_C1, g_w, g_lb, g_N, g_T[6], g_E[6], g_calls[6], g_tail[6], g_sctx[6], g_env[6], g_nest[6], g_rctx[6], g_rcalls[6], g_order, g_when[6], g_rwhen[6];
int g_if, g_ifctx, g_ifcalls, g_call, g_to, g_ncall, g_f, g_a1, g_a2, g_a3, g_a4, g_a5, g_nf, g_fr;
#define SI(n) (((n) != 0) * (((n) - g_S1) / g_w + 1))
#define CI(n) (((n) - g_C1) / g_w + 1)
#define LINE1(c) glo_decls[glo_decl_ix], glo_decls[glo_decl_ix + 1], glo_decls[glo_decl_ix + 2]
#define LINE2(c) (glo_decls[__CPROVER_old(glo_decl_ix)] == nest_level && glo_decls[__CPROVER_old(glo_decl_ix) + 1] == 1 && glo_decls[__CPROVER_old(glo_decl_ix) + 2] == -(c))
CONTRACT(bool comp_statement(ast node, STMT_CTX stmt_ctx)
  __CPROVER_requires(node == g_M || SI(node) >= 0 && SI(node) <= 5 && g_calls[SI(node)] == 0)
  __CPROVER_assigns(node == g_M: __CPROVER_object_whole(text_pool), text_alloc, __CPROVER_object_whole(glo_decls), glo_decl_ix, __CPROVER_object_whole(heap), heap_alloc, alloc_result, ast_result, in_tail_position, gensym_ix, __CPROVER_object_whole(g_calls), __CPROVER_object_whole(g_tail), __CPROVER_object_whole(g_sctx), __CPROVER_object_whole(g_env), __CPROVER_object_whole(g_nest), __CPROVER_object_whole(g_when), __CPROVER_object_whole(g_rcalls), __CPROVER_object_whole(g_rctx), __CPROVER_object_whole(g_rwhen), g_order, contains_side_effects, nest_level, cgc_locals, g_f, g_a1, g_a2, g_a3, g_a4, g_a5, g_nf, g_call, g_to, g_ncall, g_ifcalls, g_ifctx;
    node != g_M && g_E[SI(node)] == 1: LINE1(0); node != g_M: glo_decl_ix, in_tail_position, heap[g_lb + 4], g_order, g_calls[SI(node)], g_tail[SI(node)], g_sctx[SI(node)], g_env[SI(node)], g_nest[SI(node)], g_when[SI(node)])
  __CPROVER_ensures(node == g_M || (glo_decl_ix == __CPROVER_old(glo_decl_ix) + 3 * g_E[SI(node)]))
  __CPROVER_ensures(node == g_M || (g_E[SI(node)] != 1 || LINE2('R' + SI(node))))
  __CPROVER_ensures(node == g_M || (heap[g_lb + 4] == (BRK || __CPROVER_old(heap[g_lb + 4]) != 0)))
  __CPROVER_ensures(node == g_M || (g_T[SI(node)] || !in_tail_position || __CPROVER_old(in_tail_position)))
  __CPROVER_ensures(node == g_M || (g_calls[SI(node)] == (node != 0) && g_tail[SI(node)] == __CPROVER_old(in_tail_position) && g_sctx[SI(node)] == stmt_ctx && g_env[SI(node)] == cgc_locals && g_nest[SI(node)] == nest_level && g_order == __CPROVER_old(g_order) + 1 && g_when[SI(node)] == g_order))
  __CPROVER_ensures(node == g_M || (__CPROVER_return_value == g_T[SI(node)])))
CONTRACT(text comp_rvalue(ast node, int context)
  __CPROVER_requires(CI(node) >= 1 && CI(node) <= 5 && g_rcalls[CI(node)] == 0)
  __CPROVER_assigns(PRE1: LINE1(0); glo_decl_ix, contains_side_effects, g_order, g_rcalls[CI(node)], g_rctx[CI(node)], g_rwhen[CI(node)])
  __CPROVER_ensures(glo_decl_ix == __CPROVER_old(glo_decl_ix) + 3 * PRE1 && (!PRE1 || LINE2('b' + CI(node))))
  __CPROVER_ensures(contains_side_effects == K)
  __CPROVER_ensures(g_rcalls[CI(node)] == 1 && g_rctx[CI(node)] == context && g_order == __CPROVER_old(g_order) + 1 && g_rwhen[CI(node)] == g_order && __CPROVER_return_value == -('B' + CI(node))))
CONTRACT(bool comp_if(ast node, STMT_CTX stmt_ctx)
  __CPROVER_requires(node == g_N || node == g_if && g_ifcalls == 0)
  __CPROVER_assigns(node == g_N: __CPROVER_object_whole(text_pool), text_alloc, __CPROVER_object_whole(glo_decls), __CPROVER_object_whole(heap), heap_alloc, alloc_result, ast_result, __CPROVER_object_whole(g_calls), __CPROVER_object_whole(g_tail), __CPROVER_object_whole(g_sctx), __CPROVER_object_whole(g_env), __CPROVER_object_whole(g_nest), __CPROVER_object_whole(g_when), __CPROVER_object_whole(g_rcalls), __CPROVER_object_whole(g_rctx), __CPROVER_object_whole(g_rwhen), g_order, contains_side_effects, nest_level, cgc_locals, g_f, g_a1, g_nf;
    node == g_if: LINE1(0); glo_decl_ix, in_tail_position, g_ifcalls, g_ifctx)
  __CPROVER_ensures(node == g_N || glo_decl_ix == __CPROVER_old(glo_decl_ix) + 3 && LINE2('I') && g_ifcalls == 1 && g_ifctx == stmt_ctx && __CPROVER_return_value == g_T[2]))
CONTRACT(void comp_fun_call(ast node, ast to) __CPROVER_assigns(LINE1(0), glo_decl_ix, g_call, g_to, g_ncall) __CPROVER_ensures(glo_decl_ix == __CPROVER_old(glo_decl_ix) + 3 && LINE2('F') && g_call == node && g_to == to && g_ncall == __CPROVER_old(g_ncall) + 1))
CONTRACT(text comp_lvalue(ast node) __CPROVER_assigns(g_a1) __CPROVER_ensures(g_a1 == node && __CPROVER_return_value == -'V'))
#define REC(k, c1) __CPROVER_assigns(g_f, g_a1, g_nf) __CPROVER_ensures(g_f == (k) && g_a1 == (c1) && g_nf == __CPROVER_old(g_nf) + 1)
CONTRACT(bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX stmt_ctx) __CPROVER_assigns(g_f, g_a1, g_a2, g_a3, g_a4, g_a5, g_nf, g_order, g_when[0]) __CPROVER_ensures(g_f == 1 && g_a1 == cond && g_a2 == body && g_a3 == loop_end_stmt && g_a4 == last_line && g_a5 == stmt_ctx && g_nf == __CPROVER_old(g_nf) + 1 && __CPROVER_return_value == g_T[5] && g_order == __CPROVER_old(g_order) + 1 && g_when[0] == g_order))
CONTRACT(bool comp_switch(ast node) REC(2, node) __CPROVER_ensures(__CPROVER_return_value == g_T[5]))
CONTRACT(bool comp_break(void) REC(3, 0) __CPROVER_ensures(__CPROVER_return_value == g_T[5]))
CONTRACT(bool comp_continue(void) REC(4, 0) __CPROVER_ensures(__CPROVER_return_value == g_T[5]))
CONTRACT(bool comp_return(ast v) REC(5, v) __CPROVER_ensures(__CPROVER_return_value == g_T[5]))
CONTRACT(bool comp_body(ast node, STMT_CTX c) __CPROVER_assigns(g_f, g_a1, g_a5, g_nf) __CPROVER_ensures(g_f == 6 && g_a1 == node && g_a5 == c && g_nf == __CPROVER_old(g_nf) + 1 && __CPROVER_return_value == g_T[5]))
CONTRACT(void comp_assignment(ast lhs, ast rhs) __CPROVER_assigns(g_f, g_a1, g_a2, g_nf) __CPROVER_ensures(g_f == 7 && g_a1 == lhs && g_a2 == rhs && g_nf == __CPROVER_old(g_nf) + 1))
CONTRACT(void comp_var_decls(ast node) REC(8, node))

unsigned char x[200]; int xn, exact;
static void put(int c) { x[xn] = c; xn += 1; }
static void lin(int level, char *s) { int i; for (i = 0; i < 2 * level; i += 1) put(' '); for (i = 0; s[i] != 0; i += 1) put(s[i]); put('\n'); }
static void stm(int level, int i) { char b[2]; if (g_E[i]) { b[0] = 'R' + i; b[1] = 0; lin(level, b); } }
static void pre(int i) { char b[2]; if (PRE1) { b[0] = 'b' + i; b[1] = 0; lin(1, b); } }
static int same(void) { int i, ok; ok = xn == vf_out_n; for (i = 0; i < xn; i += 1) if (x[i] != vf_out[i]) ok = 0; return ok; }
static void add_env(char c) { if (c == 'L') { cgc_add_enclosing_loop(); } else if (c == 's' || c == 'S') { cgc_add_enclosing_switch(c == 'S'); } else cgc_locals = cgc_add_local(BINDING_VAR_LOCAL, 0, 0, cgc_locals); }
#define S(i) (g_S1 + ((i) - 1) * g_w)
#define C(i) (g_C1 + ((i) - 1) * g_w)
#define BEGIN() int i, r, n; static char tm[] = TM, em[] = EM, env[] = ENV; { char tm_[] = TM, em_[] = EM, env_[] = ENV; for (i = 0; i < sizeof tm_; i += 1) tm[i] = tm_[i]; for (i = 0; i < sizeof em_; i += 1) em[i] = em_[i]; for (i = 0; i < sizeof env_; i += 1) env[i] = env_[i]; } \
  vf_exit_ok = 0; string_pool[0] = 'l'; string_pool[1] = 0; heap_alloc = 10; text_alloc = 1; vf_out_n = 0; xn = 0; glo_decl_ix = 0; nest_level = 1; gensym_ix = 0; cgc_locals = 0; rest_loc_var_fixups = 0; in_tail_position = TAIL; g_order = g_ncall = g_nf = g_lb = g_ifcalls = g_if = g_N = 0; g_M = -1; contains_side_effects = K; \
  for (i = 0; i < VF_OUT_MAX; i += 1) vf_out[i] = 0; for (i = 0; i < HEAP_SIZE; i += 1) heap[i] = 0; for (i = 0; i < 6; i += 1) { g_calls[i] = g_rcalls[i] = 0; g_T[i] = i == 0 ? 0 : tm[i - 1] - '0'; g_E[i] = i == 0 ? 0 : em[i - 1] - '0'; } \
  g_S1 = new_ast0(SOP, 0); g_w = new_ast0(SOP, 0) - g_S1; for (i = 0; i < 3; i += 1) new_ast0(SOP, 0); g_C1 = new_ast0(IDENTIFIER_INTERNAL, 0); for (i = 0; i < 4; i += 1) new_ast0(IDENTIFIER_INTERNAL, 0); \
  for (i = 0; env[i] != 0; i += 1) add_env(env[i]);
#define LINES() print_glo_decls(); ENSURE(same(), "the lines of the shell construct"); ENSURE(nest_level == 1, "nesting restored");
/* K & 1: -, K & 2: first branch is the empty statement; ELSE: 0 none, 1 statement, 2 if statement */
#ifndef ELSE
#define ELSE 0
#endif
void H_if(void) { int ei; BEGIN() ei = (CTX) & STMT_CTX_ELSE_IF; i = cgc_locals;
  if (ELSE == 2) g_if = new_ast3(IF_KW, C(2), S(2), 0);
  g_N = new_ast3(IF_KW, C(1), NULL1 ? 0 : S(1), ELSE == 1 ? S(2) : ELSE == 2 ? g_if : 0);
  if (((CTX) & STMT_CTX_SWITCH) && g_T[1] != (ELSE != 0 && g_T[2])) { vf_exit_ok = 1; REACH(); }
  r = comp_if(g_N, CTX);
  ENSURE(!vf_exit_ok, "a break out of part of a case is rejected");
  pre(1); lin(1, ei ? "elif C ; then" : "if C ; then"); if (NULL1 || !g_E[1]) lin(2, ":"); else stm(2, 1);
  if (ELSE == 1) { lin(1, "else"); if (g_E[2]) stm(2, 2); else lin(2, ":"); }
  if (ELSE == 2) lin(1, "I");
  if (!ei) lin(1, "fi");
  LINES() ENSURE(cgc_locals == i, "scope restored");
  ENSURE(g_rctx[1] == (ei ? RVALUE_CTX_TEST_ELSEIF : RVALUE_CTX_TEST), "the condition of elif is inline");
  ENSURE(NULL1 || g_calls[1] == 1 && (!g_tail[1] || TAIL) && g_sctx[1] == ((CTX) & STMT_CTX_SWITCH), "first branch compiled in place");
  ENSURE(ELSE != 1 || g_calls[2] == 1 && (!g_tail[2] || TAIL || g_T[1]) && g_sctx[2] == ((CTX) & STMT_CTX_SWITCH), "second branch compiled in place");
  ENSURE(ELSE != 2 || g_ifcalls == 1 && g_ifctx == ((CTX) | STMT_CTX_ELSE_IF), "else if continues the construct");
  ENSURE(!r || g_T[1] && ELSE != 0 && g_T[2], "an if statement completes unless both branches do not");
  if (!vf_exit_ok) REACH(); }
/* COND: 0 none, 1 test; END: 0 none, 1 statement, 2 line */
#ifndef COND
#define COND 1
#endif
#ifndef END
#define END 0
#endif
void H_loop(void) { BEGIN() i = cgc_locals; g_lb = heap_alloc;
  r = comp_loop(COND == 2 ? -':' : COND ? -'C' : 0, NULL1 ? 0 : S(1), END == 1 ? S(2) : 0, END == 2 ? -'E' : 0, CTX);
  lin(1, COND == 1 ? "while C; do" : "while :; do"); if (!NULL1) stm(2, 1); if (END == 1) stm(2, 2); if (END == 2) lin(2, "E");
  if ((NULL1 || !g_E[1]) && !(END == 1 && g_E[2]) && END != 2) lin(2, ":");
  lin(1, "done"); LINES() ENSURE(cgc_locals == i, "scope restored");
  ENSURE(NULL1 || g_calls[1] == 1 && (!g_tail[1] || TAIL) && g_env[1] == g_lb, "the body is compiled in the scope of the loop");
  ENSURE(END != 1 || g_calls[2] == 1 && (NULL1 || g_when[2] < g_when[1]), "end of loop actions are known to the body");
  ENSURE(heap[g_lb] == i && heap[g_lb + 1] == BINDING_LOOP, "loop scope");
  /* what continue replays */
  n = vf_out_n; vf_out_n = 0; xn = 0; for (i = 0; i < glo_decl_ix; i += 3) glo_decls[i + 1] -= glo_decls[i + 1] == 1; i = glo_decl_ix; replay_glo_decls(heap[g_lb + 2], heap[g_lb + 3], true); if (END == 1) stm(1, 2); if (END == 2) lin(1, "E");
  print_glo_decls(); ENSURE(same(), "continue replays the end of loop actions");
  ENSURE(!r || COND == 2 && g_T[1] && !NULL1 && !BRK, "a loop completes unless it has no condition, no break and its body does not complete"); REACH(); }
void H_break(void) { int b, k; BEGIN() b = 0; for (i = 0; env[i] != 0; i += 1) if (env[i] != 'v') b = env[i];
  if (b == 0) { vf_exit_ok = 1; REACH(); }
  r = comp_break(); ENSURE(!vf_exit_ok, "break outside of a loop or switch is rejected");
  if (b == 'L') lin(1, "break"); LINES() ENSURE(r == 1, "a break statement does not complete");
  b = 0; for (k = cgc_locals; k != 0; k = heap[k]) { if (heap[k + 1] == BINDING_LOOP) { ENSURE(b == 0 ? heap[k + 4] == 1 : heap[k + 4] == 0, "the loop that is left has a break"); b = 1; } else if (heap[k + 1] == BINDING_SWITCH) b = 1; }
  if (!vf_exit_ok) REACH(); }
void H_continue(void) { int b, a; BEGIN() b = 0; for (a = cgc_locals; a != 0 && b == 0; a = heap[a]) if (heap[a + 1] == BINDING_LOOP) b = a;
  append_glo_decl(-'P'); if (b) { heap[b + 2] = glo_decl_ix; if (K & 1) append_glo_decl(-'Q'); if (K & 2) append_glo_decl(-'R'); undo_glo_decls(heap[b + 2]); heap[b + 3] = glo_decl_ix; } append_glo_decl(-'W');
  nest_level = 2; if (b == 0) { vf_exit_ok = 1; REACH(); }
  r = comp_continue(); ENSURE(!vf_exit_ok, "continue outside of a loop is rejected"); nest_level = 1;
  lin(1, "P"); lin(1, "W"); if (K & 1) lin(2, "Q"); if (K & 2) lin(2, "R"); lin(2, "continue"); LINES() if (!vf_exit_ok) REACH(); }
/* K: 0 no value, 1 value, 2 call */
void H_return(void) { int d, t, f; BEGIN() d = 0; t = TAIL; for (i = 0; env[i] != 0; i += 1) d += env[i] == 'L'; n = 0; for (i = 0; env[i] != 0; i += 1) if (env[i] != 'v') n = env[i]; if (n == 'S') t = 1;
  g_N = K == 2 ? new_ast2('(', C(1), 0) : K == 1 ? C(1) : 0; 
  r = comp_return(g_N); ENSURE(r == 1, "a return statement does not complete");
  if (K == 2) lin(1, "F"); if (K == 1) { pre(1); lin(1, ": $(($1 = C))"); }
  f = 0; if (rest_loc_var_fixups != 0) { f = car(rest_loc_var_fixups); ENSURE(tail(rest_loc_var_fixups) == 0, "one fixup"); fixup_glo_decl(f, -'X'); }
  if (!t) { lin(1, "X"); lin(1, "return"); } else if (f) { lin(1, "X"); lin(1, "return"); } else if (d == 1) lin(1, "break"); else if (d > 1) { lin(1, "break n"); x[xn - 2] = '0' + d; }
  LINES() ENSURE(K != 2 || g_call == g_N && g_ncall == 1 && get_op(g_to) == IDENTIFIER_DOLLAR && get_val(g_to) == 1, "a call stores its result in the location of the result");
  ENSURE(K != 1 || g_rctx[1] == RVALUE_CTX_ARITH_EXPANSION && g_rcalls[1] == 1, "the value is computed once"); REACH(); }
#ifndef NST
#define NST 0
#endif
void H_body(void) { int l, m; BEGIN() l = 0; for (i = NST; i >= 1; i -= 1) l = new_ast2('{', S(i), l); m = cgc_locals;
  r = comp_body(l, CTX); n = 0; for (i = 1; i <= NST; i += 1) { if (n == 0) { stm(1, i); ENSURE(g_calls[i] == 1 && g_sctx[i] == CTX, "statements are compiled in order"); ENSURE(!g_tail[i] || TAIL && i == NST, "only the last statement of a block in tail position is in tail position"); ENSURE(i == 1 || g_when[i] > g_when[i - 1], "in order"); } if (g_T[i]) n = 1; }
  LINES() ENSURE(cgc_locals == m, "scope restored"); ENSURE(!r || n, "a block completes unless one of its statements does not"); ENSURE(r || !n || TAIL >= 0, ""); ENSURE(n == (r != 0), "a block that does not complete ends its conditional block"); REACH(); }
#ifndef SHAPE
#define SHAPE ""
#endif
static int s_start[6], s_kind[6], s_c[6];
static void clause(int k, int ns) { int i, c; c = s_c[k]; 
  if (PRE1) { if (s_kind[k] != 'd') { for (i = 0; i < (s_kind[k] == 'C' ? 2 : 1); i += 1) { char b[2]; b[0] = 'b' + c + i; b[1] = 0; lin(2, b); } } }
  put(' '); put(' '); put(' '); put(' ');
  if (s_kind[k] == 'c') { put('B' + c); } else if (s_kind[k] == 'C') { put('B' + c); put('|'); put('B' + c + 1); } else if (s_kind[k] == 'E') { put('*'); put('|'); put('B' + c); } else put('*');
  put(')'); put('\n'); for (i = s_start[k]; i < s_start[k + 1]; i += 1) { stm(3, i); if (g_T[i]) break; } lin(2, ";;"); }
void H_switch(void) { int l, m, nk, c, k, st[6]; static char shp[] = SHAPE; BEGIN() { char shp_[] = SHAPE; for (i = 0; i < sizeof shp_; i += 1) shp[i] = shp_[i]; } m = cgc_locals; l = 0; nk = 0; c = 2;
  for (i = 1; shp[i - 1] != 0; i += 1) { k = shp[i - 1]; if (k != 's') { nk += 1; s_start[nk] = i; s_kind[nk] = k; s_c[nk] = c; }
    st[i] = k == 's' ? S(i) : k == 'c' ? new_ast2(CASE_KW, C(c), S(i)) : k == 'd' ? new_ast1(DEFAULT_KW, S(i)) : k == 'C' ? new_ast2(CASE_KW, C(c), new_ast2(CASE_KW, C(c + 1), S(i))) : k == 'D' ? new_ast2(CASE_KW, C(c), new_ast1(DEFAULT_KW, S(i))) : new_ast1(DEFAULT_KW, new_ast2(CASE_KW, C(c), S(i)));
    c += k == 'C' ? 2 : k != 's' && k != 'd'; }
  s_start[nk + 1] = i; for (i = i - 1; i >= 1; i -= 1) l = new_ast2('{', st[i], l);
  if (K == 9) l = st[1];   /* the body is a single case statement */
  r = comp_switch(new_ast2(SWITCH_KW, C(1), l));
  pre(1); lin(1, "case C in");
  for (k = 1; k <= nk; k += 1) if (s_kind[k] == 'c' || s_kind[k] == 'C') clause(k, 0);
  for (k = 1; k <= nk; k += 1) if (s_kind[k] != 'c' && s_kind[k] != 'C') clause(k, 0);
  lin(1, "esac"); LINES() ENSURE(cgc_locals == m, "scope restored");
  for (i = 1; shp[i - 1] != 0; i += 1) if (g_calls[i]) { ENSURE(g_tail[i] == 0 && g_sctx[i] == STMT_CTX_SWITCH, "statements of a case are compiled as such"); ENSURE(g_env[i] != 0 && heap[g_env[i]] == m && heap[g_env[i] + 1] == BINDING_SWITCH && heap[g_env[i] + 2] == TAIL, "in the scope of the switch"); }
  ENSURE(g_rctx[1] == RVALUE_CTX_BASE, "the value is a word"); ENSURE(!r, "a switch completes"); REACH(); }
void H_stmt(void) { int nd; BEGIN() nd = OPC == IF_KW ? new_ast3(IF_KW, C(1), S(1), 0) : OPC == WHILE_KW ? new_ast2(WHILE_KW, C(1), S(1)) : OPC == DO_KW ? new_ast2(DO_KW, S(1), C(1)) : OPC == FOR_KW ? new_ast4(FOR_KW, S(2), COND ? C(1) : 0, END ? S(3) : 0, S(1))
    : OPC == SWITCH_KW ? new_ast2(SWITCH_KW, C(1), 0) : OPC == BREAK_KW || OPC == CONTINUE_KW ? new_ast0(OPC, 0) : OPC == RETURN_KW ? new_ast1(RETURN_KW, C(1)) : OPC == '(' ? new_ast2('(', C(2), 0) : OPC == '{' ? new_ast2('{', S(1), 0) : OPC == '=' ? new_ast2('=', C(1), C(2)) : OPC == ':' ? new_ast2(':', new_ast0(IDENTIFIER, 1), S(1)) : OPC == DECLS ? new_ast2(DECLS, 0, 0) : OPC == 0 ? 0 : C(1);
  g_if = OPC == IF_KW ? nd : 0; if (OPC == GOTO_KW || OPC == CASE_KW || OPC == DEFAULT_KW) { vf_exit_ok = 1; nd = OPC == GOTO_KW ? new_ast1(GOTO_KW, C(1)) : OPC == CASE_KW ? new_ast2(CASE_KW, C(1), S(1)) : new_ast1(DEFAULT_KW, S(1)); REACH(); }
  gensym_ix = 5; g_M = nd;
  g_nf = 0; r = comp_statement(nd, CTX);
  ENSURE(!vf_exit_ok, "unsupported statements are rejected");
  if (OPC == WHILE_KW || OPC == DO_KW || OPC == FOR_KW) {
    ENSURE(g_nf == 1 && g_f == 1 && g_a2 == S(1) && g_a5 == (CTX) && r == g_T[5], "loop with its body");
    ENSURE(OPC == FOR_KW && !COND || g_rcalls[1] == 1 && g_rctx[1] == RVALUE_CTX_TEST, "test evaluated on every iteration");
    ENSURE(OPC != WHILE_KW || g_a1 == -'C' && g_a3 == 0 && g_a4 == 0, "while loop");
    ENSURE(OPC != FOR_KW || g_a1 == (COND ? -'C' : -':') && g_a3 == (END ? S(3) : 0) && g_a4 == 0 && g_calls[2] == 1 && g_when[2] < g_when[0] && (!COND || g_when[2] < g_rwhen[1]), "for loop: initialisation first, then the test, with its end of loop action");
    if (OPC == FOR_KW) stm(1, 2); 
    if (OPC == DO_KW) { ENSURE(g_a3 == 0, "do loop has no end action"); print_text(g_a1); x[0] = ':'; xn = 1; ENSURE(same(), "a do loop has no condition at its start"); vf_out_n = 0; xn = 0; print_text(g_a4); lin(0, "C || break"); xn -= 1; ENSURE(same(), "a do loop ends unless its condition holds"); vf_out_n = 0; xn = 0; } 
    if (PRE1 && OPC != FOR_KW) pre(1); if (PRE1 && OPC == FOR_KW && COND) pre(1); }
  if (OPC == IF_KW) { ENSURE(g_ifcalls == 1 && g_ifctx == (CTX) && r == g_T[2], "if statement"); lin(1, "I"); }
  if (OPC == SWITCH_KW) ENSURE(g_nf == 1 && g_f == 2 && g_a1 == nd && r == g_T[5], "switch");
  if (OPC == BREAK_KW) ENSURE(g_nf == 1 && g_f == 3 && r == g_T[5], "break");
  if (OPC == CONTINUE_KW) ENSURE(g_nf == 1 && g_f == 4 && r == g_T[5], "continue");
  if (OPC == RETURN_KW) ENSURE(g_nf == 1 && g_f == 5 && g_a1 == C(1) && r == g_T[5], "return");
  if (OPC == '{') ENSURE(g_nf == 1 && g_f == 6 && g_a1 == nd && g_a5 == (CTX) && r == g_T[5], "block");
  if (OPC == '=') ENSURE(g_nf == 1 && g_f == 7 && g_a1 == C(1) && g_a2 == C(2) && !r, "assignment");
  if (OPC == DECLS) ENSURE(g_nf == 1 && g_f == 8 && g_a1 == nd && !r, "declaration");
  if (OPC == '(') { ENSURE(g_ncall == 1 && g_call == nd && get_op(g_to) == IDENTIFIER_EMPTY && !r, "call"); lin(1, "F"); }
  if (OPC == ':') { lin(1, "# l:"); stm(1, 1); ENSURE(r == g_T[1] && g_calls[1] == 1 && g_sctx[1] == (CTX), "labelled statement"); }
  if (OPC == 0) ENSURE(!r && g_nf == 0, "empty statement");
  if (OPC == IDENTIFIER_INTERNAL) { ENSURE(!r && g_rcalls[1] == 1, "expression statement"); pre(1); if (K) lin(1, ": C"); ENSURE(g_rctx[1] == RVALUE_CTX_BASE, "word"); }
  LINES() if (!vf_exit_ok) REACH(); }
/* comp_assignment: K: kind of the right operand (0 value, 2 call) */
void H_assignment(void) { int lhs, rhs; BEGIN() lhs = OPC == IDENTIFIER ? new_ast0(IDENTIFIER, 1) : OPC == '*' ? new_ast1('*', C(2)) : new_ast2(OPC, C(2), C(3)); rhs = K == 2 ? new_ast2('(', C(2), 0) : C(1);
  comp_assignment(lhs, rhs);
  if (K == 2) { ENSURE(g_ncall == 1 && g_call == rhs && g_to == lhs, "a call stores its result in the left operand"); lin(1, "F"); }
  else { pre(1); lin(1, OPC == IDENTIFIER ? "V=C" : ": $((V = C))"); ENSURE(g_a1 == lhs && g_rctx[1] == (OPC == IDENTIFIER ? RVALUE_CTX_BASE : RVALUE_CTX_ARITH_EXPANSION) && g_rcalls[1] == 1, "assignment to the left operand"); }
  LINES() REACH(); }
/* lines: N symbolic lines; undo, replay, any_active */
#define NL 4
#ifndef S0
#define S0 0
#define E0 3
#endif
void H_lines(void) { int i, s, e, a[12], want, j, n; bool re; nest_level = 3; 
  for (i = 0; i < NL; i += 1) { IN(int, l) IN(int, act) IN(int, t) REQUIRE(act <= 1 && act > -1000000 && l > -1000000); glo_decls[3 * i] = l; glo_decls[3 * i + 1] = act; glo_decls[3 * i + 2] = t; a[3 * i] = l; a[3 * i + 1] = act; a[3 * i + 2] = t; }
  glo_decl_ix = 3 * NL; s = S0; e = E0; { IN(bool, re_) re = re_; }
  if (K == 0) { undo_glo_decls(3 * s); for (i = 0; i < NL; i += 1) ENSURE(glo_decls[3 * i] == a[3 * i] && glo_decls[3 * i + 1] == a[3 * i + 1] - (i >= s) && glo_decls[3 * i + 2] == a[3 * i + 2], "lines from the start are undone once more"); ENSURE(glo_decl_ix == 3 * NL, "no line added"); }
  if (K == 1) { replay_glo_decls(3 * s, 3 * e, re); n = NL; for (i = s; i < e; i += 1) if (a[3 * i + 1] == 0) { ENSURE(glo_decls[3 * n + 2] == a[3 * i + 2] && glo_decls[3 * n + 1] == 1 && glo_decls[3 * n] == (re ? 3 : a[3 * i]), "lines undone once are replayed in order"); n += 1; }
    ENSURE(glo_decl_ix == 3 * n, "and nothing else"); for (i = 0; i < 3 * NL; i += 1) ENSURE(glo_decls[i] == a[i], "lines before unchanged"); }
  if (K == 2) { want = 0; for (i = s; i < NL; i += 1) want |= a[3 * i + 1] == 1 && a[3 * i + 2] != 0; for (i = 0; i < NL; i += 1) __CPROVER_assume(a[3 * i + 1] >= 0); ENSURE(any_active_glo_decls(3 * s) == want, "an active line"); }
  REACH(); }
#endif

/* VF_DROP_OK: the contracts call no function */
/* S04: functions, variables and names of the shell back end.
 * Names: every variable, parameter, temporary, member, function and string has a name of the shell that no other kind
 * of name has.  Functions: the lines emitted save every variable the function uses before its body and restore each of
 * them, last saved first, at every way out. */
#include "vf.h"
#include "repo/pnut.c"
CONTRACT(void fatal_error(char *msg) __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))
#ifndef OPC
#define OPC IDENTIFIER
#endif
#ifndef K
#define K 0
#endif
#ifndef N
#define N 1
#endif
#ifndef KD
#define KD "V"
#endif
#ifdef VF_CBMC
int g_put, g_i, g_loc, g_b, g_P, g_F, g_N, g_chk, g_add, g_let, g_body, g_ctx, g_tail, g_nest, g_rst, g_sav, g_envb, g_cum, g_fix, g_E;
int g_n, g_ev[16], g_x[16], g_y[16], g_lv, g_rv, g_rx, g_w, g_A1;
#define EV(e, a, b) g_n == __CPROVER_old(g_n) + 1 && g_ev[__CPROVER_old(g_n)] == (e) && g_x[__CPROVER_old(g_n)] == (a) && g_y[__CPROVER_old(g_n)] == (b)
#define EVA g_n, g_ev[g_n], g_x[g_n], g_y[g_n]
#define LINEA glo_decls[glo_decl_ix], glo_decls[glo_decl_ix + 1], glo_decls[glo_decl_ix + 2], glo_decl_ix
#define LINE(c) glo_decl_ix == __CPROVER_old(glo_decl_ix) + 3 && glo_decls[__CPROVER_old(glo_decl_ix)] == nest_level && glo_decls[__CPROVER_old(glo_decl_ix) + 1] == 1 && glo_decls[__CPROVER_old(glo_decl_ix) + 2] == -(c)
CONTRACT(void putint(int n) __CPROVER_requires(vf_out_n < VF_OUT_MAX) __CPROVER_assigns(vf_out[vf_out_n], vf_out_n, g_put) __CPROVER_ensures(vf_out_n == __CPROVER_old(vf_out_n) + 1 && vf_out[__CPROVER_old(vf_out_n)] == '#' && g_put == n))
CONTRACT(void print_escaped_string(char *string_start, char *string_end, int for_printf) __CPROVER_requires(vf_out_n < VF_OUT_MAX) __CPROVER_assigns(vf_out[vf_out_n], vf_out_n, g_i, g_loc, g_b) __CPROVER_ensures(vf_out_n == __CPROVER_old(vf_out_n) + 1 && vf_out[__CPROVER_old(vf_out_n)] == 'E' && g_i == (string_start == string_pool + 2) && g_loc == (string_end == string_pool + 4) && g_b == for_printf))
CONTRACT(void puthex_unsigned(int n) __CPROVER_requires(vf_out_n < VF_OUT_MAX) __CPROVER_assigns(vf_out[vf_out_n], vf_out_n, g_put) __CPROVER_ensures(vf_out_n == __CPROVER_old(vf_out_n) + 1 && vf_out[__CPROVER_old(vf_out_n)] == '#' && g_put == n))
CONTRACT(void putoct_unsigned(int n) __CPROVER_requires(vf_out_n < VF_OUT_MAX) __CPROVER_assigns(vf_out[vf_out_n], vf_out_n, g_put) __CPROVER_ensures(vf_out_n == __CPROVER_old(vf_out_n) + 1 && vf_out[__CPROVER_old(vf_out_n)] == '#' && g_put == n))
CONTRACT(int cgc_lookup_var(int ident, int binding) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == (ident == g_i && binding == g_loc ? g_b : 0)))
/* functions */
CONTRACT(void check_decls(ast lst) __CPROVER_requires(g_n < 15 && lst == g_P) __CPROVER_assigns(g_chk) __CPROVER_ensures(g_chk == 1))
CONTRACT(void add_fun_params_to_local_env(ast lst) __CPROVER_requires(lst == g_P && g_add == 0) __CPROVER_assigns(g_add, cgc_locals, cgc_locals_fun) __CPROVER_ensures(g_add == 1 && cgc_locals == g_loc && cgc_locals_fun == g_loc))
CONTRACT(text let_params(int params) __CPROVER_requires(params == g_P && g_add == 1 && g_body == 0) __CPROVER_assigns(g_let) __CPROVER_ensures(g_let == __CPROVER_old(g_let) + 1 && __CPROVER_return_value == (params ? -'p' : 0)))
CONTRACT(bool comp_body(ast node, STMT_CTX stmt_ctx) __CPROVER_requires(g_body == 0 && g_add == 1)
  __CPROVER_assigns(g_body, g_F, g_ctx, g_tail, g_nest, g_envb, in_tail_position, gensym_ix, cgc_locals, cgc_locals_fun, rest_loc_var_fixups, fun_gensym_ix; g_E == 1: LINEA; g_E == 2: glo_decls[glo_decl_ix + 0], glo_decls[glo_decl_ix + 1], glo_decls[glo_decl_ix + 2], glo_decls[glo_decl_ix + 3], glo_decls[glo_decl_ix + 4], glo_decls[glo_decl_ix + 5], glo_decls[glo_decl_ix + 6], glo_decls[glo_decl_ix + 7], glo_decls[glo_decl_ix + 8], glo_decl_ix)
  __CPROVER_ensures(g_body == 1 && g_F == node && g_ctx == stmt_ctx && g_tail == __CPROVER_old(in_tail_position) && g_nest == nest_level && g_envb == __CPROVER_old(cgc_locals) && cgc_locals == __CPROVER_old(cgc_locals) && cgc_locals_fun == g_cum)
  __CPROVER_ensures(g_E == 1 ? LINE('B') : g_E == 0 ? rest_loc_var_fixups == 0 : 1) __CPROVER_ensures(g_E == 1 ? rest_loc_var_fixups == 0 : 1)
  __CPROVER_ensures(g_E != 2 || glo_decl_ix == __CPROVER_old(glo_decl_ix) + 9 && rest_loc_var_fixups == g_fix && glo_decls[__CPROVER_old(glo_decl_ix) + 0] == -nest_level && glo_decls[__CPROVER_old(glo_decl_ix) + 1] == 1 && glo_decls[__CPROVER_old(glo_decl_ix) + 2] == 0 && glo_decls[__CPROVER_old(glo_decl_ix) + 3] == nest_level && glo_decls[__CPROVER_old(glo_decl_ix) + 4] == 1 && glo_decls[__CPROVER_old(glo_decl_ix) + 5] == -'B' && glo_decls[__CPROVER_old(glo_decl_ix) + 6] == -nest_level && glo_decls[__CPROVER_old(glo_decl_ix) + 7] == 1 && glo_decls[__CPROVER_old(glo_decl_ix) + 8] == 0))
CONTRACT(text save_local_vars(void) __CPROVER_requires(g_body == 1 && cgc_locals == g_cum && cgc_locals_fun == g_cum) __CPROVER_assigns(g_sav) __CPROVER_ensures(g_sav == __CPROVER_old(g_sav) + 1 && __CPROVER_return_value == ((K & 1) ? -'s' : 0)))
CONTRACT(text restore_local_vars(int n) __CPROVER_requires(g_body == 1 && cgc_locals == g_cum && cgc_locals_fun == g_cum) __CPROVER_assigns(g_rst) __CPROVER_ensures(g_rst == __CPROVER_old(g_rst) + 1 && __CPROVER_return_value == ((K & 2) ? -'r' : 0)))
/* declarations */
CONTRACT(void assert_var_decl_is_safe(ast variable, bool local) __CPROVER_requires(g_n < 15) __CPROVER_assigns(EVA) __CPROVER_ensures(EV(1, variable, local)))
CONTRACT(void add_var_to_local_env(ast decl, enum BINDING kind) __CPROVER_requires(g_n < 15) __CPROVER_assigns(EVA) __CPROVER_ensures(EV(2, decl, kind)))
CONTRACT(void comp_assignment(ast lhs, ast rhs) __CPROVER_requires(g_n < 15) __CPROVER_assigns(EVA) __CPROVER_ensures(EV(3, lhs, rhs)))
CONTRACT(void comp_defstr(ast ident, int probe, int size) __CPROVER_requires(g_n < 15) __CPROVER_assigns(EVA, LINEA, g_lv) __CPROVER_ensures(EV(4, ident, probe) && g_lv == size && LINE('D')))
CONTRACT(text comp_initializer_list(ast l, int len) __CPROVER_requires(g_n < 15) __CPROVER_assigns(EVA) __CPROVER_ensures(EV(5, l, 0) && __CPROVER_return_value == -'I'))
CONTRACT(text env_var_with_prefix(ast node, ast d) __CPROVER_assigns(g_lv) __CPROVER_ensures(g_lv == node && __CPROVER_return_value == -'v'))
CONTRACT(text comp_rvalue(ast node, int context) __CPROVER_requires(g_n < 15) __CPROVER_assigns(EVA) __CPROVER_ensures(EV(6, node, context) && __CPROVER_return_value == -'V'))
CONTRACT(void runtime_defarr(void) __CPROVER_assigns() __CPROVER_ensures(1))
CONTRACT(void runtime_defstr(void) __CPROVER_assigns(g_chk) __CPROVER_ensures(g_chk == __CPROVER_old(g_chk) + 1))

static unsigned char x[200]; static int xn;
static void put(int c) { x[xn] = c; xn += 1; }
static void str(char *s) { int i; for (i = 0; s[i] != 0; i += 1) put(s[i]); }
static int same(void) { int i, ok; ok = xn == vf_out_n; for (i = 0; i < xn; i += 1) if (x[i] != vf_out[i]) ok = 0; return ok; }
static int name(int at, int c1, int c2, int c3) { int p; p = heap_alloc; heap_alloc += 6; string_pool[at] = c1; string_pool[at + 1] = c2; string_pool[at + 2] = c3; string_pool[at + 3] = 0; heap[p + 1] = at; heap[p + 5] = c1; return p; }
#define BEGIN() int i, r, n; vf_exit_ok = 0; heap_alloc = 10; text_alloc = 1; vf_out_n = 0; xn = 0; glo_decl_ix = 0; nest_level = 0; gensym_ix = fun_gensym_ix = max_gensym_ix = 0; rest_loc_var_fixups = 0; cgc_locals = cgc_locals_fun = cgc_fs = 0; in_tail_position = false; \
  g_n = g_chk = g_add = g_let = g_body = g_rst = g_sav = g_lv = 0; ARGV_ID = ARGV__ID = IFS_ID = MAIN_ID = -1; for (i = 0; i < VF_OUT_MAX; i += 1) vf_out[i] = 0; for (i = 0; i < HEAP_SIZE; i += 1) heap[i] = 0;
/* ---- names ---- */
/* K: written where a $ precedes */
void H_special(void) { BEGIN() n = N; r = format_special_var(new_ast0(OPC, OPC == IDENTIFIER_DOLLAR ? n : wrap_int(n)), K); print_text(r);
  if (OPC == IDENTIFIER_INTERNAL) str("__t#"); else if (OPC == IDENTIFIER_STRING) str("__str_#"); else if (OPC == IDENTIFIER_EMPTY) str("__");
  if (OPC != IDENTIFIER_DOLLAR) { ENSURE(same(), "a name of its kind"); ENSURE(OPC == IDENTIFIER_EMPTY || g_put == n, "with its number"); }
  else { i = 0; if (!K) { ENSURE(vf_out[0] == '$', "positional parameter"); i = 1; } ENSURE(vf_out[i] == '{' ? vf_out_n == i + 3 && vf_out[i + 1] == '#' && vf_out[i + 2] == '}' : n <= 9 && vf_out_n == i + 1 && vf_out[i] == '#', "parameters from the tenth on need braces"); ENSURE(g_put == n, "the position"); }
  REACH(); }
/* OPC: IDENTIFIER; K: 1 local, 2 argv */
void H_var(void) { int p, p2; BEGIN() p = name(0, 'a', 'b', 0); p2 = name(4, 'c', 0, 0); n = cgc_add_local(BINDING_VAR_LOCAL, p2, 0, 0); cgc_locals_fun = cgc_add_local(BINDING_VAR_LOCAL, p, 0, 0); if (K & 1) n = cgc_add_local(K & 4 ? BINDING_PARAM_LOCAL : BINDING_VAR_LOCAL, p, 0, n); cgc_locals = cgc_add_local(BINDING_PARAM_LOCAL, p2, 0, n); if (K & 2) ARGV_ID = p;
  { bool d; r = env_var_with_prefix(new_ast0(IDENTIFIER, p), d); } print_text(r); str(!(K & 1) ? "_ab" : (K & 2) ? "argv_" : "ab"); ENSURE(same(), "a local variable has its name, and a global one a name no local one has"); REACH(); }
void H_names(void) { int p; BEGIN() p = name(0, 'a', 'b', 0); i = new_ast0(IDENTIFIER, p); r = K == 0 ? struct_member_var(i) : K == 1 ? struct_sizeof_var(i) : K == 2 ? function_name(p) : global_var(p); print_text(r); str(K == 0 ? "__ab" : K == 1 ? "__sizeof__ab" : "_ab"); ENSURE(same(), "a name of its kind"); REACH(); }
/* which variables are accepted: N a struct or array */
void H_safe(void) { int p, d, l, bad; unsigned char a, b, c; bool q; int w; BEGIN() p = name(0, a, b, c); l = q != 0; ARGV__ID = w == 1 ? p : -1; IFS_ID = w == 2 ? p : -1;
  i = new_ast0(INT_KW, 0); if (K == 1) i = new_ast2('[', i, 3); if (K == 2) i = new_ast1(STRUCT_KW, 0); if (K == 3) i = new_ast2('[', new_ast1(STRUCT_KW, 0), 3); if (K == 4) i = new_ast2('[', new_ast2('[', i, 3), 3); if (K == 5) i = new_ast2('*', 0, new_ast1(STRUCT_KW, 0));
  d = new_ast3(DECL, new_ast0(IDENTIFIER, p), i, 0); bad = a == '_' || a != 0 && b == '_' && c == 0 || l && (w == 1 || w == 2) || l && (K >= 1 && K <= 4) || !l && (K >= 2 && K <= 4);
  vf_exit_ok = bad; if (bad) REACH(); assert_var_decl_is_safe(d, l); ENSURE(!bad, "names and types that cannot be kept apart are rejected, others accepted"); if (!bad) REACH(); }
/* K: 1 the variable is in the environment */
void H_addvar(void) { int p, d, o; BEGIN() p = name(0, 'a', 'b', 0); i = new_ast0(INT_KW, 0); d = new_ast3(DECL, new_ast0(IDENTIFIER, p), i, 0); { bool b2; int q; REQUIRE(q >= 0 && q <= BINDING_VAR_GLOBAL); n = q; } 
  if (K & 2) cgc_locals_fun = cgc_add_local(BINDING_VAR_LOCAL, p, i, 0); if (K & 1) cgc_locals = cgc_add_local(BINDING_VAR_LOCAL, p, i, 0); o = cgc_locals; r = cgc_locals_fun; vf_exit_ok = K & 1; if (K & 1) REACH(); add_var_to_local_env(d, n); ENSURE(!(K & 1), "no two variables of one name");
  ENSURE(cgc_locals != o && heap[cgc_locals] == o && heap[cgc_locals + 1] == n && heap[cgc_locals + 2] == p, "in scope"); ENSURE((K & 2) ? cgc_locals_fun == r : heap[cgc_locals_fun] == r && heap[cgc_locals_fun + 1] == n && heap[cgc_locals_fun + 2] == p, "a variable of the function, once"); if (!(K & 1)) REACH(); }
/* ---- saved and restored ---- */
/* the variables of the function, first declared first: P parameter, V variable; N temporaries */
static int seq[16], ns, sav[16], nv, pos, npar;
static int digit(int c) { return c >= '0' && c <= '9'; }
static int var(void) { int c; c = vf_out[pos]; if (c >= 'a' && c <= 'z') { pos += 1; return c; } if (c == '_' && vf_out[pos + 1] == '_' && vf_out[pos + 2] == 't' && digit(vf_out[pos + 3])) { pos += 4; return vf_out[pos - 1] - '0'; } return -1; }
static int word(char *s) { int i, ok; ok = 1; for (i = 0; s[i] != 0; i += 1) if (vf_out[pos + i] != s[i]) ok = 0; if (ok) pos += i; return ok; }
static int cnt(int v) { int i, c; c = 0; for (i = 0; i < nv; i += 1) c += sav[i] == v; return c; }
void H_saverest(void) { static char kd[] = KD; int p, ps, l, e; BEGIN() { char k_[] = KD; for (i = 0; i < sizeof k_; i += 1) kd[i] = k_[i]; } ns = 0; nv = 0; ps = 0; npar = 0;
  for (i = 0; kd[i] != 0; i += 1) { p = name(i * 4, 'a' + i, 0, 0); cgc_locals_fun = cgc_add_local(kd[i] == 'P' ? BINDING_PARAM_LOCAL : BINDING_VAR_LOCAL, p, 0, cgc_locals_fun); seq[i] = new_ast3(DECL, new_ast0(IDENTIFIER, p), 0, 0); }
  n = i; for (i = n - 1; i >= 0; i -= 1) if (kd[i] == 'P') ps = cons(seq[i], ps); cgc_locals = cgc_locals_fun; fun_gensym_ix = N;
  r = let_params(ps); if (r) print_text(r); r = save_local_vars(); if (r) { if (vf_out_n > 0) { vf_putchar(';'); vf_putchar(' '); } print_text(r); }
  pos = 0; while (pos < vf_out_n) { ENSURE(word("let "), "a variable is saved"); l = var(); ENSURE(l > 0 && cnt(l) == 0, "once"); e = l >= 'a' && kd[l - 'a'] == 'P'; sav[nv] = l; nv += 1;
    if (e) { npar = 0; for (i = 0; i < l - 'a'; i += 1) npar += kd[i] == 'P'; ENSURE(vf_out[pos] == ' ' && vf_out[pos + 1] == '$' && vf_out[pos + 2] == '2' + npar, "a parameter gets its argument"); pos += 3; }
    if (pos < vf_out_n) ENSURE(word("; "), "next"); if (nv > n + N) break; }
  ENSURE(nv == n + N, "all the variables and temporaries are saved"); for (i = 0; i < n; i += 1) ENSURE(cnt('a' + i) == 1, "every variable"); for (i = 1; i <= N; i += 1) ENSURE(cnt(i) == 1, "every temporary");
  l = vf_out_n; r = restore_local_vars(0); if (r) print_text(r); pos = l; ENSURE(nv == 0 ? pos == vf_out_n : word("endlet $1"), "restored, but for the result"); for (i = nv - 1; i >= 0; i -= 1) { ENSURE(word(" ") && var() == sav[i], "the last saved first"); }
  ENSURE(pos == vf_out_n, "nothing else"); ENSURE(nv == 0 || runtime_use_local_vars, "with the runtime's let"); REACH(); }
/* ---- functions: N parameters; K: 1 something to save, 2 something to restore, 4 main; OPC: lines of the body (2: with two returns) ---- */
static int fixup(int at) { glo_decls[at] = -1; glo_decls[at + 1] = 1; glo_decls[at + 2] = 0; return at; }
void H_fun(void) { int p, d, t, b, v; BEGIN() p = name(0, 'f', 0, 0); g_P = 0; for (i = N; i >= 1; i -= 1) g_P = cons(new_ast3(DECL, new_ast0(IDENTIFIER, p), 0, 0), g_P);
  { bool q; int c; REQUIRE(c > 0 && c < 1000); g_cum = c; g_loc = c + 1000; v = q != 0; } g_E = OPC; t = new_ast3('(', new_ast0((K & 8) ? VOID_KW : INT_KW, 0), g_P, 0); d = new_ast3(DECL, new_ast0(IDENTIFIER, p), t, 0); b = new_ast2('{', 0, 0); n = new_ast2(FUN_DECL, d, (K & 16) ? -1 : b);
  if (K & 4) MAIN_ID = p; main_defined = main_returns = runtime_use_make_argv = false; top_level_stmt = true;
  /* the body with two returns: a fixup, a line, a fixup */
  g_fix = cons(12, cons(6, 0)); 
  comp_glo_fun_decl(n);
  if (K & 16) { ENSURE(glo_decl_ix == 0 && g_body == 0 && g_add == 0, "a declaration without body emits nothing"); REACH(); return; }
  ENSURE(g_body == 1 && g_F == b && g_ctx == STMT_CTX_DEFAULT && g_tail && g_nest == 1 && g_envb == g_loc, "the body, with the parameters in scope, in tail position"); ENSURE(g_chk && nest_level == 0 && !top_level_stmt, "checked names; nesting"); ENSURE(g_rst >= 1 && g_sav == 1 && rest_loc_var_fixups == 0, "saved and restored");
  ENSURE(main_defined == ((K & 4) != 0) && main_returns == ((K & 4) && !(K & 8)) && runtime_use_make_argv == ((K & 4) && N > 0), "main is called with what it takes");
  str("_f() {"); if (N) str(" p"); put('\n'); if (K & 1) str("  s\n"); if (OPC == 1) str("  B\n"); if (OPC == 2) str((K & 2) ? "  r\n  B\n  r\n" : "  B\n"); if (K & 2) str("  r\n"); if (OPC == 0 && !(K & 3)) str("  :\n"); str("}\n\n");
  print_glo_decls(); ENSURE(same(), "variables are saved before the body and restored after it"); REACH(); }
/* ---- declarations ---- */
/* N local declarators, KD: I with initializer, V without */
void H_locals(void) { static char kd[] = KD; int d[4], l; BEGIN() { char k_[] = KD; for (i = 0; i < sizeof k_; i += 1) kd[i] = k_[i]; } l = 0; for (n = 0; kd[n] != 0; n += 1) d[n] = new_ast3(DECL, new_ast0(IDENTIFIER, 0), 0, kd[n] == 'I' ? 100 + n : 0); for (i = n - 1; i >= 0; i -= 1) l = cons(d[i], l);
  vf_exit_ok = OPC == STATIC_KW || OPC == EXTERN_KW; if (vf_exit_ok) REACH(); comp_var_decls(new_ast2(DECLS, l, OPC)); ENSURE(OPC != STATIC_KW && OPC != EXTERN_KW, "storage classes that are not supported are rejected");
  r = 0; for (i = 0; i < n; i += 1) { ENSURE(g_ev[r] == 1 && g_x[r] == d[i] && g_y[r] == 1 && g_ev[r + 1] == 2 && g_x[r + 1] == d[i] && g_y[r + 1] == BINDING_VAR_LOCAL, "checked, then in scope"); r += 2; if (kd[i] == 'I') { ENSURE(g_ev[r] == 3 && g_x[r] == get_child(d[i], 0) && g_y[r] == 100 + i, "then initialized, in order"); r += 1; } }
  ENSURE(g_n == r, "nothing else"); if (!vf_exit_ok) REACH(); }
/* global: K 0 scalar, 1 with initializer, 2 array, 3 array with list, 4 list without length, 5 string, 6 string without length, 7 function, 8 too long list, 9 too long string */
void H_global(void) { int d, id, t, in, l; BEGIN() id = new_ast0(IDENTIFIER, 0); t = new_ast0(INT_KW, 0); in = 0; l = cons(1, cons(2, 0)); nest_level = 0;
  if (K == 1) in = new_ast0(INTEGER, -3); if (K >= 2 && K != 7) t = new_ast2('[', t, K == 4 || K == 6 ? 0 : K == 8 || K == 9 ? 1 : N); if (K == 3 || K == 4 || K == 8) in = new_ast1(INITIALIZER_LIST, l);
  n = heap_alloc; heap_alloc += 6; heap[n + 1] = 0; heap[n + 4] = 2; if (K == 5 || K == 6 || K == 9) in = new_ast0(STRING, n); if (K == 7) t = new_ast3('(', t, 0, 0); d = new_ast3(DECL, id, t, in); vf_exit_ok = K >= 8 || K == 2 && N == 0; if (vf_exit_ok) REACH();
  comp_glo_var_decl(d); ENSURE(!vf_exit_ok, "too many initializers are rejected");
  if (K == 7) ENSURE(g_n == 0 && glo_decl_ix == 0, "a function declaration emits nothing"); else ENSURE(g_ev[0] == 1 && g_x[0] == d && g_y[0] == 0, "checked");
  if (K <= 1) { ENSURE(g_n == 2 && g_ev[1] == 3 && g_x[1] == id, "initialized"); if (K == 1) ENSURE(g_y[1] == in, "with its value"); else ENSURE(get_op(g_y[1]) == INTEGER && get_val(g_y[1]) == 0, "with zero"); }
  if (K == 5 || K == 6) ENSURE(g_n == 2 && g_ev[1] == 4 && g_x[1] == id && g_y[1] == n && g_lv == (K == 5 ? N : 3), "the string, with room for its terminator");
  if (K == 3 || K == 4) ENSURE(g_n == 2 && g_ev[1] == 5 && g_x[1] == l, "the list"); 
  print_glo_decls(); if (K >= 2 && K <= 4) { str("defarr v #"); if (K > 2) str(" I"); put('\n'); ENSURE(g_put == (K == 4 ? 2 : N) && g_lv == id, "an array of its length"); } else if (K == 5 || K == 6) str("D\n"); ENSURE(same(), "and nothing else"); if (!vf_exit_ok) REACH(); }
/* enumerators and members: N of them; K: 1 with a tag */
void H_enum(void) { int l, c[4]; BEGIN() l = 0; for (i = N - 1; i >= 0; i -= 1) { c[i] = new_ast2('=', new_ast0(IDENTIFIER, 0), 100 + i); l = cons(c[i], l); } n = name(0, 'E', 0, 0); comp_enum_cases(K ? new_ast0(IDENTIFIER, n) : 0, l); ENSURE(g_n == N, "every enumerator");
  for (i = 0; i < N; i += 1) ENSURE(g_ev[i] == 6 && g_x[i] == 100 + i && g_y[i] == RVALUE_CTX_BASE, "has its value"); ENSURE(N == 0 || g_lv == get_child(c[N - 1], 0), "under its name"); print_glo_decls(); str(K ? "# E enum declaration\n" : "# Enum declaration\n"); for (i = 0; i < N; i += 1) str("readonly v=V\n"); ENSURE(same(), "and cannot be changed"); REACH(); }
void H_struct(void) { int l, d; BEGIN() l = 0; for (i = N - 1; i >= 0; i -= 1) { d = new_ast3(DECL, new_ast0(IDENTIFIER, name(4 * i, 'a' + i, 0, 0)), new_ast0(OPC == IDENTIFIER ? INT_KW : OPC, 0), 0); l = cons(d, l); } n = name(16, 'S', 0, 0); vf_exit_ok = OPC == '[' || OPC == STRUCT_KW; if (vf_exit_ok) REACH(); comp_struct(K ? new_ast0(IDENTIFIER, n) : 0, l); ENSURE(!vf_exit_ok, "members without a place are rejected");
  print_glo_decls(); str(K ? "# S struct member declarations\n" : "# Struct member declarations\n"); for (i = 0; i < N; i += 1) { str("readonly __"); put('a' + i); put('='); put('0' + i); put('\n'); } if (K) { str("readonly __sizeof__S="); put('0' + N); put('\n'); } ENSURE(same(), "each member has an offset of its own below the size"); if (!vf_exit_ok) REACH(); }
/* strings: K 1 with a size; N 1 at the top level */
void H_defstr(void) { int id, p; BEGIN() p = name(2, 'h', 'i', 0); heap[p + 4] = 2; n = K ? 5 : -1; id = new_ast0(IDENTIFIER, p); top_level_stmt = N != 0; runtime_use_defstr = false; comp_defstr(id, p, n); print_glo_decls(); str("defstr v \"E\""); ENSURE(g_i && g_loc && !g_b, "all its characters"); if (K) { str(" #"); ENSURE(g_put == n, "of its size"); } put('\n'); ENSURE(same() && g_lv == id, "the string under its name"); ENSURE(N ? g_chk == 1 : runtime_use_defstr, "with the runtime's defstr"); REACH(); }
/* initializer lists: KD: i integer, x hexadecimal, o octal, c character, s string */
void H_init(void) { static char kd[] = KD; int e[4], l, v; BEGIN() { char k_[] = KD; for (i = 0; i < sizeof k_; i += 1) kd[i] = k_[i]; } { int q; REQUIRE(q >= 0 && q < 256); v = q; } for (n = 0; kd[n] != 0; n += 1) { r = name(n * 4, 'a', 0, 0); heap[r + 3] = 7; e[n] = kd[n] == 's' ? new_ast0(STRING, r) : new_ast0(kd[n] == 'i' ? INTEGER : kd[n] == 'x' ? INTEGER_HEX : kd[n] == 'o' ? INTEGER_OCT : CHARACTER, kd[n] == 'c' ? v : -v); }
  l = 0; for (i = n - 1; i >= 0; i -= 1) l = cons(e[i], l); r = comp_initializer_list(l, n); print_glo_decls(); for (i = 0; i < n; i += 1) if (kd[i] == 's') str("D\n"); i = vf_out_n; print_text(r);
  for (i = 0; i < n; i += 1) { if (i) put(' '); str(kd[i] == 's' ? "$__str_#" : kd[i] == 'x' ? "$((0x#))" : kd[i] == 'o' ? "$((0#))" : "#"); } ENSURE(same(), "the values, in order, as words"); ENSURE(n == 0 || g_put == (kd[n - 1] == 's' ? 7 : v), "each with its value"); REACH(); }
#endif

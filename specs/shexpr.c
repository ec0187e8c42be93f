/* VF_DROP_OK: the contracts call no function */
/* S02: expressions of the shell back end.  comp_rvalue_go is checked one operator at a time; its operands are given by
 * its own contract: the text of operand i is the single byte i (printed by the real print_text), which stands for any
 * text whose top operator is one the contract allows in that position (g_q).  The text produced is read back by an
 * independent parser of the shell's words, arithmetic expressions and tests, which must find the operation applied to
 * the operands, whatever the top operators of the operands are. */
#include "vf.h"
#include "repo/pnut.c"
CONTRACT(void fatal_error(char *msg) __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))
#ifndef OPC
#define OPC '+'
#endif
#ifndef CTX
#define CTX RVALUE_CTX_ARITH_EXPANSION
#endif
#ifndef OUT
#define OUT 0
#endif
#ifdef VF_CBMC
enum { M_LV = 4, M_LVA, M_VAR, M_MEMBER, M_CHAR, M_SIZEOF = 14, M_RV1, M_RV2, M_F1 };
enum { Q_PRIM = 1, Q_UNARY = 2, Q_MINUS = 3, Q_AND = 4, Q_OR = 5 };   /* top of a text, if not a binary operator */
int g_N, C1, C2, C3, C4, g_F1, g_F2, g_tse, g_lv, g_lva, g_nF;
int g_ctx[4], g_outer[4], g_child_tse[4], g_calls[4], g_q[8];
int W1, W2;   /* operands behind casts */
#define IDX(n) ((n) == C1 || (n) == W1 ? 1 : (n) == C2 || (n) == W2 ? 2 : 3)
CONTRACT(text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
  __CPROVER_requires(node == g_N || (node == C1 || node == C2 || node == C3 || node == W1 || node == W2) && g_calls[IDX(node)] == 0)
  __CPROVER_requires(context == RVALUE_CTX_TEST || test_side_effects == 0)
  __CPROVER_assigns(node == g_N: __CPROVER_object_whole(text_pool), text_alloc, __CPROVER_object_whole(g_ctx), __CPROVER_object_whole(g_outer), __CPROVER_object_whole(g_child_tse), __CPROVER_object_whole(g_calls), g_lv, g_lva, g_nF, __CPROVER_object_whole(vf_out), vf_out_n;
    node == C1 || node == W1: g_ctx[1], g_outer[1], g_child_tse[1], g_calls[1]; node == C2 || node == W2: g_ctx[2], g_outer[2], g_child_tse[2], g_calls[2]; node == C3: g_ctx[3], g_outer[3], g_child_tse[3], g_calls[3])
  __CPROVER_ensures(node == g_N ? 1 : __CPROVER_return_value == -IDX(node) && g_ctx[IDX(node)] == context && g_outer[IDX(node)] == outer_op && g_child_tse[IDX(node)] == test_side_effects && g_calls[IDX(node)] == 1))
CONTRACT(text comp_lvalue(ast node) __CPROVER_assigns(g_lv) __CPROVER_ensures(g_lv == node && __CPROVER_return_value == -M_LV))
CONTRACT(text comp_lvalue_address(ast node) __CPROVER_assigns(g_lva) __CPROVER_ensures(g_lva == node && __CPROVER_return_value == -M_LVA))
CONTRACT(text env_var_with_prefix(ast node, ast d) __CPROVER_requires(node == g_N) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == -M_VAR))
CONTRACT(text character_ident(int c) __CPROVER_requires(c == 65) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == -M_CHAR))
CONTRACT(text struct_member_var(ast node) __CPROVER_requires(node == C4) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == -M_MEMBER))
CONTRACT(text struct_sizeof_var(ast node) __CPROVER_requires(node == C4) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == -M_SIZEOF))
CONTRACT(text comp_fun_call_code(ast node, ast to) __CPROVER_requires(g_nF == 0 ? node == g_F1 && to == C4 : node == g_F2 && to == C3) __CPROVER_assigns(g_nF) __CPROVER_ensures(g_nF == __CPROVER_old(g_nF) + 1 && __CPROVER_return_value == -(M_F1 + __CPROVER_old(g_nF))))

/* ---- the shell: words, arithmetic, tests ---- */
static int pp, bad, top, lnb[4], rnb[4], seen[4];   /* lnb, rnb: operators next to operand i inside of the same parentheses */
static int binop(void) {   /* operator at pp, without consuming it; oplen */
  int a, b; a = vf_out[pp]; b = vf_out[pp + 1];
  if (a == '<' && b == '<') return vf_out[pp + 2] == '=' ? LSHIFT_EQ : LSHIFT;
  if (a == '>' && b == '>') return vf_out[pp + 2] == '=' ? RSHIFT_EQ : RSHIFT;
  if (b == '=') return a == '=' ? EQ_EQ : a == '!' ? EXCL_EQ : a == '<' ? LT_EQ : a == '>' ? GT_EQ : a == '+' ? PLUS_EQ : a == '-' ? MINUS_EQ : a == '*' ? STAR_EQ : a == '/' ? SLASH_EQ : a == '%' ? PERCENT_EQ : a == '&' ? AMP_EQ : a == '|' ? BAR_EQ : a == '^' ? CARET_EQ : 0;
  if (a == '&' && b == '&') return AMP_AMP;
  if (a == '|' && b == '|') return BAR_BAR;
  return a == '+' || a == '-' || a == '*' || a == '/' || a == '%' || a == '&' || a == '|' || a == '^' || a == '<' || a == '>' || a == '=' || a == '?' || a == ':' ? a : 0;
}
static int oplen(int op) { return op == LSHIFT_EQ || op == RSHIFT_EQ ? 3 : op == LSHIFT || op == RSHIFT || op == EQ_EQ || op == EXCL_EQ || op == LT_EQ || op == GT_EQ || op == AMP_AMP || op == BAR_BAR || op == PLUS_EQ || op == MINUS_EQ || op == STAR_EQ || op == SLASH_EQ || op == PERCENT_EQ || op == AMP_EQ || op == BAR_EQ || op == CARET_EQ ? 2 : 1; }
#define ISASSIGN(o) ((o) == '=' || (o) == PLUS_EQ || (o) == MINUS_EQ || (o) == STAR_EQ || (o) == SLASH_EQ || (o) == PERCENT_EQ || (o) == AMP_EQ || (o) == BAR_EQ || (o) == CARET_EQ || (o) == LSHIFT_EQ || (o) == RSHIFT_EQ)
static int prec(int o) { return o == '*' || o == '/' || o == '%' ? 12 : o == '+' || o == '-' ? 11 : o == LSHIFT || o == RSHIFT ? 10 : o == '<' || o == '>' || o == LT_EQ || o == GT_EQ ? 9 : o == EQ_EQ || o == EXCL_EQ ? 8 : o == '&' ? 7 : o == '^' ? 6 : o == '|' ? 5 : o == AMP_AMP ? 4 : o == BAR_BAR ? 3 : o == '?' ? 2 : ISASSIGN(o) ? 1 : o == ':' ? 0 : 13; }
#define MK(o, a, b) ((o) * 1000003 + (a) * 1009 + (b) * 17 + 5)
static void skip(void) { while (vf_out[pp] == ' ') pp += 1; }
static int expr(int min, int left);
static int arith(void) { int r; r = expr(1, 0); skip(); if (vf_out[pp] != ')' || vf_out[pp + 1] != ')') bad = 1; pp += 2; return r; }   /* after $(( */
static int number(void) { int v; v = 0; if (vf_out[pp] == '0' && vf_out[pp + 1] == 'x') { pp += 2; while (vf_out[pp] >= '0' && vf_out[pp] <= '9' || vf_out[pp] >= 'a' && vf_out[pp] <= 'f') { v = v * 16 + (vf_out[pp] <= '9' ? vf_out[pp] - '0' : vf_out[pp] - 'a' + 10); pp += 1; } return MK('0', v, 0); }
  if (vf_out[pp] == '0') { while (vf_out[pp] >= '0' && vf_out[pp] <= '7') { v = v * 8 + vf_out[pp] - '0'; pp += 1; } return MK('0', v, 0); }
  if (vf_out[pp] < '0' || vf_out[pp] > '9') bad = 2;
  while (vf_out[pp] >= '0' && vf_out[pp] <= '9') { v = v * 10 + vf_out[pp] - '0'; pp += 1; } return MK('0', v, 0); }
static int marker(void) { int c; c = vf_out[pp]; return c >= 1 && c <= M_F1 + 1 && c != 9 && c != 10 && c != 13; }
static int word(void) {   /* what a word stands for; operand bytes here must be words */
  int c, r; c = vf_out[pp]; top = Q_PRIM;
  if (c >= 1 && c <= 3) { if (g_ctx[c] != RVALUE_CTX_BASE) bad = 3; seen[c] += 1; pp += 1; return MK('M', c, 0); }
  if (c == M_RV2) { pp += 1; return MK('M', c, 0); }   /* operand of comp_lvalue(*p), a word */
  if (c == '$' && vf_out[pp + 1] == '(' && vf_out[pp + 2] == '(') { pp += 3; r = arith(); top = Q_PRIM; return r; }
  if (c == '$') { pp += 1; c = vf_out[pp]; pp += 1; if (c != M_VAR && c != M_CHAR) bad = 4; return MK('M', c, 0); }
  if (c == '-') { pp += 1; r = MK('N', number(), 0); top = Q_MINUS; return r; }
  if (c == '0' && vf_out[pp + 1] != 0 && vf_out[pp + 1] != ' ') bad = 5;   /* values in words are decimal */
  return number();
}
static int primary(int left) {   /* left: operator to the left within the same parentheses */
  int c, r, op; skip(); c = vf_out[pp];
  if (c >= 1 && c <= 3) { if (g_ctx[c] != RVALUE_CTX_ARITH_EXPANSION) bad = 6; seen[c] += 1; lnb[c] = left; pp += 1; skip(); rnb[c] = binop(); top = 1000 + c; return MK('M', c, 0); }
  if (c == M_LV || c == M_LVA || c == M_VAR || c == M_MEMBER || c == M_CHAR || c == M_SIZEOF || c == M_RV1 || c == M_RV2) { pp += 1; if (c == M_LVA || c == M_RV1 || c == M_RV2) { op = c == M_LVA ? 0 : c == M_RV1 ? 1 : 2; lnb[op] = left; skip(); rnb[op] = binop(); top = 1000 + op; } else top = Q_PRIM; return MK('M', c, 0); }
  if (c == '(') { pp += 1; r = expr(1, 0); skip(); if (vf_out[pp] != ')') bad = 7; pp += 1; top = Q_PRIM; return r; }
  if (c == '_') { pp += 1; r = MK('_', word(), 0); if (top == Q_MINUS) bad = 8; top = Q_PRIM; return r; }
  if (c == '-' || c == '~' || c == '!') {
    pp += 1; if (c == '-' && vf_out[pp] == '-') bad = 9;
    if (vf_out[pp] >= '0' && vf_out[pp] <= '9' && c == '-') { r = MK('N', number(), 0); top = Q_MINUS; return r; }
    r = MK(c, primary(c == '-' ? -'-' : -1), 0); top = c == '-' ? Q_MINUS : Q_UNARY; return r; }
  r = number(); top = Q_PRIM; return r;
}
static int expr(int min, int left) {
  int r, o, t, u, v; r = primary(left); 
  while (1) {
    skip(); if (vf_out[pp] == ')' || vf_out[pp] == 0) break;
    o = binop(); if (o == 0) { bad = 10; break; }
    if (o == ':' || prec(o) < min) break;
    pp += oplen(o);
    if (o == '?') { t = expr(1, 0); skip(); if (vf_out[pp] != ':') bad = 11; pp += 1; u = expr(2, ':'); r = MK('?', r, MK(':', t, u)); }
    else if (ISASSIGN(o)) { if (top != Q_PRIM) bad = 12; r = MK(o, r, expr(1, o)); }
    else r = MK(o, r, expr(prec(o) + 1, o));
    top = o;
  }
  return r;
}
/* tests: [ word op word ], lists, groups; side effects F1; F2; */
static int nF;
static int cmd(void);
static int test1(void) {
  int r, o, c; skip(); c = vf_out[pp];
  if (c >= 1 && c <= 3) { if (g_ctx[c] != RVALUE_CTX_TEST) bad = 20; seen[c] += 1; lnb[c] = top; pp += 1; top = 1000 + c; return MK('M', c, 0); }
  if (c == '{' && vf_out[pp + 1] == ' ') { pp += 2;
    while (vf_out[pp] == M_F1 + nF) { nF += 1; pp += 1; if (vf_out[pp] != ';') bad = 21; pp += 1; skip(); }
    top = 0; r = cmd(); if (vf_out[pp] != ';') bad = 22; pp += 1; skip(); if (vf_out[pp] != '}') bad = 23; pp += 1; top = Q_PRIM; return r; }
  if (c != '[' || vf_out[pp + 1] != ' ') { bad = 24; return 0; }
  pp += 2; skip(); r = word(); if (vf_out[pp] != ' ') bad = 25; skip(); o = 0;
  if (vf_out[pp] == '=') { o = EQ_EQ; pp += 1; } else if (vf_out[pp] == '!' && vf_out[pp + 1] == '=') { o = EXCL_EQ; pp += 2; }
  else if (vf_out[pp] == '-') { o = vf_out[pp + 1] == 'l' ? (vf_out[pp + 2] == 't' ? '<' : vf_out[pp + 2] == 'e' ? LT_EQ : 0) : vf_out[pp + 1] == 'g' ? (vf_out[pp + 2] == 't' ? '>' : vf_out[pp + 2] == 'e' ? GT_EQ : 0) : vf_out[pp + 1] == 'e' && vf_out[pp + 2] == 'q' ? EQ_EQ : vf_out[pp + 1] == 'n' && vf_out[pp + 2] == 'e' ? EXCL_EQ : 0; pp += 3; }
  if (o == 0 || vf_out[pp] != ' ') bad = 26; skip();
  c = word(); if (vf_out[pp] != ' ' || vf_out[pp + 1] != ']') bad = 27; pp += 2; top = Q_PRIM;
  return o == EXCL_EQ && c == MK('0', 0, 0) ? r : MK(o, r, c);
}
static int cmd(void) {   /* && and || have the same precedence, and group to the left; lnb/rnb: the list operators around operand i */
  int r, o, last; top = 0; r = test1(); last = top;
  while (1) {
    skip(); o = vf_out[pp] == '&' && vf_out[pp + 1] == '&' ? AMP_AMP : vf_out[pp] == '|' && vf_out[pp + 1] == '|' ? BAR_BAR : 0;
    if (o == 0) break;
    pp += 2; top = o; r = MK(o, r, test1()); last = o == AMP_AMP ? Q_AND : Q_OR;
  }
  top = last; return r;
}
/* ---- which texts may stand in a position: the invariant of the recursion ---- */
#define ASSOC(o) ((o) == '+' || (o) == '*' || (o) == '&' || (o) == '|' || (o) == '^' || (o) == AMP_AMP || (o) == BAR_BAR)
#define TIGHT(o) ((o) == '*' || (o) == '/' || (o) == '%' || (o) == '-' || (o) == '~' || (o) == '!' || (o) == CAST)
#define ALLOWED(q, outer) ((q) <= Q_MINUS || (outer) == 0 || (outer) == '=' || (q) == (outer) && ASSOC(q) || ((q) == '+' || (q) == '-') && !TIGHT(outer))
/* operand with top q, neighbours l and r, still groups as one operand */
static int groups(int q, int l, int r) {
  if (q == Q_PRIM) return 1;
  if (q == Q_MINUS) return l != -'-';
  if (q == Q_UNARY) return 1;
  if (l < 0) return 0;   /* unary operator */
  if (l != 0 && !(prec(q) > prec(l) || ISASSIGN(l) && ISASSIGN(q) || l == '+' && (q == '+' || q == '-') || l == q && ASSOC(q) || l == ':' && prec(q) >= 2)) return 0;
  if (r != 0 && r != ':' && !(prec(q) > prec(r) || prec(q) == prec(r) && prec(q) >= 3)) return 0;
  return 1;
}
/* the operator whose list a test becomes, behind parentheses and casts, which leave no trace */
static int strip(int n) { while (get_op(n) == PARENS || get_op(n) == CAST || get_op(n) == '+' && get_nb_children(n) == 1) n = get_child(n, get_op(n) == CAST); return get_op(n); }
static int isminus(int n) { while (get_op(n) == PARENS || get_op(n) == CAST || get_op(n) == '+' && get_nb_children(n) == 1) n = get_child(n, get_op(n) == CAST); return get_op(n) == '-' && get_nb_children(n) == 1; }
static int fresh1(int k) {   /* operand node: kind of node where the code looks at it */
  return k == 1 ? new_ast1('-', 1) : k == 2 ? new_ast4(AMP_AMP, 1, 1, 0, 0) : k == 3 ? new_ast4(BAR_BAR, 1, 1, 0, 0) : new_ast0(IDENTIFIER_INTERNAL, 0); }
#ifndef K1
#define K1 0
#endif
#ifndef K2
#define K2 0
#endif
#ifndef WRAP
#define WRAP 0
#endif
#ifndef TSE
#define TSE 0
#endif
static int operand_ok(int i) {   /* operand i's text can have any top its contract allows */
  int q, n; q = g_q[i]; n = i == 1 ? C1 : i == 2 ? C2 : C3;
  if (g_ctx[i] == RVALUE_CTX_TEST) return q == Q_PRIM || q == Q_AND && strip(n) == AMP_AMP || q == Q_OR && strip(n) == BAR_BAR;
  return (q == Q_PRIM || q == Q_UNARY || q == Q_MINUS && isminus(n) || prec(q) >= 1 && prec(q) <= 12) && ALLOWED(q, g_outer[i]) && q != ',';
}
static int result_top(void) { return top >= 1000 ? g_q[top - 1000] : top; }
#define BEGIN() int r, want, h, i; heap_alloc = 50; text_alloc = 1; vf_out_n = 0; g_nF = 0; nF = 0; pp = bad = 0; for (i = 0; i < 4; i += 1) { g_calls[i] = seen[i] = lnb[i] = rnb[i] = 0; } \
  for (i = 0; i < VF_OUT_MAX; i += 1) vf_out[i] = 0; \
  C1 = fresh1(K1); C2 = fresh1(K2); C3 = fresh1(0); W1 = WRAP == 1 ? new_ast2(CAST, 1, C1) : WRAP == 2 ? new_ast1('+', C1) : WRAP == 3 ? new_ast1(PARENS, C1) : C1; W2 = WRAP == 1 ? new_ast2(CAST, 1, C2) : WRAP == 2 ? new_ast1('+', new_ast1(PARENS, C2)) : WRAP == 3 ? new_ast1(PARENS, C2) : C2; C4 = new_ast0(IDENTIFIER, 0); g_F1 = new_ast0(IDENTIFIER, 0); g_F2 = new_ast0(IDENTIFIER, 0); \
  g_tse = TSE ? cons(new_ast2('=', C4, g_F1), TSE > 1 ? cons(new_ast2('=', C3, g_F2), 0) : 0) : 0; for (i = 0; i < 8; i += 1) { int q_; g_q[i] = q_; }
#define RUN(n) g_N = (n); r = comp_rvalue_go(g_N, CTX, g_tse, OUT); print_text(r);
#define CHECK(w, n) h = CTX == RVALUE_CTX_ARITH_EXPANSION ? expr(1, 0) : CTX == RVALUE_CTX_TEST ? cmd() : word(); want = (w); \
  ENSURE(bad == 0 && pp == vf_out_n, "a word, arithmetic expression or test"); ENSURE(h == want, "the operation applied to its operands"); \
  for (i = 1; i <= (n); i += 1) if (seen[i] != 1 || g_calls[i] != 1) bad = 99; ENSURE(bad == 0, "each operand is evaluated once"); \
  for (i = 1; i <= (n); i += 1) { __CPROVER_assume(operand_ok(i)); \
    if (g_ctx[i] == RVALUE_CTX_ARITH_EXPANSION) ENSURE(groups(g_q[i], lnb[i], rnb[i]), "an operand keeps its operands whatever its top operator"); \
    if (g_ctx[i] == RVALUE_CTX_TEST) ENSURE(g_q[i] == Q_PRIM || lnb[i] == 0 || lnb[i] == AMP_AMP && g_q[i] == Q_AND || lnb[i] == BAR_BAR && g_q[i] == Q_OR, "a list inside of a list keeps its operands"); } \
  i = result_top(); if (CTX == RVALUE_CTX_ARITH_EXPANSION) ENSURE(ALLOWED(i, OUT), "the text can stand in its position"); \
  if (CTX == RVALUE_CTX_ARITH_EXPANSION) ENSURE(vf_out[0] != '-' || isminus(g_N), "a text that starts with a minus is a negation"); \
  if (CTX == RVALUE_CTX_TEST) ENSURE(i == Q_PRIM || i == Q_AND && strip(g_N) == AMP_AMP || i == Q_OR && strip(g_N) == BAR_BAR, "a list is one of && or ||"); \
  REACH();
#define CH(i) MK('M', i, 0)
#define TSEALL() ENSURE(nF == TSE, "calls in the test come before it, in order");
#define ASGN(o) ISASSIGN(o)
/* left operands other than the first of an operator are never the first operand of && or || with a list in front, see strip() */
void H_binary(void) { BEGIN() RUN(new_ast2(OPC, C1, C2)) CHECK(MK(OPC, CH(1), CH(2)), 2) TSEALL() }
void H_assign(void) { BEGIN() RUN(new_ast2(OPC, C4, C1)) CHECK(MK(OPC, CH(M_LV), CH(1)), 1) ENSURE(g_lv == C4, "lvalue of the left operand"); TSEALL() }
void H_index(void) { BEGIN() RUN(new_ast2('[', C1, C2)) CHECK(MK('_', MK('+', CH(1), CH(2)), 0), 2) TSEALL() }
void H_member(void) { BEGIN() RUN(new_ast2(ARROW, C1, C4)) CHECK(MK('_', MK('+', CH(1), CH(M_MEMBER)), 0), 1) TSEALL() }
void H_unary(void) { BEGIN() RUN(new_ast1(OPC, C1)) CHECK(MK(OPC, CH(1), 0), 1) TSEALL() }
void H_deref(void) { BEGIN() RUN(new_ast1('*', C1)) CHECK(MK('_', CH(1), 0), 1) TSEALL() }
void H_pass(void) { BEGIN() RUN(OPC == CAST ? new_ast2(CAST, C4, C1) : new_ast1(OPC, C1)) CHECK(CH(1), 1) ENSURE(g_ctx[1] == CTX && g_child_tse[1] == g_tse, "same context and side effects"); }
#ifndef OUT2
#define OUT2 0
#endif
void H_negnum(void) { BEGIN() RUN(new_ast1('-', new_ast0(INTEGER, -OUT2))) CHECK(OUT2 == 0 ? MK('0', 0, 0) : MK('N', MK('0', OUT2, 0), 0), 0) TSEALL() }
void H_incdec(void) { int d; BEGIN() d = OPC == PLUS_PLUS_PRE || OPC == PLUS_PLUS_POST;
  RUN(new_ast1(OPC, C4)) want = MK(d ? PLUS_EQ : MINUS_EQ, CH(M_LV), MK('0', 1, 0));
  if (OPC == PLUS_PLUS_POST || OPC == MINUS_MINUS_POST) want = MK(d ? '-' : '+', want, MK('0', 1, 0));
  CHECK(want, 0) ENSURE(g_lv == C4, "lvalue of the operand"); TSEALL() }
void H_addr(void) { BEGIN() RUN(new_ast1('&', C4)) CHECK(CH(M_LVA), 0) ENSURE(g_lva == C4, "address of the operand");
  __CPROVER_assume(g_q[0] == Q_PRIM || g_q[0] == '+'); if (CTX != RVALUE_CTX_TEST) ENSURE(groups(g_q[0], lnb[0], rnb[0]), "the address groups"); TSEALL() }
void H_ternary(void) { BEGIN() RUN(new_ast3('?', C1, C2, C3)) CHECK(MK('?', CH(1), MK(':', CH(2), CH(3))), 3) TSEALL() }
#ifdef SH_INLINE_CHAR_LITERAL
#define CHARW MK('0', 65, 0)
#else
#define CHARW CH(M_CHAR)
#endif
#ifndef OUT2
#define OUT2 0
#endif
void H_leaf(void) { BEGIN() RUN(OPC == CHARACTER ? new_ast0(CHARACTER, 65) : OPC == INTEGER || OPC == INTEGER_HEX || OPC == INTEGER_OCT ? new_ast0(OPC, -OUT2) : new_ast0(OPC, 3))
  CHECK(OPC == INTEGER || OPC == INTEGER_HEX || OPC == INTEGER_OCT ? MK('0', OUT2, 0) : OPC == CHARACTER ? CHARW : CH(M_VAR), 0) TSEALL() }
void H_sizeof(void) { BEGIN() RUN(new_ast1(SIZEOF_KW, new_ast3(DECL, 0, OPC == STRUCT_KW ? new_ast3(STRUCT_KW, 0, C4, 0) : OPC == '*' ? new_ast2('*', 0, C4) : new_ast0(OPC, 0), 0))) CHECK(OPC == STRUCT_KW ? CH(M_SIZEOF) : MK('0', 1, 0), 0) TSEALL() }
void H_logic(void) { BEGIN() 
#ifdef TESTCTX
  C3 = new_ast0(IDENTIFIER, 0); h = cons(new_ast2('=', C4, g_F1), 0); i = cons(new_ast2('=', C3, g_F2), 0);
#else
  h = i = 0;
#endif
  { int l = h, rr = i; RUN(new_ast4(OPC, W1, W2, l, rr)) CHECK(MK(OPC, CH(1), CH(2)), 2)
  if (CTX == RVALUE_CTX_TEST) ENSURE(g_child_tse[1] == l && g_child_tse[2] == rr, "the calls of an operand go with it"); } }
#endif

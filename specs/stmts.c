/* X05: statements transfer control as C prescribes, initializers fill exactly the object.
 * codegen_statement is checked one statement at a time on the ghost machine of exprs.c: expressions and child
 * statements are replaced by their contracts (a child statement ends normally, by break, by continue or by leaving the
 * function).  Every position of the emitted code runs at most once between two backward jumps, so a loop is covered by
 * two executions: from its beginning, and from the target of its backward jump (START is that label), each with
 * arbitrary values of the operands and arbitrary exits of the children. */
#define STMTS
#include "exprs.c"
int g_defd;                    /* labels defined so far (bit lbl - 5000) */
int g_backs;                   /* labels with a backward jump */
int START;                     /* where the run starts: 0 the beginning, else a label */
int X1, X2, X3;                /* how the child statements end */
ast S1, S2, S3;
int g_xl[4], g_xf[4];          /* environment and frame size the children were compiled in */
int g_rets; word g_rv;
word SP_0, GL_0; int LOC0;
int M1_, DF_;                  /* switch body: a case matches; it has a default label */
int g_pre;                     /* switch body: label of its first case when it was entered */
int g_sw;                      /* the child S1 is the body of a switch */
int OPND_OK;
uword wa; int wk; word wv; int wo;   /* a witness byte of memory: last written by 1 scalar, 2 copy, 3 zero */
#define BIT(l) ((l) > 5000 && (l) < 5030 ? 1 << ((l) - 5000) : 0)
#define SPSYNC (R[4] == (word) ((uword) SP_0 - (uword) (word) (g_sp - SP0) * W))
#define INS (g_tgt != 0 || (cgc_fs == g_sp && SPSYNC))
CONTRACT(void grow_stack(int words) __CPROVER_requires(g_tgt != 0 || (g_sp + words >= 0 && g_sp + words <= GSMAX)) __CPROVER_assigns(g_sp, R[4])
  __CPROVER_ensures(g_sp == ACT(OLD(g_sp) + words, OLD(g_sp)) && R[4] == ACT((word) (UR(4) - (uword) (word) words * W), OLD(R[4]))))
CONTRACT(void jump_cond_reg_reg(int cond, int lbl, int reg1, int reg2)
  __CPROVER_requires((cond == EQ || cond == NE || cond == LT || cond == LE || cond == GT || cond == GE || cond == LT_U || cond == LE_U || cond == GT_U || cond == GE_U) && reg1 >= 0 && reg1 < 8 && reg2 >= 0 && reg2 < 8 && lbl > 0)
  __CPROVER_assigns(g_tgt, g_backs) __CPROVER_ensures(g_tgt == (OLD(g_tgt) == 0 ? (cond_holds(cond, R[reg1], R[reg2]) ? lbl : 0) : OLD(g_tgt)) && g_backs == (OLD(g_backs) | (BIT(lbl) & g_defd))))
CONTRACT(void jump(int lbl) __CPROVER_requires(lbl > 0) __CPROVER_assigns(g_tgt, g_backs) __CPROVER_ensures(g_tgt == (OLD(g_tgt) == 0 ? lbl : OLD(g_tgt)) && g_backs == (OLD(g_backs) | (BIT(lbl) & g_defd))))
CONTRACT(void def_label(int lbl) __CPROVER_requires(lbl > 0 && (g_defd & BIT(lbl)) == 0) __CPROVER_assigns(g_tgt, g_defd)
  __CPROVER_ensures(g_tgt == (OLD(g_tgt) == lbl ? 0 : OLD(g_tgt)) && g_defd == (OLD(g_defd) | BIT(lbl))))
CONTRACT(void ret(void) __CPROVER_requires(g_tgt != 0 || (g_sp == 0 && SPSYNC)) __CPROVER_assigns(g_tgt, g_rets, g_rv)
  __CPROVER_ensures(g_tgt == (OLD(g_tgt) == 0 ? -2 : OLD(g_tgt)) && g_rets == OLD(g_rets) + (OLD(g_tgt) == 0) && g_rv == (OLD(g_tgt) == 0 ? R[0] : OLD(g_rv))))
CONTRACT(void jump_to_goto_label(int lbl) __CPROVER_requires(lbl > 0 && heap[lbl] == GOTO_LABEL && INS) __CPROVER_assigns(g_tgt) __CPROVER_ensures(g_tgt == (OLD(g_tgt) == 0 ? lbl : OLD(g_tgt))))
CONTRACT(void def_goto_label(int lbl) __CPROVER_requires(lbl > 0 && heap[lbl] == GOTO_LABEL) __CPROVER_assigns(g_tgt, g_sp, R[4], g_rets)
  __CPROVER_ensures(OLD(g_tgt) == lbl ? (g_tgt == 0 && g_sp == cgc_fs && SPSYNC && g_rets == OLD(g_rets)) : (g_tgt == OLD(g_tgt) && g_sp == OLD(g_sp) && R[4] == OLD(R[4]))))
#if WORD_SIZE == 8
#define MOV_MEM mov_reg_mem64
#else
#define MOV_MEM mov_reg_mem32
#endif
CONTRACT(void MOV_MEM(int dst, int base, int offset) __CPROVER_requires(RG(dst) && (g_tgt != 0 || (base == 4 && offset == 0 && g_sp > 0 && g_sp <= GSMAX))) __CPROVER_assigns(R[dst])
  __CPROVER_ensures(R[dst] == ACT(OLD(GS[g_sp > 0 && g_sp <= GSMAX ? g_sp - 1 : 0]), OLD(R[dst]))))
/* stores, seen through the witness byte */
#define HIT(b, o, n) (OLD(g_tgt) == 0 && wa - (uword) OLD(R[b]) - (uword) (word) (o) < (uword) (word) (n))
#define WSET(hit, k, v, o) (wk == ((hit) ? (k) : OLD(wk)) && wv == ((hit) ? (v) : OLD(wv)) && wo == ((hit) ? (o) : OLD(wo)))
CONTRACT(void write_mem_location(int base, int offset, int src, int width) __CPROVER_requires(base >= 0 && base < 8 && src >= 0 && src < 4 && WOK(width)) __CPROVER_assigns(wk, wv, wo)
  __CPROVER_ensures(WSET(HIT(base, offset, width), 1, OLD(R[src]), (int) (wa - (uword) OLD(R[base]) - (uword) (word) offset))))
CONTRACT(void copy_obj(int dst_base, int dst_offset, int src_base, int src_offset, int width)
  __CPROVER_requires((RG(dst_base) || dst_base == 4) && dst_base != 2 && src_base != 2 && src_base != 4 && width >= 0) __CPROVER_assigns(R[2], wk, wv, wo)
  __CPROVER_ensures(WSET(HIT(dst_base, dst_offset, width), 2, (word) (UR(src_base) + (uword) (word) src_offset + (wa - (uword) OLD(R[dst_base]) - (uword) (word) dst_offset)), 0)))
CONTRACT(void initialize_memory(int val, int base, int offset, int width) __CPROVER_requires(val == 0 && base >= 0 && base < 8 && base != 2 && width >= 0) __CPROVER_assigns(R[2], wk, wv, wo)
  __CPROVER_ensures(WSET(HIT(base, offset, width), 3, 0, 0)))
CONTRACT(void codegen_rvalue(ast node)
  __CPROVER_requires(child_ok(node) && INS && g_sp >= 0 && g_sp < GSMAX)
  __CPROVER_assigns(cgc_fs, g_sp, g_ev, g_mv, R[0], R[1], R[2], R[4], GS[g_sp])
  __CPROVER_ensures(cgc_fs == OLD(cgc_fs) + 1)
  __CPROVER_ensures(g_tgt != 0 || (g_sp == OLD(g_sp) + 1 && GS[OLD(g_sp)] == child_val(node) && g_ev == OLD(g_ev) * 16 + child_no(node) && g_mv == OLD(g_mv) + 1 && R[4] == (word) (UR(4) - W)))
  __CPROVER_ensures(g_tgt == 0 || (g_sp == OLD(g_sp) && GS[g_sp] == OLD(GS[g_sp]) && g_ev == OLD(g_ev) && g_mv == OLD(g_mv) && R[0] == OLD(R[0]) && R[1] == OLD(R[1]) && R[2] == OLD(R[2]) && R[4] == OLD(R[4]))))
CONTRACT(int codegen_lvalue(ast node)
  __CPROVER_requires(child_ok(node) && INS && g_sp >= 0 && g_sp < GSMAX)
  __CPROVER_assigns(cgc_fs, g_sp, g_ev, g_mv, R[0], R[1], R[2], R[4], GS[g_sp])
  __CPROVER_ensures(cgc_fs == OLD(cgc_fs) + 1 && __CPROVER_return_value == width_of(vtype(node)))
  __CPROVER_ensures(g_tgt != 0 || (g_sp == OLD(g_sp) + 1 && GS[OLD(g_sp)] == child_addr(node) && g_ev == OLD(g_ev) * 16 + child_no(node) + 4 && g_mv == OLD(g_mv) + 1 && R[4] == (word) (UR(4) - W)))
  __CPROVER_ensures(g_tgt == 0 || (g_sp == OLD(g_sp) && GS[g_sp] == OLD(GS[g_sp]) && g_ev == OLD(g_ev) && g_mv == OLD(g_mv) && R[0] == OLD(R[0]) && R[1] == OLD(R[1]) && R[2] == OLD(R[2]) && R[4] == OLD(R[4]))))
/* bindings of the enclosing statements, innermost first (specification versions) */
static int enc(int b, int loops_only) { int i;
  for (i = 0; i < 4; i++) { if (b == 0 || heap[b + 1] == BINDING_LOOP || (heap[b + 1] == BINDING_SWITCH && !loops_only)) return b; b = heap[b]; }
  return 0; }
static int s_no(ast n) { return n == S1 ? 1 : n == S2 ? 2 : n == S3 ? 3 : 0; }
static int exit_of(ast n) { return n == S1 ? X1 : n == S2 ? X2 : X3; }
static int lbl_of(int x) { int b = enc(cgc_locals, x == 2); return x == 0 ? 0 : x == 3 ? -2 : heap[b + (x == 1 ? 3 : 4)]; }
static int fs_of(int x, int sp) { int b = enc(cgc_locals, x == 2); return x == 0 ? sp : x == 3 ? 0 : heap[b + 2]; }
/* does the child run?  a switch body only runs when it is entered at a case that matches or at its default label */
static int runs(ast n, int t) { return g_sw && n == S1 ? (t == g_pre && M1_) || (DF_ && t == heap[cgc_locals + 5]) : t == 0; }
#define SWCHILD (g_sw && node == S1)
CONTRACT(void codegen_statement(ast node)
  __CPROVER_requires(node == g_N || node == 0 || (s_no(node) != 0 && INS))
  /* the body of a switch starts with its operand on the stack */
  __CPROVER_requires(node == g_N || !SWCHILD || (g_tgt != 0 && heap[cgc_locals + 1] == BINDING_SWITCH && (g_tgt != heap[cgc_locals + 4] || g_tgt == START || (g_sp == SP0 + 1 && SPSYNC && GS[SP0] == V1))))
  __CPROVER_assigns(node != 0: g_sp, g_ev, g_tgt, g_mv, R[0], R[1], R[2], R[4];
    node == S1: g_xl[1], g_xf[1]; node == S2: g_xl[2], g_xf[2]; node == S3: g_xl[3], g_xf[3];
    node != g_N && node != 0 && g_sw: heap[cgc_locals + 4], heap[cgc_locals + 5], g_fresh, g_defd, g_pre;
    node == g_N: cgc_fs, cgc_locals, cgc_locals_fun, __CPROVER_object_whole(GS), __CPROVER_object_whole(heap), heap_alloc, alloc_result, ast_result, g_fresh, g_defd, g_backs, st_n, st_w, st_kind, st_a, st_v, st_ev, g_rets, g_rv, struct_union_size_largest_member, R[3], __CPROVER_object_whole(code), code_alloc, wk, wv, wo, g_pre, __CPROVER_object_whole(g_xl), __CPROVER_object_whole(g_xf))
  __CPROVER_ensures(node == g_N || node == 0 || (g_xl[s_no(node)] == cgc_locals && g_xf[s_no(node)] == cgc_fs))
  __CPROVER_ensures(node == g_N || node == 0 || !SWCHILD || (g_pre == OLD(heap[cgc_locals + 4]) && heap[cgc_locals + 4] == OLD(g_fresh) + 1 && heap[cgc_locals + 5] == (DF_ ? OLD(g_fresh) + 2 : 0) && g_fresh == OLD(g_fresh) + 2 && g_defd == (OLD(g_defd) | BIT(g_pre) | (DF_ ? BIT(OLD(g_fresh) + 2) : 0))))
  __CPROVER_ensures(node == g_N || node == 0 || !g_sw || SWCHILD || (g_fresh == OLD(g_fresh) && g_defd == OLD(g_defd) && heap[cgc_locals + 4] == OLD(heap[cgc_locals + 4]) && heap[cgc_locals + 5] == OLD(heap[cgc_locals + 5])))
  __CPROVER_ensures(node == g_N || node == 0 || !runs(node, OLD(g_tgt)) || (g_ev == OLD(g_ev) * 16 + 8 + s_no(node) && g_tgt == lbl_of(exit_of(node)) && g_sp == fs_of(exit_of(node), OLD(g_sp)) && SPSYNC))
  __CPROVER_ensures(node == g_N || node == 0 || runs(node, OLD(g_tgt)) || (g_ev == OLD(g_ev) && g_tgt == (SWCHILD && OLD(g_tgt) == g_pre ? heap[cgc_locals + 4] : OLD(g_tgt)) && g_sp == OLD(g_sp) && g_mv == OLD(g_mv)
     && R[0] == OLD(R[0]) && R[1] == OLD(R[1]) && R[2] == OLD(R[2]) && R[4] == OLD(R[4]))))

#ifndef ENVK
#define ENVK 0
#endif
#define B_OUT 90
#define C_OUT 91
#define E_SW 92
#define P_SW 5020
int FB, FW;   /* frame sizes of the enclosing loop and switch */
static void keep2(void) { enc(0, 0); s_no(0); exit_of(0); lbl_of(0); fs_of(0, 0); runs(0, 0); }
#define NEW_FRESH 5000
static void ssetup(void) {
  int fb, fw, fs, l0, x1, x2, x3, m, d; uword w; word sp;
  if (vf_zero) keep2();
  __CPROVER_assume(fb >= 0 && fb <= fw && fw <= fs && fs <= 3);
  __CPROVER_assume(x1 >= 0 && x1 <= 3 && x2 >= 0 && x2 <= 3 && x3 >= 0 && x3 <= 3);
  X1 = x1; X2 = x2; X3 = x3; FB = fb; FW = fw; M1_ = m & 1; DF_ = d & 1; wa = w; wk = 0;
  S1 = new_ast0(INTEGER, 1); S2 = new_ast0(INTEGER, 2); S3 = new_ast0(INTEGER, 3);
  if (ENVK == 3) cgc_add_enclosing_switch(FB, E_SW, P_SW);
  if (ENVK == 1 || ENVK == 2) cgc_add_enclosing_loop(FB, B_OUT, C_OUT);
  if (ENVK == 2) cgc_add_enclosing_switch(FW, E_SW, P_SW);
  if (ENVK == 3) cgc_add_enclosing_loop(FW, B_OUT, C_OUT);
  cgc_fs = FS0 = g_sp = SP0 = fs; R[4] = sp;
  cgc_locals_fun = 0; LOC0 = cgc_locals;
  START = l0; __CPROVER_assume(l0 == 0 || (l0 > 5000 && l0 < 5030)); g_tgt = START;
  g_defd = g_backs = 0; g_rets = 0; g_sw = 0; g_pre = 0; g_xl[1] = g_xl[2] = g_xl[3] = -1;
}
/* START is only a position of the run when something jumps back to it */
#define BEGINS() if (vf_zero) keep(); setup(); ssetup(); SP_0 = R[4]; GL_0 = R[3];
#define RUNS(n) g_N = (n); codegen_statement(g_N); __CPROVER_assume(START == 0 || (g_backs & BIT(START)));
#define BACK (g_tgt > 0 && (g_backs & BIT(g_tgt)) != 0)
#define ENV_KEPT() ENSURE(cgc_fs == FS0 && cgc_locals == LOC0, "frame size and scope are restored"); ENSURE(R[3] == GL_0 && SPSYNC, "the globals pointer is kept and the stack pointer is tracked");
#define ENDS(sp) ENSURE(g_tgt == 0 && g_sp == (sp), "control reaches the next statement with the same stack");
#define OUT(x) ENSURE((x) == 1 ? g_tgt == B_OUT && g_sp == FB : (x) == 2 ? g_tgt == C_OUT && g_sp == FB : (x) == 3 ? g_tgt == -2 : g_tgt == 0 && g_sp == SP0, "break, continue and return leave the statement to their target");
#define LOOPS() ENSURE(BACK && g_sp == SP0, "control goes back for the next iteration with the same stack");
/* if: ENVK must be 1 (a loop encloses the statement) */
void H_if(void) { BEGINS() __CPROVER_assume(START == 0);
  RUNS(new_ast3(IF_KW, C1, S1, OPC ? S2 : 0))
  ENV_KEPT()
  if (V1 != 0) { ENSURE(g_ev == 1 * 16 + 9, "a true condition selects the first statement"); OUT(X1) }
  else if (OPC) { ENSURE(g_ev == 1 * 16 + 10, "a false condition selects the else statement"); OUT(X2) }
  else { ENSURE(g_ev == 1, "a false condition skips the statement"); ENDS(SP0) }
  REACH(); }
void H_while(void) { BEGINS()
  RUNS(new_ast2(WHILE_KW, C1, S1))
  ENV_KEPT()
  ENSURE(enc(g_xl[1], 1) == g_xl[1] && g_xl[1] != LOC0 && heap[g_xl[1]] == LOC0 && g_xf[1] == FS0, "the body is compiled inside of the loop");
  if (V1 == 0) { ENSURE(g_ev == 1, "a false condition ends the loop"); ENDS(SP0) }
  else { ENSURE(g_ev == 1 * 16 + 9, "a true condition runs the body once");
    if (X1 == 0 || X1 == 2) { LOOPS() } else if (X1 == 1) { ENDS(SP0) } else OUT(3) }
  REACH(); }
void H_do(void) { BEGINS()
  RUNS(new_ast2(DO_KW, S1, C1))
  ENV_KEPT()
  ENSURE(g_xl[1] != LOC0 && heap[g_xl[1]] == LOC0 && g_xf[1] == FS0, "the body is compiled inside of the loop");
  if (X1 == 0 || X1 == 2) {
    ENSURE(g_ev == 9 * 16 + 1, "the condition is evaluated after the body and after continue");
    if (V1 != 0) { LOOPS() } else ENDS(SP0)
  } else { ENSURE(g_ev == 9, "break and return leave the body at once"); if (X1 == 1) { ENDS(SP0) } else OUT(3) }
  REACH(); }
/* for: OPC bit 0: init, bit 1: condition, bit 2: step */
void H_for(void) { int e; BEGINS() __CPROVER_assume(X1 == 0 && X2 == 0);
  RUNS(new_ast4(FOR_KW, OPC & 1 ? S1 : 0, OPC & 2 ? C1 : 0, OPC & 4 ? S2 : 0, S3))
  ENV_KEPT()
  ENSURE(g_xl[3] != LOC0 && heap[g_xl[3]] == LOC0 && g_xf[3] == FS0, "the body is compiled inside of the loop");
  e = START == 0 ? (OPC & 1 ? 9 : 0) : (OPC & 4 ? 10 : 0);
  if (OPC & 2) e = e * 16 + 1;
  if ((OPC & 2) && V1 == 0) { ENSURE(g_ev == e, "init (or step), then the condition"); ENDS(SP0) }
  else { ENSURE(g_ev == e * 16 + 11, "init (or step), then the condition, then the body");
    if (X3 == 0 || X3 == 2) { LOOPS() } else if (X3 == 1) { ENDS(SP0) } else OUT(3) }
  REACH(); }
/* switch: C1 the operand, S1 the body; START != 0 is the label of default */
void H_switch(void) { int f; BEGINS() g_sw = 1;
  if (START != 0) { word top; g_sp = SP0 + 1; GS[SP0] = top; R[4] = (word) ((uword) SP_0 - W); }
  RUNS(new_ast2(SWITCH_KW, C1, S1))
  ENV_KEPT()
  ENSURE(g_xl[1] != LOC0 && heap[g_xl[1] + 1] == BINDING_SWITCH && g_xf[1] == FS0 + 1, "the body is compiled inside of the switch, with the operand on the stack");
  if (START == 0 && !M1_ && DF_) { ENSURE(g_ev == 1 && BACK && g_tgt == heap[g_xl[1] + 5] && g_sp == SP0 + 1, "no case matches: control goes to default"); }
  else if (START == 0 && !M1_) { ENSURE(g_ev == 1, "no case matches: the body is skipped"); ENDS(SP0) }
  else {
    ENSURE(g_ev == (START == 0 ? 1 * 16 + 9 : 9), "the operand is evaluated once and the body is entered");
    if (X1 <= 1) { ENDS(SP0) } else OUT(X1)
  }
  REACH(); }
/* case and default in a switch (ENVK 2) whose operand is on top of the stack */
void H_case(void) { int old, df; word opnd; BEGINS()
  __CPROVER_assume(FS0 > FW && (START == 0 || START == P_SW)); g_defd = 0;
  GS[SP0 - 1] = opnd;
  g_N = new_ast2(CASE_KW, C1, S1); codegen_statement(g_N);
  ENV_KEPT()
  ENSURE(heap[LOC0 + 4] != P_SW && heap[LOC0 + 4] > 0 && (g_defd & BIT(heap[LOC0 + 4])) == 0 && (g_defd & BIT(P_SW)), "the next case gets a label of its own");
  if (START == 0) { ENSURE(g_ev == 9, "falling through runs the statement without comparing"); }
  else if (opnd == V1) { ENSURE(g_ev == 1 * 16 + 9, "an equal operand selects the case"); }
  else { ENSURE(g_ev == 1 && g_tgt == heap[LOC0 + 4] && g_sp == SP0, "another operand goes to the next case"); }
  if (START == 0 || opnd == V1) {
    if (X1 == 1) { ENSURE(g_tgt == E_SW && g_sp == FW, "break leaves the switch"); } else OUT(X1)
  }
  REACH(); }
void H_default(void) { BEGINS()
  __CPROVER_assume(FS0 > FW);
  g_N = new_ast1(DEFAULT_KW, S1); codegen_statement(g_N);
  __CPROVER_assume(START == 0 || START == heap[LOC0 + 5]);
  ENV_KEPT()
  ENSURE(heap[LOC0 + 4] == P_SW && (g_defd & BIT(heap[LOC0 + 5])) != 0, "the label of default is defined and the chain of cases goes on");
  ENSURE(g_ev == 9, "the statement runs");
  if (X1 == 1) { ENSURE(g_tgt == E_SW && g_sp == FW, "break leaves the switch"); } else OUT(X1)
  REACH(); }
void H_break(void) { BEGINS() __CPROVER_assume(START == 0);
  RUNS(new_ast0(BREAK_KW, 0)) ENV_KEPT()
  ENSURE(g_ev == 0 && g_tgt == (ENVK == 2 ? E_SW : B_OUT) && g_sp == (ENVK == 1 ? FB : FW), "break leaves the innermost loop or switch");
  REACH(); }
void H_continue(void) { BEGINS() __CPROVER_assume(START == 0);
  RUNS(new_ast0(CONTINUE_KW, 0)) ENV_KEPT()
  ENSURE(g_ev == 0 && g_tgt == C_OUT && g_sp == (ENVK == 3 ? FW : FB), "continue goes to the innermost loop");
  REACH(); }
void H_return(void) { BEGINS() __CPROVER_assume(START == 0);
  RUNS(new_ast1(RETURN_KW, OPC ? C1 : 0)) ENV_KEPT()
  ENSURE(g_tgt == -2 && g_rets == 1 && g_ev == (OPC ? 1 : 0) && (!OPC || g_rv == V1), "return evaluates its operand and leaves the function with that value");
  REACH(); }
void H_exprstmt(void) { BEGINS() __CPROVER_assume(START == 0);
  RUNS(C1) ENV_KEPT() ENSURE(g_ev == 1, "the expression is evaluated once"); ENDS(SP0) REACH(); }
void H_empty(void) { BEGINS() __CPROVER_assume(START == 0);
  RUNS(0) ENV_KEPT() ENSURE(g_ev == 0, "nothing happens"); ENDS(SP0) REACH(); }
/* a goto label L of the program: OPC 0 unknown so far, 1 known, 2 another label is known */
#define LID 701
static int goto_lbl(int id) { int b = cgc_locals_fun, i; for (i = 0; i < 4; i++) { if (b == 0 || (heap[b + 1] == BINDING_GOTO_LABEL && heap[b + 2] == id)) return b == 0 ? 0 : heap[b + 3]; b = heap[b]; } return 0; }
static void gsetup(void) { int l; if (OPC >= 1) { l = alloc_goto_label(); cgc_add_goto_label(OPC == 1 ? LID : LID + 1, l); l = alloc_goto_label(); cgc_add_goto_label(LID + 2, l); } }
void H_goto(void) { int k; BEGINS() __CPROVER_assume(START == 0);
  gsetup(); k = OPC == 1 ? goto_lbl(LID) : 0;
  RUNS(new_ast1(GOTO_KW, new_ast0(IDENTIFIER, LID))) ENV_KEPT()
  ENSURE(g_ev == 0 && g_tgt > 0 && g_tgt == goto_lbl(LID) && (k == 0 || g_tgt == k) && g_tgt != goto_lbl(LID + 1) && g_tgt != goto_lbl(LID + 2), "goto goes to the label of that name");
  REACH(); }
void H_label(void) { int k; BEGINS()
  gsetup(); k = OPC == 1 ? goto_lbl(LID) : 0;
  { int s; __CPROVER_assume(s >= 0 && s < 300); START = s; g_tgt = s; }
  if (START != 0) { int d; word r; __CPROVER_assume(d >= 0 && d <= 8); g_sp = d; R[4] = r; }
  g_N = new_ast2(':', new_ast0(IDENTIFIER, LID), S1); codegen_statement(g_N);
  __CPROVER_assume(START == 0 || START == goto_lbl(LID));
  ENV_KEPT()
  ENSURE(goto_lbl(LID) > 0 && (k == 0 || goto_lbl(LID) == k) && goto_lbl(LID) != goto_lbl(LID + 1) && goto_lbl(LID) != goto_lbl(LID + 2), "the label has one binding");
  ENSURE(g_ev == 9, "the labelled statement runs, reached from above or by goto"); OUT(X1)
  REACH(); }
/* blocks */
static ast decl1(int id, int t, ast init) { return new_ast2(DECLS, cons(new_ast3(DECL, new_ast0(IDENTIFIER, id), mk_type(t), init), 0), 0); }
void H_block(void) { int e; BEGINS() __CPROVER_assume(START == 0);
  RUNS(new_ast2('{', S1, new_ast2('{', S2, OPC ? new_ast2('{', S3, 0) : 0))) ENV_KEPT()
  e = 9; if (X1 == 0) { e = e * 16 + 10; if (X2 == 0 && OPC) e = e * 16 + 11; }
  ENSURE(g_ev == e, "the statements run in order, until one leaves the block");
  OUT(X1 ? X1 : X2 ? X2 : OPC ? X3 : 0)
  REACH(); }
/* { S1; T v; S2; T2 w; S3 }: scopes */
void H_scope(void) { int w1 = (width_of(TL) + W - 1) / W, w2 = (width_of(TR) + W - 1) / W; int e; BEGINS() __CPROVER_assume(START == 0);
  RUNS(new_ast2('{', S1, new_ast2('{', decl1(SYM, TL, 0), new_ast2('{', S2, new_ast2('{', decl1(SYM + 1, TR, 0), new_ast2('{', S3, 0)))))) ENV_KEPT()
  e = 9; if (X1 == 0) { e = e * 16 + 10; if (X2 == 0) e = e * 16 + 11; }
  ENSURE(g_ev == e, "the statements run in order, until one leaves the block");
  OUT(X1 ? X1 : X2 ? X2 : X3)
  ENSURE(g_xl[1] == LOC0 && g_xf[1] == FS0, "the variable is not in scope before its declaration");
  ENSURE(heap[g_xl[2]] == LOC0 && heap[g_xl[2] + 1] == BINDING_VAR_LOCAL && heap[g_xl[2] + 2] == SYM && g_xf[2] == FS0 + w1 && heap[g_xl[2] + 3] == FS0 + w1, "the variable gets a slot of its own, of its size");
  ENSURE(heap[g_xl[3]] == g_xl[2] && heap[g_xl[3] + 2] == SYM + 1 && g_xf[3] == FS0 + w1 + w2 && heap[g_xl[3] + 3] == FS0 + w1 + w2, "the next variable gets the slot after it");
  REACH(); }

/* ---- initializers: content of every byte of the object, and nothing outside of it ----
 * OPC selects the initializer; the object has type TL (elements of type TR). */
#define ILIST(l) new_ast1(INITIALIZER_LIST, l)
/* byte k of the object: child whose value is there (0: none, the byte is zero for locals), and the byte of the value */
static int g_ch, g_by;
static void val_at(int k, int t, int c, int off) { if (k >= off && k < off + width_of(t)) { g_ch = c; g_by = k - off; } }
static ast mk_init(void) {
  if (OPC == 0) return C1;                                             /* scalar */
  if (OPC == 1) return ILIST(cons(C1, 0));                             /* { C1 } */
  if (OPC == 2) return ILIST(cons(C1, cons(C2, 0)));                   /* { C1, C2 } */
  if (OPC == 3) return ILIST(cons(C1, cons(C2, cons(C3, 0))));         /* { C1, C2, C3 } */
  if (OPC == 4) return ILIST(cons(ILIST(cons(C1, cons(C2, 0))), cons(ILIST(cons(C3, 0)), 0)));   /* { { C1, C2 }, { C3 } } */
  if (OPC == 5) return ILIST(cons(C1, cons(C2, cons(C3, cons(ILIST(cons(C1, cons(C2, 0))), 0)))));   /* { C1, C2, C3, { C1, C2 } } */
  return ILIST(0);
}
static void expected(int k) {
  g_ch = 0; g_by = 0;
  if (OPC == 0) { g_ch = 1; g_by = k; if (!ISAGG(TL)) { g_ch = 0; val_at(k, TL, 1, 0); } return; }
  if (TL == T_AINT) { val_at(k, T_INT, 1, 0); if (OPC >= 2) val_at(k, T_INT, 2, 4); if (OPC == 3) val_at(k, T_INT, 3, 8); }
  else if (TL == T_AAINT) { val_at(k, T_INT, 1, 0); val_at(k, T_INT, 2, 4); val_at(k, T_INT, 3, 12); }
  else if (TL == T_ASTRUCT) { val_at(k, T_CHAR, 1, 0); val_at(k, T_INT, 2, 4); val_at(k, T_CHAR, 3, 28); }
  else if (TL == T_STRUCT) { val_at(k, T_CHAR, 1, 0); if (OPC >= 2) val_at(k, T_INT, 2, 4); if (OPC >= 3) val_at(k, T_USHORT, 3, 8); if (OPC == 5) { val_at(k, T_INT, 1, 12); val_at(k, T_INT, 2, 16); } }
  else if (TL == T_UNION) val_at(k, T_CHAR, 1, 0);
  else val_at(k, TL, 1, 0);
}
/* padding bytes may have any content */
static int padding(int k) {
  if (TL == T_STRUCT || TL == T_ASTRUCT) { k = k % 28; return (k >= 1 && k < 4) || (k >= 10 && k < 12); }
  if (TL == T_UNION) return k >= 1;
  return !ISAGG(TL) && k >= width_of(TL);
}
#define NEVAL (OPC == 5 ? 5 : OPC == 4 ? 3 : OPC > 3 ? 0 : OPC == 0 ? 1 : OPC)
static int ev_of(void) { return OPC == 0 ? (TL == T_STRUCT || TL == T_UNION ? 5 : 1) : OPC == 1 ? 1 : OPC == 2 ? 0x12 : OPC == 3 || OPC == 4 ? 0x123 : OPC == 5 ? 0x12312 : 0; }
static void check_object(uword base, int size, int zeroed) {
  int k;
  if (wa - base < (uword) size) {
    k = (int) (wa - base); expected(k);
    if (OPC == 0 && (TL == T_STRUCT || TL == T_UNION)) { ENSURE(wk == 2 && wv == (word) (A1 + k), "the object is a copy of the initializer"); }
    else if (g_ch) { ENSURE(wk == 1 && wv == (g_ch == 1 ? V1 : g_ch == 2 ? V2 : V3) && wo == g_by, "every initialized scalar has the value of its initializer"); }
    else if (!padding(k)) { ENSURE(zeroed ? wk == 3 : wk == 0, "the rest of the object is zero"); }
  } else { ENSURE(wk == 0, "nothing outside of the object is written"); }
}
void H_init_local(void) { int n; BEGINS() __CPROVER_assume(START == 0);
  n = (width_of(TL) + W - 1) / W;
  codegen_local_var_decl(new_ast3(DECL, new_ast0(IDENTIFIER, SYM), mk_type(TL), mk_init()));
  ENSURE(g_tgt == 0 && g_sp == SP0 + n && cgc_fs == g_sp && SPSYNC && R[3] == GL_0, "the variable takes exactly its size on the stack");
  ENSURE(g_ev == ev_of(), "every initializer is evaluated once, in order");
  ENSURE(heap[cgc_locals] == LOC0 && heap[cgc_locals + 1] == BINDING_VAR_LOCAL && heap[cgc_locals + 2] == SYM && heap[cgc_locals + 3] == cgc_fs, "the variable is bound to its place");
  check_object((uword) R[4], width_of(TL), 1);
  REACH(); }
void H_init_global(void) { int off; int b; BEGINS() __CPROVER_assume(START == 0);
  __CPROVER_assume(off >= 16 && off < 1000000); cgc_global_alloc = off; init_next_lbl = 80;
  codegen_glo_var_decl(new_ast3(DECL, new_ast0(IDENTIFIER, SYM), mk_type(TL), mk_init()));
  b = cgc_globals;
  ENSURE(heap[b + 1] == BINDING_VAR_GLOBAL && heap[b + 2] == SYM && heap[b + 3] == off && cgc_global_alloc >= off + width_of(TL) && cgc_global_alloc % 4 == off % 4, "the variable is bound to a place of its own");
  ENSURE(g_tgt == init_next_lbl && init_next_lbl != 80 && g_sp == SP0 && cgc_fs == g_sp && SPSYNC && R[3] == GL_0, "the initialization code goes on to the next one");
  ENSURE(g_ev == ev_of(), "every initializer is evaluated once, in order");
  check_object((uword) R[3] + (uword) off, width_of(TL), 0);
  REACH(); }
void H_init_static(void) { int off; BEGINS()
  __CPROVER_assume(off >= 16 && off < 1000000 && (START == 0 || START == 80)); cgc_global_alloc = off; init_next_lbl = 80;
  codegen_static_local_var_decl(new_ast3(DECL, new_ast0(IDENTIFIER, SYM), mk_type(TL), mk_init()));
  ENSURE(heap[cgc_locals + 1] == BINDING_VAR_GLOBAL && heap[cgc_locals + 2] == SYM && heap[cgc_locals + 3] == off && heap[cgc_locals] == LOC0 && cgc_global_alloc >= off + width_of(TL), "the variable is bound to a place of its own, in the scope of the block");
  ENSURE(g_sp == SP0 && cgc_fs == g_sp && SPSYNC && R[3] == GL_0, "the stack is kept");
  if (START == 80) { ENSURE(g_tgt == init_next_lbl && init_next_lbl != 80 && g_ev == ev_of(), "the initialization code runs at program start and goes on to the next one"); check_object((uword) R[3] + (uword) off, width_of(TL), 0); }
  else { ENSURE(g_tgt == 0 && g_ev == 0 && wk == 0, "the declaration does nothing when it is reached"); }
  REACH(); }
/* functions: parameters are found where the caller put them, the frame is empty at the return; OPC parameters */
#define PID 720
static ast mk_params(void) {
  ast p3 = cons(new_ast3(DECL, new_ast0(IDENTIFIER, PID + 2), mk_type(T_CHAR), 0), 0);
  ast p2 = cons(new_ast3(DECL, new_ast0(IDENTIFIER, PID + 1), mk_type(TR), 0), OPC > 2 ? p3 : 0);
  return OPC == 0 ? 0 : cons(new_ast3(DECL, new_ast0(IDENTIFIER, PID), mk_type(TL), 0), OPC > 1 ? p2 : 0);
}
static int find_local(int env, int id) { int i; for (i = 0; i < 6; i++) { if (env == 0 || heap[env + 2] == id) return env; env = heap[env]; } return 0; }
static int pwords(int t) { return t == T_STRUCT || t == T_UNION ? (width_of(t) + W - 1) / W : 1; }
/* address of a variable at the start of S1, from its binding (leaf_addr of exprs.c) */
#define PADDR(id) ((uword) SP_0 + (uword) (word) (g_xf[1] - heap[find_local(g_xl[1], id) + 3]) * W)
void H_fundecl(void) { ast ty; int lab; BEGINS() __CPROVER_assume(X1 == 0 || X1 == 3);
  g_sp = SP0 = FS0 = 0; g_N = -1; cgc_locals = 0; main_returns = 0;
  ty = new_ast3('(', mk_type(T_INT), mk_params(), 0);
  if (ENVK == 1) { cgc_add_global_fun(PID + 9, 5025, ty); cgc_add_global_fun(PID + 8, 5026, ty); }
  __CPROVER_assume(START > 5000); g_tgt = START;
  codegen_glo_fun_decl(new_ast2(FUN_DECL, new_ast3(DECL, new_ast0(IDENTIFIER, PID + 9), ty, 0), new_ast2('{', S1, 0)));
  lab = cgc_lookup_fun(PID + 9, cgc_globals); lab = heap[lab + 4];
  ENSURE((g_defd & BIT(lab)) != 0 && (ENVK != 1 || lab == 5025), "the label of the function is defined, the one its forward uses refer to");
  ENSURE(heap[cgc_lookup_fun(PID + 9, cgc_globals) + 5] == ty || ENVK == 1, "the function has its type");
  __CPROVER_assume(START == lab);
  ENSURE(g_ev == 9 && g_tgt == -2 && g_rets == (X1 == 0), "the body runs, then the function returns");
  ENSURE(R[3] == GL_0, "the globals pointer is kept");
  ENSURE(g_xf[1] == 0, "the frame is empty when the body starts");
  /* at the entry of the function the stack holds the return address, then the arguments, the first one first */
  if (OPC > 0) { ENSURE(PADDR(PID) == (uword) SP_0 + W && find_local(g_xl[1], PID), "first parameter"); }
  if (OPC > 1) { ENSURE(PADDR(PID + 1) == (uword) SP_0 + W + pwords(TL) * W && find_local(g_xl[1], PID + 1), "second parameter"); }
  if (OPC > 2) { ENSURE(PADDR(PID + 2) == (uword) SP_0 + W + (pwords(TL) + pwords(TR)) * W && find_local(g_xl[1], PID + 2), "third parameter"); }
  ENSURE(cgc_fs == 0 && cgc_locals == 0, "no parameter is in scope after the function");
  REACH(); }

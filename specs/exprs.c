/* X04: expressions compute the value C prescribes.
 * codegen_rvalue and codegen_lvalue are checked one operator at a time: the recursive calls on the operands are
 * replaced by the contract of the function itself (an operand leaves one arbitrary word on the stack).  The machine
 * is a ghost machine: instruction emitters act on ghost registers, stack and memory versions; after a jump the
 * emitted code does not run until the label it goes to is defined. */
#include "vf.h"
/* VF_DROP_OK: keep() below calls every function the contracts call */
#include "repo/pnut.c"
#if WORD_SIZE == 8
typedef vi64 word; typedef vu64 uword;
#else
typedef int word; typedef vu32 uword;
#endif
#define W WORD_SIZE
CONTRACT(void fatal_error(char *msg)
  __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))
#ifndef OPC
#define OPC '+'
#endif
#ifndef TL
#define TL 0
#endif
#ifndef TR
#define TR 0
#endif
#define OLD(x) __CPROVER_old(x)
/* ---- ghost machine ---- */
word R[8];
#ifdef STMTS
#define GSMAX 20
#else
#define GSMAX 12
#endif
word GS[GSMAX]; int g_sp;      /* words pushed */
int g_tgt;                     /* 0: running; else the label the machine jumped to */
int g_fresh;                   /* last label allocated */
int g_mv;                      /* memory version */
int g_ev;                      /* operands evaluated, in base 8 */
int st_n, st_w, st_kind; uword st_a; word st_v; int st_ev;   /* last store: kind 1 scalar, 2 copy (st_v source address) */
int call_n, call_l, call_sp; uword call_a; word call_args[4]; int call_ev;
int FS0, SP0;
#ifdef STMTS
#define SPMIN 0
#else
#define SPMIN SP0
#endif
word __CPROVER_uninterpreted_ld(int mv, uword a, int w, int s);
word __CPROVER_uninterpreted_sdiv(word a, word b);
word __CPROVER_uninterpreted_smod(word a, word b);
word __CPROVER_uninterpreted_udiv(word a, word b);
word __CPROVER_uninterpreted_umod(word a, word b);
word __CPROVER_uninterpreted_mul(word a, word b);
word __CPROVER_uninterpreted_shl(word a, word b);
word __CPROVER_uninterpreted_shr(word a, word b);
word __CPROVER_uninterpreted_sar(word a, word b);
word __CPROVER_uninterpreted_scale(word a, int w);
word __CPROVER_uninterpreted_unscale(word a, int w);
word __CPROVER_uninterpreted_lbl(int l);
word __CPROVER_uninterpreted_ret(int l, uword a, int ev);
#define LD __CPROVER_uninterpreted_ld
#define SDIV __CPROVER_uninterpreted_sdiv
#define SMOD __CPROVER_uninterpreted_smod
#define UDIV __CPROVER_uninterpreted_udiv
#define UMOD __CPROVER_uninterpreted_umod
#define SMUL __CPROVER_uninterpreted_mul
#define SHLF __CPROVER_uninterpreted_shl
#define SHRF __CPROVER_uninterpreted_shr
#define SARF __CPROVER_uninterpreted_sar
#define SCALE_ __CPROVER_uninterpreted_scale
#define UNSCALE_ __CPROVER_uninterpreted_unscale
#define LBLF __CPROVER_uninterpreted_lbl
static word SCALE(word a, int w) { return w == 1 ? a : SCALE_(a, w); }
static word UNSCALE(word a, int w) { return w == 1 ? a : UNSCALE_(a, w); }
static word ext(uword v, int w, int sign) {
  if (w == 1) return sign ? (word) (signed char) v : (word) (unsigned char) v;
  if (w == 2) return sign ? (word) (short) v : (word) (unsigned short) v;
  if (w == 4) return sign ? (word) (int) v : (word) (vu32) v;
  return (word) v;
}
#define RG(r) ((r) >= 0 && (r) < 8 && (r) != 4)
#define ACT(new, old) (g_tgt == 0 ? (new) : (old))
#define UR(r) ((uword) OLD(R[r]))
#define RR(f, val) CONTRACT(void f(int dst, int src) __CPROVER_requires(RG(dst) && src >= 0 && src < 8) __CPROVER_assigns(R[dst]) \
   __CPROVER_ensures(R[dst] == ACT((word) (val), OLD(R[dst]))))
RR(add_reg_reg, UR(dst) + UR(src))
RR(sub_reg_reg, UR(dst) - UR(src))
RR(and_reg_reg, UR(dst) & UR(src))
RR(or_reg_reg,  UR(dst) | UR(src))
RR(xor_reg_reg, UR(dst) ^ UR(src))
RR(mov_reg_reg, UR(src))
RR(imul_reg_reg, SMUL(OLD(R[dst]), OLD(R[src])))
RR(mul_reg_reg, SMUL(OLD(R[dst]), OLD(R[src])))
/* sequences proved in X02 */
#define RRC(f, val, pre, clob) CONTRACT(void f(int dst, int src) __CPROVER_requires(RG(dst) && RG(src) && (pre)) __CPROVER_assigns(R[dst], clob) \
   __CPROVER_ensures(R[dst] == ACT((word) (val), OLD(R[dst]))))
RRC(idiv_reg_reg, SDIV(OLD(R[dst]), OLD(R[src])), src != 0 && src != 2 && dst == 0, R[2])
RRC(irem_reg_reg, SMOD(OLD(R[dst]), OLD(R[src])), src != 0 && src != 2 && dst == 0, R[2])
RRC(div_reg_reg, UDIV(OLD(R[dst]), OLD(R[src])), src != 0 && src != 2 && dst == 0, R[2])
RRC(rem_reg_reg, UMOD(OLD(R[dst]), OLD(R[src])), src != 0 && src != 2 && dst == 0, R[2])
RRC(s_l_reg_reg, SHLF(OLD(R[dst]), OLD(R[src])), dst == 0, R[1])
RRC(sar_reg_reg, SARF(OLD(R[dst]), OLD(R[src])), dst == 0, R[1])
RRC(shr_reg_reg, SHRF(OLD(R[dst]), OLD(R[src])), dst == 0, R[1])
CONTRACT(void mov_reg_imm(int dst, int imm) __CPROVER_requires(RG(dst)) __CPROVER_assigns(R[dst]) __CPROVER_ensures(R[dst] == ACT((word) imm, OLD(R[dst]))))
CONTRACT(void add_reg_imm(int dst, int imm) __CPROVER_requires(RG(dst)) __CPROVER_assigns(R[dst]) __CPROVER_ensures(R[dst] == ACT((word) (UR(dst) + (uword) (word) imm), OLD(R[dst]))))
#if WORD_SIZE == 8
CONTRACT(void mov_reg_large_imm(int dst, int o) __CPROVER_requires(RG(dst)) __CPROVER_assigns(R[dst])
  __CPROVER_ensures(R[dst] == ACT((o <= 0 ? (word) -(vi64) o : (word) ((uword) (vu32) heap[o] | ((uword) (vu32) heap[o + 1] << 32))), OLD(R[dst]))))
#endif
CONTRACT(void mov_reg_lbl(int dst, int lbl) __CPROVER_requires(RG(dst)) __CPROVER_assigns(R[dst]) __CPROVER_ensures(R[dst] == ACT(LBLF(lbl), OLD(R[dst]))))
CONTRACT(void push_reg(int src) __CPROVER_requires(src >= 0 && src < 8 && g_sp >= 0 && g_sp < GSMAX) __CPROVER_assigns(GS[g_sp], g_sp, R[4])
  __CPROVER_ensures(GS[OLD(g_sp)] == ACT(OLD(R[src]), OLD(GS[g_sp])) && g_sp == ACT(OLD(g_sp) + 1, OLD(g_sp)) && R[4] == ACT((word) (UR(4) - W), OLD(R[4]))))
CONTRACT(void pop_reg(int dst) __CPROVER_requires(RG(dst) && (g_tgt != 0 || (g_sp > SPMIN && g_sp <= GSMAX))) __CPROVER_assigns(R[dst], g_sp, R[4])
  __CPROVER_ensures(R[dst] == ACT(OLD(GS[g_sp > 0 && g_sp <= GSMAX ? g_sp - 1 : 0]), OLD(R[dst])) && g_sp == ACT(OLD(g_sp) - 1, OLD(g_sp)) && R[4] == ACT((word) (UR(4) + W), OLD(R[4]))))
#ifndef STMTS
CONTRACT(void grow_stack(int words) __CPROVER_requires(words <= 0 && (g_tgt != 0 || g_sp + words >= SP0)) __CPROVER_assigns(g_sp, R[4])
  __CPROVER_ensures(g_sp == ACT(OLD(g_sp) + words, OLD(g_sp)) && R[4] == ACT((word) (UR(4) - (uword) (word) words * W), OLD(R[4]))))
#endif
CONTRACT(void grow_stack_bytes(int bytes) __CPROVER_requires(bytes >= 0 && bytes % W == 0 && bytes / W <= 8 && (g_tgt != 0 || g_sp + bytes / W <= GSMAX)) __CPROVER_assigns(g_sp, R[4])
  __CPROVER_ensures(g_sp == ACT(OLD(g_sp) + bytes / W, OLD(g_sp)) && R[4] == ACT((word) (UR(4) - (uword) (word) bytes), OLD(R[4]))))
#define WOK(w) ((w) == 1 || (w) == 2 || (w) == 4 || ((w) == 8 && W == 8))
CONTRACT(void load_mem_location(int dst, int base, int offset, int width, bool is_signed)
  __CPROVER_requires(RG(dst) && base >= 0 && base < 8 && WOK(width) && (base != 4 || g_tgt != 0 || (offset == 0 && g_sp > SPMIN && g_sp <= GSMAX))) __CPROVER_assigns(R[dst])
  __CPROVER_ensures(R[dst] == ACT((base == 4 ? ext((uword) OLD(GS[g_sp > 0 && g_sp <= GSMAX ? g_sp - 1 : 0]), width, is_signed != 0)
     : LD(OLD(g_mv), UR(base) + (uword) (word) offset, width, width == W || is_signed != 0)), OLD(R[dst]))))
#ifndef STMTS
CONTRACT(void write_mem_location(int base, int offset, int src, int width)
  __CPROVER_requires(base >= 0 && base < 8 && base != 4 && src >= 0 && src < 4 && WOK(width)) __CPROVER_assigns(g_mv, st_n, st_w, st_kind, st_a, st_v, st_ev)
  __CPROVER_ensures(g_mv == ACT(OLD(g_mv) + 1, OLD(g_mv)) && st_n == ACT(OLD(st_n) + 1, OLD(st_n)) && st_w == ACT(width, OLD(st_w)) && st_kind == ACT(1, OLD(st_kind)) && st_ev == ACT(g_ev, OLD(st_ev))
    && st_a == ACT(UR(base) + (uword) (word) offset, OLD(st_a)) && st_v == ACT(OLD(R[src]), OLD(st_v))))
CONTRACT(void copy_obj(int dst_base, int dst_offset, int src_base, int src_offset, int width)
  __CPROVER_requires((RG(dst_base) || dst_base == 4) && dst_base != 2 && src_base != 2 && src_base != 4) __CPROVER_assigns(R[2], g_mv, st_n, st_w, st_kind, st_a, st_v, st_ev)
  __CPROVER_ensures(g_mv == ACT(OLD(g_mv) + 1, OLD(g_mv)) && st_n == ACT(OLD(st_n) + 1, OLD(st_n)) && st_w == ACT(width, OLD(st_w)) && st_kind == ACT(2, OLD(st_kind)) && st_ev == ACT(g_ev, OLD(st_ev))
    && st_a == ACT(UR(dst_base) + (uword) (word) dst_offset, OLD(st_a)) && st_v == ACT((word) (UR(src_base) + (uword) (word) src_offset), OLD(st_v))))
#endif
CONTRACT(void mul_for_pointer_arith(int reg, int width) __CPROVER_requires(RG(reg) && width > 0) __CPROVER_assigns(R[reg])
  __CPROVER_ensures(R[reg] == ACT(SCALE(OLD(R[reg]), width), OLD(R[reg]))))
CONTRACT(void div_for_pointer_arith(int reg, int width) __CPROVER_requires(reg == reg_X && width > 0) __CPROVER_assigns(R[reg], R[2])
  __CPROVER_ensures(R[reg] == ACT(UNSCALE(OLD(R[reg]), width), OLD(R[reg]))))
CONTRACT(int alloc_label_(void) __CPROVER_assigns(g_fresh) __CPROVER_ensures(g_fresh == OLD(g_fresh) + 1 && __CPROVER_return_value == g_fresh))
static int cond_holds(int c, word a, word b) {
  uword x = (uword) a, y = (uword) b;
  if (c == EQ) return a == b;   if (c == NE) return a != b;
  if (c == LT) return a < b;    if (c == LE) return a <= b;   if (c == GT) return a > b;   if (c == GE) return a >= b;
  if (c == LT_U) return x < y;  if (c == LE_U) return x <= y; if (c == GT_U) return x > y; return x >= y;
}
#ifndef STMTS
CONTRACT(void jump_cond_reg_reg(int cond, int lbl, int reg1, int reg2)
  __CPROVER_requires((cond == EQ || cond == NE || cond == LT || cond == LE || cond == GT || cond == GE || cond == LT_U || cond == LE_U || cond == GT_U || cond == GE_U) && reg1 >= 0 && reg1 < 8 && reg2 >= 0 && reg2 < 8 && lbl > 0)
  __CPROVER_assigns(g_tgt) __CPROVER_ensures(g_tgt == (OLD(g_tgt) == 0 ? (cond_holds(cond, R[reg1], R[reg2]) ? lbl : 0) : OLD(g_tgt))))
CONTRACT(void jump(int lbl) __CPROVER_requires(lbl > 0) __CPROVER_assigns(g_tgt) __CPROVER_ensures(g_tgt == (OLD(g_tgt) == 0 ? lbl : OLD(g_tgt))))
CONTRACT(void def_label(int lbl) __CPROVER_requires(lbl > 0) __CPROVER_assigns(g_tgt) __CPROVER_ensures(g_tgt == (OLD(g_tgt) == lbl ? 0 : OLD(g_tgt))))
#endif
/* calls: the arguments are on top of the stack, the result is in X; all other registers but SP and the globals pointer are lost */
#define CALLC(name, param, L, A) CONTRACT(void name(int param) __CPROVER_requires(g_tgt != 0 || cgc_fs - FS0 == g_sp - SP0) \
  __CPROVER_assigns(R[0], R[1], R[2], g_mv, call_n, call_l, call_a, call_sp, call_ev, call_args[0], call_args[1], call_args[2]) \
  __CPROVER_ensures(g_tgt != 0 ? (R[0] == OLD(R[0]) && g_mv == OLD(g_mv) && call_n == OLD(call_n) && call_l == OLD(call_l) && call_a == OLD(call_a) && call_sp == OLD(call_sp) && call_ev == OLD(call_ev)) \
    : (call_n == OLD(call_n) + 1 && call_l == (L) && call_a == (A) && call_sp == g_sp && call_ev == g_ev && g_mv == OLD(g_mv) + 1 && R[0] == __CPROVER_uninterpreted_ret(L, A, g_ev) \
       && (g_sp < SP0 + 1 || call_args[0] == GS[g_sp - 1]) && (g_sp < SP0 + 2 || call_args[1] == GS[g_sp - 2]) && (g_sp < SP0 + 3 || call_args[2] == GS[g_sp - 3]))))
CALLC(call, lbl, lbl, (uword) 0)
CALLC(call_reg, reg, 0, (uword) OLD(R[reg]))

/* ---- types ---- */
enum { T_INT, T_UINT, T_CHAR, T_UCHAR, T_SHORT, T_USHORT, T_LONG, T_ULONG, T_PINT, T_PCHAR, T_PUCHAR, T_PSHORT, T_PSTRUCT, T_PPINT, T_PVOID, T_AINT, T_AAINT, T_STRUCT, T_UNION, T_PUNION, T_PFUN, T_ASTRUCT };
#define ISPTR(t) ((t) >= T_PINT && (t) <= T_AAINT || (t) == T_PUNION || (t) == T_ASTRUCT)
#define ISNUM(t) ((t) <= T_ULONG)
#define ISAGG(t) ((t) == T_STRUCT || (t) == T_UNION || (t) == T_AINT || (t) == T_AAINT || (t) == T_ASTRUCT)
#define ISSGN(t) (!((t) == T_UINT || (t) == T_UCHAR || (t) == T_USHORT || (t) == T_ULONG))
static int width_of(int t) {
  if (t == T_INT || t == T_UINT) return 4;
  if (t == T_CHAR || t == T_UCHAR) return 1;
  if (t == T_SHORT || t == T_USHORT) return 2;
  if (t == T_LONG || t == T_ULONG) return 8;
  if (t == T_STRUCT) return 28;
  if (t == T_UNION) return 8;
  if (t == T_AINT) return 12;
  if (t == T_AAINT) return 60;
  if (t == T_ASTRUCT) return 56;
  return W;
}
static int deref_of(int t) {
  if (t == T_PINT || t == T_AINT) return T_INT;
  if (t == T_PCHAR || t == T_PVOID) return T_CHAR;
  if (t == T_PUCHAR) return T_UCHAR;
  if (t == T_PSHORT) return T_SHORT;
  if (t == T_PSTRUCT || t == T_ASTRUCT) return T_STRUCT;
  if (t == T_PUNION) return T_UNION;
  if (t == T_PPINT) return T_PINT;
  return T_AINT;
}
/* integer promotion and the usual arithmetic conversions */
static int prom(int t) { return t == T_CHAR || t == T_UCHAR || t == T_SHORT || t == T_USHORT ? T_INT : t; }
static int both_signed(int a, int b) { return ISSGN(prom(a)) && ISSGN(prom(b)); }
#define M1 901
#define M2 902
#define M3 903
#define M4 904
static ast mk_members(void) { /* char m1; int m2; short m3; int m4[4] */
  return cons(new_ast3(DECL, new_ast0(IDENTIFIER, M1), new_ast0(CHAR_KW, 0), 0), cons(new_ast3(DECL, new_ast0(IDENTIFIER, M2), new_ast0(INT_KW, 0), 0),
    cons(new_ast3(DECL, new_ast0(IDENTIFIER, M3), new_ast0(SHORT_KW, MK_TYPE_SPECIFIER(UNSIGNED_KW)), 0), cons(new_ast3(DECL, new_ast0(IDENTIFIER, M4), new_ast2('[', new_ast0(INT_KW, 0), 4), 0), 0))));
}
static ast mk_umembers(void) {
  return cons(new_ast3(DECL, new_ast0(IDENTIFIER, M1), new_ast0(CHAR_KW, 0), 0), cons(new_ast3(DECL, new_ast0(IDENTIFIER, M2), new_ast2('[', new_ast0(INT_KW, 0), 2), 0),
    cons(new_ast3(DECL, 0, new_ast3(STRUCT_KW, 0, 0, cons(new_ast3(DECL, new_ast0(IDENTIFIER, 905), new_ast0(SHORT_KW, 0), 0),
      cons(new_ast3(DECL, new_ast0(IDENTIFIER, M3), new_ast0(SHORT_KW, MK_TYPE_SPECIFIER(UNSIGNED_KW)), 0), 0))), 0), 0)));   /* anonymous struct */
}
#define U_ MK_TYPE_SPECIFIER(UNSIGNED_KW)
static ast mk_type(int t) {
  if (t == T_INT) return new_ast0(INT_KW, 0);
  if (t == T_UINT) return new_ast0(INT_KW, U_);
  if (t == T_CHAR) return new_ast0(CHAR_KW, 0);
  if (t == T_UCHAR) return new_ast0(CHAR_KW, U_);
  if (t == T_SHORT) return new_ast0(SHORT_KW, 0);
  if (t == T_USHORT) return new_ast0(SHORT_KW, U_);
  if (t == T_LONG) return new_ast0(LONG_KW, 0);
  if (t == T_ULONG) return new_ast0(LONG_KW, U_);
  if (t == T_PINT) return pointer_type(new_ast0(INT_KW, 0), false);
  if (t == T_PCHAR) return pointer_type(new_ast0(CHAR_KW, 0), false);
  if (t == T_PUCHAR) return pointer_type(new_ast0(CHAR_KW, U_), false);
  if (t == T_PSHORT) return pointer_type(new_ast0(SHORT_KW, 0), false);
  if (t == T_PVOID) return pointer_type(new_ast0(VOID_KW, 0), false);
  if (t == T_PPINT) return pointer_type(pointer_type(new_ast0(INT_KW, 0), false), false);
  if (t == T_AINT) return new_ast2('[', new_ast0(INT_KW, 0), 3);
  if (t == T_AAINT) return new_ast2('[', new_ast2('[', new_ast0(INT_KW, 0), 3), 5);
  if (t == T_STRUCT) return new_ast3(STRUCT_KW, 0, new_ast0(IDENTIFIER, 950), mk_members());
  if (t == T_PSTRUCT) return pointer_type(new_ast3(STRUCT_KW, 0, new_ast0(IDENTIFIER, 950), mk_members()), false);
  if (t == T_ASTRUCT) return new_ast2('[', new_ast3(STRUCT_KW, 0, new_ast0(IDENTIFIER, 950), mk_members()), 2);
  if (t == T_UNION) return new_ast3(UNION_KW, 0, new_ast0(IDENTIFIER, 951), mk_umembers());
  if (t == T_PUNION) return pointer_type(new_ast3(UNION_KW, 0, new_ast0(IDENTIFIER, 951), mk_umembers()), false);
  return pointer_type(new_ast3('(', new_ast0(INT_KW, 0), 0, 0), false);
}
static int member_off(int t, int m) {
  if (t == T_UNION) return m == M3 ? 2 : 0;
  return m == M1 ? 0 : m == M2 ? 4 : m == M3 ? 8 : 12;
}
/* ---- operands ---- */
int g_N;             /* the node under test */
ast C1, C2, C3;      /* operand nodes, of types TL, TR, TR */
word V1, V2, V3;     /* their values */
uword A1, A2;        /* their addresses */
#define ID1 801
#define ID2 802
#define ID3 803
static int vtype(ast n) { return n == C1 ? TL : TR; }
static int child_ok(ast node) { return node == C1 || node == C2 || node == C3; }
static int child_no(ast node) { return node == C1 ? 1 : node == C2 ? 2 : 3; }
static word child_val(ast node) { return node == C1 ? V1 : node == C2 ? V2 : V3; }
static word child_addr(ast node) { return (word) (node == C1 ? A1 : A2); }
#ifndef STMTS
#ifdef LVALUE
#define NR 0
#define NL g_N
#else
#define NR g_N
#define NL 0
#endif
#define IN_SYNC (g_tgt != 0 || cgc_fs - FS0 == g_sp - SP0)
/* an operand leaves one word on the stack, may change memory, and loses the scratch registers */
CONTRACT(void codegen_rvalue(ast node)
  __CPROVER_requires((NR != 0 && node == NR) || (child_ok(node) && IN_SYNC && g_sp >= 0 && g_sp < GSMAX))
  __CPROVER_assigns(cgc_fs, g_sp, g_ev, g_mv, R[0], R[1], R[2], R[4];
     node != g_N: GS[g_sp]; node == g_N: __CPROVER_object_whole(GS), __CPROVER_object_whole(heap), heap_alloc, alloc_result, ast_result, g_tgt, g_fresh, st_n, st_w, st_kind, st_a, st_v, st_ev, call_n, call_l, call_a, call_sp, call_ev, __CPROVER_object_whole(call_args), struct_union_size_largest_member, R[3], __CPROVER_object_whole(code), code_alloc)
  __CPROVER_ensures(node == NR || cgc_fs == OLD(cgc_fs) + 1)
  __CPROVER_ensures(node == NR || g_tgt != 0 || (g_sp == OLD(g_sp) + 1 && GS[OLD(g_sp)] == child_val(node) && g_ev == OLD(g_ev) * 8 + child_no(node) && g_mv == OLD(g_mv) + 1 && R[4] == (word) (UR(4) - W)))
  __CPROVER_ensures(node == NR || g_tgt == 0 || (g_sp == OLD(g_sp) && GS[g_sp] == OLD(GS[g_sp]) && g_ev == OLD(g_ev) && g_mv == OLD(g_mv) && R[0] == OLD(R[0]) && R[1] == OLD(R[1]) && R[2] == OLD(R[2]) && R[4] == OLD(R[4]))))
CONTRACT(int codegen_lvalue(ast node)
  __CPROVER_requires((NL != 0 && node == NL) || (child_ok(node) && IN_SYNC && g_sp >= 0 && g_sp < GSMAX))
  __CPROVER_assigns(cgc_fs, g_sp, g_ev, g_mv, R[0], R[1], R[2], R[4];
     node != g_N: GS[g_sp]; node == g_N: __CPROVER_object_whole(GS), __CPROVER_object_whole(heap), heap_alloc, alloc_result, ast_result, g_tgt, g_fresh, st_n, st_w, st_kind, st_a, st_v, st_ev, struct_union_size_largest_member)
  __CPROVER_ensures(node == NL || cgc_fs == OLD(cgc_fs) + 1)
  __CPROVER_ensures(node == NL || __CPROVER_return_value == width_of(vtype(node)))
  __CPROVER_ensures(node == NL || g_tgt != 0 || (g_sp == OLD(g_sp) + 1 && GS[OLD(g_sp)] == child_addr(node) && g_ev == OLD(g_ev) * 8 + child_no(node) + 4 && g_mv == OLD(g_mv) + 1 && R[4] == (word) (UR(4) - W)))
  __CPROVER_ensures(node == NL || g_tgt == 0 || (g_sp == OLD(g_sp) && GS[g_sp] == OLD(GS[g_sp]) && g_ev == OLD(g_ev) && g_mv == OLD(g_mv) && R[0] == OLD(R[0]) && R[1] == OLD(R[1]) && R[2] == OLD(R[2]) && R[4] == OLD(R[4]))))

#endif
int vf_zero;
static void keep(void) { int i = 0; uword u = 0; SCALE(u, i); UNSCALE(u, i); ext(u, i, i); cond_holds(i, u, u); width_of(i); deref_of(i); vtype(i); child_ok(i); child_no(i); child_val(i); child_addr(i);
  LD(i, u, i, i); SDIV(u, u); SMOD(u, u); UDIV(u, u); UMOD(u, u); SMUL(u, u); SHLF(u, u); SHRF(u, u); SARF(u, u); SCALE_(u, i); UNSCALE_(u, i); LBLF(i); __CPROVER_uninterpreted_ret(i, u, i); }
static void setup(void) {
  word a, b, c, d; uword x, y; int fs; word r0, r1, r2, r3, r4;
  ast t;
  heap_alloc = 10;
  int_type = mk_type(T_INT); uint_type = mk_type(T_UINT); char_type = mk_type(T_CHAR); string_type = mk_type(T_PCHAR); void_type = new_ast0(VOID_KW, 0);
  cgc_locals = cgc_globals = cgc_locals_fun = 0; cgc_fs = 0;
  t = mk_type(TL); cgc_add_global(ID1, 8, t, false);
  t = mk_type(TR); cgc_add_global(ID2, 8, t, false);
  cgc_add_global(ID3, 8, t, false);
  C1 = new_ast0(IDENTIFIER, ID1); C2 = new_ast0(IDENTIFIER, ID2); C3 = new_ast0(IDENTIFIER, ID3);
  V1 = a; V2 = b; V3 = c; A1 = x; A2 = y;
  __CPROVER_assume(fs >= 0 && fs < 1000000);
  cgc_fs = FS0 = fs; g_sp = SP0 = 0; g_tgt = 0; g_fresh = 5000; g_mv = 0; g_ev = 0; st_n = 0; call_n = 0; st_kind = 0;
  R[0] = r0; R[1] = r1; R[2] = r2; R[3] = r3; R[4] = r4;
}
/* what every expression guarantees */
#ifndef STMTS
word SP_0, GL_0;
#endif
#define BEGIN() if (vf_zero) keep(); setup(); SP_0 = R[4]; GL_0 = R[3];
#define RESULT() (GS[SP0])
#define COMMON() \
  ENSURE(g_tgt == 0, "every path of an expression reaches its end"); \
  ENSURE(g_sp == SP0 + 1 && R[4] == (word) ((uword) SP_0 - W), "an expression leaves one word on the stack"); \
  ENSURE(cgc_fs == FS0 + 1, "the frame size follows the stack"); \
  ENSURE(R[3] == GL_0, "the globals pointer is kept");
#define NOSTORE() ENSURE(st_n == 0 && call_n == 0, "no other side effect");
static word binval(int op, int tl, int tr, word a, word b) {
  int sg = both_signed(tl, tr); uword x = (uword) a, y = (uword) b;
  if (op == '<') return sg ? a < b : x < y;
  if (op == '>') return sg ? a > b : x > y;
  if (op == LT_EQ) return sg ? a <= b : x <= y;
  if (op == GT_EQ) return sg ? a >= b : x >= y;
  if (op == EQ_EQ) return a == b;
  if (op == EXCL_EQ) return a != b;
  if (op == '+') return ISPTR(tl) && !ISPTR(tr) ? (word) (x + (uword) SCALE(b, width_of(deref_of(tl)))) : ISPTR(tr) && !ISPTR(tl) ? (word) ((uword) SCALE(a, width_of(deref_of(tr))) + y) : (word) (x + y);
  if (op == '-') return ISPTR(tl) && ISPTR(tr) ? UNSCALE((word) (x - y), width_of(deref_of(tl))) : ISPTR(tl) ? (word) (x - (uword) SCALE(b, width_of(deref_of(tl)))) : (word) (x - y);
  if (op == '*') return SMUL(a, b);
  if (op == '/') return sg ? SDIV(a, b) : UDIV(a, b);
  if (op == '%') return sg ? SMOD(a, b) : UMOD(a, b);
  if (op == LSHIFT) return SHLF(a, b);
  if (op == RSHIFT) return ISSGN(prom(tl)) ? SARF(a, b) : SHRF(a, b);
  if (op == '&') return (word) (x & y);
  if (op == '|') return (word) (x | y);
  if (op == '^') return (word) (x ^ y);
  return b; /* , */
}
static word load_as(int mv, uword a, int t) { return ISAGG(t) ? (word) a : LD(mv, a, width_of(t), width_of(t) == W || ISSGN(t)); }
#define SYM 850
#ifndef STMTS
#define RUNN(n) g_N = (n); codegen_rvalue(g_N);
void H_binary(void) { BEGIN()
  RUNN(new_ast2(OPC, C1, C2))
  COMMON() NOSTORE()
  ENSURE(g_ev == 1 * 8 + 2, "both operands are evaluated once, from left to right");
  ENSURE(RESULT() == binval(OPC, TL, TR, V1, V2), "value of the binary operation");
  REACH(); }
void H_index(void) { uword a; int t; BEGIN()
  RUNN(new_ast2('[', C1, C2))
  COMMON() NOSTORE()
  ENSURE(g_ev == 1 * 8 + 2, "both operands are evaluated once, from left to right");
  t = ISPTR(TL) ? deref_of(TL) : deref_of(TR);
  a = ISPTR(TL) ? (uword) V1 + (uword) SCALE(V2, width_of(t)) : (uword) V2 + (uword) SCALE(V1, width_of(t));
  ENSURE(RESULT() == load_as(g_mv, a, t), "value of the array element");
  REACH(); }
void H_unary(void) { word v; BEGIN()
  RUNN(new_ast1(OPC, C1))
  COMMON() NOSTORE()
  if (OPC == '&') { ENSURE(g_ev == 5 && RESULT() == (word) A1, "address of the operand"); }
  else {
    ENSURE(g_ev == 1, "the operand is evaluated once");
    v = OPC == '+' || OPC == PARENS ? V1 : OPC == '-' ? (word) (0 - (uword) V1) : OPC == '~' ? ~V1 : OPC == '!' ? V1 == 0 : load_as(g_mv, (uword) V1, deref_of(TL));
    ENSURE(RESULT() == v, "value of the unary operation");
  }
  REACH(); }
/* assignments: the operands are evaluated once, the address first; one store of the width of the lvalue */
#define STORED(val, n) ENSURE(st_n == 1 && call_n == 0 && st_kind == 1 && st_a == A1 && st_w == width_of(TL) && st_v == (val) && st_ev == (n), "one store of the new value to the lvalue, after its operands were evaluated");
void H_assign(void) { BEGIN()
  RUNN(new_ast2('=', C1, C2))
  COMMON()
  if (TL == T_STRUCT || TL == T_UNION) {
    ENSURE(g_ev == 5 * 8 + 6, "both operands are evaluated once");
    ENSURE(st_n == 1 && call_n == 0 && st_kind == 2 && st_a == A1 && st_v == (word) A2 && st_w == width_of(TL) && st_ev == 5 * 8 + 6, "the object is copied to the lvalue");
  } else {
    ENSURE(g_ev == 5 * 8 + 2, "both operands are evaluated once");
    STORED(V2, 5 * 8 + 2)
    ENSURE(ext((uword) RESULT(), width_of(TL), ISSGN(TL)) == ext((uword) V2, width_of(TL), ISSGN(TL)), "value of the assignment");
  }
  REACH(); }
static int base_op(int op) {
  return op == PLUS_EQ || op == PLUS_PLUS_PRE || op == PLUS_PLUS_POST ? '+' : op == MINUS_EQ || op == MINUS_MINUS_PRE || op == MINUS_MINUS_POST ? '-' : op == STAR_EQ ? '*' : op == SLASH_EQ ? '/' : op == PERCENT_EQ ? '%'
    : op == LSHIFT_EQ ? LSHIFT : op == RSHIFT_EQ ? RSHIFT : op == AMP_EQ ? '&' : op == BAR_EQ ? '|' : '^';
}
void H_opassign(void) { word l, n; BEGIN()
  RUNN(new_ast2(OPC, C1, C2))
  COMMON()
  ENSURE(g_ev == 5 * 8 + 2, "both operands are evaluated once");
  l = LD(1, A1, width_of(TL), width_of(TL) == W || ISSGN(TL));   /* the old value is read after the lvalue is evaluated */
  n = binval(base_op(OPC), TL, TR, l, V2);
  STORED(n, 5 * 8 + 2)
  ENSURE(ext((uword) RESULT(), width_of(TL), ISSGN(TL)) == ext((uword) n, width_of(TL), ISSGN(TL)), "value of the assignment");
  REACH(); }
void H_incdec(void) { word l, n; BEGIN()
  RUNN(new_ast1(OPC, C1))
  COMMON()
  ENSURE(g_ev == 5, "the operand is evaluated once");
  l = LD(1, A1, width_of(TL), width_of(TL) == W || ISSGN(TL));
  n = binval(base_op(OPC), TL, T_INT, l, 1);
  STORED(n, 5)
  if (OPC == PLUS_PLUS_POST || OPC == MINUS_MINUS_POST) ENSURE(RESULT() == l, "x++ and x-- have the old value");
  else ENSURE(ext((uword) RESULT(), width_of(TL), ISSGN(TL)) == ext((uword) n, width_of(TL), ISSGN(TL)), "++x and --x have the new value");
  REACH(); }
void H_logic(void) { int both; BEGIN()
  RUNN(new_ast2(OPC, C1, C2))
  COMMON() NOSTORE()
  both = OPC == AMP_AMP ? V1 != 0 : V1 == 0;
  ENSURE(g_ev == (both ? 1 * 8 + 2 : 1), "the right operand is evaluated only if the left one does not decide");
  ENSURE(RESULT() == (OPC == AMP_AMP ? V1 != 0 && V2 != 0 : V1 != 0 || V2 != 0), "value of the logical operation");
  REACH(); }
void H_ternary(void) { BEGIN()
  RUNN(new_ast3('?', C1, C2, C3))
  COMMON() NOSTORE()
  ENSURE(g_ev == 1 * 8 + (V1 != 0 ? 2 : 3), "exactly the selected operand is evaluated");
  ENSURE(RESULT() == (V1 != 0 ? V2 : V3), "value of the conditional expression");
  REACH(); }
#ifndef MB
#define MB M2
#endif
static int mtype(void) { return TL == T_STRUCT || TL == T_PSTRUCT ? (MB == M1 ? T_CHAR : MB == M2 ? T_INT : MB == M3 ? T_USHORT : T_AINT) : (MB == M1 ? T_CHAR : MB == M2 ? T_AINT : T_USHORT); }
void H_member(void) { uword a; int st; BEGIN()
  RUNN(new_ast2(OPC, C1, new_ast0(IDENTIFIER, MB)))
  COMMON() NOSTORE()
  ENSURE(g_ev == (OPC == '.' ? 5 : 1), "the operand is evaluated once");
  st = TL == T_STRUCT || TL == T_PSTRUCT ? T_STRUCT : T_UNION;
  a = (OPC == '.' ? A1 : (uword) V1) + member_off(st, MB);
  ENSURE(RESULT() == load_as(g_mv, a, mtype()), "value of the member");
  REACH(); }
void H_cast(void) { BEGIN() /* cast of C2 (type TR) to the type TL */
  RUNN(new_ast2(CAST, new_ast3(DECL, 0, mk_type(TL), 0), C2))
  COMMON() NOSTORE()
  ENSURE(g_ev == 2, "the operand is evaluated once");
  /* the operand holds a value of its type */
  if (width_of(TL) < width_of(TR) || V2 == ext((uword) V2, width_of(TR), ISSGN(TR))) ENSURE(RESULT() == ext((uword) V2, width_of(TL), ISSGN(TL)), "value of the cast");
  REACH(); }
void H_sizeof(void) { BEGIN()
  RUNN(new_ast1(SIZEOF_KW, OPC ? C1 : new_ast3(DECL, 0, mk_type(TL), 0)))
  COMMON() NOSTORE()
  ENSURE(g_ev == 0, "the operand of sizeof is not evaluated");
  ENSURE(RESULT() == width_of(TL), "sizeof");
  REACH(); }
/* leaves: KIND 0 local, 1 parameter, 2 global, 3 static local, 4 enum constant, 5 function, 6 integer literal, 7 character, 8 large literal */
#ifndef KIND
#define KIND 0
#endif
static uword leaf_addr(int k, int off) { return k <= 1 ? (uword) SP_0 + (uword) (word) (FS0 - off) * W : (uword) GL_0 + (uword) (word) off; }
static int leaf_setup(int off, int v) {
  ast b = 0;
  if (KIND == 0) { b = cgc_add_local(BINDING_VAR_LOCAL, SYM, mk_type(TL), cgc_locals); heap[b + 3] = off; cgc_locals = b; }
  else if (KIND == 1) { b = cgc_add_local(BINDING_PARAM_LOCAL, SYM, mk_type(TL), cgc_locals); heap[b + 3] = off; cgc_locals = b; }
  else if (KIND == 2 || KIND == 3) { cgc_global_alloc = off; cgc_add_global(SYM, 8, mk_type(TL), KIND == 3); }
  else if (KIND == 4) cgc_add_enum(SYM, new_ast0(INTEGER, -v));
  else if (KIND == 5) cgc_add_global_fun(SYM, 77, new_ast3('(', mk_type(T_INT), 0, 0));
  return b;
}
void H_leaf(void) { int off, v, lo, hi, big; word want; BEGIN()
  __CPROVER_assume(off >= -1000000 && off <= 1000000 && v > -2147483647);
  leaf_setup(off, v);
  big = alloc_obj(2); heap[big] = lo; heap[big + 1] = hi;
#if WORD_SIZE == 8
  if (KIND == 6) __CPROVER_assume(v >= 0);
#endif
  RUNN(KIND == 6 ? new_ast0(OPC, -v) : KIND == 7 ? new_ast0(CHARACTER, v & 255) : KIND == 8 ? new_ast0(OPC, big) : new_ast0(IDENTIFIER, SYM))
  COMMON() NOSTORE()
  ENSURE(g_ev == 0 && g_mv == 0, "nothing else happens");
  if (KIND <= 3) {
    if (KIND == 1 && (TL == T_AINT || TL == T_AAINT)) want = LD(0, leaf_addr(KIND, off), W, 1);   /* array parameters are pointers */
    else want = load_as(0, leaf_addr(KIND, off), TL);
    ENSURE(RESULT() == want, "value of the variable");
  }
  else if (KIND == 4 || KIND == 6) ENSURE(RESULT() == v, "value of the constant");
  else if (KIND == 5) ENSURE(RESULT() == LBLF(77), "address of the function");
  else if (KIND == 7) ENSURE(RESULT() == (v & 255), "value of the character");
#if WORD_SIZE == 8
  else ENSURE(RESULT() == (word) ((uword) (vu32) lo | ((uword) (vu32) hi << 32)), "value of the large literal");
#endif
  REACH(); }
/* calls: arguments from right to left, first one on top; the stack is balanced afterwards */
#ifndef NARGS
#define NARGS 2
#endif
void H_call(void) { ast args = 0; int i; BEGIN()
  cgc_add_global_fun(SYM, 77, new_ast3('(', mk_type(T_INT), 0, 0));
  if (NARGS > 2) args = cons(C3, args);
  if (NARGS > 1) args = cons(C2, args);
  if (NARGS > 0) args = cons(C1, args);
  RUNN(new_ast2('(', new_ast0(IDENTIFIER, SYM), args))
  COMMON()
  ENSURE(st_n == 0 && call_n == 1 && call_l == 77 && call_sp == SP0 + NARGS, "one call of the function, with its arguments on the stack");
  ENSURE(g_ev == (NARGS == 0 ? 0 : NARGS == 1 ? 1 : NARGS == 2 ? 2 * 8 + 1 : (3 * 8 + 2) * 8 + 1) && call_ev == g_ev, "every argument is evaluated once, before the call");
  ENSURE((NARGS < 1 || call_args[0] == V1) && (NARGS < 2 || call_args[1] == V2) && (NARGS < 3 || call_args[2] == V3), "the arguments are in order");
  ENSURE(RESULT() == __CPROVER_uninterpreted_ret(77, 0, g_ev), "the value is the result of the call");
  REACH(); }
/* call with a struct argument (C1, of type TL, first if OPC == 0, else second); the other argument is C2 */
#define SW_ ((width_of(TL) + W - 1) / W)
void H_callstruct(void) { BEGIN()
  cgc_add_global_fun(SYM, 77, new_ast3('(', mk_type(T_INT), 0, 0));
  RUNN(new_ast2('(', new_ast0(IDENTIFIER, SYM), OPC ? cons(C2, cons(C1, 0)) : cons(C1, cons(C2, 0))))
  COMMON()
  ENSURE(call_n == 1 && call_l == 77 && call_sp == SP0 + SW_ + 1 && call_ev == g_ev, "one call of the function, with its arguments on the stack");
  ENSURE(g_ev == (OPC ? 5 * 8 + 2 : 2 * 8 + 5), "every argument is evaluated once, before the call");
  ENSURE(st_n == 1 && st_kind == 2 && st_w == width_of(TL) && (uword) st_v == A1 && st_a == (uword) SP_0 - (uword) (word) ((SW_ + (OPC ? 0 : 1)) * W), "the struct argument is copied to its place on the stack");
  ENSURE(call_args[OPC ? 0 : 1] == V2 || !OPC, "the other argument is in its place");
  ENSURE(OPC || GS[SP0] == __CPROVER_uninterpreted_ret(77, 0, g_ev), "the value is the result of the call");
  REACH(); }
/* call through a function pointer variable */
void H_callptr(void) { ast args = 0; BEGIN()
  if (NARGS > 1) args = cons(C3, args);
  if (NARGS > 0) args = cons(C2, args);
  RUNN(new_ast2('(', C1, args))
  COMMON()
  ENSURE(st_n == 0 && call_n == 1 && call_l == 0 && call_a == (uword) V1 && call_sp == SP0 + NARGS, "one call through the pointer, with its arguments on the stack");
  ENSURE(g_ev == (NARGS == 0 ? 1 : NARGS == 1 ? 2 * 8 + 1 : (3 * 8 + 2) * 8 + 1) && call_ev == g_ev, "operands are evaluated once, before the call");
  ENSURE((NARGS < 1 || call_args[0] == V2) && (NARGS < 2 || call_args[1] == V3), "the arguments are in order");
  ENSURE(RESULT() == __CPROVER_uninterpreted_ret(0, (uword) V1, g_ev), "the value is the result of the call");
  REACH(); }
/* ---- lvalues: leave the address, return the width of the object ---- */
#define RUNL(n) int w_; g_N = (n); w_ = codegen_lvalue(g_N);
#define LVAL(addr, t, evs) COMMON() ENSURE(st_n == 0, "no side effect"); ENSURE(g_ev == (evs), "operands are evaluated once, from left to right"); \
  ENSURE(RESULT() == (word) (addr), "address of the lvalue"); ENSURE(w_ == width_of(t), "width of the lvalue");
#ifdef LVALUE
void H_l_ident(void) { int off; BEGIN()
  __CPROVER_assume(off >= -1000000 && off <= 1000000);
  leaf_setup(off, 0);
  RUNL(new_ast0(IDENTIFIER, SYM))
  LVAL(leaf_addr(KIND, off), TL, 0) REACH(); }
void H_l_deref(void) { BEGIN() RUNL(new_ast1('*', C1)) LVAL((uword) V1, deref_of(TL), 1) REACH(); }
void H_l_parens(void) { BEGIN() RUNL(new_ast1(PARENS, C1)) LVAL(A1, TL, 5) REACH(); }
void H_l_index(void) { int t = ISPTR(TL) ? deref_of(TL) : deref_of(TR); BEGIN() RUNL(new_ast2('[', C1, C2))
  LVAL(ISPTR(TL) ? (uword) V1 + (uword) SCALE(V2, width_of(t)) : (uword) V2 + (uword) SCALE(V1, width_of(t)), t, 8 + 2) REACH(); }
void H_l_member(void) { int st = TL == T_STRUCT || TL == T_PSTRUCT ? T_STRUCT : T_UNION, w; BEGIN() RUNL(new_ast2(OPC, C1, new_ast0(IDENTIFIER, MB)))
  COMMON() ENSURE(st_n == 0 && g_ev == (OPC == '.' ? 5 : 1), "the operand is evaluated once");
  w = mtype() == T_AINT ? (st == T_STRUCT ? 16 : 8) : width_of(mtype());
  ENSURE(RESULT() == (word) ((OPC == '.' ? A1 : (uword) V1) + member_off(st, MB)), "address of the member"); ENSURE(w_ == w, "width of the member"); REACH(); }
#endif
#endif

/* X01: every instruction emitter emits exactly the instruction it stands for. */
#include "vf.h"
#include "repo/pnut.c"

/* ---- the code buffer ----
 * emit_i8 is the only function that appends to code[]; its contract on the real
 * buffer is discharged by obligation emit_i8, for every code_alloc.  All other
 * emitters are checked against that contract, extended with a ghost log of the
 * bytes appended since the start of the harness (g_lo, g_hi: 16 bytes; g_n). */
vu64 g_lo, g_hi;
int g_n;
#ifndef VF_NATIVE
static int D_BYTE(int i) {
  return i < 0 || i > 15 ? 0 : i < 8 ? (int) ((g_lo >> (8 * i)) & 0xff) : (int) ((g_hi >> (8 * (i - 8))) & 0xff);
}
static vu64 log_lo(vu64 lo, int n, int a) { return n >= 0 && n < 8 ? lo | ((vu64) (a & 0xff) << (8 * n)) : lo; }
static vu64 log_hi(vu64 hi, int n, int a) { return n >= 8 && n < 16 ? hi | ((vu64) (a & 0xff) << (8 * (n - 8))) : hi; }
int g_k; /* ghost index: universally quantified position of the frame condition */
#ifdef VF_OB_emit_i8
CONTRACT(void emit_i8(int a)
  __CPROVER_requires(code_alloc >= 0 && code_alloc < MAX_CODE_SIZE && g_k >= 0 && g_k < MAX_CODE_SIZE)
  __CPROVER_assigns(code_alloc, code[code_alloc])
  __CPROVER_ensures(code_alloc == __CPROVER_old(code_alloc) + 1)
  __CPROVER_ensures(code[__CPROVER_old(code_alloc)] == (a & 0xff))
  __CPROVER_ensures(g_k == __CPROVER_old(code_alloc) || code[g_k] == __CPROVER_old(code[g_k])))
#else
CONTRACT(void emit_i8(int a)
  __CPROVER_requires(code_alloc >= 0 && code_alloc < MAX_CODE_SIZE)
  __CPROVER_assigns(code_alloc, g_lo, g_hi, g_n)
  __CPROVER_ensures(code_alloc == __CPROVER_old(code_alloc) + 1)
  __CPROVER_ensures(g_n == __CPROVER_old(g_n) + 1)
  __CPROVER_ensures(g_lo == log_lo(__CPROVER_old(g_lo), __CPROVER_old(g_n), a))
  __CPROVER_ensures(g_hi == log_hi(__CPROVER_old(g_hi), __CPROVER_old(g_n), a)))
#endif
#else
static int D_BYTE(int i) { return code[i] & 0xff; }
#endif
#include "x86dec.h"
void H_emit_i8(void) {
  IN(int, a); INR(int, ca, 0, MAX_CODE_SIZE - 1); INR(int, k, 0, MAX_CODE_SIZE - 1); IN(int, v);
#ifndef VF_NATIVE
  g_k = k;
#endif
  code_alloc = ca; code[k] = v;
  emit_i8(a);
  POST(code_alloc == ca + 1 && code[ca] == (a & 0xff) && (k == ca || code[k] == v), "emit_i8 appends one byte");
  REACH();
}

CONTRACT(void fatal_error(char *msg)
  __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))

#define CODE_OK (code_alloc >= 0 && code_alloc <= MAX_CODE_SIZE - 32)
#define NREG (WORD_SIZE == 8 ? 16 : 8)
#define REG(r) ((r) >= 0 && (r) < NREG)
#define W WORD_SIZE

#ifndef VF_NATIVE
#define LEN(o) g_n
#else
#define LEN(o) (code_alloc - (o))
#endif
/* exactly one instruction was appended at o */
static int one(int o) {
  struct insn I = decode(o);
  int k;
  if (!(I.op != I_BAD && I.len == LEN(o))) return 0;
  return 1;
}
static int is_rr(int o, int op, int r1, int r2) { struct insn I = decode(o); return one(o) && I.op == op && I.r1 == r1 && I.r2 == r2 && I.width == W; }
static int is_ri(int o, int op, int r1, vi64 imm) { struct insn I = decode(o); return one(o) && I.op == op && I.r1 == r1 && I.r2 == -1 && I.imm == imm && I.width == W; }
static int is_r(int o, int op, int r1) { struct insn I = decode(o); return one(o) && I.op == op && I.r1 == r1 && (op == I_PUSH || op == I_POP || op == I_CALLR || I.width == W); }
static int is_0(int o, int op) { struct insn I = decode(o); return one(o) && I.op == op && (op != I_CDQ || I.width == W); }
static int is_mem(int o, int op, int r, int base, int off, int mw, int sign) {
  struct insn I = decode(o);
  return one(o) && I.op == op && I.r1 == r && I.base == base && I.disp == off && I.mwidth == mw && (op == I_STORE || mw == W || I.sign == sign);
}
static int is_imm(int o, int op, vi64 imm, int cc) { struct insn I = decode(o); return one(o) && I.op == op && I.imm == imm && I.cc == cc; }

#define ENCP(name, PARAMS, ARGS, DECLS, pre, post) \
  CONTRACT(void name PARAMS \
    __CPROVER_requires(CODE_OK && (pre)) \
    __CPROVER_requires(g_n == 0 && g_lo == 0 && g_hi == 0) \
    __CPROVER_assigns(code_alloc, g_lo, g_hi, g_n) \
    __CPROVER_ensures(code_alloc - __CPROVER_old(code_alloc) == g_n) \
    __CPROVER_ensures(post(0))) \
  void H_##name(void) { \
    DECLS INR(int, ca, 0, MAX_CODE_SIZE - 32); int o = ca; \
    code_alloc = ca; g_n = 0; g_lo = g_hi = 0; \
    PRE(CODE_OK && (pre)); \
    name ARGS; \
    POST(post(o), #name ": decodes to the intended instruction"); \
    REACH(); \
  }
#define RR_DECL INR(int, dst, 0, NREG - 1); INR(int, src, 0, NREG - 1);
#define R_DECL INR(int, dst, 0, NREG - 1);
#define M_DECL INR(int, dst, 0, NREG - 1); INR(int, base, 0, NREG - 1); IN(int, offset);
#define RR_PRE (REG(dst) && REG(src))
#define ENC_RR(name, OP) static int post_##name(int o, int dst, int src) { return is_rr(o, OP, dst, src); }

#define P_add_reg_reg(o) is_rr(o, I_ADD, dst, src)
ENCP(add_reg_reg, (int dst, int src), (dst, src), RR_DECL, RR_PRE, P_add_reg_reg)
#define P_or_reg_reg(o) is_rr(o, I_OR, dst, src)
ENCP(or_reg_reg, (int dst, int src), (dst, src), RR_DECL, RR_PRE, P_or_reg_reg)
#define P_and_reg_reg(o) is_rr(o, I_AND, dst, src)
ENCP(and_reg_reg, (int dst, int src), (dst, src), RR_DECL, RR_PRE, P_and_reg_reg)
#define P_sub_reg_reg(o) is_rr(o, I_SUB, dst, src)
ENCP(sub_reg_reg, (int dst, int src), (dst, src), RR_DECL, RR_PRE, P_sub_reg_reg)
#define P_xor_reg_reg(o) is_rr(o, I_XOR, dst, src)
ENCP(xor_reg_reg, (int dst, int src), (dst, src), RR_DECL, RR_PRE, P_xor_reg_reg)
#define P_cmp_reg_reg(o) is_rr(o, I_CMP, dst, src)
ENCP(cmp_reg_reg, (int dst, int src), (dst, src), RR_DECL, RR_PRE, P_cmp_reg_reg)
#define P_mov_reg_reg(o) is_rr(o, I_MOV, dst, src)
ENCP(mov_reg_reg, (int dst, int src), (dst, src), RR_DECL, RR_PRE, P_mov_reg_reg)
#define P_imul_reg_reg(o) is_rr(o, I_IMUL, dst, src)
ENCP(imul_reg_reg, (int dst, int src), (dst, src), RR_DECL, RR_PRE, P_imul_reg_reg)
#define P_mul_reg_reg(o) is_rr(o, I_IMUL, dst, src)
ENCP(mul_reg_reg, (int dst, int src), (dst, src), RR_DECL, RR_PRE, P_mul_reg_reg)

#define RI_DECL INR(int, dst, 0, NREG - 1); IN(int, imm);
#define P_mov_reg_imm(o) is_ri(o, I_MOV, dst, (vi64) imm)
ENCP(mov_reg_imm, (int dst, int imm), (dst, imm), RI_DECL, REG(dst), P_mov_reg_imm)
#define P_add_reg_imm(o) is_ri(o, I_ADD, dst, (vi64) imm)
ENCP(add_reg_imm, (int dst, int imm), (dst, imm), RI_DECL, REG(dst), P_add_reg_imm)

/* 1-operand forms */
#define P_idiv_reg(o) is_r(o, I_IDIV, src)
#define S_DECL INR(int, src, 0, NREG - 1);
ENCP(idiv_reg, (int src), (src), S_DECL, REG(src), P_idiv_reg)
#define P_div_reg(o) is_r(o, I_DIV, src)
ENCP(div_reg, (int src), (src), S_DECL, REG(src), P_div_reg)
#define P_cdq_cqo(o) is_0(o, I_CDQ)
ENCP(cdq_cqo, (void), (), , 1, P_cdq_cqo)
#define P_s_l_reg_cl(o) is_r(o, I_SHL, dst)
ENCP(s_l_reg_cl, (int dst), (dst), R_DECL, REG(dst), P_s_l_reg_cl)
#define P_sar_reg_cl(o) is_r(o, I_SAR, dst)
ENCP(sar_reg_cl, (int dst), (dst), R_DECL, REG(dst), P_sar_reg_cl)
#define P_shr_reg_cl(o) is_r(o, I_SHR, dst)
ENCP(shr_reg_cl, (int dst), (dst), R_DECL, REG(dst), P_shr_reg_cl)
/* push/pop are only used with the 8 legacy registers */
#define P_push_reg(o) is_r(o, I_PUSH, src)
ENCP(push_reg, (int src), (src), S_DECL, src >= 0 && src < 8, P_push_reg)
#define P_pop_reg(o) is_r(o, I_POP, dst)
ENCP(pop_reg, (int dst), (dst), R_DECL, dst >= 0 && dst < 8, P_pop_reg)
#define P_call_reg(o) is_r(o, I_CALLR, reg)
#define G_DECL INR(int, reg, 0, NREG - 1);
ENCP(call_reg, (int reg), (reg), G_DECL, reg >= 0 && reg < 8, P_call_reg)
#define P_ret(o) is_0(o, I_RET)
ENCP(ret, (void), (), , 1, P_ret)
#define P_int_i8(o) is_imm(o, I_INT, n & 0xff, -1)
#define N_DECL IN(int, n);
ENCP(int_i8, (int n), (n), N_DECL, n >= 0 && n <= 255, P_int_i8)
#if WORD_SIZE == 8
#define P_syscall_(o) is_0(o, I_SYSCALL)
ENCP(syscall_, (void), (), , 1, P_syscall_)
#endif
#define P_jump_rel(o) is_imm(o, I_JMP, offset, -1)
#define OF_DECL IN(int, offset);
ENCP(jump_rel, (int offset), (offset), OF_DECL, 1, P_jump_rel)

/* memory */
#define SM_DECL INR(int, base, 0, NREG - 1); IN(int, offset); INR(int, src, 0, NREG - 1);
#define P_mov_mem8_reg(o) is_mem(o, I_STORE, src, base, offset, 1, 0)
ENCP(mov_mem8_reg, (int base, int offset, int src), (base, offset, src), SM_DECL, REG(base) && src >= 0 && src < 4 && base < 8, P_mov_mem8_reg)
#define P_mov_mem16_reg(o) is_mem(o, I_STORE, src, base, offset, 2, 0)
ENCP(mov_mem16_reg, (int base, int offset, int src), (base, offset, src), SM_DECL, REG(base) && REG(src) && base < 8 && src < 8, P_mov_mem16_reg)
#define P_mov_mem32_reg(o) is_mem(o, I_STORE, src, base, offset, 4, 0)
ENCP(mov_mem32_reg, (int base, int offset, int src), (base, offset, src), SM_DECL, REG(base) && REG(src) && base < 8 && src < 8, P_mov_mem32_reg)
#if WORD_SIZE == 8
#define P_mov_mem64_reg(o) is_mem(o, I_STORE, src, base, offset, 8, 0)
ENCP(mov_mem64_reg, (int base, int offset, int src), (base, offset, src), SM_DECL, REG(base) && REG(src), P_mov_mem64_reg)
#define P_mov_reg_mem64(o) is_mem(o, I_LOAD, dst, base, offset, 8, 0)
ENCP(mov_reg_mem64, (int dst, int base, int offset), (dst, base, offset), M_DECL, REG(dst) && REG(base), P_mov_reg_mem64)
#define P_mov_reg_mem32_sign_ext(o) is_mem(o, I_LOAD, dst, base, offset, 4, 1)
ENCP(mov_reg_mem32_sign_ext, (int dst, int base, int offset), (dst, base, offset), M_DECL, REG(dst) && REG(base), P_mov_reg_mem32_sign_ext)
#endif
#define P_mov_reg_mem8(o) is_mem(o, I_LOAD, dst, base, offset, 1, 0)
ENCP(mov_reg_mem8, (int dst, int base, int offset), (dst, base, offset), M_DECL, REG(dst) && REG(base), P_mov_reg_mem8)
#define P_mov_reg_mem16(o) is_mem(o, I_LOAD, dst, base, offset, 2, 0)
ENCP(mov_reg_mem16, (int dst, int base, int offset), (dst, base, offset), M_DECL, REG(dst) && REG(base), P_mov_reg_mem16)
#define P_mov_reg_mem32(o) is_mem(o, I_LOAD, dst, base, offset, 4, 0)
ENCP(mov_reg_mem32, (int dst, int base, int offset), (dst, base, offset), M_DECL, REG(dst) && REG(base) && dst < 8 && base < 8, P_mov_reg_mem32)
#define P_mov_reg_mem8_sign_ext(o) is_mem(o, I_LOAD, dst, base, offset, 1, 1)
ENCP(mov_reg_mem8_sign_ext, (int dst, int base, int offset), (dst, base, offset), M_DECL, REG(dst) && REG(base), P_mov_reg_mem8_sign_ext)
#define P_mov_reg_mem16_sign_ext(o) is_mem(o, I_LOAD, dst, base, offset, 2, 1)
ENCP(mov_reg_mem16_sign_ext, (int dst, int base, int offset), (dst, base, offset), M_DECL, REG(dst) && REG(base), P_mov_reg_mem16_sign_ext)

/* ---- instructions that refer to a label: opcode followed by the 4 byte
   displacement reserved by use_label (whose own contract is in labels.c) ---- */
int g_lbl;
#ifndef VF_NATIVE
CONTRACT(void use_label(int lbl)
  __CPROVER_requires(code_alloc >= 0 && code_alloc <= MAX_CODE_SIZE - 4)
  __CPROVER_assigns(code_alloc, g_n, g_lbl)
  __CPROVER_ensures(code_alloc == __CPROVER_old(code_alloc) + 4 && g_n == __CPROVER_old(g_n) + 4 && g_lbl == lbl))
#define LBL_OK(lbl) (g_lbl == (lbl))
#define NEWLBL
#else
#define LBL_OK(lbl) (heap[(lbl) + 1] == code_alloc)
#define NEWLBL heap[100] = GENERIC_LABEL; heap[101] = 0; lbl = 100; heap_alloc = 200;
#endif
#define ENCL(name, PARAMS, ARGS, DECLS, pre, post) \
  CONTRACT(void name PARAMS \
    __CPROVER_requires(CODE_OK && (pre)) \
    __CPROVER_requires(g_n == 0 && g_lo == 0 && g_hi == 0) \
    __CPROVER_assigns(code_alloc, g_lo, g_hi, g_n, g_lbl) \
    __CPROVER_ensures(code_alloc - __CPROVER_old(code_alloc) == g_n && LBL_OK(lbl)) \
    __CPROVER_ensures(post(0))) \
  void H_##name(void) { \
    DECLS IN(int, lbl); INR(int, ca, 0, MAX_CODE_SIZE - 32); int o = ca; \
    NEWLBL code_alloc = ca; g_n = 0; g_lo = g_hi = 0; \
    PRE(CODE_OK && (pre)); \
    name ARGS; \
    POST(post(o) && LBL_OK(lbl), #name ": decodes to the intended instruction"); \
    REACH(); \
  }
#define P_jump(o) is_imm(o, I_JMP, 0, -1)
ENCL(jump, (int lbl), (lbl), , 1, P_jump)
#define P_call(o) is_imm(o, I_CALL, 0, -1)
ENCL(call, (int lbl), (lbl), , 1, P_call)
/* condition codes: operand order and signedness, from the SDM Jcc table */
static int cc_of(int k) { /* EQ NE LT LT_U GE GE_U LE LE_U GT GT_U */
  return k == 0 ? 0x4 : k == 1 ? 0x5 : k == 2 ? 0xc : k == 3 ? 0x2 : k == 4 ? 0xd : k == 5 ? 0x3 : k == 6 ? 0xe : k == 7 ? 0x6 : k == 8 ? 0xf : 0x7;
}
static int cond_of(int k) {
  return k == 0 ? EQ : k == 1 ? NE : k == 2 ? LT : k == 3 ? LT_U : k == 4 ? GE : k == 5 ? GE_U : k == 6 ? LE : k == 7 ? LE_U : k == 8 ? GT : GT_U;
}
int g_k10;
#define P_jump_cond(o) is_imm(o, I_JCC, 0, cc_of(g_k10))
#define K_DECL INR(int, k, 0, 9); int cond = cond_of(k); g_k10 = k;
ENCL(jump_cond, (int cond, int lbl), (cond, lbl), K_DECL, g_k10 >= 0 && g_k10 <= 9 && cond == cond_of(g_k10), P_jump_cond)
#define P_add_reg_lbl(o) is_ri(o, I_ADD, dst, 0)
ENCL(add_reg_lbl, (int dst, int lbl), (dst, lbl), R_DECL, REG(dst), P_add_reg_lbl)

#ifdef SUPPORT_64_BIT_LITERALS
/* large integer objects: [lo, hi] in the heap, or minus the value when it is small */
static vi64 large_val(int v) { return v <= 0 ? (vi64) -v : (vi64) ((vu64) (vu32) heap[v] | ((vu64) (vu32) heap[v + 1] << 32)); }
#define P_mov_reg_large_imm(o) is_ri(o, I_MOV, dst, WORD_SIZE == 8 ? large_val(large_imm) : (vi64) (int) large_val(large_imm))
#define LI_DECL INR(int, dst, 0, NREG - 1); INR(int, large_imm, -2147483647, 1000); IN(int, lo); IN(int, hi); \
  if (large_imm > 0) { heap[large_imm] = lo; heap[large_imm + 1] = hi; }
ENCP(mov_reg_large_imm, (int dst, int large_imm), (dst, large_imm), LI_DECL,
  REG(dst) && large_imm > -2147483647 - 1 && large_imm <= 1000 && (WORD_SIZE == 8 || large_imm <= 0 || heap[large_imm + 1] == 0), P_mov_reg_large_imm)
#endif

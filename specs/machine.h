/* Ghost machine: the meaning of the instruction emitters (proved to emit exactly
 * those instructions in X01) as state-transformer contracts over ghost registers,
 * a ghost stack of pushed words and a watched memory byte.  Native builds decode
 * and interpret the emitted bytes instead.
 * Expects WORD_SIZE and the /repo emitters to be declared. */
#ifndef MACHINE_H
#define MACHINE_H
#if WORD_SIZE == 8
typedef vi64 word; typedef vu64 uword;
#define WBITS 64
#else
typedef int word; typedef vu32 uword;
#define WBITS 32
#endif
#define NREG (WORD_SIZE == 8 ? 16 : 8)
#define REG(r) ((r) >= 0 && (r) < NREG)
word R[16];
#define GSMAX 16
word GS[GSMAX];      /* words pushed since the start of the harness */
int g_sp;
int g_ins;           /* number of instructions executed */
/* memory: initial contents m0(address); one arbitrary watched byte */
uword wa;            /* watched address (universally quantified) */
int wv;              /* its current contents, 0..255 */
uword ro_lo, ro_len; /* read only region, disjoint from every store */
#ifndef VF_NATIVE
vu8 __CPROVER_uninterpreted_m0(uword a);
#define M0(a) ((uword) __CPROVER_uninterpreted_m0((uword) (a)))
word __CPROVER_uninterpreted_sdiv(word a, word b);
word __CPROVER_uninterpreted_smod(word a, word b);
word __CPROVER_uninterpreted_udiv(word a, word b);
word __CPROVER_uninterpreted_umod(word a, word b);
word __CPROVER_uninterpreted_mul(word a, word b);
#define SDIV(a, b) __CPROVER_uninterpreted_sdiv(a, b)
#define SMOD(a, b) __CPROVER_uninterpreted_smod(a, b)
#define UDIV(a, b) __CPROVER_uninterpreted_udiv(a, b)
#define UMOD(a, b) __CPROVER_uninterpreted_umod(a, b)
#define SMUL(a, b) __CPROVER_uninterpreted_mul(a, b)
static int in_ro(uword a, int w) { return a - ro_lo < ro_len && ro_len - (a - ro_lo) >= (uword) w; }
static int meets_ro(uword a, int w) { return ro_len != 0 && (a - ro_lo < ro_len || ro_lo - a < (uword) w); }
static uword mem_val(uword a, int w) {
  uword v = 0;
  v = M0(a);
  if (w > 1) v |= M0(a + 1) << 8;
  if (w > 2) v |= (M0(a + 2) << 16) | (M0(a + 3) << 24);
#if WORD_SIZE == 8
  if (w > 4) v |= (M0(a + 4) << 32) | (M0(a + 5) << 40) | (M0(a + 6) << 48) | (M0(a + 7) << 56);
#endif
  return v;
}
static word ext(uword v, int w, int sign) {
  if (w == 1) return sign ? (word) (signed char) v : (word) (unsigned char) v;
  if (w == 2) return sign ? (word) (short) v : (word) (unsigned short) v;
#if WORD_SIZE == 8
  if (w == 4) return sign ? (word) (int) v : (word) (vu32) v;
#endif
  return (word) v;
}
static int st_byte(int old, uword a, uword v, int w) { return wa - a < (uword) w ? (int) ((v >> (8 * (wa - a))) & 255) : old; }
#define OLD(x) __CPROVER_old(x)
#define RR_CONTRACT(f, val) \
  CONTRACT(void f(int dst, int src) __CPROVER_requires(REG(dst) && REG(src)) __CPROVER_assigns(R[dst], g_ins) \
    __CPROVER_ensures(R[dst] == (word) (val) && g_ins == OLD(g_ins) + 1))
#define UR(r) ((uword) OLD(R[r]))
RR_CONTRACT(add_reg_reg, UR(dst) + UR(src))
RR_CONTRACT(sub_reg_reg, UR(dst) - UR(src))
RR_CONTRACT(and_reg_reg, UR(dst) & UR(src))
RR_CONTRACT(or_reg_reg,  UR(dst) | UR(src))
RR_CONTRACT(xor_reg_reg, UR(dst) ^ UR(src))
RR_CONTRACT(mov_reg_reg, UR(src))
RR_CONTRACT(imul_reg_reg, SMUL(OLD(R[dst]), OLD(R[src])))
RR_CONTRACT(mul_reg_reg, SMUL(OLD(R[dst]), OLD(R[src])))
CONTRACT(void mov_reg_imm(int dst, int imm) __CPROVER_requires(REG(dst)) __CPROVER_assigns(R[dst], g_ins) __CPROVER_ensures(R[dst] == (word) imm && g_ins == OLD(g_ins) + 1))
CONTRACT(void add_reg_imm(int dst, int imm) __CPROVER_requires(REG(dst)) __CPROVER_assigns(R[dst], g_ins) __CPROVER_ensures(R[dst] == (word) (UR(dst) + (uword) (word) imm) && g_ins == OLD(g_ins) + 1))
CONTRACT(void cdq_cqo(void) __CPROVER_assigns(R[2], g_ins) __CPROVER_ensures(R[2] == (OLD(R[0]) < 0 ? (word) -1 : (word) 0) && g_ins == OLD(g_ins) + 1))
/* IDIV: the dividend DX:AX must be the sign extension of AX (anything else may fault) */
CONTRACT(void idiv_reg(int src)
  __CPROVER_requires(REG(src) && src != 0 && src != 2 && R[2] == (R[0] < 0 ? (word) -1 : (word) 0))
  __CPROVER_assigns(R[0], R[2], g_ins)
  __CPROVER_ensures(R[0] == SDIV(OLD(R[0]), OLD(R[src])) && R[2] == SMOD(OLD(R[0]), OLD(R[src])) && g_ins == OLD(g_ins) + 1))
CONTRACT(void div_reg(int src)
  __CPROVER_requires(REG(src) && src != 0 && src != 2 && R[2] == 0)
  __CPROVER_assigns(R[0], R[2], g_ins)
  __CPROVER_ensures(R[0] == UDIV(OLD(R[0]), OLD(R[src])) && R[2] == UMOD(OLD(R[0]), OLD(R[src])) && g_ins == OLD(g_ins) + 1))
#define CNT ((int) (OLD(R[1]) & (WBITS - 1)))
#define SH_CONTRACT(f, val) CONTRACT(void f(int dst) __CPROVER_requires(REG(dst)) __CPROVER_assigns(R[dst], g_ins) __CPROVER_ensures(R[dst] == (word) (val) && g_ins == OLD(g_ins) + 1))
SH_CONTRACT(s_l_reg_cl, UR(dst) << CNT)
SH_CONTRACT(shr_reg_cl, UR(dst) >> CNT)
SH_CONTRACT(sar_reg_cl, OLD(R[dst]) >> CNT)
/* stack: only through push/pop (SP itself is adjusted by W) */
CONTRACT(void push_reg(int src) __CPROVER_requires(src >= 0 && src < 8 && g_sp >= 0 && g_sp < GSMAX) __CPROVER_assigns(GS[g_sp], g_sp, R[4], g_ins)
  __CPROVER_ensures(GS[OLD(g_sp)] == OLD(R[src]) && g_sp == OLD(g_sp) + 1 && R[4] == OLD(R[4]) - WORD_SIZE && g_ins == OLD(g_ins) + 1))
CONTRACT(void pop_reg(int dst) __CPROVER_requires(dst >= 0 && dst < 8 && dst != 4 && g_sp > 0 && g_sp <= GSMAX) __CPROVER_assigns(R[dst], g_sp, R[4], g_ins)
  __CPROVER_ensures(R[dst] == OLD(GS[g_sp - 1]) && g_sp == OLD(g_sp) - 1 && R[4] == OLD(R[4]) + WORD_SIZE && g_ins == OLD(g_ins) + 1))
/* loads: from the read only region, or from the watched byte */
#define EA (((uword) R[base]) + (uword) (word) offset)
#define EAO (UR(base) + (uword) (word) offset)
#ifndef VF_OB_copy_obj
#define LD_CONTRACT(f, w, sign) \
  CONTRACT(void f(int dst, int base, int offset) __CPROVER_requires(REG(dst) && REG(base) && in_ro(EA, w)) __CPROVER_assigns(R[dst], g_ins) \
    __CPROVER_ensures(R[dst] == ext(mem_val(EAO, w), w, sign) && g_ins == OLD(g_ins) + 1))
#else
/* weaker consequence, enough for copies: the byte at g_sa is g_src */
uword g_sa; int g_src, g_track;
#define LD_CONTRACT(f, w, sign) \
  CONTRACT(void f(int dst, int base, int offset) __CPROVER_requires(REG(dst) && REG(base)) __CPROVER_assigns(R[dst], g_ins) \
    __CPROVER_ensures((!g_track || g_sa - EAO >= (uword) w || (((uword) R[dst] >> (8 * (g_sa - EAO))) & 255) == g_src) && g_ins == OLD(g_ins) + 1))
uword g_dlo, g_dlen; /* stores stay inside the destination, which is disjoint from the source */
#define STORE_OK(w) (EA - g_dlo < g_dlen && g_dlen - (EA - g_dlo) >= (uword) (w))
#endif
#ifndef STORE_OK
#define STORE_OK(w) (!meets_ro(EA, w))
#endif
#define ST_CONTRACT(f, w, extra) \
  CONTRACT(void f(int base, int offset, int src) __CPROVER_requires(REG(src) && REG(base) && (extra) && STORE_OK(w)) __CPROVER_assigns(wv, g_ins) \
    __CPROVER_ensures(wv == st_byte(OLD(wv), EAO, UR(src), w) && g_ins == OLD(g_ins) + 1))
LD_CONTRACT(mov_reg_mem8, 1, 0)
LD_CONTRACT(mov_reg_mem16, 2, 0)
LD_CONTRACT(mov_reg_mem32, 4, 0)
LD_CONTRACT(mov_reg_mem8_sign_ext, 1, 1)
LD_CONTRACT(mov_reg_mem16_sign_ext, 2, 1)
ST_CONTRACT(mov_mem8_reg, 1, src < 4)
ST_CONTRACT(mov_mem16_reg, 2, 1)
ST_CONTRACT(mov_mem32_reg, 4, 1)
#if WORD_SIZE == 8
LD_CONTRACT(mov_reg_mem32_sign_ext, 4, 1)
LD_CONTRACT(mov_reg_mem64, 8, 0)
ST_CONTRACT(mov_mem64_reg, 8, 1)
#endif
#define RUN()
#else
/* ---- native: interpret the bytes emitted ---- */
#include "x86interp.h"
#define RUN() interp()
#endif
#endif

/* X02: multi-instruction sequences compute what they stand for. */
#include "vf.h"
#include "repo/pnut.c"
#include "machine.h"
CONTRACT(void fatal_error(char *msg)
  __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))

#ifdef VF_NATIVE
#define START() run_from = code_alloc = 64; g_sp = 0; g_ins = 0; mem_n = 0;
#else
#define START() g_sp = 0; g_ins = 0;
#endif
/* registers before */
word B0, B1, B2, B3, B5, B6, B7;
#define REGS() IN(vi64, r0); IN(vi64, r1); IN(vi64, r2); IN(vi64, r3); IN(vi64, r4); IN(vi64, r5); IN(vi64, r6); IN(vi64, r7); \
  R[0] = r0; R[1] = r1; R[2] = r2; R[3] = r3; R[4] = r4; R[5] = r5; R[6] = r6; R[7] = r7; START()
word S0[16];
#define SAVE() S0[0] = R[0]; S0[1] = R[1]; S0[2] = R[2]; S0[3] = R[3]; S0[4] = R[4]; S0[5] = R[5]; S0[6] = R[6]; S0[7] = R[7];
/* every register outside the mask is unchanged, the stack is balanced */
static int kept(int mask) {
  return (((mask & 1) || R[0] == S0[0]) && ((mask & 2) || R[1] == S0[1]) && ((mask & 4) || R[2] == S0[2]) && ((mask & 8) || R[3] == S0[3])
    && R[4] == S0[4] && ((mask & 32) || R[5] == S0[5]) && ((mask & 64) || R[6] == S0[6]) && ((mask & 128) || R[7] == S0[7]) && g_sp == 0);
}
#define BIT(r) (1 << (r))
/* division and remainder; clobber AX and DX */
#define DIVH(f, VAL, pre) void H_##f(void) { INR(int, dst, 0, 7); INR(int, src, 0, 7); REGS() SAVE() \
  REQUIRE(dst != 4 && src != 4 && src != 0 && src != 2 && R[src] != 0 && (pre)); \
  f(dst, src); RUN(); \
  ENSURE(R[dst] == VAL(S0[dst], S0[src]), #f ": result"); \
  ENSURE(kept(BIT(dst) | 1 | 4), #f ": only clobbers its destination, AX and DX"); \
  REACH(); }
DIVH(idiv_reg_reg, SDIV, 1)
DIVH(irem_reg_reg, SMOD, 1)
DIVH(div_reg_reg, UDIV, 1)
DIVH(rem_reg_reg, UMOD, 1)
/* shifts: count taken modulo the word size; clobber CX */
#define SHL_(a, n) ((word) ((uword) (a) << ((n) & (WBITS - 1))))
#define SHR_(a, n) ((word) ((uword) (a) >> ((n) & (WBITS - 1))))
#define SAR_(a, n) ((a) >> ((n) & (WBITS - 1)))
#define SHH(f, VAL) void H_##f(void) { INR(int, dst, 0, 7); INR(int, src, 0, 7); REGS() SAVE() \
  REQUIRE(dst != 4 && src != 4 && dst != 1); \
  f(dst, src); RUN(); \
  ENSURE(R[dst] == VAL(S0[dst], S0[src]), #f ": result"); \
  ENSURE(kept(BIT(dst) | 2), #f ": only clobbers its destination and CX"); \
  REACH(); }
SHH(s_l_reg_reg, SHL_)
SHH(sar_reg_reg, SAR_)
SHH(shr_reg_reg, SHR_)

/* pointer arithmetic: scale an index / unscale a difference by the element size */
static int log2_of(int w) { int i, r = 0; for (i = 1; i < 31; i++) if (w == (1 << i)) r = i; return r; }
static int pow2(int w) { int i, r = 0; for (i = 0; i < 31; i++) if (w == (1 << i)) r = 1; return r; }
void H_mul_for_pointer_arith(void) { INR(int, reg, 0, 7); INR(int, width, 1, 2147483647); REGS() SAVE()
  REQUIRE(reg != 4);
  mul_for_pointer_arith(reg, width); RUN();
  ENSURE(R[reg] == (pow2(width) ? (word) ((uword) S0[reg] << log2_of(width)) : SMUL(S0[reg], (word) width)), "index scaled by the element size");
  ENSURE(kept(BIT(reg)), "scaling clobbers nothing else");
  REACH(); }
/* Only ever applied to X.  The difference of two pointers into an array is a multiple of the element size, where >> is the exact quotient. */
void H_div_for_pointer_arith(void) { int reg = reg_X; INR(int, width, 1, 2147483647); REGS() SAVE()
  div_for_pointer_arith(reg, width); RUN();
  ENSURE(R[reg] == (pow2(width) ? S0[reg] >> log2_of(width) : SDIV(S0[reg], (word) width)), "difference divided by the element size");
  ENSURE(kept(BIT(reg) | 4), "unscaling clobbers nothing else (but DX)");
  REACH(); }
void H_power_of_2_log(void) { INR(int, k, 0, 30); IN(int, n);
  ENSURE(power_of_2_log(1 << k) == k, "power_of_2_log");
  ENSURE((is_power_of_2(n) != 0) == (pow2(n) || n == -2147483647 - 1), "is_power_of_2");
  REACH(); }
void H_word_size_align(void) { INR(int, n, 0, 1000000000); INR(int, mul, 1, 16); int a, b;
  a = word_size_align(n);
  ENSURE(a >= n && a < n + WORD_SIZE && a % WORD_SIZE == 0, "word_size_align: least multiple");
  REQUIRE(mul == 1 || mul == 2 || mul == 4 || mul == 8 || mul == 16);
  b = align_to(mul, n);
  ENSURE(b >= n && b < n + mul && b % mul == 0, "align_to: least multiple");
  REACH(); }
/* loads and stores of every width */
#ifndef WIDTH
#define WIDTH 4
#endif
#define W_OK(w) ((w) == 1 || (w) == 2 || (w) == 4 || (WORD_SIZE == 8 && (w) == 8))
void H_load_mem_location(void) { INR(int, dst, 0, 7); INR(int, base, 0, 7); IN(int, offset); int width = WIDTH; INR(int, sg, 0, 1); uword a; REGS() SAVE()
  REQUIRE(dst != 4 && W_OK(width));
  a = (uword) R[base] + (uword) (word) offset; ro_lo = a; ro_len = width;
  load_mem_location(dst, base, offset, width, sg); RUN();
  ENSURE(R[dst] == ext(mem_val(a, width), width, sg), "load: value extended according to its signedness");
  ENSURE(kept(BIT(dst)), "load: clobbers nothing else");
  REACH(); }
void H_write_mem_location(void) { INR(int, src, 0, 3); INR(int, base, 0, 7); IN(int, offset); int width = WIDTH; IN(vi64, watch); uword a; int w0; REGS() SAVE()
  REQUIRE(W_OK(width));
  wa = watch; wv = w0 = M0(wa); ro_len = 0; ro_lo = 0;
  a = (uword) R[base] + (uword) (word) offset;
  write_mem_location(base, offset, src, width); RUN();
  ENSURE(wv == (wa - a < (uword) width ? (int) (((uword) S0[src] >> (8 * (wa - a))) & 255) : w0), "store: writes exactly the bytes of the object");
  ENSURE(kept(0), "store: clobbers nothing");
  REACH(); }
#ifndef DB
#define DB 0
#define SB 1
#endif
#ifndef MAXW
#define MAXW 1000000000
#endif
#ifdef VF_NATIVE
#undef MAXW
#define MAXW 100
#endif
/* copy and initialisation of objects of any size: byte wa of memory is arbitrary.
   Loop invariants in obligations.py refer to these ghosts. */
uword g_d, g_s; int g_w0;
#if !defined(VF_OB_copy_obj) || defined(VF_NATIVE)
uword g_sa; int g_src, g_track;
uword g_dlo, g_dlen;
#endif
static int copied(uword n) { return wv == (wa - g_d < n ? g_src : g_w0); }
static int zeroed(uword n) { return wv == (wa - g_d < n ? 0 : g_w0); }
void H_copy_obj(void) { int db = DB; INR(int, doff, -1000000000, 1000000000); int sb = SB; INR(int, soff, -1000000000, 1000000000); INR(int, width, 0, MAXW); IN(vi64, watch); REGS() SAVE()
  REQUIRE(db != 2 && sb != 2);
  wa = watch; wv = g_w0 = M0(wa);
  g_d = (uword) R[db] + (uword) (word) doff; g_s = (uword) R[sb] + (uword) (word) soff;
  ro_lo = g_s; ro_len = width; g_sa = g_s + (wa - g_d); g_src = M0(g_sa); g_track = wa - g_d < (uword) width; g_dlo = g_d; g_dlen = width;
  REQUIRE(g_d - g_s >= (uword) width && g_s - g_d >= (uword) width);   /* distinct objects do not overlap */
  copy_obj(db, doff, sb, soff, width); RUN();
  ENSURE(copied((uword) width), "copy: every byte of the object, and no other byte");
  ENSURE(kept(4), "copy: clobbers only Z");
  REACH(); }
void H_initialize_memory(void) { int db = DB; INR(int, doff, -1000000000, 1000000000); INR(int, width, 0, MAXW); IN(vi64, watch); REGS() SAVE()
  REQUIRE(db != 2);
  wa = watch; wv = g_w0 = M0(wa); ro_len = 0; ro_lo = 0;
  g_d = (uword) R[db] + (uword) (word) doff;
  initialize_memory(0, db, doff, width); RUN();
  ENSURE(zeroed((uword) width), "initialisation: every byte of the object, and no other byte");
  ENSURE(kept(4), "initialisation: clobbers only Z");
  REACH(); }
void H_grow_stack(void) { INR(int, words, -100000, 100000); INR(int, bytes, -100000, 800000); word p; REGS() SAVE()
  REQUIRE(bytes >= 0);
  grow_stack(words); RUN();
  ENSURE(R[4] == S0[4] - (word) words * WORD_SIZE, "grow_stack: SP moves by the number of words");
#ifdef VF_NATIVE
  run_from = code_alloc;
#endif
  p = R[4];
  grow_stack_bytes(bytes); RUN();
  ENSURE(p - R[4] >= bytes && p - R[4] < bytes + WORD_SIZE && (p - R[4]) % WORD_SIZE == 0, "grow_stack_bytes: rounded up to words");
  R[4] = S0[4]; ENSURE(kept(0), "grow_stack: only SP");
  REACH(); }
/* program entry: [SP] = argc, [SP+W] = &argv; pushes &argv then argc */
void H_setup_proc_args(void) { INR(int, gsz, 0, 100000); REGS() SAVE()
  ro_lo = (uword) R[4] + gsz; ro_len = WORD_SIZE;
  setup_proc_args(gsz); RUN();
  ENSURE(g_sp == 2 && GS[0] == (word) ((uword) S0[4] + gsz + WORD_SIZE) && GS[1] == (word) mem_val((uword) S0[4] + gsz, WORD_SIZE), "argv pointer and argc");
  REACH(); }

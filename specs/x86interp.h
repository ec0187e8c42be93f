/* Native replay: interpreter for the decoded subset over registers, a sparse memory and a stack. */
static int D_BYTE(int i) { return code[i] & 0xff; }
#include "x86dec.h"
static word sdiv_(word a, word b) { if (b == 0) { vf_vacuous(); } if (b == -1) return (word) (0 - (uword) a); return a / b; }
static word smod_(word a, word b) { if (b == 0) { vf_vacuous(); } if (b == -1) return 0; return a % b; }
static word udiv_(word a, word b) { if (b == 0) { vf_vacuous(); } return (word) ((uword) a / (uword) b); }
static word umod_(word a, word b) { if (b == 0) { vf_vacuous(); } return (word) ((uword) a % (uword) b); }
#define SDIV(a, b) sdiv_(a, b)
#define SMOD(a, b) smod_(a, b)
#define UDIV(a, b) udiv_(a, b)
#define UMOD(a, b) umod_(a, b)
#define MEMN 4096
static uword mem_a[MEMN]; static unsigned char mem_v[MEMN]; static int mem_n;
static vu8 m0_(uword a) { vu64 x = a * 0x9E3779B97F4A7C15ull; return (vu8) (x >> 56) ^ (vu8) (x >> 29); }
#define SMUL(a, b) ((word) ((uword) (a) * (uword) (b)))
#define M0(a) ((uword) m0_((uword) (a)))
static vu8 mem_get(uword a) { int i; for (i = mem_n - 1; i >= 0; i--) if (mem_a[i] == a) return mem_v[i]; return m0_(a); }
static void mem_set(uword a, int v) { if (mem_n >= MEMN) vf_vacuous(); mem_a[mem_n] = a; mem_v[mem_n++] = v; }
static uword mem_val(uword a, int w) { uword v = 0; int i; for (i = 0; i < w; i++) v |= (uword) mem_get(a + i) << (8 * i); return v; }
static word ext(uword v, int w, int sign) {
  if (w == 1) return sign ? (word) (signed char) v : (word) (unsigned char) v;
  if (w == 2) return sign ? (word) (short) v : (word) (unsigned short) v;
  if (w == 4) return sign ? (word) (int) v : (word) (vu32) v;
  return (word) v;
}
static int in_ro(uword a, int w) { return a - ro_lo < ro_len && ro_len - (a - ro_lo) >= (uword) w; }
static int run_from;
/* executes code[run_from .. code_alloc) */
static void interp(void) {
  int pc = run_from;
  while (pc < code_alloc) {
    struct insn I = decode(pc);
    uword a, b;
    if (I.op == I_BAD || I.len <= 0) { vf_fail("undecodable instruction"); }
    pc += I.len; g_ins++;
    a = I.r1 >= 0 ? (uword) R[I.r1] : 0;
    b = I.r2 >= 0 ? (uword) R[I.r2] : (uword) (word) I.imm;
    switch (I.op) {
      case I_ADD: R[I.r1] = (word) (a + b); break;
      case I_SUB: R[I.r1] = (word) (a - b); break;
      case I_AND: R[I.r1] = (word) (a & b); break;
      case I_OR: R[I.r1] = (word) (a | b); break;
      case I_XOR: R[I.r1] = (word) (a ^ b); break;
      case I_MOV: R[I.r1] = (word) b; break;
      case I_IMUL: R[I.r1] = SMUL((word) a, (word) b); break;
      case I_CDQ: R[2] = R[0] < 0 ? -1 : 0; break;
      case I_IDIV: if (R[2] != (R[0] < 0 ? -1 : 0)) vf_fail("idiv: dividend is not sign extended"); { word q = sdiv_(R[0], a), r = smod_(R[0], a); R[0] = q; R[2] = r; } break;
      case I_DIV: if (R[2] != 0) vf_fail("div: high part of the dividend is not 0"); { word q = udiv_(R[0], a), r = umod_(R[0], a); R[0] = q; R[2] = r; } break;
      case I_SHL: R[I.r1] = (word) (a << (R[1] & (WBITS - 1))); break;
      case I_SHR: R[I.r1] = (word) (a >> (R[1] & (WBITS - 1))); break;
      case I_SAR: R[I.r1] = (word) a >> (R[1] & (WBITS - 1)); break;
      case I_PUSH: if (g_sp >= GSMAX) vf_fail("stack"); GS[g_sp++] = a; R[4] -= WORD_SIZE; break;
      case I_POP: if (g_sp <= 0) vf_fail("pop below the frame"); R[I.r1] = GS[--g_sp]; R[4] += WORD_SIZE; break;
      case I_LOAD: a = (uword) R[I.base] + (uword) (word) I.disp; R[I.r1] = ext(mem_val(a, I.mwidth), I.mwidth, I.sign); break;
      case I_STORE: { int i; uword e = (uword) R[I.base] + (uword) (word) I.disp;
        for (i = 0; i < I.mwidth; i++) { mem_set(e + i, (a >> (8 * i)) & 255); if (e + i == wa) wv = (a >> (8 * i)) & 255; } break; }
      default: vf_fail("instruction outside straight line code");
    }
  }
}

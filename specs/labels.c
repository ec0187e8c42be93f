/* X03: labels, gotos: every jump, call and address computation reaches its label. VF_DROP_OK */
#include "vf.h"
#include "repo/pnut.c"
/* the decoder reads a window of the code, copied at constant indices */
#define WB 10
#ifdef VF_NATIVE
#define WN 400
#else
#define WN 64
#endif
vu8 win[WN];
static void snap(void) { int i; for (i = 0; i < WN; i += 1) win[i] = code[WB + i] & 0xff; }
static int D_BYTE(int i) { return i >= WB && i < WB + WN ? win[i - WB] : 0; }
#include "x86dec.h"
CONTRACT(void fatal_error(char *msg)
  __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))
#define NREG (WORD_SIZE == 8 ? 16 : 8)
#define LBL 20
#ifndef NU
#define NU 0
#endif
#ifndef GS
#define GS 0
#endif
#ifndef DG
#define DG 0
#endif
#ifndef KN
#define KN 0
#endif
#ifndef PS
#define PS 1
#endif
static int i32(int o) { return (int) ((vu32) (code[o] & 255) | ((vu32) (code[o + 1] & 255) << 8) | ((vu32) (code[o + 2] & 255) << 16) | ((vu32) (code[o + 3] & 255) << 24)); }
/* representation of generic labels: heap[l+1] < 0: defined at minus that address;
   > 0: address just after the last use (chain through the last byte); 0: unused */
int g_k;
#define START0 100
#ifndef CAMAX
#define CAMAX (MAX_CODE_SIZE - 64)
#endif
CONTRACT(void use_label(int lbl)
  __CPROVER_requires(lbl == LBL && heap[LBL] == GENERIC_LABEL && code_alloc > 0 && code_alloc <= MAX_CODE_SIZE - 64)
  __CPROVER_requires(heap[LBL + 1] > -MAX_CODE_SIZE && heap[LBL + 1] <= code_alloc)
  __CPROVER_requires(g_k >= 0 && g_k < code_alloc)
  __CPROVER_assigns(code_alloc, heap[LBL + 1], code[code_alloc], code[code_alloc + 1], code[code_alloc + 2], code[code_alloc + 3])
  __CPROVER_ensures(code_alloc == __CPROVER_old(code_alloc) + 4)
  __CPROVER_ensures(__CPROVER_old(heap[LBL + 1]) < 0
     ? (code_alloc + i32(__CPROVER_old(code_alloc)) == -__CPROVER_old(heap[LBL + 1]) && heap[LBL + 1] == __CPROVER_old(heap[LBL + 1]))
     : (code[code_alloc - 1] == __CPROVER_old(heap[LBL + 1]) && heap[LBL + 1] == code_alloc))
  __CPROVER_ensures(code[g_k] == __CPROVER_old(code[g_k])))
void H_use_label(void) {
  INR(int, ca, 1, CAMAX); INR(int, st, -MAX_CODE_SIZE + 1, MAX_CODE_SIZE); INR(int, k, 0, MAX_CODE_SIZE); IN(int, v);
  int d;
  code_alloc = ca; heap[LBL] = GENERIC_LABEL; heap[LBL + 1] = st; g_k = k;
  REQUIRE(st <= ca && k < ca); code[k] = v;
  use_label(LBL);
  ENSURE(code_alloc == ca + 4 && code[k] == v, "use_label: reserves 4 bytes, changes nothing before");
  ENSURE(st < 0 ? ca + 4 + i32(ca) == -st && heap[LBL + 1] == st : code[ca + 3] == st && heap[LBL + 1] == ca + 4, "use_label: displacement, or link of the chain");
  REACH();
}
/* a history of uses of one label, its definition, and a later use.  Positions are constants in
   CBMC mode (case split PS) and arbitrary in native mode; all other code bytes are arbitrary. */
#ifndef VF_NATIVE
#if PS == 1
#define POSITIONS int p0 = 10, p1 = 14, p2 = 18, pd = 22, pl = 22;
#elif PS == 2
#define POSITIONS int p0 = 40, p1 = 71, p2 = 90, pd = 219, pl = 230;
#else
#define POSITIONS int p0 = 1, p1 = 140, p2 = 144, pd = 170, pl = 190;
#endif
#else
#define POSITIONS INR(int, p0, 1, 100000); INR(int, p1, 1, 100000); INR(int, p2, 1, 100000); INR(int, pd, 1, 100000); INR(int, pl, 1, 100000); \
  if (p0 & 1) { p1 = p0 + 4 + p1 % 300; p2 = p1 + 4 + p2 % 300; pd = p2 + 4 + pd % 300; pl = pd + pl % 300; }
#endif
void H_label_history(void) {
  POSITIONS
  int n = NU;
  IN(int, v); IN(int, w);
  REQUIRE(p1 >= p0 + 4 && p2 >= p1 + 4 && pd >= p2 + 4 && pl >= pd);
  heap[LBL] = GENERIC_LABEL; heap[LBL + 1] = 0;
  code[p0 - 1] = v; code[pd - 1] = v; 
  if (p1 > p0 + 4) { code[p0 + 4] = w; code[p1 - 1] = w; }
  if (p2 > p1 + 4) { code[p1 + 4] = w; code[p2 - 1] = w; }
  if (pd > p2 + 4) { code[p2 + 4] = w; code[pd - 1] = w; }
  if (n > 0) { code_alloc = p0; use_label(LBL); }
  if (n > 1) { code_alloc = p1; use_label(LBL); }
  if (n > 2) { code_alloc = p2; use_label(LBL); }
  code_alloc = pd; def_label(LBL);
  ENSURE(code_alloc == pd, "def_label leaves the position");
  code_alloc = pl; use_label(LBL);
  if (n > 0) ENSURE(p0 + 4 + i32(p0) == pd, "first forward use reaches the label");
  if (n > 1) ENSURE(p1 + 4 + i32(p1) == pd, "second forward use reaches the label");
  if (n > 2) ENSURE(p2 + 4 + i32(p2) == pd, "third forward use reaches the label");
  ENSURE(pl + 4 + i32(pl) == pd && code_alloc == pl + 4, "backward use reaches the label");
  ENSURE(code[p0 - 1] == v, "no other byte of the code changes (before)");
  if (p1 > p0 + 4) ENSURE(code[p0 + 4] == w && code[p1 - 1] == w, "no other byte of the code changes (1)");
  if (p2 > p1 + 4) ENSURE(code[p1 + 4] == w && code[p2 - 1] == w, "no other byte of the code changes (2)");
  if (pd > p2 + 4) ENSURE(code[p2 + 4] == w && code[pd - 1] == w, "no other byte of the code changes (3)");
  REACH();
}
/* ---- gotos: adjust the stack to the frame size of the label, then jump ---- */
static int goto_ok(int o, int target, int fs_goto, int fs_label) {
  struct insn A = decode(o), J;
  if (A.op != I_ADD || A.r1 != SP || A.r2 != -1 || A.imm != (vi64) (fs_goto - fs_label) * WORD_SIZE || A.width != WORD_SIZE) return 0;
  J = decode(o + A.len);
  return J.op == I_JMP && o + A.len + J.len + J.imm == target;
}
/* a goto occupies the same number of bytes before and after its label is known */
static int goto_len(int o) { struct insn A = decode(o), J = decode(o + A.len); return A.len + J.len; }
void H_goto_history(void) {
#ifndef VF_NATIVE
  int g0 = GS & 1, g1 = GS >> 1, d0 = 0, d1 = DG, d2 = DG;
#else
  INR(int, g0, 0, 1); INR(int, g1, 0, 1); INR(int, d0, 0, 20); INR(int, d1, 0, 20); INR(int, d2, 0, 20);
#endif
  INR(int, f0, 0, 1000); INR(int, f1, 0, 1000); INR(int, fd, 0, 1000); INR(int, fl, 0, 1000);
  int p0, p1, pd, pl, e0 = 0, e1 = 0, start = WB;
  heap[LBL] = GOTO_LABEL; heap[LBL + 1] = 0; heap[LBL + 2] = 0;
  p0 = start + d0; code_alloc = p0;
  if (g0) { cgc_fs = f0; jump_to_goto_label(LBL); }
  e0 = code_alloc;
  p1 = code_alloc = e0 + d1;
  if (g1) { cgc_fs = f1; jump_to_goto_label(LBL); }
  e1 = code_alloc;
  pd = code_alloc = e1 + d2;
  code[pd - 1] = d2 > 0 ? 0x90 : code[pd - 1];
  cgc_fs = fd; def_goto_label(LBL);
  ENSURE(code_alloc == pd, "def_goto_label leaves the position");
  pl = pd + 3; code_alloc = pl;
  cgc_fs = fl; jump_to_goto_label(LBL);
  snap();
  if (g0) ENSURE(goto_ok(p0, pd, f0, fd) && p0 + goto_len(p0) == e0, "first forward goto");
  if (g1) ENSURE(goto_ok(p1, pd, f1, fd) && p1 + goto_len(p1) == e1, "second forward goto");
  ENSURE(goto_ok(pl, pd, fl, fd) && pl + goto_len(pl) == code_alloc, "backward goto");
  REACH();
}
/* address of a label in a register: call next; pop reg; add reg, label - here; add reg, adjustment */
void H_mov_reg_lbl(void) {
  INR(int, reg, 0, 7); INR(int, la, 1, 90);
#ifndef VF_NATIVE
  int known = KN, gap = 10 * KN;
#else
  INR(int, known, 0, 1); INR(int, gap, 0, 100);
#endif
  int o = WB, p, target, ret_addr; vi64 r; struct insn I;
  REQUIRE(reg != SP);
  heap[LBL] = GENERIC_LABEL; heap[LBL + 1] = known ? -la : 0; heap_alloc = 50;
  code_alloc = o;
  mov_reg_lbl(reg, LBL);
  p = code_alloc;
  target = la;
  if (!known) { target = code_alloc = p + gap; def_label(LBL); }
  snap();
  I = decode(o); o += I.len;
  ENSURE(I.op == I_CALL && I.imm == 0, "call to the next instruction");
  ret_addr = o;
  I = decode(o); o += I.len;
  ENSURE(I.op == I_POP && I.r1 == reg, "pop the return address");
  r = ret_addr;
  I = decode(o); o += I.len;
  ENSURE(I.op == I_ADD && I.r1 == reg && I.r2 == -1 && I.width == WORD_SIZE, "add the displacement");
  r += I.imm;
  I = decode(o); o += I.len;
  ENSURE(I.op == I_ADD && I.r1 == reg && I.r2 == -1 && I.width == WORD_SIZE, "add the adjustment");
  r += I.imm;
  ENSURE(o == p, "nothing else");
  ENSURE(r == target, "the register holds the address of the label");
  REACH();
}

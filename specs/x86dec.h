/* Oracle: decoder for the subset of IA-32 / Intel 64 instructions that a code
 * generator like pnut's may emit, written from the Intel SDM opcode maps and
 * independently of x86.c.  It accepts every legal encoding of an operation in
 * the subset (disp8/disp32, imm8/imm32, optional SIB), so it judges what the
 * bytes mean, not which encoding was picked.
 * DEC64 selects 64-bit mode. */
#ifndef X86DEC_H
#define X86DEC_H
/* D_BYTE(i): byte number i counted from the start of the decoded sequence */
#if WORD_SIZE == 8
#define DEC64 1
#else
#define DEC64 0
#endif

enum {
  I_BAD = 0, I_ADD, I_OR, I_AND, I_SUB, I_XOR, I_CMP, I_MOV, /* r1 op= r2 / imm; width */
  I_IMUL, I_IDIV, I_DIV, I_CDQ, I_SHL, I_SHR, I_SAR,
  I_LOAD,   /* r1 <- [base+disp], mwidth bytes, sign: extended to word */
  I_STORE,  /* [base+disp] <- r1, mwidth bytes */
  I_PUSH, I_POP, I_JMP, I_CALL, I_JCC, I_CALLR, I_RET, I_INT, I_SYSCALL
};
struct insn {
  int op;
  int r1, r2;       /* destination, source (-1: immediate) */
  int base;         /* memory base register */
  int disp;
  int mwidth;       /* memory width in bytes */
  int sign;         /* loads: sign extension */
  int width;        /* operation width in bytes */
  vi64 imm;         /* immediate, sign extended; relative displacement of jumps */
  int cc;           /* condition code of jcc */
  int len;          /* length in bytes */
};

static int d_b(int c, int i) { return D_BYTE(c + i); }
static int d_i32(int c, int i) {
  return (int) ((vu32) d_b(c, i) | ((vu32) d_b(c, i + 1) << 8) | ((vu32) d_b(c, i + 2) << 16) | ((vu32) d_b(c, i + 3) << 24));
}
static vi64 d_i64(int c, int i) {
  return (vi64) ((vu64) (vu32) d_i32(c, i) | ((vu64) (vu32) d_i32(c, i + 4) << 32));
}
static int d_i8(int c, int i) { return (int) (signed char) d_b(c, i); }

/* decodes ModRM (+SIB+disp) at index i; returns number of bytes, 0 if outside
   the subset.  *isreg, *rm, *reg, *disp are set. */
static int d_modrm(int c, int i, int rexr, int rexb, int rexx, int *isreg, int *rm, int *reg, int *disp) {
  int m = d_b(c, i), mod = m >> 6, r = m & 7, n = 1;
  *reg = ((m >> 3) & 7) | (rexr << 3);
  *disp = 0;
  if (mod == 3) { *isreg = 1; *rm = r | (rexb << 3); return 1; }
  *isreg = 0;
  if (r == 4) {
    int sib = d_b(c, i + 1);
    n = 2;
    if (((sib >> 3) & 7) != 4 || rexx) return 0;  /* index register: not in subset */
    r = sib & 7;
    if (mod == 0 && r == 5) return 0;             /* no base */
  } else if (mod == 0 && r == 5) return 0;        /* disp32 / rip relative */
  *rm = r | (rexb << 3);
  if (mod == 1) { *disp = d_i8(c, i + n); n += 1; }
  else if (mod == 2) { *disp = d_i32(c, i + n); n += 4; }
  return n;
}

static struct insn decode(int c) {
  struct insn I;
  int i = 0, rex = 0, w, rr, rb, rx, p66 = 0, b, isreg, rm, reg, disp, n, width;
  I.op = I_BAD; I.r1 = -1; I.r2 = -1; I.base = -1; I.disp = 0; I.mwidth = 0; I.sign = 0; I.width = 0; I.imm = 0; I.cc = -1; I.len = 0;
  if (d_b(c, i) == 0x66) { p66 = 1; i = 1; }
  if (DEC64 && (d_b(c, i) & 0xf0) == 0x40) { rex = d_b(c, i); i += 1; }
  w = (rex >> 3) & 1; rr = (rex >> 2) & 1; rx = (rex >> 1) & 1; rb = rex & 1;
  width = w ? 8 : p66 ? 2 : 4;
  I.width = width;
  b = d_b(c, i); i += 1;
  if (b == 0x01 || b == 0x09 || b == 0x21 || b == 0x29 || b == 0x31 || b == 0x39 || b == 0x89 || b == 0x88 || b == 0x8b) {
    n = d_modrm(c, i, rr, rb, rx, &isreg, &rm, &reg, &disp);
    if (n == 0) return I;
    if (isreg) {
      if (b == 0x88) return I;
      I.op = b == 0x01 ? I_ADD : b == 0x09 ? I_OR : b == 0x21 ? I_AND : b == 0x29 ? I_SUB : b == 0x31 ? I_XOR : b == 0x39 ? I_CMP : I_MOV;
      if (b == 0x8b) { I.r1 = reg; I.r2 = rm; } else { I.r1 = rm; I.r2 = reg; }
    } else {
      if (b == 0x88) {
        I.op = I_STORE; I.mwidth = 1;
        if (!rex && reg >= 4) return (I.op = I_BAD, I);  /* AH..BH */
      }
      else if (b == 0x89) { I.op = I_STORE; I.mwidth = width; }
      else if (b == 0x8b) { I.op = I_LOAD; I.mwidth = width; if (width == 2) return (I.op = I_BAD, I); }
      else return I;
      I.r1 = reg; I.base = rm; I.disp = disp;
    }
    I.len = i + n;
    return I;
  }
  if (b == 0x63 && DEC64 && w) {                /* movsxd */
    n = d_modrm(c, i, rr, rb, rx, &isreg, &rm, &reg, &disp);
    if (n == 0 || isreg) return I;
    I.op = I_LOAD; I.mwidth = 4; I.sign = 1; I.r1 = reg; I.base = rm; I.disp = disp; I.len = i + n;
    return I;
  }
  if (b == 0x81 || b == 0x83) {
    n = d_modrm(c, i, rr, rb, rx, &isreg, &rm, &reg, &disp);
    if (n == 0 || !isreg || p66) return I;
    reg &= 7;
    I.op = reg == 0 ? I_ADD : reg == 1 ? I_OR : reg == 4 ? I_AND : reg == 5 ? I_SUB : reg == 6 ? I_XOR : reg == 7 ? I_CMP : I_BAD;
    I.r1 = rm; I.r2 = -1;
    if (b == 0x81) { I.imm = d_i32(c, i + n); n += 4; } else { I.imm = d_i8(c, i + n); n += 1; }
    I.len = i + n;
    return I;
  }
  if ((b & 0xf8) == 0xb8 && !p66) {
    I.op = I_MOV; I.r1 = (b & 7) | (rb << 3); I.r2 = -1;
    if (w) { I.imm = d_i64(c, i); I.len = i + 8; }
    else { I.imm = DEC64 ? (vi64) (vu32) d_i32(c, i) : d_i32(c, i); I.len = i + 4; I.width = DEC64 ? 8 : 4; } /* writes the whole register */
    return I;
  }
  if (b == 0xc7 && !p66) {
    n = d_modrm(c, i, rr, rb, rx, &isreg, &rm, &reg, &disp);
    if (n == 0 || !isreg || (reg & 7) != 0) return I;
    I.op = I_MOV; I.r1 = rm; I.r2 = -1; I.imm = w || !DEC64 ? d_i32(c, i + n) : (vi64) (vu32) d_i32(c, i + n);
    if (DEC64) I.width = 8;
    I.len = i + n + 4;
    return I;
  }
  if (b == 0xf7 || b == 0xd3 || b == 0xff) {
    n = d_modrm(c, i, rr, rb, rx, &isreg, &rm, &reg, &disp);
    if (n == 0 || !isreg || p66) return I;
    reg &= 7;
    if (b == 0xf7) I.op = reg == 7 ? I_IDIV : reg == 6 ? I_DIV : I_BAD;
    else if (b == 0xd3) I.op = reg == 4 ? I_SHL : reg == 5 ? I_SHR : reg == 7 ? I_SAR : I_BAD;
    else { I.op = reg == 2 ? I_CALLR : I_BAD; }
    I.r1 = rm; I.len = i + n;
    return I;
  }
  if (b == 0x99 && !p66) { I.op = I_CDQ; I.len = i; return I; }
  if ((b & 0xf8) == 0x50 && !p66) { I.op = I_PUSH; I.r1 = (b & 7) | (rb << 3); I.len = i; return I; }
  if ((b & 0xf8) == 0x58 && !p66) { I.op = I_POP; I.r1 = (b & 7) | (rb << 3); I.len = i; return I; }
  if (p66) return I;
  if (b == 0xe9 || b == 0xe8) { I.op = b == 0xe9 ? I_JMP : I_CALL; I.imm = d_i32(c, i); I.len = i + 4; return I; }
  if (b == 0xeb) { I.op = I_JMP; I.imm = d_i8(c, i); I.len = i + 1; return I; }
  if (b == 0xc3) { I.op = I_RET; I.len = i; return I; }
  if (b == 0xcd) { I.op = I_INT; I.imm = d_b(c, i); I.len = i + 1; return I; }
  if ((b & 0xf0) == 0x70) { I.op = I_JCC; I.cc = b & 15; I.imm = d_i8(c, i); I.len = i + 1; return I; }
  if (b == 0x0f) {
    b = d_b(c, i); i += 1;
    if ((b & 0xf0) == 0x80) { I.op = I_JCC; I.cc = b & 15; I.imm = d_i32(c, i); I.len = i + 4; return I; }
    if (b == 0x05) { if (DEC64) I.op = I_SYSCALL; I.len = i; return I; }
    if (b == 0xaf) {
      n = d_modrm(c, i, rr, rb, rx, &isreg, &rm, &reg, &disp);
      if (n == 0 || !isreg) return I;
      I.op = I_IMUL; I.r1 = reg; I.r2 = rm; I.len = i + n; return I;
    }
    if (b == 0xb6 || b == 0xb7 || b == 0xbe || b == 0xbf) {
      n = d_modrm(c, i, rr, rb, rx, &isreg, &rm, &reg, &disp);
      if (n == 0 || isreg) return I;
      if (DEC64 && !w && (b == 0xbe || b == 0xbf)) return I; /* sign extension to 32 bits only */
      I.op = I_LOAD; I.mwidth = (b & 1) ? 2 : 1; I.sign = b >= 0xbe; I.r1 = reg; I.base = rm; I.disp = disp; I.len = i + n;
      return I;
    }
  }
  return I;
}
#endif

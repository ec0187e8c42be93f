/* L01: integer literals. */
#include "vf.h"
#include "repo/pnut.c"

static vu64 U(int lo, int hi) { return (vu64)(vu32) lo | ((vu64)(vu32) hi << 32); }

CONTRACT(void fatal_error(char *msg)
  __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))
CONTRACT(void syntax_error(char *msg)
  __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))

#ifdef SUPPORT_64_BIT_LITERALS
#define VALID_BASE(b) ((b) == 8 || (b) == 10 || (b) == 16)

/* x := x * y  (mod 2^64) */
CONTRACT(void u64_mul_u32(int *x, int y)
  __CPROVER_requires(__CPROVER_rw_ok(x, 2 * sizeof(int)))
  __CPROVER_requires(VALID_BASE(y))
  __CPROVER_assigns(x[0], x[1])
  __CPROVER_ensures(U(x[0], x[1]) == U(__CPROVER_old(x[0]), __CPROVER_old(x[1])) * (vu64) y))
void H_u64_mul_u32(void) {
  IN(int, x0); IN(int, x1); IN(int, y);
  int x[2];
  x[0] = x0; x[1] = x1;
  PRE(VALID_BASE(y));
  u64_mul_u32(x, y);
  POST(U(x[0], x[1]) == U(x0, x1) * (vu64) y, "u64_mul_u32: x' == x * y mod 2^64");
  REACH();
}

/* x := x + y (mod 2^64), 0 <= y */
CONTRACT(void u64_add_u32(int *x, int y)
  __CPROVER_requires(__CPROVER_rw_ok(x, 2 * sizeof(int)))
  __CPROVER_requires(0 <= y && y < 16)
  __CPROVER_assigns(x[0], x[1])
  __CPROVER_ensures(U(x[0], x[1]) == U(__CPROVER_old(x[0]), __CPROVER_old(x[1])) + (vu64) y))
void H_u64_add_u32(void) {
  IN(int, x0); IN(int, x1); IN(int, y);
  int x[2];
  x[0] = x0; x[1] = x1;
  PRE(0 <= y && y < 16);
  u64_add_u32(x, y);
  POST(U(x[0], x[1]) == U(x0, x1) + (vu64) y, "u64_add_u32: x' == x + y mod 2^64");
  REACH();
}

/* u64_to_obj: the object denotes the accumulated value.  Small values are stored
   as their negation, others as two heap words. */
static vu64 obj_value(int v) { return v <= 0 ? (vu64) (vu32) -v : U((int) heap[v], (int) heap[v + 1]); }
vu64 g_obj; /* ghost: the value denoted by the object made last */
#ifdef VF_OB_literal
CONTRACT(void u64_to_obj(int *x)
  __CPROVER_requires(__CPROVER_r_ok(x, 2 * sizeof(int)))
  __CPROVER_assigns(val, g_obj)
  __CPROVER_ensures(g_obj == U(x[0], x[1])))
#define obj_value_ghost(v) g_obj
#else
#define obj_value_ghost(v) obj_value(v)
CONTRACT(void u64_to_obj(int *x)
  __CPROVER_requires(__CPROVER_r_ok(x, 2 * sizeof(int)) && heap_alloc == 5000)
  __CPROVER_assigns(val, heap_alloc, alloc_result, heap[5000], heap[5001])
  __CPROVER_ensures(obj_value(val) == U(x[0], x[1]) && val > -2147483647 - 1)
  __CPROVER_ensures(val > 0 ? (val >= __CPROVER_old(heap_alloc) && val + 2 <= heap_alloc) : 1))
#endif
void H_u64_to_obj(void) {
  IN(int, x0); IN(int, x1);
  int x[2];
  x[0] = x0; x[1] = x1;
  heap_alloc = 5000;
  u64_to_obj(x);
  POST(obj_value(val) == U(x0, x1), "u64_to_obj: the object denotes the value");
  POST(val > 0 ? (val >= 5000 && val + 2 <= heap_alloc) : 1, "u64_to_obj: the object is fresh");
  REACH();
}
#endif

/* ---- one digit ---- */
static int digit_of(int c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return 99;
}
int g_next;    /* character returned by the next get_ch */
int g_ncalls;  /* number of characters consumed */
#ifdef VF_OB_accum_digit
CONTRACT(void get_ch(void)
  __CPROVER_assigns(ch, g_ncalls)
  __CPROVER_ensures(ch == g_next && g_ncalls == __CPROVER_old(g_ncalls) + 1))
#endif
#ifdef SUPPORT_64_BIT_LITERALS
#define ACC U(val_32[0], val_32[1])
#define ACC_OLD U(__CPROVER_old(val_32[0]), __CPROVER_old(val_32[1]))
#define ACC_ASSIGNS val_32[0], val_32[1]
#define STEP(old, b, d) ((old) * (vu64) (b) + (vu64) (d))
#define ACC_T vu64
#else
#define ACC val
#define ACC_OLD __CPROVER_old(val)
#define ACC_ASSIGNS val
#define STEP(old, b, d) ((int) ((vu32) (old) * (vu32) (b) - (vu32) (d)))  /* literals are accumulated negated */
#define ACC_T int
#endif
#define BASE_OK(b) ((b) == 8 || (b) == 10 || (b) == 16)
CONTRACT(int accum_digit(int base)
  __CPROVER_requires(BASE_OK(base) && ch >= -1 && ch <= 255)
  __CPROVER_assigns(ACC_ASSIGNS, ch, g_ncalls)
  __CPROVER_ensures(digit_of(__CPROVER_old(ch)) < base
     ? (__CPROVER_return_value == 1 && g_ncalls == __CPROVER_old(g_ncalls) + 1 && ch == g_next
        && ACC == STEP(ACC_OLD, base, digit_of(__CPROVER_old(ch))))
     : (__CPROVER_return_value == 0 && g_ncalls == __CPROVER_old(g_ncalls) && ch == __CPROVER_old(ch) && ACC == ACC_OLD)))
void H_accum_digit(void) {
  INR(int, base, 8, 16); INR(int, c, -1, 255); IN(int, x0); IN(int, x1); INR(int, nx, 0, 255);
  ACC_T acc;
  int r;
  g_next = nx; g_ncalls = 0; ch = c;
#ifdef VF_NATIVE
  vf_src[0] = nx; vf_src_n = 1; vf_src_i = 0;
  if (nx == '\\') vf_vacuous();
#endif
#ifdef SUPPORT_64_BIT_LITERALS
  val_32[0] = x0; val_32[1] = x1;
#else
  val = x0;
#endif
  acc = ACC;
  PRE(BASE_OK(base));
  r = accum_digit(base);
  if (digit_of(c) < base) { POST(r == 1 && ch == nx && ACC == STEP(acc, base, digit_of(c)), "accum_digit: accumulates the digit"); }
  else { POST(r == 0 && ch == c && ACC == acc, "accum_digit: rejects a non digit"); }
  REACH();
}

/* ---- a whole literal, as scanned by get_tok ----
   N arbitrary characters follow the first digit; the scanner must consume
   exactly the literal, return its value and its kind. */
#ifndef FIRST
#define FIRST '1'
#endif
#ifndef NCH
#define NCH 5
#endif
static int is_digit(int c) { return c >= '0' && c <= '9'; }
static int is_alnum_(int c) { return is_digit(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static int lit_end, lit_kind, lit_bad;
static vu64 lit_value;
static int lc(int i) { int c = i < NCH ? vf_src[i] : ' '; return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static void lit_spec(int first) {
  int base = 10, i = 0, kind = INTEGER;
  lit_value = 0; lit_bad = 0;
  if (first == '0') {
    base = 8;
    if (lc(0) == 'x') { base = 16; i = 1; if (digit_of(lc(1)) >= 16) lit_bad = 1; }
  } else lit_value = first - '0';
  while (i < NCH && digit_of(vf_src[i]) < base) { lit_value = lit_value * base + digit_of(vf_src[i]); i += 1; }
#ifdef PARSE_NUMERIC_LITERAL_WITH_BASE
  kind = base == 16 ? INTEGER_HEX : base == 8 && lit_value != 0 ? INTEGER_OCT : INTEGER;
#endif
#ifdef PARSE_NUMERIC_LITERAL_SUFFIX
  if (lc(i) == 'u') {
    i += 1; kind = INTEGER_U;
    if (lc(i) == 'l') { i += 1; kind = INTEGER_UL; if (lc(i) == 'l') { i += 1; kind = INTEGER_ULL; } }
  } else if (lc(i) == 'l') {
    i += 1; kind = INTEGER_L;
    if (lc(i) == 'l') { i += 1; kind = INTEGER_LL; }
    if (lc(i) == 'u') { i += 1; kind = kind == INTEGER_LL ? INTEGER_ULL : INTEGER_UL; }
  }
#endif
  lit_end = i; lit_kind = kind;
}
#ifdef VF_OB_literal
/* not reached by a literal */
CONTRACT(void handle_preprocessor_directive(void) __CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(0))
CONTRACT(void get_ident(void) __CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(0))
CONTRACT(void stringify(void) __CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(0))
CONTRACT(void paste_tokens(int left_tok, int left_val) __CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(0))
CONTRACT(bool attempt_macro_expansion(int macro) __CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(0))
CONTRACT(void return_to_parent_macro(void) __CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(0))
CONTRACT(void begin_macro_expansion(int ident, int tokens, int args) __CPROVER_requires(0) __CPROVER_assigns() __CPROVER_ensures(0))
#endif
struct IncludeStack vf_inc;
void H_literal(void) {
  int first = FIRST; INR(int, s0, 1, 255); INR(int, s1, 1, 255); INR(int, s2, 1, 255); INR(int, s3, 1, 255); INR(int, s4, 1, 255);
  vu64 v;
  vf_src[0] = s0; vf_src[1] = s1; vf_src[2] = s2; vf_src[3] = s3; vf_src[4] = s4; vf_src[5] = ' '; vf_src[6] = ' '; vf_src[7] = ' '; vf_src_n = 8; vf_src_i = 0;
  REQUIRE(s0 != '\\' && s1 != '\\' && s2 != '\\' && s3 != '\\' && s4 != '\\');
  lit_spec(first);
  REQUIRE(!lit_bad);
  vf_inc.next = 0; include_stack = &vf_inc; fp = 0;
  macro_tok_lst = 0; macro_stack_ix = 0; ch = first; tok = 0; if_macro_mask = true; expand_macro = true; skip_newlines = true; heap_alloc = 5000;
#ifdef SUPPORT_LINE_CONTINUATION
  line_continutation_prev_char = -2;
#endif
  get_tok();
#ifdef SUPPORT_64_BIT_LITERALS
  v = obj_value_ghost(val);
#else
  v = (vu64) (vu32) -val;
#endif
  ENSURE(v == lit_value, "literal: value");
  ENSURE(tok == lit_kind, "literal: kind and suffix");
  ENSURE(vf_src_i == lit_end + 1 && ch == vf_src[lit_end], "literal: consumes exactly the literal");
  REACH();
}

/* S01: text written by the shell back end: characters and strings in quotes, numbers, text trees. */
#include "vf.h"
#include "repo/pnut.c"
CONTRACT(void fatal_error(char *msg) __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))
/* ---- what the shell reads between double quotes (POSIX 2.2.3), then what the reader of the string makes of it:
 *      the runtime's unpack_escaped_string (mode 0), or printf's format (mode 1).  -1: not a single character. ---- */
static int dq[8], ndq;
static int unquote(void) {   /* the characters after quote removal; 0 if a special character is not quoted */
  int i; ndq = 0;
  for (i = 0; i < vf_out_n; i += 1) {
    if (vf_out[i] == '"' || vf_out[i] == '$' || vf_out[i] == '`') return 0;
    if (vf_out[i] == '\\') {
      if (i + 1 >= vf_out_n) return 0;   /* would quote what follows */
      if (vf_out[i + 1] == '$' || vf_out[i + 1] == '`' || vf_out[i + 1] == '"' || vf_out[i + 1] == '\\') i += 1;
      else if (vf_out[i + 1] == '\n') return 0;
    }
    dq[ndq] = vf_out[i]; ndq += 1;
  }
  return 1;
}
static int reads_as(int printf_mode) {
  int c;
  if (ndq == 1) return dq[0] == '\\' || (printf_mode && dq[0] == '%') || dq[0] == 0 ? -1 : dq[0];
  if (ndq != 2) return -1;
  if (dq[0] == '%') return printf_mode && dq[1] == '%' ? '%' : -1;
  if (dq[0] != '\\') return -1;
  c = dq[1];
  return c == 'a' ? 7 : c == 'b' ? 8 : c == 'f' ? 12 : c == 'n' ? 10 : c == 'r' ? 13 : c == 't' ? 9 : c == 'v' ? 11 : c == '\\' ? 92 : !printf_mode && c == '0' ? 0 : !printf_mode && (c == '"' || c == '\'' || c == '?' || c == '$') ? c : -1;
}
/* every character is written so that it is read back as itself, whatever follows it; not as an escape or conversion of its own */
void H_char(void) {
  INR(int, c, 0, 127); INR(int, pf, 0, 1);
  REQUIRE(!(pf && c == 0));   /* printf formats end at their null character */
  vf_out_n = 0;
  print_escaped_char((char) c, pf);
  ENSURE(vf_out_n >= 1 && vf_out_n <= 4, "one character is written");
  ENSURE(unquote(), "special characters are quoted");
  ENSURE(reads_as(pf) == c, "and read back as the same character");
  REACH();
}
#ifdef VF_CBMC
/* ---- strings: every character, once, in order ---- */
#if defined(VF_OB_string)
int g_cnt, g_k, g_ch, g_pf; char *g_s; int g_z;
CONTRACT(void print_escaped_char(char c, int for_printf) __CPROVER_requires(for_printf == g_pf) __CPROVER_assigns(g_cnt, g_ch)
  __CPROVER_ensures(g_cnt == __CPROVER_old(g_cnt) + 1 && g_ch == (__CPROVER_old(g_cnt) == g_k ? c : __CPROVER_old(g_ch))))
static char s[16];
void H_string(void) {
  INR(int, len, 0, 15); INR(int, z, 0, 15); IN(int, k); IN(int, pf); INR(int, ended, 0, 1); char c;
  REQUIRE(s[z] == 0 && (ended || len == z)); REQUIRE(k >= 0 && k < len);
  if (!ended) { int j; j = 0; __CPROVER_assume(__CPROVER_forall { int j; (0 <= j && j < 15) ==> (j < z ==> s[j] != 0) }); }
  g_cnt = 0; g_k = k; g_pf = pf; g_s = s; g_z = ended ? 15 : z; c = s[k];
  print_escaped_string(s, ended ? s + len : 0, pf);
  ENSURE(g_cnt == len, "all characters and no more");
  ENSURE(g_ch == c, "each in its place");
  REACH();
}
#endif
/* ---- numbers: putchar accumulates the value written ---- */
#if defined(VF_OB_dec) || defined(VF_OB_signed) || defined(VF_OB_hex) || defined(VF_OB_oct)
#if defined(VF_OB_dec) || defined(VF_OB_signed)
#define BASE 10
#elif defined(VF_OB_hex)
#define BASE 16
#else
#define BASE 8
#endif
vu64 g_val; int g_cnt, g_first, g_neg;   /* g_cnt: none, one, or more digits */
#define DIGIT(c) ((c) >= '0' && (c) <= '9' ? (c) - '0' : BASE == 16 && (c) >= 'a' && (c) <= 'f' ? (c) - 'a' + 10 : 99)
CONTRACT(static int vf_putchar(int c) __CPROVER_requires(c == '-' ? g_cnt == 0 && !g_neg : DIGIT(c) < BASE) __CPROVER_assigns(g_val, g_cnt, g_first, g_neg)
  __CPROVER_ensures(c == '-' ? g_neg == 1 && g_cnt == __CPROVER_old(g_cnt) && g_val == __CPROVER_old(g_val) && g_first == __CPROVER_old(g_first)
    : g_val == __CPROVER_old(g_val) * BASE + DIGIT(c) && g_cnt == (__CPROVER_old(g_cnt) == 0 ? 1 : 2) && g_first == (__CPROVER_old(g_cnt) == 0 ? DIGIT(c) : __CPROVER_old(g_first)) && g_neg == __CPROVER_old(g_neg)))
#define NUM(v) __CPROVER_ensures(g_val == (v) && g_cnt >= 1 && (g_first != 0 || (v) == 0 && g_cnt == 1) && g_neg == __CPROVER_old(g_neg))
#define NUMPRE __CPROVER_requires(g_cnt == 0 && g_val == 0) __CPROVER_assigns(g_val, g_cnt, g_first, g_neg)
CONTRACT(void putint_aux(int n) __CPROVER_requires(n <= 0) NUMPRE __CPROVER_ensures(g_val == (vu64) -(vi64) n && g_cnt >= 1 && (g_first != 0 || n == 0 && g_cnt == 1) && g_neg == __CPROVER_old(g_neg)))
CONTRACT(void puthex_unsigned(int n) NUMPRE NUM((vu64) (vu32) n))
CONTRACT(void putoct_unsigned(int n) NUMPRE NUM((vu64) (vu32) n))
#define NB() g_val = 0; g_cnt = g_first = g_neg = 0;
void H_dec(void) { IN(int, n); NB() putint_aux(n); REACH(); }
void H_hex(void) { IN(int, n); NB() puthex_unsigned(n); REACH(); }
void H_oct(void) { IN(int, n); NB() putoct_unsigned(n); REACH(); }
void H_signed(void) { IN(int, n); NB() putint(n); ENSURE(g_neg == (n < 0) && g_val == (vu64) (n < 0 ? -(vi64) n : (vi64) n), "sign and magnitude"); REACH(); }
#endif
/* ---- text trees: print_text prints the parts in order; each part by its own contract ---- */
#if defined(VF_OB_tree)
int g_N, T[6], g_ok;
#ifndef NP
#define NP 2
#endif
/* g_ok: base-8 digits of the parts printed so far; numbers and strings record what they print */
int g_num, g_kind; char *g_str, *g_end; int g_fp;
#define REC(k) __CPROVER_assigns(g_ok, g_kind, g_num)
CONTRACT(void putint(int n) __CPROVER_assigns(g_kind, g_num) __CPROVER_ensures(g_kind == __CPROVER_old(g_kind) * 8 + 1 && g_num == n))
CONTRACT(void puthex_unsigned(int n) __CPROVER_assigns(g_kind, g_num) __CPROVER_ensures(g_kind == __CPROVER_old(g_kind) * 8 + 2 && g_num == n))
CONTRACT(void putoct_unsigned(int n) __CPROVER_assigns(g_kind, g_num) __CPROVER_ensures(g_kind == __CPROVER_old(g_kind) * 8 + 3 && g_num == n))
CONTRACT(void putstr(char *str) __CPROVER_assigns(g_kind, g_str) __CPROVER_ensures(g_kind == __CPROVER_old(g_kind) * 8 + 4 && g_str == str))
CONTRACT(void print_escaped_string(char *string_start, char *string_end, int for_printf) __CPROVER_assigns(g_kind, g_str, g_end, g_fp) __CPROVER_ensures(g_kind == __CPROVER_old(g_kind) * 8 + 5 && g_str == string_start && g_end == string_end && g_fp == for_printf))
CONTRACT(void print_escaped_char(char c, int for_printf) __CPROVER_assigns(g_kind, g_num, g_fp) __CPROVER_ensures(g_kind == __CPROVER_old(g_kind) * 8 + 6 && g_num == c && g_fp == for_printf))
static text t[5];
static char str[4];
void H_tree(void) {
  int r, i, u, w, v; IN(int, n); INR(int, fp, 0, 1); INR(int, ch_, 1, 127);
  text_alloc = 1; vf_out_n = 0; g_kind = 0; r = 0;
#if NP <= 3   /* a list of parts is printed in order, also nested */
  t[0] = wrap_char('a'); t[1] = wrap_int(n); t[2] = wrap_str_lit(str); ch_ = '%'; t[3] = wrap_char(ch_); t[4] = wrap_int_hex(n);
  u = NP == 0 ? string_concat3(t[0], t[1], t[2]) : NP == 1 ? string_concat4(t[1], t[0], t[2], t[4]) : NP == 2 ? string_concat5(t[2], t[1], string_concat(t[4], t[0]), 0, t[3]) : string_concat(string_concat3(t[1], t[1], t[4]), concatenate_strings_with(t[2], t[0], t[3]));
  print_text(u);
  ENSURE(g_kind == (NP == 0 ? 1 * 8 + 4 : NP == 1 ? 1 * 64 + 4 * 8 + 2 : NP == 2 ? 4 * 64 + 1 * 8 + 2 : 1 * 512 + 1 * 64 + 2 * 8 + 4), "all the parts, in order");
  ENSURE(NP == 0 ? vf_out_n == 1 && vf_out[0] == 'a' : NP == 1 ? vf_out_n == 3 && vf_out[0] == 'a' && vf_out[1] == '0' && vf_out[2] == 'x' : NP == 2 ? vf_out_n == 4 && vf_out[0] == '0' && vf_out[2] == 'a' && vf_out[3] == ch_ : vf_out_n == 4 && vf_out[0] == '0' && vf_out[2] == ch_ && vf_out[3] == 'a', "characters too");
  ENSURE(g_num == n && g_str == str, "with their values");
#elif NP == 4 || NP == 5 || NP == 6
  u = NP == 4 ? wrap_int(n) : NP == 5 ? wrap_int_hex(n) : wrap_int_oct(n);
  print_text(u);
  ENSURE(g_kind == NP - 3 && g_num == n && vf_out_n == (NP == 4 ? 0 : NP == 5 ? 2 : 1) && (NP == 4 || vf_out[0] == '0') && (NP != 5 || vf_out[1] == 'x'), "number with the prefix of its base");
#elif NP == 7
  print_text(escape_text(wrap_str_imm(str, str + 3), fp));
  ENSURE(g_kind == 5 && g_str == str && g_end == str + 3 && g_fp == fp, "escaped string");
#elif NP == 8
  ch_ = '$';
  print_text(escape_text(string_concat(wrap_char(ch_), string_concat(wrap_int(n), wrap_str_lit(str))), fp));
  ENSURE(g_kind == 6 * 64 + 1 * 8 + 5 && g_num == n && g_str == str && g_end == 0 && g_fp == fp, "escaped parts in order");
#else
  { INR(int, m, 0, 1); IN(int, val); REQUIRE(val >= 0); heap_alloc = 20;
  print_text(wrap_integer(m ? -1 : 1, new_ast0(NP == 9 ? INTEGER : NP == 10 ? INTEGER_HEX : INTEGER_OCT, -val)));
  ENSURE(g_kind == NP - 8 && g_num == (m ? -val : val), "value of the literal"); }
#endif
  REACH();
}
#endif
#endif

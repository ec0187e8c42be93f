/* Common part of every specification file.
 *
 * A specification file includes the real /repo source (no copy, no extraction)
 * and adds, as redeclarations, code contracts on the real functions, plus one
 * harness H_<name> per obligation.  It is compiled twice:
 *   - by goto-cc  (CBMC mode): goto-instrument --dfcc enforces the contracts;
 *   - by gcc -DVF_NATIVE: the same harness runs the real code on concrete
 *     inputs and evaluates the same predicates (used to replay counterexamples).
 */
#ifndef VF_H
#define VF_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdint.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <ctype.h>
#include <limits.h>

typedef unsigned long long vu64;
typedef long long vi64;
typedef unsigned int vu32;
typedef unsigned char vu8;

extern int vf_exit_ok;           /* harness expects that the code may stop with an error */
extern int vf_exited;

#ifndef VF_NATIVE
/* ------------------------------------------------------------- CBMC mode */
#define VF_CBMC 1
int vf_exit_ok = 0;
int vf_exited = 0;
vi64 vf_nd_i64(void); vu64 vf_nd_u64(void); int vf_nd_int(void); unsigned char vf_nd_u8(void);
#define IN(T, n)  T n; { T vf_tmp_; n = vf_tmp_; }
#define INR(T, n, lo, hi)  T n; { T vf_tmp_; __CPROVER_assume(vf_tmp_ >= (lo) && vf_tmp_ <= (hi)); n = vf_tmp_; }
#define REQUIRE(c) __CPROVER_assume(c)
#define ENSURE(c, label) __CPROVER_assert((c), "ENSURE " label)
/* In contracts mode the pre/postcondition is assumed/asserted by the contract
   itself; PRE/POST are its native-mode counterpart. */
#define PRE(c)
#define POST(c, label)
#define REACH() __CPROVER_assert(0, "REACH end of harness")
static void vf_exit(int code) {
  __CPROVER_assert(vf_exit_ok, "ENSURE no error exit on a valid input");
  __CPROVER_assume(0);
}
#define CONTRACT(...) __VA_ARGS__;
#define vf_unreachable() __CPROVER_assume(0)
#else
/* ----------------------------------------------------------- native mode */
#include <setjmp.h>
int vf_exit_ok = 0;
int vf_exited = 0;
extern jmp_buf vf_jmp;
vi64 vf_in(const char *name);
vi64 vf_in_range(const char *name, vi64 lo, vi64 hi);
void vf_vacuous(void);
void vf_fail(const char *label);
void vf_reached(void);
#define IN(T, n)  T n = (T) vf_in(#n)
#define INR(T, n, lo, hi)  T n = (T) vf_in_range(#n, lo, hi)
#define REQUIRE(c) do { if (!(c)) vf_vacuous(); } while (0)
#define ENSURE(c, label) do { if (!(c)) vf_fail(label); } while (0)
#define PRE(c) REQUIRE(c)
#define POST(c, label) ENSURE(c, label)
#define REACH() vf_reached()
#define CONTRACT(...)
static void vf_exit(int code) {
  if (!vf_exit_ok) vf_fail("no error exit on a valid input");
  vf_exited = 1;
  longjmp(vf_jmp, 2);
}
#define vf_unreachable() vf_vacuous()
#define __CPROVER_assume(c) REQUIRE(c)
#define __CPROVER_assert(c, l) ENSURE(c, l)
#define __CPROVER_havoc_object(p)
#endif

/* ---- recorded output ---- */
#ifndef VF_OUT_MAX
#define VF_OUT_MAX 64
#endif
unsigned char vf_out[VF_OUT_MAX];
int vf_out_n = 0;
static int vf_putchar(int c) {
  if (vf_out_n < VF_OUT_MAX) vf_out[vf_out_n] = (unsigned char) c;
  vf_out_n += 1;
  return c;
}
static int vf_fputc(int c, FILE *f) { return vf_putchar(c); }
static int vf_puts_(const char *s) { while (*s) { vf_putchar(*s); s += 1; } return 0; }
/* diagnostics only: their text is not part of any property */
static int vf_printf(const char *fmt, ...) { return 0; }

/* ---- scripted input ---- */
#ifndef VF_SRC_MAX
#define VF_SRC_MAX 32
#endif
unsigned char vf_src[VF_SRC_MAX];
int vf_src_n = 0;
int vf_src_i = 0;
static int vf_fgetc(FILE *f) {
  int c = -1;
  if (vf_src_i < vf_src_n && vf_src_i < VF_SRC_MAX) c = vf_src[vf_src_i];
  vf_src_i += 1;
  return c;
}

#define exit vf_exit
#define putchar vf_putchar
#define printf vf_printf
#define fgetc vf_fgetc
#define main pnut_main
#endif

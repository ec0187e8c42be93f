/* Native driver: runs harness H_<name> of a specification on concrete inputs.
 *   prog <harness> replay name=value ...      run once; exit 0 ok, 1 failed, 3 vacuous
 *   prog <harness> search <seed> <seconds> [name=value ...]
 *        look for failing inputs near the given ones and at random
 * Every run is in a forked child so that a crash is observed as a failure. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
typedef long long vi64;
typedef unsigned long long vu64;
jmp_buf vf_jmp;
struct ent { const char *n; void (*f)(void); };
extern struct ent vf_table[];
#define MAXIN 512
struct shared { int n; char name[MAXIN][48]; vi64 val[MAXIN]; int status; char label[256]; };
static struct shared *S;
static int given_n; static char given_name[MAXIN][48]; static vi64 given_val[MAXIN];
static int mode; /* 0 replay, 1 mutate, 2 random */
static vu64 rs = 88172645463325252ULL;
static vu64 rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ULL; }
static vi64 rndval(void) {
  switch (rnd() >> 60) {
    case 0: case 1: case 2: case 3: return (vi64)((rnd() >> 40) % 8);
    case 4: case 5: return (vi64)((rnd() >> 40) % 40) - 8;
    case 6: return (vi64)((rnd() >> 40) % 256);
    case 7: return (vi64)((rnd() >> 40) % 130) + 32;
    case 8: { int k = (rnd() >> 40) % 64; return (vi64)((1ULL << k) + (rnd() >> 40) % 3 - 1); }
    case 9: { int k = (rnd() >> 40) % 64; return -(vi64)((1ULL << k) + (rnd() >> 40) % 3 - 1); }
    case 10: return (vi64)((rnd() >> 40) % 2000);
    case 11: return 300 + (vi64)((rnd() >> 40) % 210);
    case 12: return (vi64)((rnd() >> 40) % 600000);
    case 13: return (vi64)(int) rnd();
    case 14: return (vi64) rnd();
    default: return (vi64)((rnd() >> 40) % 3) - 1;
  }
}
static vi64 given(const char *n, int *found) {
  int i;
  for (i = 0; i < given_n; i++) if (!strcmp(given_name[i], n)) { *found = 1; return given_val[i]; }
  *found = 0; return 0;
}
vi64 vf_in(const char *name) {
  int i, found; vi64 v;
  for (i = 0; i < S->n; i++) if (!strcmp(S->name[i], name)) return S->val[i];
  v = given(name, &found);
  if (mode == 1) { if ((rnd() >> 40) % 3 == 0) v = rndval(); else if ((rnd() >> 40) % 4 == 0) v += (vi64)((rnd() >> 40) % 5) - 2; }
  else if (mode == 2) { if (!found || 1) v = rndval(); }
  if (S->n < MAXIN) { strncpy(S->name[S->n], name, 47); S->val[S->n] = v; S->n++; }
  return v;
}
vi64 vf_in_range(const char *name, vi64 lo, vi64 hi) {
  int i, found; vi64 v;
  for (i = 0; i < S->n; i++) if (!strcmp(S->name[i], name)) return S->val[i];
  v = given(name, &found);
  if (mode == 2 || (mode == 1 && (rnd() >> 40) % 3 == 0)) {
    switch ((rnd() >> 40) % 8) {
      case 0: v = lo; break;
      case 1: v = hi; break;
      case 2: v = rndval(); if (v >= lo && v <= hi) break; /* fall through */
      default: v = (vi64)((vu64) lo + (hi - lo == -1 ? rnd() : rnd() % ((vu64) hi - (vu64) lo + 1)));
    }
  }
  if (v < lo) v = lo; if (v > hi) v = hi;
  if (S->n < MAXIN) { strncpy(S->name[S->n], name, 47); S->val[S->n] = v; S->n++; }
  return v;
}
void vf_vacuous(void) { S->status = 3; _exit(3); }
void vf_fail(const char *l) { S->status = 1; strncpy(S->label, l, 255); _exit(1); }
static int reached;
void vf_reached(void) { reached = 1; }
static int run(void (*f)(void)) {
  pid_t p; int st; vu64 r;
  S->n = 0; S->status = 0; S->label[0] = 0;
  r = rnd();
  p = fork();
  if (p == 0) {
    rs = r | 1;
    alarm(5);
    if (setjmp(vf_jmp) == 0) f();
    _exit(0);
  }
  waitpid(p, &st, 0);
  if (S->status == 3) return 3;
  if (WIFSIGNALED(st)) { snprintf(S->label, 255, WTERMSIG(st) == SIGALRM ? "hang" : "crash (signal %d)", WTERMSIG(st)); return 1; }
  if (WEXITSTATUS(st) != 0) { if (!S->label[0]) snprintf(S->label, 255, "abnormal exit %d (sanitizer report)", WEXITSTATUS(st)); return 1; }
  return 0;
}
static void show(const char *tag) {
  int i; printf("%s label=%s\n", tag, S->label);
  for (i = 0; i < S->n; i++) printf("IN %s=%lld\n", S->name[i], S->val[i]);
}
int main(int argc, char **argv) {
  int i, r; void (*f)(void) = 0; long n = 0, vac = 0;
  S = mmap(0, sizeof(struct shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (argc < 3) return 2;
  for (i = 0; vf_table[i].n; i++) if (!strcmp(vf_table[i].n, argv[1])) f = vf_table[i].f;
  if (!f) { printf("no such harness\n"); return 2; }
  if (!strcmp(argv[2], "replay")) {
    for (i = 3; i < argc; i++) {
      char *e = strchr(argv[i], '='); if (!e) continue;
      *e = 0; strncpy(given_name[given_n], argv[i], 47); given_val[given_n++] = strtoll(e + 1, 0, 0);
    }
    mode = 0; r = run(f); show(r == 1 ? "FAILED" : r == 3 ? "VACUOUS" : "OK");
    return r;
  }
  rs ^= strtoull(argv[3], 0, 0) * 0x9E3779B97F4A7C15ULL; if (!rs) rs = 1;
  double lim = atof(argv[4]); 
  for (i = 5; i < argc; i++) {
    char *e = strchr(argv[i], '='); if (!e) continue;
    *e = 0; strncpy(given_name[given_n], argv[i], 47); given_val[given_n++] = strtoll(e + 1, 0, 0);
  }
  struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
  for (;;) {
    mode = (given_n && n % 2) ? 1 : 2; n++;
    r = run(f); if (r == 3) vac++;
    if (r == 1) { show("FAILED"); printf("RUNS %ld VACUOUS %ld\n", n, vac); return 1; }
    clock_gettime(CLOCK_MONOTONIC, &b);
    if ((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9 > lim) break;
  }
  printf("NONE\nRUNS %ld VACUOUS %ld\n", n, vac);
  return 0;
}

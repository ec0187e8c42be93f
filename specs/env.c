/* X06: names refer to the innermost declaration in scope.
 * An environment is a chain of bindings; g_first(q, b) is the first binding of the chain from b that satisfies the
 * query q, given by its defining equations (assumed for every binding of the heap: they define it, since chains end).
 * The loops are closed by loop contracts: chains of any length. */
#include "vf.h"
#include "repo/pnut.c"
CONTRACT(void fatal_error(char *msg) __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))
CONTRACT(void putstr(char *str) __CPROVER_assigns() __CPROVER_ensures(1))   /* text of error messages */
int g_q, g_k, g_i;             /* query: which function, kind, identifier */
static int g_first[HEAP_SIZE];
#define KIND(b) heap[(b) + 1]
#define IDENT(b) heap[(b) + 2]
#define ISVAR(b) (KIND(b) == BINDING_PARAM_LOCAL || KIND(b) == BINDING_VAR_LOCAL || KIND(b) == BINDING_VAR_GLOBAL)
#define MATCH(b) (g_q == 0 ? KIND(b) == g_k && IDENT(b) == g_i : g_q == 1 ? KIND(b) == g_k : g_q == 2 ? ISVAR(b) && IDENT(b) == g_i : KIND(b) == BINDING_LOOP || KIND(b) == BINDING_SWITCH)
#ifdef ACYCLIC
#define NEXT_OK(b) (heap[b] >= 0 && heap[b] < (b))
#else
#define NEXT_OK(b) (heap[b] >= 0 && heap[b] < HEAP_SIZE - 3)
#endif
#ifdef VF_CBMC
static void chain(void) { int b; __CPROVER_assume(g_first[0] == 0);
  for (b = 1; b < HEAP_SIZE - 3; b += 1) { __CPROVER_assume(NEXT_OK(b) && KIND(b) >= 0 && KIND(b) <= BINDING_TYPE_ENUM); __CPROVER_assume(g_first[b] == (MATCH(b) ? b : g_first[heap[b]])); } }
#else
static int first(int b) { while (b != 0 && !MATCH(b)) b = heap[b]; return b; }
static void chain(void) { int b, r = vf_in("seed"); for (b = 1; b < HEAP_SIZE - 3; b += 1) { r = r * 1103515245 + 12345; heap[b] = b % 3 == 1 ? (b > 3 ? b - 3 * (1 + ((r >> 16) & 3) % (b / 3)) : 0) : b % 3 == 2 ? ((r >> 16) & 15) % (BINDING_TYPE_ENUM + 1) : (r >> 16) % 3 & 3; if (heap[b] < 0) heap[b] = 0; }
  for (b = 1; b < HEAP_SIZE - 3; b += 3) g_first[b] = first(b); }
#endif
#define CHAIN() chain();
#define CHAINS() INR(int, start, 0, HEAP_SIZE - 4); IN(int, id); IN(int, kd); g_i = id; g_k = kd;
void H_lookup_binding_ident(void) { int r; CHAINS() g_q = 0; CHAIN() r = cgc_lookup_binding_ident(kd, id, start); ENSURE(r == g_first[start], "the innermost binding of that kind and name, or none"); REACH(); }
void H_lookup_last_binding(void) { int r; CHAINS() g_q = 1; CHAIN() r = cgc_lookup_last_binding(kd, start); ENSURE(r == g_first[start], "the innermost binding of that kind, or none"); REACH(); }
void H_lookup_var(void) { int r; CHAINS() g_q = 2; CHAIN() r = cgc_lookup_var(id, start); ENSURE(r == g_first[start], "the innermost variable of that name, or none"); REACH(); }
void H_lookup_loop_or_switch(void) { int r; CHAINS() g_q = 3; CHAIN() r = cgc_lookup_enclosing_loop_or_switch(start); ENSURE(r == g_first[start], "the innermost loop or switch, or none"); REACH(); }

/* ---- users of the lookups, against their contracts: g_var, g_fun ... are what the lookups proved above return ---- */
#if defined(VF_OB_resolve) || defined(VF_OB_canonicalize)
int g_loc, g_glob, g_lvar, g_gvar, g_gfun, g_genum, g_struct, g_union, g_enum;
CONTRACT(int cgc_lookup_var(int ident, int binding) __CPROVER_assigns()
  __CPROVER_ensures(ident == g_i && binding == g_loc ? __CPROVER_return_value == g_lvar : ident == g_i && binding == g_glob ? __CPROVER_return_value == g_gvar : 1))
CONTRACT(int cgc_lookup_binding_ident(int binding_type, int ident, int binding) __CPROVER_assigns()
  __CPROVER_ensures(ident != g_i || binding != g_glob ? 1 : binding_type == BINDING_FUN ? __CPROVER_return_value == g_gfun : binding_type == BINDING_ENUM_CST ? __CPROVER_return_value == g_genum :
     binding_type == BINDING_TYPE_STRUCT ? __CPROVER_return_value == g_struct : binding_type == BINDING_TYPE_UNION ? __CPROVER_return_value == g_union : binding_type == BINDING_TYPE_ENUM ? __CPROVER_return_value == g_enum : 1))
#endif
#ifdef VF_OB_resolve
void H_resolve(void) {
  int r;
  IN(int, id); IN(int, l); IN(int, g); IN(int, b0); IN(int, b1); IN(int, b2); IN(int, b3);
  REQUIRE(l >= 0 && g > 0 && l < HEAP_SIZE && g < HEAP_SIZE && l != g);
  REQUIRE(b0 >= 0 && b1 >= 0 && b2 >= 0 && b3 >= 0 && (b1 != 0) + (b2 != 0) + (b3 != 0) <= 1);   /* one declaration of a name at file scope */
  g_i = id; cgc_locals = g_loc = l; cgc_globals = g_glob = g; g_lvar = b0; g_gvar = b1; g_gfun = b2; g_genum = b3;
  vf_exit_ok = !(b0 || b1 || b2 || b3);
  r = resolve_identifier(id);
  ENSURE(r == (b0 ? b0 : b1 ? b1 : b2 ? b2 : b3), "a local variable hides a global declaration of its name");
  REACH();
}
#endif
#ifdef VF_OB_canonicalize
#ifndef OPC
#define OPC STRUCT_KW
#endif
/* a struct, union or enum type without members stands for the definition of its tag; any other type for itself */
void H_canonicalize(void) {
  int r, t, id, b;
  IN(int, full); IN(int, g); IN(int, def);
  heap_alloc = 10;
  id = new_ast0(IDENTIFIER, 7); g_i = 7;
  REQUIRE(g > 0 && g < 10);
  cgc_globals = g_glob = g; g_loc = 0;
  b = alloc_obj(4); heap[b + 3] = def;
  g_struct = OPC == STRUCT_KW ? b : 0; g_union = OPC == UNION_KW ? b : 0; g_enum = OPC == ENUM_KW ? b : 0; g_gvar = g_lvar = g_gfun = g_genum = 0;
  t = new_ast3(OPC, 0, id, full ? new_ast2(LIST, id, 0) : 0);
  if (!(OPC == STRUCT_KW || OPC == UNION_KW || OPC == ENUM_KW)) t = new_ast0(OPC, 0);
  r = canonicalize_type(t);
  ENSURE(r == (!full && (OPC == STRUCT_KW || OPC == UNION_KW || OPC == ENUM_KW) ? def : t), "a tag stands for its definition");
  REACH();
}
#endif

/* ---- declarations extend the front of one chain and change nothing else ---- */
#ifdef VF_OB_add
#ifndef K
#define K 0
#endif
void H_add(void) {
  int n, old_alloc, is_local; IN(int, id); INR(int, width, 0, 1000); INR(int, ty, 0, HEAP_SIZE - 1); INR(int, al, 10, HEAP_SIZE - 12); INR(int, l, 0, 9); INR(int, g, 0, 9); INR(int, f, 0, 9);
  INR(int, fs, 0, 100000); INR(int, ga, 0, 100000); INR(int, probe, 0, 9); IN(int, x); IN(int, y); IN(int, z); INR(int, old, 0, 1);
  int pv;
  heap[probe] = x; pv = x;
  heap_alloc = al; cgc_locals = l; cgc_globals = g; cgc_locals_fun = f; cgc_fs = fs; cgc_global_alloc = ga;
#if K == 0
  cgc_add_local_param(id, width, ty); is_local = 1; n = cgc_locals;
  ENSURE(KIND(n) == BINDING_PARAM_LOCAL && heap[n + 3] == fs && heap[n + 4] == ty && cgc_fs == fs - width, "a parameter lies below the previous one");
#elif K == 1
  cgc_add_local_var(id, width, ty); is_local = 1; n = cgc_locals;
  ENSURE(KIND(n) == BINDING_VAR_LOCAL && heap[n + 3] == fs + width && heap[n + 4] == ty && cgc_fs == fs + width, "a local variable lies above the frame so far");
#elif K == 2
  cgc_add_global(id, width, ty, old); is_local = old; n = old ? cgc_locals : cgc_globals;
  ENSURE(KIND(n) == BINDING_VAR_GLOBAL && heap[n + 3] == ga && heap[n + 4] == ty && cgc_global_alloc == ga + width && cgc_fs == fs, "a static object has a place of its own");
#elif K == 3
  cgc_add_global_fun(id, x, ty); is_local = 0; n = cgc_globals;
  ENSURE(KIND(n) == BINDING_FUN && heap[n + 4] == x && heap[n + 5] == ty, "function binding");
#elif K == 4
  cgc_add_enum(id, x); is_local = 0; n = cgc_globals;
  ENSURE(KIND(n) == BINDING_ENUM_CST && heap[n + 3] == x, "enumerator binding");
#elif K == 5
  cgc_add_typedef(id, old ? BINDING_TYPE_STRUCT : BINDING_TYPE_UNION, ty); is_local = 0; n = cgc_globals;
  ENSURE(KIND(n) == (old ? BINDING_TYPE_STRUCT : BINDING_TYPE_UNION) && heap[n + 3] == ty, "type binding");
#elif K == 6
  cgc_add_enclosing_loop(x, y, z); is_local = 1; n = cgc_locals; id = IDENT(n);
  ENSURE(KIND(n) == BINDING_LOOP && heap[n + 2] == x && heap[n + 3] == y && heap[n + 4] == z, "loop binding");
#elif K == 7
  cgc_add_enclosing_switch(x, y, z); is_local = 1; n = cgc_locals; id = IDENT(n);
  ENSURE(KIND(n) == BINDING_SWITCH && heap[n + 2] == x && heap[n + 3] == y && heap[n + 4] == z && heap[n + 5] == 0, "switch binding");
#else
  cgc_add_goto_label(id, x); is_local = 2; n = cgc_locals_fun;
  ENSURE(KIND(n) == BINDING_GOTO_LABEL && heap[n + 3] == x, "label binding");
#endif
  ENSURE(IDENT(n) == id, "the name declared");
  ENSURE(heap[n] == (is_local == 2 ? f : is_local ? l : g), "the new binding hides the ones in scope before it");
  ENSURE(cgc_locals == (is_local == 1 ? n : l) && cgc_globals == (is_local == 0 ? n : g) && cgc_locals_fun == (is_local == 2 ? n : f), "other chains unchanged");
  ENSURE(n >= al && heap_alloc > n + 3 && heap[probe] == pv, "older bindings unchanged");
#if K == 0 || K == 1 || K == 2 || K == 3 || K == 6
  ENSURE(heap_alloc > n + 4, "fits");
#endif
#if K == 3 || K == 7
  ENSURE(heap_alloc > n + 5, "fits");
#endif
  REACH();
}
#endif

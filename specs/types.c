/* X07: sizes of types and layout of structs and unions.
 * The type nodes of the members are opaque: g_sz[t] and g_al[t] are the size and alignment of the type node t, which the
 * contracts of type_width and type_largest_member return (each is proved against the other functions' contracts, so the
 * results compose by induction over the nesting of types). The loops over the members are closed by loop contracts. */
#include "vf.h"
#include "repo/pnut.c"
CONTRACT(void fatal_error(char *msg) __CPROVER_requires(vf_exit_ok) __CPROVER_assigns() __CPROVER_ensures(0))
#ifdef VF_CBMC
int g_sz[HEAP_SIZE], g_al[HEAP_SIZE];
#define POW2(a) ((a) == 1 || (a) == 2 || (a) == 4 || (a) == 8)
#define RW(n) (((n) + W1) & ~W1)
#define W1 (WORD_SIZE - 1)
static int up(int n, int a) { return (n + a - 1) & ~(a - 1); }     /* a is a power of two */

void H_align(void) { int r; INR(int, n, 0, 2000000000); IN(int, m); REQUIRE(POW2(m));
  r = align_to(m, n); ENSURE(r >= n && r - n < m && r % m == 0, "the least multiple not below");
  r = word_size_align(n); ENSURE(r >= n && r - n < WORD_SIZE && r % WORD_SIZE == 0, "the least multiple of the word size not below"); REACH(); }

int g_T, g_E, g_ES;     /* type under test; its element type; size of the struct type g_T */
#ifdef VF_OB_width
CONTRACT(int type_width(ast type, bool array_value, bool word_align)
  __CPROVER_requires(type == g_T || type == g_E && array_value && !word_align)
  __CPROVER_assigns(struct_union_size_largest_member)
  __CPROVER_ensures(type == g_E ? __CPROVER_return_value == g_ES : 1))
CONTRACT(int struct_union_size(ast type) __CPROVER_requires(type == g_T) __CPROVER_assigns(struct_union_size_largest_member) __CPROVER_ensures(__CPROVER_return_value == g_ES))
#ifndef OPC
#define OPC '['
#endif
void H_width(void) { int r, w; IN(int, av); IN(int, wa); INR(int, es, 0, 10000); INR(int, n, 0, 10000); INR(int, spec, 0, 1);
  REQUIRE((av == 0 || av == 1) && (wa == 0 || wa == 1));
  heap_alloc = 10;
#ifdef ES
  REQUIRE(es == ES);
#endif
  g_ES = es; g_E = new_ast0(INT_KW, 0);
  if (OPC == '[') { g_T = new_ast2('[', g_E, n); w = av ? n * es : WORD_SIZE; }
  else if (OPC == '*') { g_T = new_ast2('*', 0, g_E); w = WORD_SIZE; }
  else if (OPC == STRUCT_KW || OPC == UNION_KW) { g_T = new_ast3(OPC, 0, 0, 0); w = es; }
  else if (OPC == ENUM_KW) { g_T = new_ast3(OPC, 0, 0, 0); w = WORD_SIZE; }
  else { g_T = new_ast0(OPC, spec ? MK_TYPE_SPECIFIER(UNSIGNED_KW) : 0); w = OPC == CHAR_KW || OPC == VOID_KW ? 1 : OPC == SHORT_KW ? 2 : OPC == INT_KW ? 4 : 8; }
  r = type_width(g_T, av, wa);
  ENSURE(r == (wa ? RW(w) : w), "size of the type");
  REACH(); }
#endif
#ifdef VF_OB_largest
/* alignment: that of the element type of an array, of the widest member of a struct, else the size */
CONTRACT(int type_largest_member(ast type)
  __CPROVER_requires(type == g_T || type == g_E) __CPROVER_assigns(struct_union_size_largest_member)
  __CPROVER_ensures(type == g_E ? __CPROVER_return_value == g_ES : 1))
CONTRACT(int struct_union_size(ast type) __CPROVER_requires(type == g_T) __CPROVER_assigns(struct_union_size_largest_member) __CPROVER_ensures(struct_union_size_largest_member == g_ES))
CONTRACT(int type_width(ast type, bool array_value, bool word_align) __CPROVER_requires(type == g_T && !word_align) __CPROVER_assigns(struct_union_size_largest_member) __CPROVER_ensures(__CPROVER_return_value == g_ES))
void H_largest(void) { int r; INR(int, es, 0, 10000); INR(int, n, 0, 10000);
  heap_alloc = 10; g_ES = es; g_E = new_ast0(INT_KW, 0);
  g_T = OPC == '[' ? new_ast2('[', g_E, n) : OPC == '*' ? new_ast2('*', 0, g_E) : OPC == STRUCT_KW || OPC == UNION_KW ? new_ast3(OPC, 0, 0, 0) : new_ast0(OPC, 0);
  r = type_largest_member(g_T);
  ENSURE(r == es, "alignment of the type");
  REACH(); }
#endif

#if defined(VF_OB_size) || defined(VF_OB_offset)
CONTRACT(int type_width(ast type, bool array_value, bool word_align)
  __CPROVER_requires(array_value && !word_align && type > 0 && type < HEAP_SIZE) __CPROVER_assigns(struct_union_size_largest_member) __CPROVER_ensures(__CPROVER_return_value == g_sz[type]))
CONTRACT(int type_largest_member(ast type)
  __CPROVER_requires(type > 0 && type < HEAP_SIZE) __CPROVER_assigns(struct_union_size_largest_member) __CPROVER_ensures(__CPROVER_return_value == g_al[type]))
CONTRACT(ast canonicalize_type(ast type) __CPROVER_requires(type == g_T) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == g_E))
CONTRACT(int align_to(int mul, int n) __CPROVER_requires(n >= 0 && POW2(mul)) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == up(n, mul)))
/* what the members before the cell c amount to: end of the last one, largest size, largest alignment; [0] is for the whole list */
int g_end[HEAP_SIZE], g_max[HEAP_SIZE], g_la[HEAP_SIZE];
#define NC 4
int g_cell[NC];      /* list cells; their tails are arbitrary (only adjacent cells matter to the induction), or in a bounded check the next cell or none */
#define DECLN(c) heap[(c) + 1]
#define NEXTC(c) heap[(c) + 2]
#define TYP(c) heap[DECLN(c) + 2]
#define NAME(c) heap[DECLN(c) + 1]
#define LIM 4000000
#define ISCELL(c) ((c) == g_cell[0] || (c) == g_cell[1] || (c) == g_cell[2] || (c) == g_cell[3])
static int mx(int a, int b) { return a > b ? a : b; }
static int start_of(int c) { return up(g_end[c], g_al[TYP(c)]); }
static void build(void) { int i; heap_alloc = 10;
  for (i = 0; i < NC; i += 1) { int nm, id, nx, c; __CPROVER_assume(nm == 0 || nm == 1);
    c = cons(new_ast3(DECL, new_ast0(IDENTIFIER, id), new_ast0(INT_KW, 0), 0), 0); g_cell[i] = c;
    if (nm) NAME(c) = 0; }
  for (i = 0; i < NC; i += 1) { int c = g_cell[i], nx;
#ifdef ACYCLIC
    __CPROVER_assume(nx == 0 || i < NC - 1 && nx == g_cell[i + 1]);
#else
    __CPROVER_assume(nx == 0 || ISCELL(nx));
#endif
    NEXTC(c) = nx; } }
static void chain(void) { int i;
  for (i = 0; i < NC; i += 1) { int c = g_cell[i], t = TYP(c), n = NEXTC(c), st;
    __CPROVER_assume(g_sz[t] > 0 && g_sz[t] < 1000000 && POW2(g_al[t]) && g_end[c] >= 0 && g_end[c] < LIM && g_end[n] < LIM && (g_la[c] == 0 || POW2(g_la[c])));
    st = start_of(c);
    __CPROVER_assume(g_end[n] == st + g_sz[t] && g_max[n] == mx(g_max[c], g_sz[t]) && g_la[n] == mx(g_la[c], g_al[t])); } }
int g_isstruct;   /* for the loop contracts */
#ifdef ACYCLIC
#define BUILD() build(); list = g_cell[0]; d = new_ast3(k, 0, 0, list); t = new_ast3(k, 0, 0, 0); g_T = t; g_E = d;
#else
#define BUILD() build(); REQUIRE(ISCELL(list)); d = new_ast3(k, 0, 0, list); t = new_ast3(k, 0, 0, 0); g_T = t; g_E = d;
#endif
#endif
#ifdef VF_OB_size
void H_size(void) { int r, k, t, d; IN(int, list); INR(int, u, 0, 1);
  k = u ? UNION_KW : STRUCT_KW; g_isstruct = !u;
  BUILD() chain();
  REQUIRE(g_end[list] == 0 && g_max[list] == 0 && g_la[list] == 0);
  r = struct_union_size(t);
  ENSURE(r == up(u ? g_max[0] : g_end[0], g_la[0]), "size of the struct or union");
  ENSURE(struct_union_size_largest_member == g_la[0], "alignment of the struct or union");
  REACH(); }
#endif
#ifdef VF_OB_offset
/* g_res[c]: the offset the search finds from the cell c on */
int g_res[HEAP_SIZE], g_sub[HEAP_SIZE], g_m;
CONTRACT(int struct_member_offset_go(ast struct_type, ast member_ident)
  __CPROVER_requires(struct_type > 0 && struct_type < HEAP_SIZE && member_ident == g_m) __CPROVER_assigns(struct_union_size_largest_member)
  __CPROVER_ensures(struct_type == g_T ? 1 : __CPROVER_return_value == g_sub[struct_type]))
void H_offset(void) { int r, k, c, i, t, d, m; IN(int, list); INR(int, u, 0, 1); IN(int, id);
  k = u ? UNION_KW : STRUCT_KW; g_isstruct = !u;
  BUILD() chain();
  m = new_ast0(IDENTIFIER, id); g_m = m;
  REQUIRE(g_end[list] == 0 && g_res[0] == -1);
  for (i = 0; i < NC; i += 1) { c = g_cell[i];
    REQUIRE(g_sub[TYP(c)] >= -1 && g_sub[TYP(c)] < 1000000);
    REQUIRE(g_res[c] == (NAME(c) == 0 && g_sub[TYP(c)] != -1 ? (u ? 0 : start_of(c)) + g_sub[TYP(c)] : NAME(c) != 0 && heap[NAME(c) + 1] == id ? (u ? 0 : start_of(c)) : g_res[NEXTC(c)])); }
  r = struct_member_offset_go(t, m);
  ENSURE(r == g_res[list], "offset of the member");
  REACH(); }
#endif
#endif

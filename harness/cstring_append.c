// cstring: content, length and comparison after any sequence of appends; memory freed; copies by value stay valid.
#include "vf.h"
#include <string.h>
#include <stdlib.h>
#include <cstring.h>
#ifndef LENS1
#define LENS1 {0, 1, 2, 3, 127, 254, 255, 256, 257}
#define LENS2 {0, 1, 2, 128, 254, 255, 256, 257}
#endif
#ifndef LENS3
#define LENS3 {0, 1, 255, 300}
#endif
#ifdef BIG   // long strings: only their ends are symbolic and compared character by character
#define MAXL (3 * BIG + 8)
#define EDGE 4
#else
#define MAXL 1300
#endif
static const int L1[] = LENS1, L2[] = LENS2, L3[] = LENS3;
#define N(a) (sizeof(a) / sizeof((a)[0]))
static char model[MAXL];
static int mlen;
static int failAt = -1;
static int nalloc;
static int failed;
int vf_hook_malloc_fails(size_t n) { (void)n; if (failAt >= 0 && nalloc++ == failAt) { failed = 1; return 1; } return 0; }
static int exits;
void vf_on_exit(int code) { exits = 1; vf_assert(failed, "the program exits although memory was available"); vf_assert(code != 0, "exit status after an allocation failure is not an error"); vf_reach("exit-after-allocation-failure"); }

static void sym_str(char *b, int len, const char *name)
{
#ifdef BIG
  memset(b, name[0], len);
  for (int i = 0; i < len; i++) {
    if (i == EDGE && len > 2 * EDGE) i = len - EDGE;
    vf_symbolic(b + i, 1, name);
    vf_assume(b[i] != 0);
  }
#else
  vf_symbolic(b, len, name);
  for (int i = 0; i < len; i++) vf_assume(b[i] != 0);
#endif
  b[len] = 0;
}
static void check(const cstring *s)
{
  vf_assert((int)cstring_length(s) == mlen, "length differs from the length of everything appended");
  const char *p = cstring_c_str(s);
#ifdef BIG
  static const int ends[] = {0, 255, 256, BIG, BIG + 255, 2 * BIG, 3 * BIG};
  for (unsigned k = 0; k < N(ends); k++)
    for (int i = ends[k] > 6 ? ends[k] - 6 : 0; i < ends[k] + 6 && i < mlen; i++) vf_assert(p[i] == model[i], "content differs from the concatenation of everything appended");
  for (int i = 0; i < mlen; i += 509) vf_assert(p[i] == model[i], "content differs from the concatenation of everything appended");
#else
  for (int i = 0; i < mlen; i++) vf_assert(p[i] == model[i], "content differs from the concatenation of everything appended");
#endif
  vf_assert(p[mlen] == 0, "content is not terminated after the last appended character");
  vf_assert(cstring_compare_const_char(s, model) == 0, "comparison with an equal string is not zero");
}
static void app(cstring *s, const char *b, int n)
{
  cstring_append(s, b);
  vf_assert(!failed, "an append returns normally although its allocation failed");
  memcpy(model + mlen, b, n);
  mlen += n;
  model[mlen] = 0;
}
void vf_main(void)
{
  #ifdef BIG
  static char a[BIG + 1], b[BIG + 1], c[BIG + 1];
#else
  static char a[400], b[400], c[400];
#endif
#ifdef FAILING
  failAt = (int)vf_choice(4, "failing_allocation");
#endif
  size_t live = vf_heap_live();
  int viaInit = (int)vf_choice(2, "via_init");
  int n1 = L1[vf_choice(N(L1), "len1")], n2 = L2[vf_choice(N(L2), "len2")], n3 = L3[vf_choice(N(L3), "len3")];
  sym_str(a, n1, "a"); sym_str(b, n2, "b"); sym_str(c, n3, "c");
  cstring s;
  if (viaInit) { s = cstring_new_init(a); vf_assert(!failed, "creation returns normally although its allocation failed"); memcpy(model, a, n1); mlen = n1; model[mlen] = 0; }
  else { s = cstring_new(); vf_assert(cstring_length(&s) == 0, "a new string is not empty"); app(&s, a, n1); }
  check(&s);
  app(&s, b, n2);
  check(&s);
  cstring t = s;   // handed over by value, as the generated mocks do
  memset(&s, 0x5a, sizeof s);
  check(&t);
  app(&t, c, n3);
  check(&t);
  if (mlen > 600) vf_reach("long");
  if (mlen == 255) vf_reach("255");
  if (mlen == 256) vf_reach("256");
  cstring_free(&t);
  vf_assert(vf_heap_live() == live, "memory is still allocated after the string was freed");
  cstring_free(&t);  // freeing twice is harmless
}

// cstring comparison has the sign of the byte-wise comparison, whichever representation the strings have.
#include "vf.h"
#include <cstring.h>
#ifndef K
#define K 4
#endif
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int ref(const char *x, const char *y)
{
  for (int i = 0;; i++) {
    unsigned char p = (unsigned char)x[i], q = (unsigned char)y[i];
    if (p != q) return p < q ? -1 : 1;
    if (!p) return 0;
  }
}
void vf_main(void)
{
  static char a[K + 260], b[K + 260];
  unsigned pre = vf_choice(2, "long_prefix") ? 254 : 0;
  for (unsigned i = 0; i < pre; i++) a[i] = b[i] = 'p';
  vf_symbolic(a + pre, K, "a");
  vf_symbolic(b + pre, K, "b");
  a[pre + K] = b[pre + K] = 0;
  cstring x = cstring_new_init(a), y = cstring_new_init(b);
  int r = sgn(cstring_compare_const_cstring(&x, &y));
  int e = ref(a, b);
  vf_assert(r == e, "comparison of two strings has the wrong sign");
  vf_assert(sgn(cstring_compare_const_char(&x, b)) == e, "comparison with a character array has the wrong sign");
  vf_assert(sgn(cstring_compare_const_cstring(&y, &x)) == -e, "comparison is not antisymmetric");
  if (e < 0) vf_reach("less");
  if (e > 0) vf_reach("greater");
  if (e == 0) vf_reach("equal");
  cstring_free(&x);
  cstring_free(&y);
}

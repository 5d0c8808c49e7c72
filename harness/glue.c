// The C-library glue: copies exactly n bytes, and formats exactly as the C library does, never past the given size.
#include "vf.h"
#include <string.h>
#include <stdio.h>
#include <easyMock_glueStdlib.h>
void vf_main(void)
{
#ifdef BIG
  static unsigned char src[BIG], dst[BIG + 32], old[BIG + 32];
  unsigned n = (unsigned[]){BIG - 8, 65536, 65535, 4096}[vf_choice(4, "size")];
  unsigned char c[24];
  vf_symbolic(c, 24, "character");
  for (unsigned i = 0; i < BIG; i++) src[i] = i < 8 ? c[i] : i + 8 >= n && i < n ? c[i + 16 - n] : (unsigned char)(i * 7);
  vf_symbolic(old, 16, "destination");
  vf_symbolic(old + n, 32, "destination");
  memcpy(dst, old, BIG + 32);
  vf_assert(easyMock_memcpy(dst + 8, src, n) == dst + 8, "the copy does not return its destination");
  for (unsigned i = 0; i < BIG + 32; i++) {
    if (i == 40) i = n - 40;
    vf_assert(dst[i] == (i >= 8 && i < 8 + n ? src[i - 8] : old[i]), "the copy writes something else than the requested bytes");
  }
  vf_reach("copy");
#else
  if (vf_choice(2, "what")) {
    static unsigned char src[600], dst[640], old[640];
    unsigned n = (unsigned[]){0, 1, 7, 8, 9, 255, 256, 513}[vf_choice(8, "size")];
    vf_symbolic(src, 600, "source");
    vf_symbolic(old, 640, "destination");
    memcpy(dst, old, 640);
    vf_assert(easyMock_memcpy(dst + 8, src, n) == dst + 8, "the copy does not return its destination");
    for (unsigned i = 0; i < 640; i++) vf_assert(dst[i] == (i >= 8 && i < 8 + n ? src[i - 8] : old[i]), "the copy writes something else than the requested bytes");
    vf_reach("copy");
  } else {
    static char a[400], b[400], s[16];
    int l = (int)vf_choice(6, "string_length");
    vf_symbolic(s, l, "string");
    for (int i = 0; i < l; i++) vf_assume(s[i] != 0);
    s[l] = 0;
    unsigned size = (unsigned[]){0, 1, 2, 5, 40, 300}[vf_choice(6, "size")];
    int x = (int)vf_choice(3, "number") - 1;
    memset(a, 0x33, sizeof a); memset(b, 0x33, sizeof b);
    vf_exact_format(1);
    int i = vf_int("i");
    int r1, r2;
    switch (vf_choice(3, "format")) {
      case 0: r1 = easyMock_snprintf(a, size, "'%s' %d %c", s, i, 'z'); r2 = snprintf(b, size, "'%s' %d %c", s, i, 'z'); break;
      case 1: r1 = easyMock_snprintf(a, size, "%d %s %lf %Lf %d %d %d %d %s", x, s, 1.5, 2.5L, 1, 2, 3, 4, "end"); r2 = snprintf(b, size, "%d %s %lf %Lf %d %d %d %d %s", x, s, 1.5, 2.5L, 1, 2, 3, 4, "end"); break;
      default: r1 = easyMock_snprintf(a, size, "%s%s", s, "0123456789012345678901234567890123456789"); r2 = snprintf(b, size, "%s%s", s, "0123456789012345678901234567890123456789"); break;
    }
    vf_assert(r1 == r2, "formatting returns another length than the C library's");
    for (unsigned k = 0; k < sizeof a; k++) vf_assert(a[k] == b[k], "formatting writes something else than the C library's");
    vf_reach("format");
  }
#endif
}

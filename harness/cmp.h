// Generated comparators.  VALUES = 0: both objects arbitrary, verdict and the field named; VALUES = 1: one field differs,
// the message shows its two values.
#ifndef CMP_H
#define CMP_H
#include "vf.h"
#include <string.h>
#include <stdio.h>
#include <easyMock.h>
#ifndef VALUES
#define VALUES 0
#endif
struct leaf { const char *suffix, *field; int idx; };
static char buf[EASYMOCK_MAX_CMP_ERR + 64], ref[400], name[400];
static int deref, found, longname;
#define DEREF_(n) cmp_deref_ptr_##n
#define DEREF(n) DEREF_(n)
static int begin(int leaves)
{
  memset(buf, 0x5a, sizeof buf);
  found = 0;
  if (VALUES) {
    vf_exact_format(1);
    strcpy(name, "abc");
    return (int)vf_choice((unsigned)leaves, "field");
  }
  deref = (int)vf_choice(2, "through_pointer");
  longname = (int)vf_choice(2, "long_name");
  memset(name, 'n', 300);
  name[longname ? 300 : 3] = 0;
  return -1;
}
#define GARBAGE(v) vf_symbolic((void *)&(v), sizeof(v), #v)
// values which are valid for their type only
#define BOOL(v) (*(unsigned char *)&(v) = (unsigned char)vf_range(2, "bool"))
#define LD(v) symLD((void *)&(v))
static void symLD(unsigned char *p)
{
  memset(p, 0, 16);
  vf_symbolic(p, 10, "long double");
  unsigned ex = (p[8] | (p[9] << 8)) & 0x7fff;
  vf_assume((p[7] >> 7) == (ex != 0));
}
#ifdef NARROW
#define WIDTH(v) 1
#else
#define WIDTH(v) sizeof(v)
#endif
// one of the two is arbitrary, the other one of a few
#define ONE_VAL(a, e, f) do { char z_ = (char)(vf_choice(2, "fixed") ? 0xff : f[0] == 'c' ? 'x' : 1); int s_ = (int)vf_choice(2, "side"); \
    memset((void *)(s_ ? &(a) : &(e)), z_, sizeof(a)); memset((void *)(s_ ? &(e) : &(a)), 0, sizeof(a)); vf_symbolic((void *)(s_ ? &(e) : &(a)), WIDTH(a), "value"); if (f[0] == 'c') vf_assume((a) != 0 && (e) != 0); } while (0)
#define ONE_BF(a, e, f) do { unsigned long v_; vf_symbolic(&v_, sizeof v_, "value"); a = v_; e = vf_choice(2, "fixed") ? -1 : 1; if (f[0] == 'c') vf_assume((a) != 0); } while (0)
#define ONE_BOOL(a, e, f) do { BOOL(a); BOOL(e); } while (0)
#define ONE_LD(a, e, f) do { LD(a); LD(e); } while (0)
#define ONE_FLT(a, e, f) do { a = vf_choice(2, "value") ? 1.5f : -1e30f; e = vf_choice(2, "value") ? -0.25f : 1e20f; } while (0)
#define TEXT(isFloat) VALUES
// does the message talk about this field of this parameter?
static int named(const struct leaf *l)
{
  char want[500];
  int n = sprintf(want, "Parameter '%s%s'", name, l->suffix);
  if (n > 255) n = 255;
  if (memcmp(buf, want, (size_t)n)) return 0;
  if (longname) return 1;
  sprintf(want, l->idx < 0 ? "'%s'" : "'%s[idx]'", l->field);
  const char *p = strstr(buf + n, " field ");
  p = p ? strchr(p, '\'') : 0;
  if (!p || strncmp(p, want, strlen(want))) return 0;
  if (l->idx < 0) return 1;
  sprintf(want, "idx == %d ", l->idx);
  return strstr(p, want) != 0;
}
static int anyNamed, anyDiffers;
static int verdict(int r, const unsigned char *d, int n)
{
  int diff = 0, i;
  for (i = 0; i < n; i++) diff |= d[i];
  vf_assert((r != 0) == diff, "a generated comparator does not accept exactly the objects whose fields are all equal");
  for (i = EASYMOCK_MAX_CMP_ERR; i < (int)sizeof buf; i++) vf_assert(buf[i] == 0x5a, "the message overruns its 256-byte buffer");
  anyNamed = anyDiffers = 0;
  if (!r) {
    for (i = 0; i < EASYMOCK_MAX_CMP_ERR; i++) vf_assert(buf[i] == 0x5a, "a generated comparator that accepts writes a message");
    vf_reach("accepted");
    return 0;
  }
  vf_reach("rejected");
  for (i = 0; i < EASYMOCK_MAX_CMP_ERR && buf[i]; i++) ;
  vf_assert(i < EASYMOCK_MAX_CMP_ERR, "the message of a rejection is not terminated");
  return 1;
}
// the message names a field with this difference; n: length of the text of its values, if looked at
static void shows(int differs, int n)
{
  anyNamed = 1;
  anyDiffers |= differs;
  if (n) {
    int bl = (int)strlen(buf), diff = 0;
    vf_assert(bl >= n, "the message does not show the actual and the expected value of the field");
    for (int i = 0; i < n; i++) diff |= buf[bl - n + i] ^ ref[i];
    vf_assert(!diff, "the message does not show the actual and the expected value of the field");
    vf_reach("shown");
  }
}
static void shown(void)
{
  vf_assert(anyNamed, "the message of a rejection names no field of the parameter");
  vf_assert(anyDiffers, "the message of a rejection names a field which does not differ");
}
#endif

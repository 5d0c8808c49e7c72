// Built-in comparators: accept exactly the equal values; a rejection message is terminated, within 256 bytes, names the
// parameter and shows both values; an acceptance leaves the buffer alone.
// PROPMASK: 1 = verdict, 2 = message.  GROUP selects the types.
#include "vf.h"
#include <string.h>
#include <stdio.h>
#include <easyMock.h>
int cmp_deref_ptr_char(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_u_char(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_short(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_u_short(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_int(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_u_int(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_long(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_u_long(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_long_long(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_u_long_long(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_float(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_double(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_long_double(EASYMOCK_MATCHER_PARAM), cmp_deref_ptr_pointer(EASYMOCK_MATCHER_PARAM);
#define PA(m, c, msg) do { if (PROPMASK & (m)) vf_assert(c, msg); } while (0)
static char buf[EASYMOCK_MAX_CMP_ERR + 64], ref[6000], name[320];
#ifdef SHORTNAME
#define NAMES {3}
#else
#define NAMES {0, 1, 4, 254, 300}
#endif
static const int NL[] = NAMES;

typedef void *voidp;
static void setup(void)
{
  memset(buf, 0x5a, sizeof buf);
  int n = NL[vf_choice(sizeof NL / sizeof NL[0], "name_length")];
#ifdef SHORTNAME
  strcpy(name, "abc");
#else
  vf_symbolic(name, n, "name");
  for (int i = 0; i < n; i++) vf_assume(name[i] != 0);
  name[n] = 0;
#endif
}
static void canary(void) { for (unsigned i = EASYMOCK_MAX_CMP_ERR; i < sizeof buf; i++) PA(2, buf[i] == 0x5a, "the message overruns its 256-byte buffer"); }
static void accepted(int r)
{
  PA(1, r == 0, "a comparator rejects equal values");
  for (unsigned i = 0; i < EASYMOCK_MAX_CMP_ERR; i++) PA(2, buf[i] == 0x5a, "a comparator that accepts writes a message");
  canary();
  vf_reach("accepted");
}
static void rejected(int r, int rv)
{
  PA(1, r != 0, "a comparator accepts different values");
  if (PROPMASK & 2) {
    // ref holds the full message; the buffer holds as much of it as fits
    int i;
#ifdef BOUNDS
    for (i = 0; i < EASYMOCK_MAX_CMP_ERR && buf[i]; i++) ;
    vf_assert(i < EASYMOCK_MAX_CMP_ERR, "the message of a rejection is not terminated");
    int nl = (int)strlen(name);
    for (int k = 0; k < 11 + nl && k < EASYMOCK_MAX_CMP_ERR - 1; k++) vf_assert(buf[k] == (k < 11 ? "Parameter '"[k] : name[k - 11]), "the message of a rejection does not name the parameter");
    canary();
    vf_reach("rejected");
    return;
#endif
    if (rv > EASYMOCK_MAX_CMP_ERR - 1) rv = EASYMOCK_MAX_CMP_ERR - 1;
    for (i = 0; i < rv; i++) vf_assert(buf[i] == ref[i], "the message of a rejection is not: Parameter '<name>' has value '<actual>', was expecting '<expected>'");
    vf_assert(buf[i] == 0, "the message of a rejection is not terminated, or does not show name, actual and expected value");
    canary();
  }
  vf_reach("rejected");
}
#define RUN(T, fn, dfn, fmt) do { \
    T c_, e_; T *pc_ = &c_, *pe_ = &e_; \
    GET(T, c_, "actual"); GET(T, e_, "expected"); \
    int d_ = (int)vf_choice(2, "through_pointer"); \
    int r_ = d_ ? dfn(&pc_, &pe_, name, buf) : fn(&c_, &e_, name, buf); \
    if (c_ == e_) accepted(r_); \
    else rejected(r_, snprintf(ref, sizeof ref, "Parameter '%s' has value '" fmt "', was expecting '" fmt "'", name, c_, e_)); \
  } while (0)
#define GET(T, v, n) VF_SYM(v, n)

#if GROUP == 5
#include <float.h>
static const double DV[] = {0.0, -0.0, 1.5, -1e300, DBL_MAX, DBL_MIN, 4.9e-324, __builtin_inf(), -__builtin_inf(), __builtin_nan("")};
static const float FV[] = {0.0f, -0.0f, 1.5f, -FLT_MAX, FLT_MIN, 1e-45f, __builtin_inff(), __builtin_nanf("")};
static const long double LV[] = {0.0L, -0.0L, 1.5L, -LDBL_MAX, LDBL_MIN, 1e4000L, __builtin_infl(), __builtin_nanl("")};
#define ND (sizeof DV / sizeof DV[0])
#define NF_ (sizeof FV / sizeof FV[0])
#define NLD (sizeof LV / sizeof LV[0])
#endif
#if GROUP == 4 || GROUP == 7
static void get_ld(long double *v, const char *n)
{
  unsigned char b[16] = {0};
  vf_symbolic(b, 10, n);
  unsigned ex = (b[8] | (b[9] << 8)) & 0x7fff;
  vf_assume((b[7] >> 7) == (ex != 0));     // a valid x87 encoding
  memcpy(v, b, 16);
}
#endif
#if GROUP == 6
// the value shown between two quotes, as a 128-bit number
static unsigned __int128 hexval(const char *p, int *ok)
{
  unsigned __int128 v = 0;
  *ok = p[0] == '0' && p[1] == 'x';
  int n = 0;
  if (*ok) for (p += 2; *p != '\''; p++, n++) {
    unsigned char c = (unsigned char)*p;
    unsigned d = (c & 15u) + 9u * (c >> 6);   // no branch on the digit
    if (n > 40) { *ok = 0; return 0; }
    v = (v << 4) | (d & 15);
  }
  return v;
}
#endif
void vf_main(void)
{
#ifdef SHORTNAME
  vf_exact_format(1);
#endif
  setup();
#if GROUP == 1
  switch (vf_choice(5, "type")) {
    case 0: RUN(char, cmp_char, cmp_deref_ptr_char, "%c"); break;
    case 1: RUN(unsigned char, cmp_u_char, cmp_deref_ptr_u_char, "%c"); break;
    case 2: RUN(short, cmp_short, cmp_deref_ptr_short, "%hi"); break;
    case 3: RUN(unsigned short, cmp_u_short, cmp_deref_ptr_u_short, "%hu"); break;
    case 4: RUN(int, cmp_int, cmp_deref_ptr_int, "%d"); break;
  }
#elif GROUP == 2
  switch (vf_choice(3, "type")) {
    case 0: RUN(unsigned, cmp_u_int, cmp_deref_ptr_u_int, "%u"); break;
    case 1: RUN(long, cmp_long, cmp_deref_ptr_long, "%li"); break;
    case 2: RUN(unsigned long, cmp_u_long, cmp_deref_ptr_u_long, "%lu"); break;
  }
#elif GROUP == 3
  switch (vf_choice(3, "type")) {
    case 0: RUN(long long, cmp_long_long, cmp_deref_ptr_long_long, "%lli"); break;
    case 1: RUN(unsigned long long, cmp_u_long_long, cmp_deref_ptr_u_long_long, "%llu"); break;
    case 2: RUN(voidp, cmp_pointer, cmp_deref_ptr_pointer, "%p"); break;
  }
#elif GROUP == 4
  // floating point, every bit pattern (message digits not modelled: values of group 5 only)
  switch (vf_choice(3, "type")) {
    case 0: RUN(float, cmp_float, cmp_deref_ptr_float, "%f"); break;
    case 1: RUN(double, cmp_double, cmp_deref_ptr_double, "%lf"); break;
    case 2: {
#undef GET
#define GET(T, v, n) get_ld(&v, n)
      RUN(long double, cmp_long_double, cmp_deref_ptr_long_double, "%Lf"); break;
    }
  }
#elif GROUP == 5
#undef GET
#define GET(T, v, n) v = TAB[vf_choice(TN, n)]
  switch (vf_choice(3, "type")) {
#define TAB FV
#define TN NF_
    case 0: RUN(float, cmp_float, cmp_deref_ptr_float, "%f"); break;
#undef TAB
#undef TN
#define TAB DV
#define TN ND
    case 1: RUN(double, cmp_double, cmp_deref_ptr_double, "%lf"); break;
#undef TAB
#undef TN
#define TAB LV
#define TN NLD
    case 2: RUN(long double, cmp_long_double, cmp_deref_ptr_long_double, "%Lf"); break;
  }
#elif GROUP == 6
  // 128-bit integers: the message shows the two values in hexadecimal
  {
    unsigned __int128 c, e;
    VF_SYM(c, "actual"); VF_SYM(e, "expected");
    int r = vf_choice(2, "unsigned") ? cmp_uint128(&c, &e, name, buf) : cmp_int128(&c, &e, name, buf);
    if (c == e) accepted(r);
    else {
      PA(1, r != 0, "a comparator accepts different values");
      canary();
      if (PROPMASK & 2) {
        int end = 0, ok;
        while (end < EASYMOCK_MAX_CMP_ERR && buf[end]) end++;
        vf_assert(end < EASYMOCK_MAX_CMP_ERR, "the message of a rejection is not terminated");
        const char *p = "Parameter 'abc' has value '";
        vf_assert(!strncmp(buf, p, strlen(p)), "the message of a rejection does not name the parameter");
        vf_assert(hexval(buf + strlen(p), &ok) == c && ok, "the message does not show the actual 128-bit value");
        const char *q = strstr(buf, "was expecting '");
        vf_assert(q != 0, "the message of a rejection does not show the expected value");
        vf_assert(hexval(q + 15, &ok) == e && ok, "the message does not show the expected 128-bit value");
      }
      vf_reach("rejected");
    }
  }
#elif GROUP == 8
  // 128-bit integers: verdict, and message bounds for any name
  {
    unsigned __int128 c, e;
    VF_SYM(c, "actual"); VF_SYM(e, "expected");
    int r = vf_choice(2, "unsigned") ? cmp_uint128(&c, &e, name, buf) : cmp_int128(&c, &e, name, buf);
    if (c == e) accepted(r);
    else {
      int i = 0;
      PA(1, r != 0, "a comparator accepts different values");
      while (i < EASYMOCK_MAX_CMP_ERR && buf[i]) i++;
      PA(2, i < EASYMOCK_MAX_CMP_ERR, "the message of a rejection is not terminated");
      canary();
      vf_reach("rejected");
    }
  }
#elif GROUP == 9
  // strings: two arbitrary strings, possibly after a long common prefix, possibly the same object
  {
    static char a[310], b[310];
    int pre = (int[]){0, 250, 300}[vf_choice(3, "prefix")];
    memset(a, 'p', pre); memset(b, 'p', pre);
    vf_symbolic(a + pre, K, "actual"); vf_symbolic(b + pre, K, "expected");
    a[pre + K] = b[pre + K] = 0;
    char *pa = a, *pb = vf_choice(2, "same_object") ? a : b;
    int same = 1;
    for (int i = 0;; i++) { if (pa[i] != pb[i]) { same = 0; break; } if (!pa[i]) break; }
    int r = cmp_str(&pa, &pb, name, buf);
    if (same) accepted(r);
    else rejected(r, snprintf(ref, sizeof ref, "Parameter '%s' has value '%s', was expecting '%s'", name, pa, pb));
  }
#endif
}

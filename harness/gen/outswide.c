// Written by tools/mkshapes.py.  Each mock of shapes/outswide.h with output parameters: what a call writes where.
#include "out.h"
#ifndef GENTYPES
#include "outswide.h"
#endif
#include "easyMock_outswide.h"
typedef struct big t_big;
typedef char t_c;
typedef cb_t t_cb;
typedef char *t_cc;
typedef const char *t_cstr;
typedef const void *t_cv;
typedef double t_d;
typedef enum color t_en;
typedef enum color *t_enp;
typedef int (*t_fn)(int, char);
typedef int t_i;
typedef long t_l;
typedef pair_t t_pair;
typedef struct big *t_pbig;
typedef const int *t_pci;
typedef double *t_pd;
typedef int *t_pi;
typedef long *t_pl;
typedef struct opaque *t_pop;
typedef pair_t *t_ppair;
typedef struct big **t_ppbig;
typedef char **t_ppc;
typedef void **t_ppv;
typedef short *t_psh;
typedef pu32 t_pu32;
typedef short t_s;
typedef u32 t_u32;
typedef unsigned long t_ul;
typedef void *t_v;
static void test_ow_six(void)
{
  struct { t_pi p0; t_cc p1; t_psh p2; t_pd p3; t_ppair p4; t_pl p5; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, sizeof(t_i));
  a.p0 = (void *)(dst[0] + 16); t_pi o0 = has[0] ? (void *)src[0] : 0;
  OUT(1, sizeof(t_c));
  a.p1 = (void *)(dst[1] + 16); t_cc o1 = has[1] ? (void *)src[1] : 0;
  OUT(2, sizeof(t_s));
  a.p2 = (void *)(dst[2] + 16); t_psh o2 = has[2] ? (void *)src[2] : 0;
  OUT(3, sizeof(t_d));
  a.p3 = (void *)(dst[3] + 16); t_pd o3 = has[3] ? (void *)src[3] : 0;
  OUT(4, sizeof(t_pair));
  a.p4 = (void *)(dst[4] + 16); t_ppair o4 = has[4] ? (void *)src[4] : 0;
  OUT(5, sizeof(t_l));
  a.p5 = (void *)(dst[5] + 16); t_pl o5 = has[5] ? (void *)src[5] : 0;
  if (plain) ow_six_ExpectAndReturn(e.p0, e.p1, e.p2, e.p3, e.p4, e.p5, ret, 0, 0, 0, 0, 0, 0);
  else ow_six_ExpectReturnAndOutput(e.p0, e.p1, e.p2, e.p3, e.p4, e.p5, ret, 0, 0, 0, 0, 0, 0, o0, o1, o2, o3, o4, o5);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = ow_six(a.p0, a.p1, a.p2, a.p3, a.p4, a.p5);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_ow_same(void)
{
  struct { t_pi p0; t_pi p1; t_pi p2; t_pi p3; char unused; } e = {0}, a = {0};
  OUT(0, sizeof(t_i));
  a.p0 = (void *)(dst[0] + 16); t_pi o0 = has[0] ? (void *)src[0] : 0;
  OUT(1, sizeof(t_i));
  a.p1 = (void *)(dst[1] + 16); t_pi o1 = has[1] ? (void *)src[1] : 0;
  OUT(2, sizeof(t_i));
  a.p2 = (void *)(dst[2] + 16); t_pi o2 = has[2] ? (void *)src[2] : 0;
  OUT(3, sizeof(t_i));
  a.p3 = (void *)(dst[3] + 16); t_pi o3 = has[3] ? (void *)src[3] : 0;
  if (plain) ow_same_ExpectAndReturn(e.p0, e.p1, e.p2, e.p3, 0, 0, 0, 0);
  else ow_same_ExpectReturnAndOutput(e.p0, e.p1, e.p2, e.p3, 0, 0, 0, 0, o0, o1, o2, o3);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    ow_same(a.p0, a.p1, a.p2, a.p3);
    verify(k);
  }
}
static void test_ow_td(void)
{
  struct { t_pu32 p0; t_pbig p1; t_ppair p2; t_pu32 p3; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, sizeof(t_u32));
  a.p0 = (void *)(dst[0] + 16); t_pu32 o0 = has[0] ? (void *)src[0] : 0;
  OUT(1, sizeof(t_big));
  a.p1 = (void *)(dst[1] + 16); t_pbig o1 = has[1] ? (void *)src[1] : 0;
  OUT(2, sizeof(t_pair));
  a.p2 = (void *)(dst[2] + 16); t_ppair o2 = has[2] ? (void *)src[2] : 0;
  SYM(a.p3, "actual3");
  if (plain) ow_td_ExpectAndReturn(e.p0, e.p1, e.p2, e.p3, ret, 0, 0, 0, 0);
  else ow_td_ExpectReturnAndOutput(e.p0, e.p1, e.p2, e.p3, ret, 0, 0, 0, 0, o0, o1, o2);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = ow_td(a.p0, a.p1, a.p2, a.p3);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_ow_tdvoid(void)
{
  struct { t_v p0; t_pop p1; t_pop p2; t_v p3; t_pop p4; char unused; } e = {0}, a = {0};
  t_v ret;
  SYM(ret, "ret");
  SYM(a.p0, "actual0");
  SYM(a.p1, "actual1");
  OUT(2, 0);
  a.p2 = (void *)(dst[2] + 16); t_pop o2 = has[2] ? (void *)src[2] : 0;
  OUT(3, 0);
  a.p3 = (void *)(dst[3] + 16); t_v o3 = has[3] ? (void *)src[3] : 0;
  SYM(a.p4, "actual4");
  if (plain) ow_tdvoid_ExpectAndReturn(e.p0, e.p1, e.p2, e.p3, e.p4, ret, 0, 0, 0, 0, 0);
  else ow_tdvoid_ExpectReturnAndOutput(e.p0, e.p1, e.p2, e.p3, e.p4, ret, 0, 0, 0, 0, 0, o2, len[2], o3, len[3]);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_v r = ow_tdvoid(a.p0, a.p1, a.p2, a.p3, a.p4);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_ow_union(void)
{
  struct { t_v p0; t_v p1; char unused; } e = {0}, a = {0};
  t_pop ret;
  SYM(ret, "ret");
  OUT(0, 0);
  a.p0 = (void *)(dst[0] + 16); t_v o0 = has[0] ? (void *)src[0] : 0;
  OUT(1, 0);
  a.p1 = (void *)(dst[1] + 16); t_v o1 = has[1] ? (void *)src[1] : 0;
  if (plain) ow_union_ExpectAndReturn(e.p0, e.p1, ret, 0, 0);
  else ow_union_ExpectReturnAndOutput(e.p0, e.p1, ret, 0, 0, o0, len[0], o1, len[1]);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_pop r = ow_union(a.p0, a.p1);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_ow_pph(void)
{
  struct { t_ppv p0; t_ppv p1; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, sizeof(t_v));
  a.p0 = (void *)(dst[0] + 16); t_ppv o0 = has[0] ? (void *)src[0] : 0;
  OUT(1, sizeof(t_v));
  a.p1 = (void *)(dst[1] + 16); t_ppv o1 = has[1] ? (void *)src[1] : 0;
  if (plain) ow_pph_ExpectAndReturn(e.p0, e.p1, ret, 0, 0);
  else ow_pph_ExpectReturnAndOutput(e.p0, e.p1, ret, 0, 0, o0, o1);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = ow_pph(a.p0, a.p1);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_ow_ptrs(void)
{
  struct { t_ppc p0; t_ppbig p1; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, sizeof(t_cc));
  a.p0 = (void *)(dst[0] + 16); t_ppc o0 = has[0] ? (void *)src[0] : 0;
  OUT(1, sizeof(t_pbig));
  a.p1 = (void *)(dst[1] + 16); t_ppbig o1 = has[1] ? (void *)src[1] : 0;
  if (plain) ow_ptrs_ExpectAndReturn(e.p0, e.p1, ret, 0, 0);
  else ow_ptrs_ExpectReturnAndOutput(e.p0, e.p1, ret, 0, 0, o0, o1);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = ow_ptrs(a.p0, a.p1);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_ow_ppv(void)
{
  struct { t_ppv p0; t_i p1; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, 0);
  a.p0 = (void *)(dst[0] + 16); t_ppv o0 = has[0] ? (void *)src[0] : 0;
  SYM(a.p1, "actual1");
  if (plain) ow_ppv_ExpectAndReturn(e.p0, e.p1, ret, 0, 0);
  else ow_ppv_ExpectReturnAndOutput(e.p0, e.p1, ret, 0, 0, o0, len[0]);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = ow_ppv(a.p0, a.p1);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_ow_enum(void)
{
  struct { t_v p0; t_enp p1; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, 0);
  a.p0 = (void *)(dst[0] + 16); t_v o0 = has[0] ? (void *)src[0] : 0;
  OUT(1, sizeof(t_en));
  a.p1 = (void *)(dst[1] + 16); t_enp o1 = has[1] ? (void *)src[1] : 0;
  if (plain) ow_enum_ExpectAndReturn(e.p0, e.p1, ret, 0, 0);
  else ow_enum_ExpectReturnAndOutput(e.p0, e.p1, ret, 0, 0, o0, len[0], o1);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = ow_enum(a.p0, a.p1);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_ow_const(void)
{
  struct { t_pi p0; t_pci p1; t_v p2; t_cv p3; char unused; } e = {0}, a = {0};
  t_cstr ret;
  SYM(ret, "ret");
  OUT(0, sizeof(t_i));
  a.p0 = (void *)(dst[0] + 16); t_pi o0 = has[0] ? (void *)src[0] : 0;
  SYM(a.p1, "actual1");
  OUT(2, 0);
  a.p2 = (void *)(dst[2] + 16); t_v o2 = has[2] ? (void *)src[2] : 0;
  SYM(a.p3, "actual3");
  if (plain) ow_const_ExpectAndReturn(e.p0, e.p1, e.p2, e.p3, ret, 0, 0, 0, 0);
  else ow_const_ExpectReturnAndOutput(e.p0, e.p1, e.p2, e.p3, ret, 0, 0, 0, 0, o0, o2, len[2]);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_cstr r = ow_const(a.p0, a.p1, a.p2, a.p3);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_ow_names(void)
{
  struct { t_pi p0; t_pi p1; t_cc p2; t_pl p3; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, sizeof(t_i));
  a.p0 = (void *)(dst[0] + 16); t_pi o0 = has[0] ? (void *)src[0] : 0;
  OUT(1, sizeof(t_i));
  a.p1 = (void *)(dst[1] + 16); t_pi o1 = has[1] ? (void *)src[1] : 0;
  OUT(2, sizeof(t_c));
  a.p2 = (void *)(dst[2] + 16); t_cc o2 = has[2] ? (void *)src[2] : 0;
  OUT(3, sizeof(t_l));
  a.p3 = (void *)(dst[3] + 16); t_pl o3 = has[3] ? (void *)src[3] : 0;
  if (plain) ow_names_ExpectAndReturn(e.p0, e.p1, e.p2, e.p3, ret, 0, 0, 0, 0);
  else ow_names_ExpectReturnAndOutput(e.p0, e.p1, e.p2, e.p3, ret, 0, 0, 0, 0, o0, o1, o2, o3);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = ow_names(a.p0, a.p1, a.p2, a.p3);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_ow_var(void)
{
  struct { t_pi p0; t_cstr p1; t_ppair p2; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, sizeof(t_i));
  a.p0 = (void *)(dst[0] + 16); t_pi o0 = has[0] ? (void *)src[0] : 0;
  SYM(a.p1, "actual1");
  OUT(2, sizeof(t_pair));
  a.p2 = (void *)(dst[2] + 16); t_ppair o2 = has[2] ? (void *)src[2] : 0;
  if (plain) ow_var_ExpectAndReturn(e.p0, e.p1, e.p2, ret, 0, 0, 0);
  else ow_var_ExpectReturnAndOutput(e.p0, e.p1, e.p2, ret, 0, 0, 0, o0, o2);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = ow_var(a.p0, a.p1, a.p2);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_ow_restrict(void)
{
  struct { t_v p0; t_cc p1; t_ul p2; char unused; } e = {0}, a = {0};
  t_v ret;
  SYM(ret, "ret");
  OUT(0, 0);
  a.p0 = (void *)(dst[0] + 16); t_v o0 = has[0] ? (void *)src[0] : 0;
  OUT(1, sizeof(t_c));
  a.p1 = (void *)(dst[1] + 16); t_cc o1 = has[1] ? (void *)src[1] : 0;
  SYM(a.p2, "actual2");
  if (plain) ow_restrict_ExpectAndReturn(e.p0, e.p1, e.p2, ret, 0, 0, 0);
  else ow_restrict_ExpectReturnAndOutput(e.p0, e.p1, e.p2, ret, 0, 0, 0, o0, len[0], o1);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_v r = ow_restrict(a.p0, a.p1, a.p2);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_ow_cb(void)
{
  struct { t_cb p0; t_fn p1; t_pi p2; char unused; } e = {0}, a = {0};
  t_cb ret;
  SYM(ret, "ret");
  SYM(a.p0, "actual0");
  SYM(a.p1, "actual1");
  OUT(2, sizeof(t_i));
  a.p2 = (void *)(dst[2] + 16); t_pi o2 = has[2] ? (void *)src[2] : 0;
  if (plain) ow_cb_ExpectAndReturn(e.p0, e.p1, e.p2, ret, 0, 0, 0);
  else ow_cb_ExpectReturnAndOutput(e.p0, e.p1, e.p2, ret, 0, 0, 0, o2);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_cb r = ow_cb(a.p0, a.p1, a.p2);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
void vf_main(void)
{
  start();
  switch (vf_choice(14, "function")) {
    case 0: test_ow_six(); break;
    case 1: test_ow_same(); break;
    case 2: test_ow_td(); break;
    case 3: test_ow_tdvoid(); break;
    case 4: test_ow_union(); break;
    case 5: test_ow_pph(); break;
    case 6: test_ow_ptrs(); break;
    case 7: test_ow_ppv(); break;
    case 8: test_ow_enum(); break;
    case 9: test_ow_const(); break;
    case 10: test_ow_names(); break;
    case 11: test_ow_var(); break;
    case 12: test_ow_restrict(); break;
    case 13: test_ow_cb(); break;
  }
}

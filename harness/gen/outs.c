// Written by tools/mkshapes.py.  Each mock of shapes/outs.h with output parameters: what a call writes where.
#include "out.h"
#ifndef GENTYPES
#include "outs.h"
#endif
#include "easyMock_outs.h"
typedef _Bool t_b;
typedef struct big t_big;
typedef char t_c;
typedef char *t_cc;
typedef const void *t_cv;
typedef double t_d;
typedef enum color t_en;
typedef enum color *t_enp;
typedef struct fw t_fwt;
typedef int t_i;
typedef long t_l;
typedef pair_t t_pair;
typedef _Bool *t_pb;
typedef struct big *t_pbig;
typedef const int *t_pci;
typedef double *t_pd;
typedef struct fw *t_pfw;
typedef int *t_pi;
typedef long *t_pl;
typedef struct opaque *t_pop;
typedef pair_t *t_ppair;
typedef int **t_ppi;
typedef short *t_psh;
typedef union un *t_pun;
typedef short t_s;
typedef union un t_un;
typedef void *t_v;
static int eq_pair(const pair_t *x, const pair_t *y) { return (x->a == y->a) & (x->b == y->b); }
static void test_o_int(void)
{
  struct { t_pi p0; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, sizeof(t_i));
  a.p0 = (void *)(dst[0] + 16); t_pi o0 = has[0] ? (void *)src[0] : 0;
  if (plain) o_int_ExpectAndReturn(e.p0, ret, 0);
  else o_int_ExpectReturnAndOutput(e.p0, ret, 0, o0);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = o_int(a.p0);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_o_two(void)
{
  struct { t_pi p0; t_pd p1; char unused; } e = {0}, a = {0};
  OUT(0, sizeof(t_i));
  a.p0 = (void *)(dst[0] + 16); t_pi o0 = has[0] ? (void *)src[0] : 0;
  OUT(1, sizeof(t_d));
  a.p1 = (void *)(dst[1] + 16); t_pd o1 = has[1] ? (void *)src[1] : 0;
  if (plain) o_two_ExpectAndReturn(e.p0, e.p1, 0, 0);
  else o_two_ExpectReturnAndOutput(e.p0, e.p1, 0, 0, o0, o1);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    o_two(a.p0, a.p1);
    verify(k);
  }
}
static void test_o_big(void)
{
  struct { t_i p0; t_pbig p1; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  SYM(a.p0, "actual0");
  OUT(1, sizeof(t_big));
  a.p1 = (void *)(dst[1] + 16); t_pbig o1 = has[1] ? (void *)src[1] : 0;
  if (plain) o_big_ExpectAndReturn(e.p0, e.p1, ret, 0, 0);
  else o_big_ExpectReturnAndOutput(e.p0, e.p1, ret, 0, 0, o1);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = o_big(a.p0, a.p1);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_o_pair(void)
{
  struct { t_ppair p0; char unused; } e = {0}, a = {0};
  t_pair ret;
  SYM(ret, "ret");
  OUT(0, sizeof(t_pair));
  a.p0 = (void *)(dst[0] + 16); t_ppair o0 = has[0] ? (void *)src[0] : 0;
  if (plain) o_pair_ExpectAndReturn(e.p0, ret, 0);
  else o_pair_ExpectReturnAndOutput(e.p0, ret, 0, o0);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_pair r = o_pair(a.p0);
    if (!k) vf_assert(eq_pair(&r, &ret), "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_o_void(void)
{
  struct { t_v p0; t_i p1; char unused; } e = {0}, a = {0};
  OUT(0, 0);
  a.p0 = (void *)(dst[0] + 16); t_v o0 = has[0] ? (void *)src[0] : 0;
  SYM(a.p1, "actual1");
  if (plain) o_void_ExpectAndReturn(e.p0, e.p1, 0, 0);
  else o_void_ExpectReturnAndOutput(e.p0, e.p1, 0, 0, o0, len[0]);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    o_void(a.p0, a.p1);
    verify(k);
  }
}
static void test_o_two_void(void)
{
  struct { t_v p0; t_v p1; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, 0);
  a.p0 = (void *)(dst[0] + 16); t_v o0 = has[0] ? (void *)src[0] : 0;
  OUT(1, 0);
  a.p1 = (void *)(dst[1] + 16); t_v o1 = has[1] ? (void *)src[1] : 0;
  if (plain) o_two_void_ExpectAndReturn(e.p0, e.p1, ret, 0, 0);
  else o_two_void_ExpectReturnAndOutput(e.p0, e.p1, ret, 0, 0, o0, len[0], o1, len[1]);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = o_two_void(a.p0, a.p1);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_o_pp(void)
{
  struct { t_ppi p0; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, sizeof(t_pi));
  a.p0 = (void *)(dst[0] + 16); t_ppi o0 = has[0] ? (void *)src[0] : 0;
  if (plain) o_pp_ExpectAndReturn(e.p0, ret, 0);
  else o_pp_ExpectReturnAndOutput(e.p0, ret, 0, o0);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = o_pp(a.p0);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_o_un(void)
{
  struct { t_pun p0; char unused; } e = {0}, a = {0};
  OUT(0, sizeof(t_un));
  a.p0 = (void *)(dst[0] + 16); t_pun o0 = has[0] ? (void *)src[0] : 0;
  if (plain) o_un_ExpectAndReturn(e.p0, 0);
  else o_un_ExpectReturnAndOutput(e.p0, 0, o0);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    o_un(a.p0);
    verify(k);
  }
}
static void test_o_arr(void)
{
  struct { t_pi p0; t_cc p1; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, sizeof(t_i));
  a.p0 = (void *)(dst[0] + 16); t_pi o0 = has[0] ? (void *)src[0] : 0;
  OUT(1, sizeof(t_c));
  a.p1 = (void *)(dst[1] + 16); t_cc o1 = has[1] ? (void *)src[1] : 0;
  if (plain) o_arr_ExpectAndReturn(e.p0, e.p1, ret, 0, 0);
  else o_arr_ExpectReturnAndOutput(e.p0, e.p1, ret, 0, 0, o0, o1);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = o_arr(a.p0, a.p1);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_o_en(void)
{
  struct { t_enp p0; char unused; } e = {0}, a = {0};
  t_en ret;
  SYM(ret, "ret");
  OUT(0, sizeof(t_en));
  a.p0 = (void *)(dst[0] + 16); t_enp o0 = has[0] ? (void *)src[0] : 0;
  if (plain) o_en_ExpectAndReturn(e.p0, ret, 0);
  else o_en_ExpectReturnAndOutput(e.p0, ret, 0, o0);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_en r = o_en(a.p0);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_o_b(void)
{
  struct { t_pb p0; char unused; } e = {0}, a = {0};
  t_b ret;
  SYMB(ret, "ret");
  OUT(0, sizeof(t_b));
  a.p0 = (void *)(dst[0] + 16); t_pb o0 = has[0] ? (void *)src[0] : 0;
  if (plain) o_b_ExpectAndReturn(e.p0, ret, 0);
  else o_b_ExpectReturnAndOutput(e.p0, ret, 0, o0);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_b r = o_b(a.p0);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_o_mixed(void)
{
  struct { t_pci p0; t_psh p1; t_cv p2; t_pl p3; char unused; } e = {0}, a = {0};
  t_l ret;
  SYM(ret, "ret");
  SYM(a.p0, "actual0");
  OUT(1, sizeof(t_s));
  a.p1 = (void *)(dst[1] + 16); t_psh o1 = has[1] ? (void *)src[1] : 0;
  SYM(a.p2, "actual2");
  OUT(3, sizeof(t_l));
  a.p3 = (void *)(dst[3] + 16); t_pl o3 = has[3] ? (void *)src[3] : 0;
  if (plain) o_mixed_ExpectAndReturn(e.p0, e.p1, e.p2, e.p3, ret, 0, 0, 0, 0);
  else o_mixed_ExpectReturnAndOutput(e.p0, e.p1, e.p2, e.p3, ret, 0, 0, 0, 0, o1, o3);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_l r = o_mixed(a.p0, a.p1, a.p2, a.p3);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_o_opaque(void)
{
  struct { t_pop p0; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, 0);
  a.p0 = (void *)(dst[0] + 16); t_pop o0 = has[0] ? (void *)src[0] : 0;
  if (plain) o_opaque_ExpectAndReturn(e.p0, ret, 0);
  else o_opaque_ExpectReturnAndOutput(e.p0, ret, 0, o0, len[0]);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = o_opaque(a.p0);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_o_fw(void)
{
  struct { t_pfw p0; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  OUT(0, sizeof(t_fwt));
  a.p0 = (void *)(dst[0] + 16); t_pfw o0 = has[0] ? (void *)src[0] : 0;
  if (plain) o_fw_ExpectAndReturn(e.p0, ret, 0);
  else o_fw_ExpectReturnAndOutput(e.p0, ret, 0, o0);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = o_fw(a.p0);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
static void test_o_mid(void)
{
  struct { t_i p0; t_v p1; t_pi p2; char unused; } e = {0}, a = {0};
  t_i ret;
  SYM(ret, "ret");
  SYM(a.p0, "actual0");
  OUT(1, 0);
  a.p1 = (void *)(dst[1] + 16); t_v o1 = has[1] ? (void *)src[1] : 0;
  OUT(2, sizeof(t_i));
  a.p2 = (void *)(dst[2] + 16); t_pi o2 = has[2] ? (void *)src[2] : 0;
  if (plain) o_mid_ExpectAndReturn(e.p0, e.p1, e.p2, ret, 0, 0, 0);
  else o_mid_ExpectReturnAndOutput(e.p0, e.p1, e.p2, ret, 0, 0, 0, o1, len[1], o2);
  for (int k = 0; k < 2; k++) {   // the second call is unexpected
    t_i r = o_mid(a.p0, a.p1, a.p2);
    if (!k) vf_assert(r == ret, "the mock does not return the value given to its expectation");
    verify(k);
  }
}
void vf_main(void)
{
  start();
  switch (vf_choice(15, "function")) {
    case 0: test_o_int(); break;
    case 1: test_o_two(); break;
    case 2: test_o_big(); break;
    case 3: test_o_pair(); break;
    case 4: test_o_void(); break;
    case 5: test_o_two_void(); break;
    case 6: test_o_pp(); break;
    case 7: test_o_un(); break;
    case 8: test_o_arr(); break;
    case 9: test_o_en(); break;
    case 10: test_o_b(); break;
    case 11: test_o_mixed(); break;
    case 12: test_o_opaque(); break;
    case 13: test_o_fw(); break;
    case 14: test_o_mid(); break;
  }
}

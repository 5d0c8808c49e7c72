// Written by tools/mkshapes.py.  Each mock of shapes/pointers.h: expectations with arbitrary values, then calls with arbitrary values.
#include "mock.h"
#ifndef GENTYPES
#include "pointers.h"
#endif
#include "easyMock_pointers.h"
typedef cb_t t_cb;
typedef char *t_cc;
typedef const char *t_cstr;
typedef const void *t_cv;
typedef enum color *t_enp;
typedef int (*t_fn)(int, char);
typedef void (*t_fnb)(struct big, int *);
typedef void (*t_fnv)(void);
typedef int t_i;
typedef _Bool *t_pb;
typedef struct big *t_pbig;
typedef const struct big *t_pcbig;
typedef const char **t_pcc;
typedef const int *t_pci;
typedef const short *t_pcsh;
typedef int *t_pi;
typedef struct opaque *t_pop;
typedef char **t_ppc;
typedef int **t_ppi;
typedef void *t_v;
static void test_p_str(void)
{
  struct { t_cstr p0; t_pci p1; t_ppi p2; t_cstr ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    p_str_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cstr);
    size[1] = sizeof(t_pci);
    size[2] = sizeof(t_ppi);
    begin(m[k]);
    t_cstr r = p_str(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cstr c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_pci c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "q"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_ppi c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "p_str");
  }
  finish();
}
static void test_p_void(void)
{
  struct { t_v p0; t_cv p1; t_v ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_void_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_v);
    size[1] = sizeof(t_cv);
    begin(m[k]);
    t_v r = p_void(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_v c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_cv c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "p_void");
  }
  finish();
}
static void test_p_big(void)
{
  struct { t_pbig p0; t_pcbig p1; t_pbig ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_big_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pbig);
    size[1] = sizeof(t_pcbig);
    begin(m[k]);
    t_pbig r = p_big(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pbig c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_pcbig c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "p_big");
  }
  finish();
}
static void test_p_op(void)
{
  struct { t_pop p0; t_pop ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    p_op_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pop);
    begin(m[k]);
    t_pop r = p_op(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pop c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "p_op");
  }
  finish();
}
static void test_p_cb(void)
{
  struct { t_cb p0; t_fn p1; t_cb ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_cb_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cb);
    size[1] = sizeof(t_fn);
    begin(m[k]);
    t_cb r = p_cb(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cb c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_fn c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "p_cb");
  }
  finish();
}
static void test_p_cb2(void)
{
  struct { t_fnv p0; t_fnb p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_cb2_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_fnv);
    size[1] = sizeof(t_fnb);
    begin(m[k]);
    t_i r = p_cb2(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_fnv c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_fnb c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "p_cb2");
  }
  finish();
}
static void test_p_en(void)
{
  struct { t_enp p0; t_pb p1; t_enp ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_en_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_enp);
    size[1] = sizeof(t_pb);
    begin(m[k]);
    t_enp r = p_en(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_enp c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_pb c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "p_en");
  }
  finish();
}
static void test_p_arr(void)
{
  struct { t_pi p0; t_cc p1; t_pcsh p2; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    p_arr_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pi);
    size[1] = sizeof(t_cc);
    size[2] = sizeof(t_pcsh);
    begin(m[k]);
    t_i r = p_arr(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pi c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_cc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_pcsh c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "c"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "p_arr");
  }
  finish();
}
static void test_p_tdarr(void)
{
  struct { t_pi p0; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    m[k] = MASKS(1, k, 0);
    p_tdarr_ExpectAndReturn(e[k].p0, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pi);
    begin(m[k]);
    p_tdarr(a[k].p0);
    if (m[k] >> 0 & 1) {
      t_pi c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "p_tdarr");
  }
  finish();
}
static void test_p_fnret(void)
{
  struct { t_i p0; t_fn ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    p_fnret_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    begin(m[k]);
    t_fn r = p_fnret(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "p_fnret");
  }
  finish();
}
static void test_p_cfn(void)
{
  struct { t_pcc p0; t_ppc p1; t_cv ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_cfn_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pcc);
    size[1] = sizeof(t_ppc);
    begin(m[k]);
    t_cv r = p_cfn(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pcc c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ppc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "p_cfn");
  }
  finish();
}
static void test_p_cret(void)
{
  struct { t_pci p0; t_pcbig ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    p_cret_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pci);
    begin(m[k]);
    t_pcbig r = p_cret(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pci c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "p_cret");
  }
  finish();
}
static void test_p_cptr(void)
{
  struct { t_pi p0; t_pi ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    p_cptr_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pi);
    begin(m[k]);
    t_pi r = p_cptr(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pi c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "p_cptr");
  }
  finish();
}
static void test_p_fnp(void)
{
  struct { t_fn p0; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    p_fnp_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_fn);
    begin(m[k]);
    t_i r = p_fnp(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_fn c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "g"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "p_fnp");
  }
  finish();
}
void vf_main(void)
{
  start();
  switch (vf_choice(14, "function")) {
    case 0: test_p_str(); break;
    case 1: test_p_void(); break;
    case 2: test_p_big(); break;
    case 3: test_p_op(); break;
    case 4: test_p_cb(); break;
    case 5: test_p_cb2(); break;
    case 6: test_p_en(); break;
    case 7: test_p_arr(); break;
    case 8: test_p_tdarr(); break;
    case 9: test_p_fnret(); break;
    case 10: test_p_cfn(); break;
    case 11: test_p_cret(); break;
    case 12: test_p_cptr(); break;
    case 13: test_p_fnp(); break;
  }
}

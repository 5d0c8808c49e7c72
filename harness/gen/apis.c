// Written by tools/mkshapes.py.  Each mock of shapes/apis.h: expectations with arbitrary values, then calls with arbitrary values.
#include "mock.h"
#ifndef GENTYPES
#include "apis.h"
#endif
#include "easyMock_apis.h"
typedef struct big t_big;
typedef int (*t_cbva)(const char *, __builtin_va_list);
typedef const char *t_cstr;
typedef const void *t_cv;
typedef int t_i;
typedef long long t_ll;
typedef const struct big *t_pcbig;
typedef const char **t_pcc;
typedef struct fw *t_pfw;
typedef __builtin_va_list *t_pva;
typedef unsigned char t_uc;
typedef unsigned long t_ul;
typedef void *t_v;
typedef __typeof__(**(__builtin_va_list *)0) *t_va;
static int eq_big(const struct big *x, const struct big *y) { int r = x->c == y->c; for (int i = 0; i < 5; i++) r &= x->a[i] == y->a[i]; return r & !memcmp(&x->d, &y->d, 8); }
static void test_p_ext(void)
{
  struct { t_i p0; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    p_ext_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    begin(m[k]);
    t_i r = p_ext(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "p_ext");
  }
  finish();
}
static void test_p_api(void)
{
  struct { t_i p0; t_cstr ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    p_api_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    begin(m[k]);
    t_cstr r = p_api(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "p_api");
  }
  finish();
}
static void test_p_unn(void)
{
  struct { t_cstr p0; t_i p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_unn_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cstr);
    size[1] = sizeof(t_i);
    begin(m[k]);
    t_i r = p_unn(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cstr c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_i c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
    }
    end(2, m[k], "p_unn");
  }
  finish();
}
static void test_p_void(void)
{
  struct { t_cstr p0; t_cv p1; t_v ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_void_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cstr);
    size[1] = sizeof(t_cv);
    begin(m[k]);
    t_v r = p_void(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cstr c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "x"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_cv c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
    }
    end(2, m[k], "p_void");
  }
  finish();
}
static void test_p_va(void)
{
  struct { t_cstr p0; t_va p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_va_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cstr);
    size[1] = sizeof(t_va);
    begin(m[k]);
    t_i r = p_va(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cstr c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_va c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
    }
    end(2, m[k], "p_va");
  }
  finish();
}
static void test_p_va2(void)
{
  struct { t_i p0; t_va p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_va2_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_va);
    begin(m[k]);
    t_i r = p_va2(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_va c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "ap"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "p_va2");
  }
  finish();
}
static void test_p_pva(void)
{
  struct { t_pva p0; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    p_pva_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pva);
    begin(m[k]);
    t_i r = p_pva(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pva c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
    }
    end(1, m[k], "p_pva");
  }
  finish();
}
static void test_p_cbv(void)
{
  struct { t_cbva p0; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    p_cbv_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cbva);
    begin(m[k]);
    t_i r = p_cbv(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cbva c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "cb"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "p_cbv");
  }
  finish();
}
static void test_p_words(void)
{
  struct { t_i p0; t_ul p1; t_cstr ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_words_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_ul);
    begin(m[k]);
    t_cstr r = p_words(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ul c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
    }
    end(2, m[k], "p_words");
  }
  finish();
}
static void test_p_wide(void)
{
  struct { t_ul p0; t_ll p1; t_ul ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_wide_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ul);
    size[1] = sizeof(t_ll);
    begin(m[k]);
    t_ul r = p_wide(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ul c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ll c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
    }
    end(2, m[k], "p_wide");
  }
  finish();
}
static void test_p_arr(void)
{
  struct { t_pcc p0; t_pcbig p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_arr_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pcc);
    size[1] = sizeof(t_pcbig);
    begin(m[k]);
    t_i r = p_arr(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pcc c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_pcbig c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
    }
    end(2, m[k], "p_arr");
  }
  finish();
}
static void test_p_ul(void)
{
  struct { t_ul p0; t_ul p1; t_ul ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_ul_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ul);
    size[1] = sizeof(t_ul);
    begin(m[k]);
    t_ul r = p_ul(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ul c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ul c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "p_ul");
  }
  finish();
}
static void test_p_struct(void)
{
  struct { t_pfw p0; t_big p1; t_pcbig ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_struct_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pfw);
    size[1] = sizeof(t_big);
    begin(m[k]);
    t_pcbig r = p_struct(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pfw c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_big c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_big(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_big(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
    }
    end(2, m[k], "p_struct");
  }
  finish();
}
static void test_p_uch(void)
{
  struct { t_uc p0; t_uc p1; t_uc ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    p_uch_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_uc);
    size[1] = sizeof(t_uc);
    begin(m[k]);
    t_uc r = p_uch(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_uc c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_uc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "p_uch");
  }
  finish();
}
void vf_main(void)
{
  start();
  switch (vf_choice(14, "function")) {
    case 0: test_p_ext(); break;
    case 1: test_p_api(); break;
    case 2: test_p_unn(); break;
    case 3: test_p_void(); break;
    case 4: test_p_va(); break;
    case 5: test_p_va2(); break;
    case 6: test_p_pva(); break;
    case 7: test_p_cbv(); break;
    case 8: test_p_words(); break;
    case 9: test_p_wide(); break;
    case 10: test_p_arr(); break;
    case 11: test_p_ul(); break;
    case 12: test_p_struct(); break;
    case 13: test_p_uch(); break;
  }
}

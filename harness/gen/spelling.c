// Written by tools/mkshapes.py.  Each mock of shapes/spelling.h: expectations with arbitrary values, then calls with arbitrary values.
#include "mock.h"
#ifndef GENTYPES
#include "spelling.h"
#endif
#include "easyMock_spelling.h"
typedef struct big t_big;
typedef char t_c;
typedef char *t_cc;
typedef const char *t_cstr;
typedef int t_i;
typedef long t_l;
typedef int *t_pi;
typedef unsigned char t_uc;
typedef unsigned int t_ui;
typedef unsigned long t_ul;
typedef void *t_v;
static int eq_big(const struct big *x, const struct big *y) { int r = x->c == y->c; for (int i = 0; i < 5; i++) r &= x->a[i] == y->a[i]; return r & !memcmp(&x->d, &y->d, 8); }
static void test_d_var(void)
{
  struct { t_cstr p0; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    d_var_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cstr);
    begin(m[k]);
    t_i r = d_var(a[k].p0, 1, 2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cstr c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "fmt"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "d_var");
  }
  finish();
}
static void test_d_noname(void)
{
  struct { t_i p0; t_cc p1; t_big p2; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    d_noname_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_cc);
    size[2] = sizeof(t_big);
    begin(m[k]);
    t_i r = d_noname(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_cc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_big c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(eq_big(&c, &a[k].p2), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_big(&x, &e[k].p2), "a matcher is not given the expected value of its parameter");
    }
    end(3, m[k], "d_noname");
  }
  finish();
}
static void test_d_order(void)
{
  struct { t_ul p0; t_l p1; t_uc p2; t_ui ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    d_order_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ul);
    size[1] = sizeof(t_l);
    size[2] = sizeof(t_uc);
    begin(m[k]);
    t_ui r = d_order(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ul c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_l c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_uc c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "c"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "d_order");
  }
  finish();
}
static void test_d_cpos(void)
{
  struct { t_cstr p0; t_i p1; t_cstr ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    d_cpos_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cstr);
    size[1] = sizeof(t_i);
    begin(m[k]);
    t_cstr r = d_cpos(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cstr c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_i c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "d_cpos");
  }
  finish();
}
static void test_d_com(void)
{
  struct { t_i p0; t_cc p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    d_com_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_cc);
    begin(m[k]);
    t_i r = d_com(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "x"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_cc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "y"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "d_com");
  }
  finish();
}
static void test_d_line(void)
{
  struct { t_i p0; t_c p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    d_line_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_c);
    begin(m[k]);
    t_i r = d_line(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "x"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_c c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "y"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "d_line");
  }
  finish();
}
static void test_d_mac(void)
{
  struct { t_uc p0; t_uc p1; t_uc ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    d_mac_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_uc);
    size[1] = sizeof(t_uc);
    begin(m[k]);
    t_uc r = d_mac(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_uc c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_uc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "d_mac");
  }
  finish();
}
static void test_d_macs(void)
{
  struct { t_i p0; t_cc p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    d_macs_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_cc);
    begin(m[k]);
    t_i r = d_macs(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_cc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "d_macs");
  }
  finish();
}
static void test_d_attr(void)
{
  struct { t_i p0; t_cc p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    d_attr_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_cc);
    begin(m[k]);
    t_i r = d_attr(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_cc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "d_attr");
  }
  finish();
}
static void test_d_ext(void)
{
  struct { t_i p0; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    d_ext_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    begin(m[k]);
    t_i r = d_ext(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "d_ext");
  }
  finish();
}
static void test_d_kr(void)
{
  struct { t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].ret, "ret");
    m[k] = MASKS(0, k, 0);
    d_kr_ExpectAndReturn(e[k].ret);
  }
  for (int k = 0; k < CALLS; k++) {
    begin(m[k]);
    t_i r = d_kr();
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    end(0, m[k], "d_kr");
  }
  finish();
}
static void test_d_tab(void)
{
  struct { t_i p0; t_cc p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    d_tab_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_cc);
    begin(m[k]);
    t_i r = d_tab(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_cc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "d_tab");
  }
  finish();
}
static void test_d_dup(void)
{
  struct { t_i p0; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    d_dup_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    begin(m[k]);
    t_i r = d_dup(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "d_dup");
  }
  finish();
}
static void test_d_names(void)
{
  struct { t_i p0; t_i p1; t_i p2; t_i p3; t_i p4; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].p4, "expected4");
    SYM(a[k].p4, "actual4");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(5, k, 1);
    d_names_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].p4, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0, m[k] >> 4 & 1 ? M4 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_i);
    size[2] = sizeof(t_i);
    size[3] = sizeof(t_i);
    size[4] = sizeof(t_i);
    begin(m[k]);
    t_i r = d_names(a[k].p0, a[k].p1, a[k].p2, a[k].p3, a[k].p4);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "error"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_i c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "data"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_i c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "matcher"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_i c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(c == a[k].p3, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p3, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "mf"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 4 & 1) {
      t_i c, x; memcpy(&c, cur[4], sizeof c); memcpy(&x, xp[4], sizeof x);
      vf_assert(c == a[k].p4, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p4, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[4], "name"), "a matcher is not given the name of its parameter");
    }
    end(5, m[k], "d_names");
  }
  finish();
}
static void test_d_restrict(void)
{
  struct { t_v p0; t_cstr p1; t_v ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    d_restrict_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_v);
    size[1] = sizeof(t_cstr);
    begin(m[k]);
    t_v r = d_restrict(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_v c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "d"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_cstr c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "s"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "d_restrict");
  }
  finish();
}
static void test_d_static(void)
{
  struct { t_pi p0; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    d_static_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pi);
    begin(m[k]);
    t_i r = d_static(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pi c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "d_static");
  }
  finish();
}
void vf_main(void)
{
  start();
  switch (vf_choice(16, "function")) {
    case 0: test_d_var(); break;
    case 1: test_d_noname(); break;
    case 2: test_d_order(); break;
    case 3: test_d_cpos(); break;
    case 4: test_d_com(); break;
    case 5: test_d_line(); break;
    case 6: test_d_mac(); break;
    case 7: test_d_macs(); break;
    case 8: test_d_attr(); break;
    case 9: test_d_ext(); break;
    case 10: test_d_kr(); break;
    case 11: test_d_tab(); break;
    case 12: test_d_dup(); break;
    case 13: test_d_names(); break;
    case 14: test_d_restrict(); break;
    case 15: test_d_static(); break;
  }
}

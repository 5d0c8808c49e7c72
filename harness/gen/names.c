// Written by tools/mkshapes.py.  Each mock of shapes/names.h: expectations with arbitrary values, then calls with arbitrary values.
#include "mock.h"
#ifndef GENTYPES
#include "names.h"
#endif
#include "easyMock_names.h"
typedef _Bool t_b;
typedef char t_c;
typedef cb_t t_cb;
typedef char *t_cc;
typedef const char *t_cstr;
typedef const void *t_cv;
typedef double t_d;
typedef enum color t_en;
typedef float t_f;
typedef int t_i;
typedef __int128 t_i128;
typedef long t_l;
typedef long long t_ll;
typedef pair_t t_pair;
typedef struct big *t_pbig;
typedef short t_s;
typedef unsigned char t_uc;
typedef unsigned int t_ui;
typedef unsigned long t_ul;
typedef union un t_un;
typedef unsigned short t_us;
typedef void *t_v;
static int eq_pair(const pair_t *x, const pair_t *y) { return (x->a == y->a) & (x->b == y->b); }
static int eq_un(const union un *x, const union un *y) { return (x->l == y->l) & !memcmp(x->c, y->c, 12); }
static void test__n(void)
{
  struct { t_i p0; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    _n_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    begin(m[k]);
    t_i r = _n(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "_"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "_n");
  }
  finish();
}
static void test___n(void)
{
  struct { t_l p0; t_l ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    __n_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_l);
    begin(m[k]);
    t_l r = __n(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_l c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "__"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "__n");
  }
  finish();
}
static void test_n_(void)
{
  struct { t_c p0; t_c ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    n__ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_c);
    begin(m[k]);
    t_c r = n_(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_c c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "___"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "n_");
  }
  finish();
}
static void test___n__(void)
{
  struct { t_ul p0; t_ul ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    __n___ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ul);
    begin(m[k]);
    t_ul r = __n__(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ul c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "_1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "__n__");
  }
  finish();
}
static void test_N(void)
{
  struct { t_d p0; t_d ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    N_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_d);
    begin(m[k]);
    t_d r = N(a[k].p0);
    vf_assert(!memcmp(&r, &e[k].ret, 8), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_d c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p0, 8), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p0, 8), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "N"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "N");
  }
  finish();
}
static void test_n(void)
{
  struct { t_ui p0; t_ui ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    n_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ui);
    begin(m[k]);
    t_ui r = n(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ui c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "n"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "n");
  }
  finish();
}
static void test_nN9_9(void)
{
  struct { t_us p0; t_us ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    nN9_9_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_us);
    begin(m[k]);
    t_us r = nN9_9(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_us c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "n9"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "nN9_9");
  }
  finish();
}
static void test_data(void)
{
  struct { t_pair p0; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    data_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pair);
    begin(m[k]);
    t_i r = data(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pair c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_pair(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_pair(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "data_"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "data");
  }
  finish();
}
static void test_instance(void)
{
  struct { t_i p0; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    instance_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    begin(m[k]);
    t_i r = instance(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "this"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "instance");
  }
  finish();
}
static void test_matcher(void)
{
  struct { t_pair p0; t_pair ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    matcher_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pair);
    begin(m[k]);
    t_pair r = matcher(a[k].p0);
    vf_assert(eq_pair(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pair c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_pair(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_pair(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "match"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "matcher");
  }
  finish();
}
static void test_verify(void)
{
  struct { t_cv p0; t_v ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    verify_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cv);
    begin(m[k]);
    t_v r = verify(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cv c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "new"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "verify");
  }
  finish();
}
static void test_reset(void)
{
  struct { t_cb p0; t_cb ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    reset_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cb);
    begin(m[k]);
    t_cb r = reset(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cb c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "delete"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "reset");
  }
  finish();
}
static void test_mockedData(void)
{
  struct { t_ll p0; t_ll ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    mockedData_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ll);
    begin(m[k]);
    t_ll r = mockedData(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ll c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "class"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "mockedData");
  }
  finish();
}
static void test_template(void)
{
  struct { t_en p0; t_en p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 1);
    template_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_en);
    size[1] = sizeof(t_en);
    begin(m[k]);
    t_i r = template(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_en c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "namespace"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_en c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "using"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "template");
  }
  finish();
}
static void test_cmp(void)
{
  struct { t_pbig p0; t_i p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    cmp_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pbig);
    size[1] = sizeof(t_i);
    begin(m[k]);
    t_i r = cmp(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pbig c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "cmp_int"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_i c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "cmp_str"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "cmp");
  }
  finish();
}
static void test_currentCall(void)
{
  struct { t_un p0; t_un ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    currentCall_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_un);
    begin(m[k]);
    t_un r = currentCall(a[k].p0);
    vf_assert(eq_un(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_un c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_un(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_un(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "operator"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "currentCall");
  }
  finish();
}
static void test_expectedCall(void)
{
  struct { t_f p0; t_f ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    expectedCall_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_f);
    begin(m[k]);
    t_f r = expectedCall(a[k].p0);
    vf_assert(!memcmp(&r, &e[k].ret, 4), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_f c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p0, 4), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p0, 4), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "virtual"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "expectedCall");
  }
  finish();
}
static void test_paramName(void)
{
  struct { t_cstr p0; t_cstr ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    paramName_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cstr);
    begin(m[k]);
    t_cstr r = paramName(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cstr c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "name"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "paramName");
  }
  finish();
}
static void test_registerMock(void)
{
  struct { t_uc p0; t_uc ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    registerMock_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_uc);
    begin(m[k]);
    t_uc r = registerMock(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_uc c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "register_"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "registerMock");
  }
  finish();
}
static void test_mock(void)
{
  struct { t_s p0; t_s p1; t_s ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    mock_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_s);
    size[1] = sizeof(t_s);
    begin(m[k]);
    t_s r = mock(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_s c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "mocked"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_s c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "mock_"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "mock");
  }
  finish();
}
static void test_dummyRes(void)
{
  struct { t_i128 p0; t_i128 ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    dummyRes_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i128);
    begin(m[k]);
    t_i128 r = dummyRes(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i128 c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "dummyRes_i"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "dummyRes");
  }
  finish();
}
static void test_expect(void)
{
  struct { t_i p0; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    expect_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    begin(m[k]);
    t_i r = expect(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "ExpectAndReturn"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "expect");
  }
  finish();
}
static void test_nullptr(void)
{
  struct { t_v p0; t_v ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    nullptr_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_v);
    begin(m[k]);
    t_v r = nullptr(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_v c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "null"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "nullptr");
  }
  finish();
}
static void test_bool_(void)
{
  struct { t_b p0; t_b ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYMB(e[k].p0, "expected0");
    SYMB(a[k].p0, "actual0");
    SYMB(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    bool__ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_b);
    begin(m[k]);
    t_b r = bool_(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_b c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "boolean"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "bool_");
  }
  finish();
}
static void test_NULL_(void)
{
  struct { t_cc p0; t_cc ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    NULL__ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cc);
    begin(m[k]);
    t_cc r = NULL_(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cc c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "EOF_"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "NULL_");
  }
  finish();
}
static void test_shadow(void)
{
  struct { t_i p0; t_pair p1; t_cv p2; t_l p3; t_s p4; t_uc p5; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].p4, "expected4");
    SYM(a[k].p4, "actual4");
    SYM(e[k].p5, "expected5");
    SYM(a[k].p5, "actual5");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(6, k, 1);
    shadow_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].p4, e[k].p5, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0, m[k] >> 4 & 1 ? M4 : 0, m[k] >> 5 & 1 ? M5 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_pair);
    size[2] = sizeof(t_cv);
    size[3] = sizeof(t_l);
    size[4] = sizeof(t_s);
    size[5] = sizeof(t_uc);
    begin(m[k]);
    t_i r = shadow(a[k].p0, a[k].p1, a[k].p2, a[k].p3, a[k].p4, a[k].p5);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "matcher"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_pair c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_pair(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_pair(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "error"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_cv c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "expectedCallVal"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_l c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(c == a[k].p3, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p3, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "rv"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 4 & 1) {
      t_s c, x; memcpy(&c, cur[4], sizeof c); memcpy(&x, xp[4], sizeof x);
      vf_assert(c == a[k].p4, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p4, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[4], "data"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 5 & 1) {
      t_uc c, x; memcpy(&c, cur[5], sizeof c); memcpy(&x, xp[5], sizeof x);
      vf_assert(c == a[k].p5, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p5, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[5], "shadow"), "a matcher is not given the name of its parameter");
    }
    end(6, m[k], "shadow");
  }
  finish();
}
static void test_matchers(void)
{
  struct { t_cv p0; t_s ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    matchers_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cv);
    begin(m[k]);
    t_s r = matchers(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cv c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "matcher"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "matchers");
  }
  finish();
}
static void test_actual(void)
{
  struct { t_s p0; t_ui p1; t_pbig p2; t_l ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 1);
    actual_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_s);
    size[1] = sizeof(t_ui);
    size[2] = sizeof(t_pbig);
    begin(m[k]);
    t_l r = actual(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_s c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "error"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ui c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "currentCallVal"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_pbig c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "curFuncCall"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "actual");
  }
  finish();
}
void vf_main(void)
{
  start();
  switch (vf_choice(28, "function")) {
    case 0: test__n(); break;
    case 1: test___n(); break;
    case 2: test_n_(); break;
    case 3: test___n__(); break;
    case 4: test_N(); break;
    case 5: test_n(); break;
    case 6: test_nN9_9(); break;
    case 7: test_data(); break;
    case 8: test_instance(); break;
    case 9: test_matcher(); break;
    case 10: test_verify(); break;
    case 11: test_reset(); break;
    case 12: test_mockedData(); break;
    case 13: test_template(); break;
    case 14: test_cmp(); break;
    case 15: test_currentCall(); break;
    case 16: test_expectedCall(); break;
    case 17: test_paramName(); break;
    case 18: test_registerMock(); break;
    case 19: test_mock(); break;
    case 20: test_dummyRes(); break;
    case 21: test_expect(); break;
    case 22: test_nullptr(); break;
    case 23: test_bool_(); break;
    case 24: test_NULL_(); break;
    case 25: test_shadow(); break;
    case 26: test_matchers(); break;
    case 27: test_actual(); break;
  }
}

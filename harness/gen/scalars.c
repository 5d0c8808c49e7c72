// Written by tools/mkshapes.py.  Each mock of shapes/scalars.h: expectations with arbitrary values, then calls with arbitrary values.
#include "mock.h"
#ifndef GENTYPES
#include "scalars.h"
#endif
#include "easyMock_scalars.h"
typedef _Bool t_b;
typedef char t_c;
typedef double t_d;
typedef float t_f;
typedef int t_i;
typedef __int128 t_i128;
typedef long t_l;
typedef long double t_ld;
typedef long long t_ll;
typedef pu32 t_pu32;
typedef short t_s;
typedef signed char t_sc;
typedef unsigned __int128 t_u128;
typedef u32 t_u32;
typedef unsigned char t_uc;
typedef unsigned int t_ui;
typedef unsigned long t_ul;
typedef unsigned long long t_ull;
typedef unsigned short t_us;
static void test_s_char(void)
{
  struct { t_c p0; t_uc p1; t_c ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    s_char_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_c);
    size[1] = sizeof(t_uc);
    begin(m[k]);
    t_c r = s_char(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_c c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_uc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "s_char");
  }
  finish();
}
static void test_s_short(void)
{
  struct { t_s p0; t_us p1; t_us ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    s_short_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_s);
    size[1] = sizeof(t_us);
    begin(m[k]);
    t_us r = s_short(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_s c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_us c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "s_short");
  }
  finish();
}
static void test_s_int(void)
{
  struct { t_ui p0; t_i p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    s_int_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ui);
    size[1] = sizeof(t_i);
    begin(m[k]);
    t_i r = s_int(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ui c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_i c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "s_int");
  }
  finish();
}
static void test_s_long(void)
{
  struct { t_l p0; t_ul p1; t_ul ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    s_long_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_l);
    size[1] = sizeof(t_ul);
    begin(m[k]);
    t_ul r = s_long(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_l c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ul c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "s_long");
  }
  finish();
}
static void test_s_ll(void)
{
  struct { t_ll p0; t_ull p1; t_ll ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    s_ll_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ll);
    size[1] = sizeof(t_ull);
    begin(m[k]);
    t_ll r = s_ll(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ll c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ull c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "s_ll");
  }
  finish();
}
static void test_s_flt(void)
{
  struct { t_f p0; t_d p1; t_f ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    s_flt_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_f);
    size[1] = sizeof(t_d);
    begin(m[k]);
    t_f r = s_flt(a[k].p0, a[k].p1);
    vf_assert(!memcmp(&r, &e[k].ret, 4), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_f c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p0, 4), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p0, 4), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_d c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p1, 8), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p1, 8), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "s_flt");
  }
  finish();
}
static void test_s_ld(void)
{
  struct { t_ld p0; t_d p1; t_ld ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    s_ld_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ld);
    size[1] = sizeof(t_d);
    begin(m[k]);
    t_ld r = s_ld(a[k].p0, a[k].p1);
    vf_assert(!memcmp(&r, &e[k].ret, 10), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ld c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p0, 10), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p0, 10), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_d c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p1, 8), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p1, 8), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "s_ld");
  }
  finish();
}
static void test_s_bool(void)
{
  struct { t_b p0; t_i p1; t_b ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYMB(e[k].p0, "expected0");
    SYMB(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYMB(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    s_bool_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_b);
    size[1] = sizeof(t_i);
    begin(m[k]);
    t_b r = s_bool(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_b c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_i c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "s_bool");
  }
  finish();
}
static void test_s_128(void)
{
  struct { t_i128 p0; t_u128 p1; t_i128 ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    s_128_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i128);
    size[1] = sizeof(t_u128);
    begin(m[k]);
    t_i128 r = s_128(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i128 c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_u128 c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "s_128");
  }
  finish();
}
static void test_s_u128(void)
{
  struct { t_c p0; t_u128 ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    s_u128_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_c);
    begin(m[k]);
    t_u128 r = s_u128(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_c c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "s_u128");
  }
  finish();
}
static void test_s_uc(void)
{
  struct { t_uc ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].ret, "ret");
    m[k] = MASKS(0, k, 0);
    s_uc_ExpectAndReturn(e[k].ret);
  }
  for (int k = 0; k < CALLS; k++) {
    begin(m[k]);
    t_uc r = s_uc();
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    end(0, m[k], "s_uc");
  }
  finish();
}
static void test_s_d(void)
{
  struct { t_i p0; t_d ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    s_d_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    begin(m[k]);
    t_d r = s_d(a[k].p0);
    vf_assert(!memcmp(&r, &e[k].ret, 8), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "s_d");
  }
  finish();
}
static void test_s_s(void)
{
  struct { t_c p0; t_c p1; t_c p2; t_s ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    s_s_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_c);
    size[1] = sizeof(t_c);
    size[2] = sizeof(t_c);
    begin(m[k]);
    t_s r = s_s(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_c c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_c c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_c c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "s_s");
  }
  finish();
}
static void test_s_td(void)
{
  struct { t_u32 p0; t_pu32 p1; t_u32 ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    s_td_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_u32);
    size[1] = sizeof(t_pu32);
    begin(m[k]);
    t_u32 r = s_td(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_u32 c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_pu32 c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "s_td");
  }
  finish();
}
static void test_s_ui(void)
{
  struct { t_uc p0; t_ull p1; t_us p2; t_f p3; t_ui ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(4, k, 0);
    s_ui_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_uc);
    size[1] = sizeof(t_ull);
    size[2] = sizeof(t_us);
    size[3] = sizeof(t_f);
    begin(m[k]);
    t_ui r = s_ui(a[k].p0, a[k].p1, a[k].p2, a[k].p3);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_uc c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ull c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_us c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_f c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p3, 4), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p3, 4), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "p4"), "a matcher is not given the name of its parameter");
    }
    end(4, m[k], "s_ui");
  }
  finish();
}
static void test_s_void(void)
{
  struct { t_i p0; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    m[k] = MASKS(1, k, 0);
    s_void_ExpectAndReturn(e[k].p0, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    begin(m[k]);
    s_void(a[k].p0);
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "s_void");
  }
  finish();
}
static void test_s_none(void)
{
  struct { char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    m[k] = MASKS(0, k, 0);
    s_none_ExpectAndReturn();
  }
  for (int k = 0; k < CALLS; k++) {
    begin(m[k]);
    s_none();
    end(0, m[k], "s_none");
  }
  finish();
}
static void test_s_ull(void)
{
  struct { t_d p0; t_ld p1; t_b p2; t_ull ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYMB(e[k].p2, "expected2");
    SYMB(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    s_ull_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_d);
    size[1] = sizeof(t_ld);
    size[2] = sizeof(t_b);
    begin(m[k]);
    t_ull r = s_ull(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_d c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p0, 8), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p0, 8), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ld c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p1, 10), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p1, 10), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_b c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "s_ull");
  }
  finish();
}
static void test_s_sc(void)
{
  struct { t_sc p0; t_uc p1; t_sc ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    s_sc_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_sc);
    size[1] = sizeof(t_uc);
    begin(m[k]);
    t_sc r = s_sc(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_sc c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_uc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "s_sc");
  }
  finish();
}
static void test_s_const(void)
{
  struct { t_i p0; t_uc p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    s_const_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_uc);
    begin(m[k]);
    t_i r = s_const(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_uc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "s_const");
  }
  finish();
}
static void test_s_six(void)
{
  struct { t_c p0; t_s p1; t_i p2; t_l p3; t_f p4; t_d p5; t_c ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].p4, "expected4");
    SYM(a[k].p4, "actual4");
    SYM(e[k].p5, "expected5");
    SYM(a[k].p5, "actual5");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(6, k, 1);
    s_six_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].p4, e[k].p5, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0, m[k] >> 4 & 1 ? M4 : 0, m[k] >> 5 & 1 ? M5 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_c);
    size[1] = sizeof(t_s);
    size[2] = sizeof(t_i);
    size[3] = sizeof(t_l);
    size[4] = sizeof(t_f);
    size[5] = sizeof(t_d);
    begin(m[k]);
    t_c r = s_six(a[k].p0, a[k].p1, a[k].p2, a[k].p3, a[k].p4, a[k].p5);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_c c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_s c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_i c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_l c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(c == a[k].p3, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p3, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "p4"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 4 & 1) {
      t_f c, x; memcpy(&c, cur[4], sizeof c); memcpy(&x, xp[4], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p4, 4), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p4, 4), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[4], "p5"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 5 & 1) {
      t_d c, x; memcpy(&c, cur[5], sizeof c); memcpy(&x, xp[5], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p5, 8), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p5, 8), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[5], "p6"), "a matcher is not given the name of its parameter");
    }
    end(6, m[k], "s_six");
  }
  finish();
}
void vf_main(void)
{
  start();
  switch (vf_choice(21, "function")) {
    case 0: test_s_char(); break;
    case 1: test_s_short(); break;
    case 2: test_s_int(); break;
    case 3: test_s_long(); break;
    case 4: test_s_ll(); break;
    case 5: test_s_flt(); break;
    case 6: test_s_ld(); break;
    case 7: test_s_bool(); break;
    case 8: test_s_128(); break;
    case 9: test_s_u128(); break;
    case 10: test_s_uc(); break;
    case 11: test_s_d(); break;
    case 12: test_s_s(); break;
    case 13: test_s_td(); break;
    case 14: test_s_ui(); break;
    case 15: test_s_void(); break;
    case 16: test_s_none(); break;
    case 17: test_s_ull(); break;
    case 18: test_s_sc(); break;
    case 19: test_s_const(); break;
    case 20: test_s_six(); break;
  }
}

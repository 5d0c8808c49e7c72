// Written by tools/mkshapes.py.  Each mock of shapes/composed.h: expectations with arbitrary values, then calls with arbitrary values.
#include "mock.h"
#ifndef GENTYPES
#include "composed.h"
#endif
#include "easyMock_composed.h"
typedef struct big t_big;
typedef struct bits t_bits;
typedef double t_d;
typedef enum color t_en;
typedef ab_t t_ent;
typedef struct fw t_fwt;
typedef int t_i;
typedef struct nest t_nest;
typedef struct one t_one;
typedef pair_t t_pair;
typedef struct fw *t_pfw;
typedef union un t_un;
static int eq_pair(const pair_t *x, const pair_t *y) { return (x->a == y->a) & (x->b == y->b); }
static int eq_one(const struct one *x, const struct one *y) { return x->c == y->c; }
static int eq_big(const struct big *x, const struct big *y) { int r = x->c == y->c; for (int i = 0; i < 5; i++) r &= x->a[i] == y->a[i]; return r & !memcmp(&x->d, &y->d, 8); }
static int eq_nest(const struct nest *x, const struct nest *y) { return eq_big(&x->x, &y->x) & eq_pair(&x->y, &y->y) & (x->u.i == y->u.i); }
static int eq_un(const union un *x, const union un *y) { return (x->l == y->l) & !memcmp(x->c, y->c, 12); }
static int eq_bits(const struct bits *x, const struct bits *y) { return (x->a == y->a) & (x->b == y->b) & (x->c == y->c); }
static int eq_fw(const struct fw *x, const struct fw *y) { return (x->next == y->next) & (x->o == y->o) & (x->cb == y->cb); }
static void test_c_pair(void)
{
  struct { t_pair p0; t_i p1; t_pair ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    c_pair_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pair);
    size[1] = sizeof(t_i);
    begin(m[k]);
    t_pair r = c_pair(a[k].p0, a[k].p1);
    vf_assert(eq_pair(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pair c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_pair(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_pair(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_i c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "c_pair");
  }
  finish();
}
static void test_c_big(void)
{
  struct { t_big p0; t_pair p1; t_big ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    c_big_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_big);
    size[1] = sizeof(t_pair);
    begin(m[k]);
    t_big r = c_big(a[k].p0, a[k].p1);
    vf_assert(eq_big(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_big c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_big(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_big(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_pair c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_pair(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_pair(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "c_big");
  }
  finish();
}
static void test_c_nest(void)
{
  struct { t_i p0; t_nest p1; t_nest ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    c_nest_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_nest);
    begin(m[k]);
    t_nest r = c_nest(a[k].p0, a[k].p1);
    vf_assert(eq_nest(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_nest c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_nest(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_nest(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "c_nest");
  }
  finish();
}
static void test_c_one(void)
{
  struct { t_one p0; t_one p1; t_one ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    c_one_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_one);
    size[1] = sizeof(t_one);
    begin(m[k]);
    t_one r = c_one(a[k].p0, a[k].p1);
    vf_assert(eq_one(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_one c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_one(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_one(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_one c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_one(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_one(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "c_one");
  }
  finish();
}
static void test_c_un(void)
{
  struct { t_un p0; t_bits p1; t_un ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    c_un_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_un);
    size[1] = sizeof(t_bits);
    begin(m[k]);
    t_un r = c_un(a[k].p0, a[k].p1);
    vf_assert(eq_un(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_un c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_un(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_un(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_bits c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_bits(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_bits(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "c_un");
  }
  finish();
}
static void test_c_bits(void)
{
  struct { t_bits p0; t_bits ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    c_bits_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_bits);
    begin(m[k]);
    t_bits r = c_bits(a[k].p0);
    vf_assert(eq_bits(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_bits c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_bits(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_bits(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "c_bits");
  }
  finish();
}
static void test_c_en(void)
{
  struct { t_en p0; t_ent p1; t_en ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    c_en_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_en);
    size[1] = sizeof(t_ent);
    begin(m[k]);
    t_en r = c_en(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_en c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ent c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "c_en");
  }
  finish();
}
static void test_c_ent(void)
{
  struct { t_ent p0; t_ent ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    c_ent_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ent);
    begin(m[k]);
    t_ent r = c_ent(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ent c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "c_ent");
  }
  finish();
}
static void test_c_fw(void)
{
  struct { t_fwt p0; t_pfw p1; t_fwt ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    c_fw_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_fwt);
    size[1] = sizeof(t_pfw);
    begin(m[k]);
    t_fwt r = c_fw(a[k].p0, a[k].p1);
    vf_assert(eq_fw(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_fwt c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_fw(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_fw(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_pfw c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "c_fw");
  }
  finish();
}
static void test_c_void(void)
{
  struct { t_big p0; t_nest p1; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    m[k] = MASKS(2, k, 0);
    c_void_ExpectAndReturn(e[k].p0, e[k].p1, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_big);
    size[1] = sizeof(t_nest);
    begin(m[k]);
    c_void(a[k].p0, a[k].p1);
    if (m[k] >> 0 & 1) {
      t_big c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_big(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_big(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_nest c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_nest(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_nest(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "c_void");
  }
  finish();
}
static void test_c_mix(void)
{
  struct { t_pair p0; t_d p1; t_bits p2; t_nest ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    c_mix_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pair);
    size[1] = sizeof(t_d);
    size[2] = sizeof(t_bits);
    begin(m[k]);
    t_nest r = c_mix(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(eq_nest(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pair c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_pair(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_pair(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_d c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p1, 8), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p1, 8), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_bits c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(eq_bits(&c, &a[k].p2), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_bits(&x, &e[k].p2), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "c_mix");
  }
  finish();
}
void vf_main(void)
{
  start();
  switch (vf_choice(11, "function")) {
    case 0: test_c_pair(); break;
    case 1: test_c_big(); break;
    case 2: test_c_nest(); break;
    case 3: test_c_one(); break;
    case 4: test_c_un(); break;
    case 5: test_c_bits(); break;
    case 6: test_c_en(); break;
    case 7: test_c_ent(); break;
    case 8: test_c_fw(); break;
    case 9: test_c_void(); break;
    case 10: test_c_mix(); break;
  }
}

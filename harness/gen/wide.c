// Written by tools/mkshapes.py.  Each mock of shapes/wide.h: expectations with arbitrary values, then calls with arbitrary values.
#define NP 17
#define VALUE 1200
#include "mock.h"
#ifndef GENTYPES
#include "wide.h"
#endif
#include "easyMock_wide.h"
typedef _Bool t_b;
typedef struct big t_big;
typedef char t_c;
typedef char *t_cc;
typedef struct ck t_ck;
typedef const void *const *t_cpcv;
typedef const char *t_cstr;
typedef const void *t_cv;
typedef double t_d;
typedef enum color t_en;
typedef float t_f;
typedef int (*t_fn)(int, char);
typedef struct huge t_huge;
typedef int t_i;
typedef __int128 t_i128;
typedef long t_l;
typedef long double t_ld;
typedef long long t_ll;
typedef pair_t t_pair;
typedef struct big *t_pbig;
typedef const int *t_pci;
typedef pair_t *t_ppair;
typedef struct big **t_ppbig;
typedef char **t_ppc;
typedef pair_t **t_pppair;
typedef char ***t_pppc;
typedef int ***t_pppi;
typedef void **t_ppv;
typedef short t_s;
typedef unsigned char t_uc;
typedef unsigned int t_ui;
typedef unsigned long long t_ull;
typedef unsigned short t_us;
typedef void *t_v;
static int eq_pair(const pair_t *x, const pair_t *y) { return (x->a == y->a) & (x->b == y->b); }
static int eq_big(const struct big *x, const struct big *y) { int r = x->c == y->c; for (int i = 0; i < 5; i++) r &= x->a[i] == y->a[i]; return r & !memcmp(&x->d, &y->d, 8); }
static int eq_ck(const struct ck *x, const struct ck *y) { return (x->a == y->a) & (x->p == y->p) & (x->c == y->c); }
static void test_w_many(void)
{
  struct { t_c p0; t_ull p1; t_s p2; t_d p3; t_i p4; t_v p5; t_uc p6; t_f p7; t_l p8; t_pair p9; t_us p10; t_ui p11; t_cstr p12; t_ld p13; t_b p14; t_en p15; t_i128 p16; t_ll ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].p4, "expected4");
    SYM(a[k].p4, "actual4");
    SYM(e[k].p5, "expected5");
    SYM(a[k].p5, "actual5");
    SYM(e[k].p6, "expected6");
    SYM(a[k].p6, "actual6");
    SYM(e[k].p7, "expected7");
    SYM(a[k].p7, "actual7");
    SYM(e[k].p8, "expected8");
    SYM(a[k].p8, "actual8");
    SYM(e[k].p9, "expected9");
    SYM(a[k].p9, "actual9");
    SYM(e[k].p10, "expected10");
    SYM(a[k].p10, "actual10");
    SYM(e[k].p11, "expected11");
    SYM(a[k].p11, "actual11");
    SYM(e[k].p12, "expected12");
    SYM(a[k].p12, "actual12");
    SYM(e[k].p13, "expected13");
    SYM(a[k].p13, "actual13");
    SYMB(e[k].p14, "expected14");
    SYMB(a[k].p14, "actual14");
    SYM(e[k].p15, "expected15");
    SYM(a[k].p15, "actual15");
    SYM(e[k].p16, "expected16");
    SYM(a[k].p16, "actual16");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(17, k, 2);
    w_many_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].p4, e[k].p5, e[k].p6, e[k].p7, e[k].p8, e[k].p9, e[k].p10, e[k].p11, e[k].p12, e[k].p13, e[k].p14, e[k].p15, e[k].p16, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0, m[k] >> 4 & 1 ? M4 : 0, m[k] >> 5 & 1 ? M5 : 0, m[k] >> 6 & 1 ? M6 : 0, m[k] >> 7 & 1 ? M7 : 0, m[k] >> 8 & 1 ? M8 : 0, m[k] >> 9 & 1 ? M9 : 0, m[k] >> 10 & 1 ? M10 : 0, m[k] >> 11 & 1 ? M11 : 0, m[k] >> 12 & 1 ? M12 : 0, m[k] >> 13 & 1 ? M13 : 0, m[k] >> 14 & 1 ? M14 : 0, m[k] >> 15 & 1 ? M15 : 0, m[k] >> 16 & 1 ? M16 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_c);
    size[1] = sizeof(t_ull);
    size[2] = sizeof(t_s);
    size[3] = sizeof(t_d);
    size[4] = sizeof(t_i);
    size[5] = sizeof(t_v);
    size[6] = sizeof(t_uc);
    size[7] = sizeof(t_f);
    size[8] = sizeof(t_l);
    size[9] = sizeof(t_pair);
    size[10] = sizeof(t_us);
    size[11] = sizeof(t_ui);
    size[12] = sizeof(t_cstr);
    size[13] = sizeof(t_ld);
    size[14] = sizeof(t_b);
    size[15] = sizeof(t_en);
    size[16] = sizeof(t_i128);
    begin(m[k]);
    t_ll r = w_many(a[k].p0, a[k].p1, a[k].p2, a[k].p3, a[k].p4, a[k].p5, a[k].p6, a[k].p7, a[k].p8, a[k].p9, a[k].p10, a[k].p11, a[k].p12, a[k].p13, a[k].p14, a[k].p15, a[k].p16);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_c c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ull c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_s c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_d c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p3, 8), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p3, 8), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "p4"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 4 & 1) {
      t_i c, x; memcpy(&c, cur[4], sizeof c); memcpy(&x, xp[4], sizeof x);
      vf_assert(c == a[k].p4, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p4, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[4], "p5"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 5 & 1) {
      t_v c, x; memcpy(&c, cur[5], sizeof c); memcpy(&x, xp[5], sizeof x);
      vf_assert(c == a[k].p5, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p5, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[5], "p6"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 6 & 1) {
      t_uc c, x; memcpy(&c, cur[6], sizeof c); memcpy(&x, xp[6], sizeof x);
      vf_assert(c == a[k].p6, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p6, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[6], "p7"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 7 & 1) {
      t_f c, x; memcpy(&c, cur[7], sizeof c); memcpy(&x, xp[7], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p7, 4), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p7, 4), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[7], "p8"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 8 & 1) {
      t_l c, x; memcpy(&c, cur[8], sizeof c); memcpy(&x, xp[8], sizeof x);
      vf_assert(c == a[k].p8, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p8, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[8], "p9"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 9 & 1) {
      t_pair c, x; memcpy(&c, cur[9], sizeof c); memcpy(&x, xp[9], sizeof x);
      vf_assert(eq_pair(&c, &a[k].p9), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_pair(&x, &e[k].p9), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[9], "p10"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 10 & 1) {
      t_us c, x; memcpy(&c, cur[10], sizeof c); memcpy(&x, xp[10], sizeof x);
      vf_assert(c == a[k].p10, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p10, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[10], "p11"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 11 & 1) {
      t_ui c, x; memcpy(&c, cur[11], sizeof c); memcpy(&x, xp[11], sizeof x);
      vf_assert(c == a[k].p11, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p11, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[11], "p12"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 12 & 1) {
      t_cstr c, x; memcpy(&c, cur[12], sizeof c); memcpy(&x, xp[12], sizeof x);
      vf_assert(c == a[k].p12, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p12, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[12], "p13"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 13 & 1) {
      t_ld c, x; memcpy(&c, cur[13], sizeof c); memcpy(&x, xp[13], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p13, 10), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p13, 10), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[13], "p14"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 14 & 1) {
      t_b c, x; memcpy(&c, cur[14], sizeof c); memcpy(&x, xp[14], sizeof x);
      vf_assert(c == a[k].p14, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p14, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[14], "p15"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 15 & 1) {
      t_en c, x; memcpy(&c, cur[15], sizeof c); memcpy(&x, xp[15], sizeof x);
      vf_assert(c == a[k].p15, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p15, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[15], "p16"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 16 & 1) {
      t_i128 c, x; memcpy(&c, cur[16], sizeof c); memcpy(&x, xp[16], sizeof x);
      vf_assert(c == a[k].p16, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p16, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[16], "p17"), "a matcher is not given the name of its parameter");
    }
    end(17, m[k], "w_many");
  }
  finish();
}
static void test_w_same(void)
{
  struct { t_i p0; t_i p1; t_i p2; t_i p3; t_i p4; t_i p5; t_i p6; t_i p7; t_i p8; t_i p9; t_i p10; t_i p11; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].p4, "expected4");
    SYM(a[k].p4, "actual4");
    SYM(e[k].p5, "expected5");
    SYM(a[k].p5, "actual5");
    SYM(e[k].p6, "expected6");
    SYM(a[k].p6, "actual6");
    SYM(e[k].p7, "expected7");
    SYM(a[k].p7, "actual7");
    SYM(e[k].p8, "expected8");
    SYM(a[k].p8, "actual8");
    SYM(e[k].p9, "expected9");
    SYM(a[k].p9, "actual9");
    SYM(e[k].p10, "expected10");
    SYM(a[k].p10, "actual10");
    SYM(e[k].p11, "expected11");
    SYM(a[k].p11, "actual11");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(12, k, 2);
    w_same_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].p4, e[k].p5, e[k].p6, e[k].p7, e[k].p8, e[k].p9, e[k].p10, e[k].p11, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0, m[k] >> 4 & 1 ? M4 : 0, m[k] >> 5 & 1 ? M5 : 0, m[k] >> 6 & 1 ? M6 : 0, m[k] >> 7 & 1 ? M7 : 0, m[k] >> 8 & 1 ? M8 : 0, m[k] >> 9 & 1 ? M9 : 0, m[k] >> 10 & 1 ? M10 : 0, m[k] >> 11 & 1 ? M11 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_i);
    size[2] = sizeof(t_i);
    size[3] = sizeof(t_i);
    size[4] = sizeof(t_i);
    size[5] = sizeof(t_i);
    size[6] = sizeof(t_i);
    size[7] = sizeof(t_i);
    size[8] = sizeof(t_i);
    size[9] = sizeof(t_i);
    size[10] = sizeof(t_i);
    size[11] = sizeof(t_i);
    begin(m[k]);
    t_i r = w_same(a[k].p0, a[k].p1, a[k].p2, a[k].p3, a[k].p4, a[k].p5, a[k].p6, a[k].p7, a[k].p8, a[k].p9, a[k].p10, a[k].p11);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_i c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_i c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_i c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(c == a[k].p3, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p3, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "p4"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 4 & 1) {
      t_i c, x; memcpy(&c, cur[4], sizeof c); memcpy(&x, xp[4], sizeof x);
      vf_assert(c == a[k].p4, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p4, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[4], "p5"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 5 & 1) {
      t_i c, x; memcpy(&c, cur[5], sizeof c); memcpy(&x, xp[5], sizeof x);
      vf_assert(c == a[k].p5, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p5, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[5], "p6"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 6 & 1) {
      t_i c, x; memcpy(&c, cur[6], sizeof c); memcpy(&x, xp[6], sizeof x);
      vf_assert(c == a[k].p6, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p6, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[6], "p7"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 7 & 1) {
      t_i c, x; memcpy(&c, cur[7], sizeof c); memcpy(&x, xp[7], sizeof x);
      vf_assert(c == a[k].p7, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p7, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[7], "p8"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 8 & 1) {
      t_i c, x; memcpy(&c, cur[8], sizeof c); memcpy(&x, xp[8], sizeof x);
      vf_assert(c == a[k].p8, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p8, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[8], "p9"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 9 & 1) {
      t_i c, x; memcpy(&c, cur[9], sizeof c); memcpy(&x, xp[9], sizeof x);
      vf_assert(c == a[k].p9, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p9, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[9], "p10"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 10 & 1) {
      t_i c, x; memcpy(&c, cur[10], sizeof c); memcpy(&x, xp[10], sizeof x);
      vf_assert(c == a[k].p10, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p10, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[10], "p11"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 11 & 1) {
      t_i c, x; memcpy(&c, cur[11], sizeof c); memcpy(&x, xp[11], sizeof x);
      vf_assert(c == a[k].p11, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p11, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[11], "p12"), "a matcher is not given the name of its parameter");
    }
    end(12, m[k], "w_same");
  }
  finish();
}
static void test_w_structs(void)
{
  struct { t_pair p0; t_pair p1; t_pair p2; t_pair p3; t_pair p4; t_pair ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].p4, "expected4");
    SYM(a[k].p4, "actual4");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(5, k, 2);
    w_structs_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].p4, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0, m[k] >> 4 & 1 ? M4 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pair);
    size[1] = sizeof(t_pair);
    size[2] = sizeof(t_pair);
    size[3] = sizeof(t_pair);
    size[4] = sizeof(t_pair);
    begin(m[k]);
    t_pair r = w_structs(a[k].p0, a[k].p1, a[k].p2, a[k].p3, a[k].p4);
    vf_assert(eq_pair(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pair c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_pair(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_pair(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_pair c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_pair(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_pair(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_pair c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(eq_pair(&c, &a[k].p2), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_pair(&x, &e[k].p2), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_pair c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(eq_pair(&c, &a[k].p3), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_pair(&x, &e[k].p3), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "p4"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 4 & 1) {
      t_pair c, x; memcpy(&c, cur[4], sizeof c); memcpy(&x, xp[4], sizeof x);
      vf_assert(eq_pair(&c, &a[k].p4), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_pair(&x, &e[k].p4), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[4], "p5"), "a matcher is not given the name of its parameter");
    }
    end(5, m[k], "w_structs");
  }
  finish();
}
static void test_w_ptrs(void)
{
  struct { t_cc p0; t_cstr p1; t_cc p2; t_ppc p3; t_v p4; t_cv p5; t_pci p6; t_cc ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].p4, "expected4");
    SYM(a[k].p4, "actual4");
    SYM(e[k].p5, "expected5");
    SYM(a[k].p5, "actual5");
    SYM(e[k].p6, "expected6");
    SYM(a[k].p6, "actual6");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(7, k, 2);
    w_ptrs_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].p4, e[k].p5, e[k].p6, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0, m[k] >> 4 & 1 ? M4 : 0, m[k] >> 5 & 1 ? M5 : 0, m[k] >> 6 & 1 ? M6 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cc);
    size[1] = sizeof(t_cstr);
    size[2] = sizeof(t_cc);
    size[3] = sizeof(t_ppc);
    size[4] = sizeof(t_v);
    size[5] = sizeof(t_cv);
    size[6] = sizeof(t_pci);
    begin(m[k]);
    t_cc r = w_ptrs(a[k].p0, a[k].p1, a[k].p2, a[k].p3, a[k].p4, a[k].p5, a[k].p6);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cc c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_cstr c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_cc c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_ppc c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(c == a[k].p3, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p3, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "p4"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 4 & 1) {
      t_v c, x; memcpy(&c, cur[4], sizeof c); memcpy(&x, xp[4], sizeof x);
      vf_assert(c == a[k].p4, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p4, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[4], "p5"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 5 & 1) {
      t_cv c, x; memcpy(&c, cur[5], sizeof c); memcpy(&x, xp[5], sizeof x);
      vf_assert(c == a[k].p5, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p5, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[5], "p6"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 6 & 1) {
      t_pci c, x; memcpy(&c, cur[6], sizeof c); memcpy(&x, xp[6], sizeof x);
      vf_assert(c == a[k].p6, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p6, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[6], "p7"), "a matcher is not given the name of its parameter");
    }
    end(7, m[k], "w_ptrs");
  }
  finish();
}
static void test_w_a_name_which_is_as_long_as_the_names_that_code_generators_for_protocol_stacks_like_to_make(void)
{
  struct { t_l p0; t_l p1; t_l ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    w_a_name_which_is_as_long_as_the_names_that_code_generators_for_protocol_stacks_like_to_make_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_l);
    size[1] = sizeof(t_l);
    begin(m[k]);
    t_l r = w_a_name_which_is_as_long_as_the_names_that_code_generators_for_protocol_stacks_like_to_make(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_l c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a_name_which_is_as_long_as_the_names_that_code_generators_for_protocol_stacks_like_to_make"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_l c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "a_name_which_is_as_long_as_the_names_that_code_generators_for_protocol_stacks_like_to_mak"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "w_a_name_which_is_as_long_as_the_names_that_code_generators_for_protocol_stacks_like_to_make");
  }
  finish();
}
static void test_w_deep(void)
{
  struct { t_pppi p0; t_ppbig p1; t_ppv p2; t_pppi ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    w_deep_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pppi);
    size[1] = sizeof(t_ppbig);
    size[2] = sizeof(t_ppv);
    begin(m[k]);
    t_pppi r = w_deep(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pppi c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ppbig c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_ppv c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "w_deep");
  }
  finish();
}
static void test_w_deep2(void)
{
  struct { t_pppc p0; t_cpcv p1; t_pppair p2; t_ppv ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    w_deep2_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pppc);
    size[1] = sizeof(t_cpcv);
    size[2] = sizeof(t_pppair);
    begin(m[k]);
    t_ppv r = w_deep2(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pppc c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_cpcv c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_pppair c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "w_deep2");
  }
  finish();
}
static void test_w_chain(void)
{
  struct { t_ui p0; t_ui p1; t_ui p2; t_ui ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    w_chain_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ui);
    size[1] = sizeof(t_ui);
    size[2] = sizeof(t_ui);
    begin(m[k]);
    t_ui r = w_chain(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ui c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ui c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_ui c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "c"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "w_chain");
  }
  finish();
}
static void test_w_chain2(void)
{
  struct { t_pair p0; t_ppair p1; t_pbig p2; t_pair ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    w_chain2_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pair);
    size[1] = sizeof(t_ppair);
    size[2] = sizeof(t_pbig);
    begin(m[k]);
    t_pair r = w_chain2(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(eq_pair(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pair c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_pair(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_pair(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ppair c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_pbig c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "c"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "w_chain2");
  }
  finish();
}
static void test_w_chain3(void)
{
  struct { t_big p0; t_fn p1; t_en p2; t_pbig ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    w_chain3_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_big);
    size[1] = sizeof(t_fn);
    size[2] = sizeof(t_en);
    begin(m[k]);
    t_pbig r = w_chain3(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_big c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_big(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_big(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_fn c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_en c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "c"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "w_chain3");
  }
  finish();
}
static void test_w_chain4(void)
{
  struct { t_cc p0; t_cc p1; t_cstr p2; t_cstr p3; t_cstr ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(4, k, 2);
    w_chain4_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cc);
    size[1] = sizeof(t_cc);
    size[2] = sizeof(t_cstr);
    size[3] = sizeof(t_cstr);
    begin(m[k]);
    t_cstr r = w_chain4(a[k].p0, a[k].p1, a[k].p2, a[k].p3);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cc c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_cc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_cstr c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "c"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_cstr c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(c == a[k].p3, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p3, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "d"), "a matcher is not given the name of its parameter");
    }
    end(4, m[k], "w_chain4");
  }
  finish();
}
static void test_w_ck(void)
{
  struct { t_ck p0; t_ck p1; t_ck ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    w_ck_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ck);
    size[1] = sizeof(t_ck);
    begin(m[k]);
    t_ck r = w_ck(a[k].p0, a[k].p1);
    vf_assert(eq_ck(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ck c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_ck(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_ck(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ck c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_ck(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_ck(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "w_ck");
  }
  finish();
}
static void test_w_ckret(void)
{
  struct { t_ck ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].ret, "ret");
    m[k] = MASKS(0, k, 0);
    w_ckret_ExpectAndReturn(e[k].ret);
  }
  for (int k = 0; k < CALLS; k++) {
    begin(m[k]);
    t_ck r = w_ckret();
    vf_assert(eq_ck(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    end(0, m[k], "w_ckret");
  }
  finish();
}
static void test_w_huge(void)
{
  struct { t_huge p0; t_i p1; t_huge ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    w_huge_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_huge);
    size[1] = sizeof(t_i);
    begin(m[k]);
    t_huge r = w_huge(a[k].p0, a[k].p1);
    vf_assert(!memcmp(&r, &e[k].ret, 752), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_huge c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p0, 752), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p0, 752), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_i c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "w_huge");
  }
  finish();
}
static void test_w_huge2(void)
{
  struct { t_i p0; t_huge p1; t_huge p2; t_huge ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    w_huge2_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_huge);
    size[2] = sizeof(t_huge);
    begin(m[k]);
    t_huge r = w_huge2(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(!memcmp(&r, &e[k].ret, 752), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_huge c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p1, 752), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p1, 752), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_huge c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p2, 752), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p2, 752), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "w_huge2");
  }
  finish();
}
static void test_w_locals(void)
{
  struct { t_i p0; t_i p1; t_i p2; t_i p3; t_i p4; t_i p5; t_i p6; t_i p7; t_i p8; t_i p9; t_i p10; t_i p11; t_i p12; t_i p13; t_i p14; t_i p15; t_i p16; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].p4, "expected4");
    SYM(a[k].p4, "actual4");
    SYM(e[k].p5, "expected5");
    SYM(a[k].p5, "actual5");
    SYM(e[k].p6, "expected6");
    SYM(a[k].p6, "actual6");
    SYM(e[k].p7, "expected7");
    SYM(a[k].p7, "actual7");
    SYM(e[k].p8, "expected8");
    SYM(a[k].p8, "actual8");
    SYM(e[k].p9, "expected9");
    SYM(a[k].p9, "actual9");
    SYM(e[k].p10, "expected10");
    SYM(a[k].p10, "actual10");
    SYM(e[k].p11, "expected11");
    SYM(a[k].p11, "actual11");
    SYM(e[k].p12, "expected12");
    SYM(a[k].p12, "actual12");
    SYM(e[k].p13, "expected13");
    SYM(a[k].p13, "actual13");
    SYM(e[k].p14, "expected14");
    SYM(a[k].p14, "actual14");
    SYM(e[k].p15, "expected15");
    SYM(a[k].p15, "actual15");
    SYM(e[k].p16, "expected16");
    SYM(a[k].p16, "actual16");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(17, k, 2);
    w_locals_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].p4, e[k].p5, e[k].p6, e[k].p7, e[k].p8, e[k].p9, e[k].p10, e[k].p11, e[k].p12, e[k].p13, e[k].p14, e[k].p15, e[k].p16, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0, m[k] >> 4 & 1 ? M4 : 0, m[k] >> 5 & 1 ? M5 : 0, m[k] >> 6 & 1 ? M6 : 0, m[k] >> 7 & 1 ? M7 : 0, m[k] >> 8 & 1 ? M8 : 0, m[k] >> 9 & 1 ? M9 : 0, m[k] >> 10 & 1 ? M10 : 0, m[k] >> 11 & 1 ? M11 : 0, m[k] >> 12 & 1 ? M12 : 0, m[k] >> 13 & 1 ? M13 : 0, m[k] >> 14 & 1 ? M14 : 0, m[k] >> 15 & 1 ? M15 : 0, m[k] >> 16 & 1 ? M16 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_i);
    size[2] = sizeof(t_i);
    size[3] = sizeof(t_i);
    size[4] = sizeof(t_i);
    size[5] = sizeof(t_i);
    size[6] = sizeof(t_i);
    size[7] = sizeof(t_i);
    size[8] = sizeof(t_i);
    size[9] = sizeof(t_i);
    size[10] = sizeof(t_i);
    size[11] = sizeof(t_i);
    size[12] = sizeof(t_i);
    size[13] = sizeof(t_i);
    size[14] = sizeof(t_i);
    size[15] = sizeof(t_i);
    size[16] = sizeof(t_i);
    begin(m[k]);
    t_i r = w_locals(a[k].p0, a[k].p1, a[k].p2, a[k].p3, a[k].p4, a[k].p5, a[k].p6, a[k].p7, a[k].p8, a[k].p9, a[k].p10, a[k].p11, a[k].p12, a[k].p13, a[k].p14, a[k].p15, a[k].p16);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "errorMessage"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_i c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "curCallVal"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_i c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "expectedCallVal"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_i c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(c == a[k].p3, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p3, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "matcher"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 4 & 1) {
      t_i c, x; memcpy(&c, cur[4], sizeof c); memcpy(&x, xp[4], sizeof x);
      vf_assert(c == a[k].p4, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p4, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[4], "error"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 5 & 1) {
      t_i c, x; memcpy(&c, cur[5], sizeof c); memcpy(&x, xp[5], sizeof x);
      vf_assert(c == a[k].p5, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p5, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[5], "currentDataCall"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 6 & 1) {
      t_i c, x; memcpy(&c, cur[6], sizeof c); memcpy(&x, xp[6], sizeof x);
      vf_assert(c == a[k].p6, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p6, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[6], "printCallStack"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 7 & 1) {
      t_i c, x; memcpy(&c, cur[7], sizeof c); memcpy(&x, xp[7], sizeof x);
      vf_assert(c == a[k].p7, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p7, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[7], "checkCallsOrder"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 8 & 1) {
      t_i c, x; memcpy(&c, cur[8], sizeof c); memcpy(&x, xp[8], sizeof x);
      vf_assert(c == a[k].p8, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p8, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[8], "default_res"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 9 & 1) {
      t_i c, x; memcpy(&c, cur[9], sizeof c); memcpy(&x, xp[9], sizeof x);
      vf_assert(c == a[k].p9, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p9, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[9], "currentCall"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 10 & 1) {
      t_i c, x; memcpy(&c, cur[10], sizeof c); memcpy(&x, xp[10], sizeof x);
      vf_assert(c == a[k].p10, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p10, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[10], "curFuncCall"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 11 & 1) {
      t_i c, x; memcpy(&c, cur[11], sizeof c); memcpy(&x, xp[11], sizeof x);
      vf_assert(c == a[k].p11, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p11, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[11], "mockedData"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 12 & 1) {
      t_i c, x; memcpy(&c, cur[12], sizeof c); memcpy(&x, xp[12], sizeof x);
      vf_assert(c == a[k].p12, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p12, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[12], "rv"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 13 & 1) {
      t_i c, x; memcpy(&c, cur[13], sizeof c); memcpy(&x, xp[13], sizeof x);
      vf_assert(c == a[k].p13, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p13, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[13], "instance"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 14 & 1) {
      t_i c, x; memcpy(&c, cur[14], sizeof c); memcpy(&x, xp[14], sizeof x);
      vf_assert(c == a[k].p14, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p14, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[14], "idx"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 15 & 1) {
      t_i c, x; memcpy(&c, cur[15], sizeof c); memcpy(&x, xp[15], sizeof x);
      vf_assert(c == a[k].p15, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p15, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[15], "data"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 16 & 1) {
      t_i c, x; memcpy(&c, cur[16], sizeof c); memcpy(&x, xp[16], sizeof x);
      vf_assert(c == a[k].p16, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p16, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[16], "call"), "a matcher is not given the name of its parameter");
    }
    end(17, m[k], "w_locals");
  }
  finish();
}
static void test_w_matched(void)
{
  struct { t_cstr p0; t_cstr p1; t_i p2; t_cstr ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    w_matched_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cstr);
    size[1] = sizeof(t_cstr);
    size[2] = sizeof(t_i);
    begin(m[k]);
    t_cstr r = w_matched(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cstr c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "errorMessage"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_cstr c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "paramName"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_i c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "idx"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "w_matched");
  }
  finish();
}
static void test_w_digits2(void)
{
  struct { t_i p0; t_i p1; t_i p2; t_i p3; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(4, k, 2);
    w_digits2_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_i);
    size[2] = sizeof(t_i);
    size[3] = sizeof(t_i);
    begin(m[k]);
    t_i r = w_digits2(a[k].p0, a[k].p1, a[k].p2, a[k].p3);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_i c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "a11"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_i c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_i c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(c == a[k].p3, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p3, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "A"), "a matcher is not given the name of its parameter");
    }
    end(4, m[k], "w_digits2");
  }
  finish();
}
static void test_w_digits(void)
{
  struct { t_i p0; t_i p1; t_i p2; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    w_digits_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_i);
    size[2] = sizeof(t_i);
    begin(m[k]);
    t_i r = w_digits(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "_"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_i c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "__a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_i c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "a_"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "w_digits");
  }
  finish();
}
static void test_w_digits22(void)
{
  struct { t_i p0; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    w_digits22_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    begin(m[k]);
    t_i r = w_digits22(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "w_digits22");
  }
  finish();
}
static void test_W_DIGITS2(void)
{
  struct { t_l p0; t_l ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    W_DIGITS2_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_l);
    begin(m[k]);
    t_l r = W_DIGITS2(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_l c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "W_DIGITS2");
  }
  finish();
}
void vf_main(void)
{
  start();
  switch (vf_choice(21, "function")) {
    case 0: test_w_many(); break;
    case 1: test_w_same(); break;
    case 2: test_w_structs(); break;
    case 3: test_w_ptrs(); break;
    case 4: test_w_a_name_which_is_as_long_as_the_names_that_code_generators_for_protocol_stacks_like_to_make(); break;
    case 5: test_w_deep(); break;
    case 6: test_w_deep2(); break;
    case 7: test_w_chain(); break;
    case 8: test_w_chain2(); break;
    case 9: test_w_chain3(); break;
    case 10: test_w_chain4(); break;
    case 11: test_w_ck(); break;
    case 12: test_w_ckret(); break;
    case 13: test_w_huge(); break;
    case 14: test_w_huge2(); break;
    case 15: test_w_locals(); break;
    case 16: test_w_matched(); break;
    case 17: test_w_digits2(); break;
    case 18: test_w_digits(); break;
    case 19: test_w_digits22(); break;
    case 20: test_W_DIGITS2(); break;
  }
}

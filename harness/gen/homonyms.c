// Written by tools/mkshapes.py.  Each mock of shapes/homonyms.h: expectations with arbitrary values, then calls with arbitrary values.
#include "mock.h"
#ifndef GENTYPES
#include "homonyms.h"
#endif
#include "easyMock_homonyms.h"
typedef char *t_cc;
typedef a t_ha;
typedef struct c_d t_hcd;
typedef d_ t_hd;
typedef e_ t_he;
typedef list t_hl;
typedef nodep t_hn;
typedef s1 t_hs1;
typedef struct a t_hsa;
typedef struct _e t_hse;
typedef struct s1 t_hss1;
typedef int t_i;
typedef const int *t_pci;
typedef a *t_pha;
typedef struct a *t_phsa;
typedef int *t_pi;
typedef char **t_ppc;
typedef struct list *t_psl;
typedef struct inner *t_pwin;
typedef struct wraps *t_pwr;
typedef struct list t_sl;
typedef unsigned int t_ui;
typedef struct inner t_win;
typedef struct wraps t_wr;
static int eq_ha(const a *x, const a *y) { return x->x == y->x; }
static int eq_hsa(const struct a *x, const struct a *y) { return (x->m.x == y->m.x) & (x->n == y->n); }
static int eq_hcd(const struct c_d *x, const struct c_d *y) { return x->x == y->x; }
static int eq_hd(const d_ *x, const d_ *y) { return !memcmp(&x->y, &y->y, 8) & (x->k == y->k); }
static int eq_he(const e_ *x, const e_ *y) { return x->x == y->x; }
static int eq_hse(const struct _e *x, const struct _e *y) { return (x->z == y->z) & (x->zz == y->zz); }
static int eq_sl(const struct list *x, const struct list *y) { return (x->head == y->head) & (x->n == y->n); }
static int eq_hs1(const s1 *x, const s1 *y) { return (x->a == y->a) & (x->c == y->c); }
static int eq_hss1(const struct s1 *x, const struct s1 *y) { return (x->m.a == y->m.a) & (x->p == y->p) & (x->k == y->k); }
static int eq_win(const struct inner *x, const struct inner *y) { return (x->owner == y->owner) & (x->k == y->k); }
static int eq_wr(const struct wraps *x, const struct wraps *y) { return eq_win(&x->in, &y->in) & eq_win(&x->more[0], &y->more[0]) & eq_win(&x->more[1], &y->more[1]) & (x->z == y->z); }
static void test_h_ab(void)
{
  struct { t_hsa p0; t_ha p1; t_ha ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    h_ab_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_hsa);
    size[1] = sizeof(t_ha);
    begin(m[k]);
    t_ha r = h_ab(a[k].p0, a[k].p1);
    vf_assert(eq_ha(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_hsa c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_hsa(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_hsa(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ha c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_ha(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_ha(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "h_ab");
  }
  finish();
}
static void test_h_ba(void)
{
  struct { t_ha p0; t_hsa p1; t_hsa ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    h_ba_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ha);
    size[1] = sizeof(t_hsa);
    begin(m[k]);
    t_hsa r = h_ba(a[k].p0, a[k].p1);
    vf_assert(eq_hsa(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ha c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_ha(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_ha(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_hsa c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_hsa(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_hsa(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "h_ba");
  }
  finish();
}
static void test_h_cd(void)
{
  struct { t_hcd p0; t_hd p1; t_hcd ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    h_cd_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_hcd);
    size[1] = sizeof(t_hd);
    begin(m[k]);
    t_hcd r = h_cd(a[k].p0, a[k].p1);
    vf_assert(eq_hcd(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_hcd c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_hcd(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_hcd(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_hd c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_hd(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_hd(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "h_cd");
  }
  finish();
}
static void test_h_d(void)
{
  struct { t_hd p0; t_hd ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    h_d_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_hd);
    begin(m[k]);
    t_hd r = h_d(a[k].p0);
    vf_assert(eq_hd(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_hd c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_hd(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_hd(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "h_d");
  }
  finish();
}
static void test_h_e(void)
{
  struct { t_he p0; t_hse p1; t_he ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    h_e_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_he);
    size[1] = sizeof(t_hse);
    begin(m[k]);
    t_he r = h_e(a[k].p0, a[k].p1);
    vf_assert(eq_he(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_he c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_he(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_he(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_hse c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_hse(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_hse(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "h_e");
  }
  finish();
}
static void test_h_se(void)
{
  struct { t_hse p0; t_hse ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    h_se_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_hse);
    begin(m[k]);
    t_hse r = h_se(a[k].p0);
    vf_assert(eq_hse(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_hse c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_hse(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_hse(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "h_se");
  }
  finish();
}
static void test_h_p(void)
{
  struct { t_pha p0; t_phsa p1; t_pha ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    h_p_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pha);
    size[1] = sizeof(t_phsa);
    begin(m[k]);
    t_pha r = h_p(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pha c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_phsa c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "h_p");
  }
  finish();
}
static void test_h_sp(void)
{
  struct { t_phsa p0; t_phsa ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    h_sp_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_phsa);
    begin(m[k]);
    t_phsa r = h_sp(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_phsa c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "h_sp");
  }
  finish();
}
static void test_h_node(void)
{
  struct { t_hn p0; t_hl p1; t_hn ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    h_node_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_hn);
    size[1] = sizeof(t_hl);
    begin(m[k]);
    t_hn r = h_node(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_hn c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_hl c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "h_node");
  }
  finish();
}
static void test_h_list(void)
{
  struct { t_psl p0; t_sl p1; t_hl ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    h_list_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_psl);
    size[1] = sizeof(t_sl);
    begin(m[k]);
    t_hl r = h_list(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_psl c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_sl c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_sl(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_sl(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "h_list");
  }
  finish();
}
static void test_h_slist(void)
{
  struct { t_hn p0; t_sl ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    h_slist_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_hn);
    begin(m[k]);
    t_sl r = h_slist(a[k].p0);
    vf_assert(eq_sl(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_hn c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "h_slist");
  }
  finish();
}
static void test_h_s1(void)
{
  struct { t_hs1 p0; t_hss1 p1; t_hs1 ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    h_s1_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_hs1);
    size[1] = sizeof(t_hss1);
    begin(m[k]);
    t_hs1 r = h_s1(a[k].p0, a[k].p1);
    vf_assert(eq_hs1(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_hs1 c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_hs1(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_hs1(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_hss1 c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_hss1(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_hss1(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "h_s1");
  }
  finish();
}
static void test_h_ss1(void)
{
  struct { t_hss1 p0; t_hss1 ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    h_ss1_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_hss1);
    begin(m[k]);
    t_hss1 r = h_ss1(a[k].p0);
    vf_assert(eq_hss1(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_hss1 c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_hss1(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_hss1(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "h_ss1");
  }
  finish();
}
static void test_h_in(void)
{
  struct { t_pwr p0; t_pwin ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    h_in_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pwr);
    begin(m[k]);
    t_pwin r = h_in(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pwr c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "h_in");
  }
  finish();
}
static void test_h_wr(void)
{
  struct { t_wr p0; t_win p1; t_wr ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    h_wr_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_wr);
    size[1] = sizeof(t_win);
    begin(m[k]);
    t_wr r = h_wr(a[k].p0, a[k].p1);
    vf_assert(eq_wr(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_wr c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_wr(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_wr(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_win c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(eq_win(&c, &a[k].p1), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_win(&x, &e[k].p1), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "h_wr");
  }
  finish();
}
static void test_h_win(void)
{
  struct { t_pwin p0; t_win ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    h_win_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pwin);
    begin(m[k]);
    t_win r = h_win(a[k].p0);
    vf_assert(eq_win(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pwin c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "h_win");
  }
  finish();
}
static void test_h_com(void)
{
  struct { t_pi ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].ret, "ret");
    m[k] = MASKS(0, k, 0);
    h_com_ExpectAndReturn(e[k].ret);
  }
  for (int k = 0; k < CALLS; k++) {
    begin(m[k]);
    t_pi r = h_com();
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    end(0, m[k], "h_com");
  }
  finish();
}
static void test_h_com2(void)
{
  struct { t_cc p0; t_ppc ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    h_com2_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cc);
    begin(m[k]);
    t_ppc r = h_com2(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cc c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "h_com2");
  }
  finish();
}
static void test_h_com3(void)
{
  struct { t_pci p0; t_ui ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    h_com3_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pci);
    begin(m[k]);
    t_ui r = h_com3(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pci c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "h_com3");
  }
  finish();
}
static void test_h_com4(void)
{
  struct { t_i p0; t_cc ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    h_com4_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    begin(m[k]);
    t_cc r = h_com4(a[k].p0);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "h_com4");
  }
  finish();
}
void vf_main(void)
{
  start();
  switch (vf_choice(20, "function")) {
    case 0: test_h_ab(); break;
    case 1: test_h_ba(); break;
    case 2: test_h_cd(); break;
    case 3: test_h_d(); break;
    case 4: test_h_e(); break;
    case 5: test_h_se(); break;
    case 6: test_h_p(); break;
    case 7: test_h_sp(); break;
    case 8: test_h_node(); break;
    case 9: test_h_list(); break;
    case 10: test_h_slist(); break;
    case 11: test_h_s1(); break;
    case 12: test_h_ss1(); break;
    case 13: test_h_in(); break;
    case 14: test_h_wr(); break;
    case 15: test_h_win(); break;
    case 16: test_h_com(); break;
    case 17: test_h_com2(); break;
    case 18: test_h_com3(); break;
    case 19: test_h_com4(); break;
  }
}

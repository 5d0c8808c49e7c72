// Written by tools/mkshapes.py.  Each mock of shapes/system.h: expectations with arbitrary values, then calls with arbitrary values.
#include "mock.h"
#ifndef GENTYPES
#include "system.h"
#endif
#include "easyMock_system.h"
typedef const struct sockaddr *t_csa;
typedef const char *t_cstr;
typedef const struct tm *t_ctm;
typedef DIR *t_dir;
typedef struct dirent *t_dirent;
typedef div_t t_div;
typedef fd_set t_fds;
typedef FILE *t_file;
typedef int t_i;
typedef struct in_addr t_ina;
typedef long t_l;
typedef struct lconv *t_lconv;
typedef ldiv_t t_ldiv;
typedef pthread_attr_t *t_pat;
typedef struct pollfd t_pf;
typedef fd_set *t_pfds;
typedef long *t_pl;
typedef pthread_mutex_t *t_pmt;
typedef struct pollfd *t_ppf;
typedef sem_t *t_psem;
typedef sigset_t *t_pss;
typedef struct stat *t_pstat;
typedef signed char t_sc;
typedef void (*t_sig)(int);
typedef union sigval t_sigv;
typedef struct sockaddr_in t_sin;
typedef void *(*t_thr)(void *);
typedef struct termios *t_tio;
typedef struct timespec t_ts;
typedef struct timeval t_tv;
typedef unsigned char t_uc;
typedef unsigned int t_ui;
typedef unsigned long t_ul;
typedef unsigned short t_us;
typedef void *t_v;
static int eq_ts(const struct timespec *x, const struct timespec *y) { return (x->tv_sec == y->tv_sec) & (x->tv_nsec == y->tv_nsec); }
static int eq_tv(const struct timeval *x, const struct timeval *y) { return (x->tv_sec == y->tv_sec) & (x->tv_usec == y->tv_usec); }
static void test_y_time(void)
{
  struct { t_pl p0; t_ctm p1; t_l ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    y_time_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pl);
    size[1] = sizeof(t_ctm);
    begin(m[k]);
    t_l r = y_time(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pl c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "t"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ctm c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "y_time");
  }
  finish();
}
static void test_y_read(void)
{
  struct { t_i p0; t_v p1; t_ul p2; t_l p3; t_l ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(4, k, 0);
    y_read_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_v);
    size[2] = sizeof(t_ul);
    size[3] = sizeof(t_l);
    begin(m[k]);
    t_l r = y_read(a[k].p0, a[k].p1, a[k].p2, a[k].p3);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_v c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_ul c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "n"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_l c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(c == a[k].p3, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p3, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "off"), "a matcher is not given the name of its parameter");
    }
    end(4, m[k], "y_read");
  }
  finish();
}
static void test_y_open(void)
{
  struct { t_cstr p0; t_ui p1; t_file ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    y_open_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_cstr);
    size[1] = sizeof(t_ui);
    begin(m[k]);
    t_file r = y_open(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_cstr c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ui c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "m"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "y_open");
  }
  finish();
}
static void test_y_stat(void)
{
  struct { t_file p0; t_pstat p1; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    y_stat_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_file);
    size[1] = sizeof(t_pstat);
    begin(m[k]);
    t_i r = y_stat(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_file c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_pstat c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "y_stat");
  }
  finish();
}
static void test_y_ts(void)
{
  struct { t_ts p0; t_i p1; t_ts ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    y_ts_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ts);
    size[1] = sizeof(t_i);
    begin(m[k]);
    t_ts r = y_ts(a[k].p0, a[k].p1);
    vf_assert(eq_ts(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ts c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_ts(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_ts(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_i c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "c"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "y_ts");
  }
  finish();
}
static void test_y_tv(void)
{
  struct { t_tv p0; t_l p1; t_tv ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    y_tv_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_tv);
    size[1] = sizeof(t_l);
    begin(m[k]);
    t_tv r = y_tv(a[k].p0, a[k].p1);
    vf_assert(eq_tv(&r, &e[k].ret), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_tv c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(eq_tv(&c, &a[k].p0), "a matcher is not given the actual value of its parameter");
      vf_assert(eq_tv(&x, &e[k].p0), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_l c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "u"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "y_tv");
  }
  finish();
}
static void test_y_bind(void)
{
  struct { t_i p0; t_csa p1; t_ui p2; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    y_bind_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_csa);
    size[2] = sizeof(t_ui);
    begin(m[k]);
    t_i r = y_bind(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_csa c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_ui c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "n"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "y_bind");
  }
  finish();
}
static void test_y_in(void)
{
  struct { t_ina p0; t_us p1; t_sin ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    y_in_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ina);
    size[1] = sizeof(t_us);
    begin(m[k]);
    t_sin r = y_in(a[k].p0, a[k].p1);
    vf_assert(!memcmp(&r, &e[k].ret, 16), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ina c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p0, 4), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p0, 4), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_us c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "y_in");
  }
  finish();
}
static void test_y_sel(void)
{
  struct { t_pfds p0; t_pss p1; t_fds p2; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    y_sel_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_pfds);
    size[1] = sizeof(t_pss);
    size[2] = sizeof(t_fds);
    begin(m[k]);
    t_i r = y_sel(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_pfds c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_pss c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_fds c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p2, 128), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p2, 128), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "y_sel");
  }
  finish();
}
static void test_y_thr(void)
{
  struct { t_ul p0; t_pat p1; t_pmt p2; t_thr p3; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(4, k, 0);
    y_thr_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ul);
    size[1] = sizeof(t_pat);
    size[2] = sizeof(t_pmt);
    size[3] = sizeof(t_thr);
    begin(m[k]);
    t_i r = y_thr(a[k].p0, a[k].p1, a[k].p2, a[k].p3);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ul c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "t"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_pat c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_pmt c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_thr c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(c == a[k].p3, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p3, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "p4"), "a matcher is not given the name of its parameter");
    }
    end(4, m[k], "y_thr");
  }
  finish();
}
static void test_y_poll(void)
{
  struct { t_ppf p0; t_ul p1; t_pf p2; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(3, k, 0);
    y_poll_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ppf);
    size[1] = sizeof(t_ul);
    size[2] = sizeof(t_pf);
    begin(m[k]);
    t_i r = y_poll(a[k].p0, a[k].p1, a[k].p2);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ppf c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ul c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "n"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_pf c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p2, 8), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p2, 8), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "p3"), "a matcher is not given the name of its parameter");
    }
    end(3, m[k], "y_poll");
  }
  finish();
}
static void test_y_loc(void)
{
  struct { t_lconv ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].ret, "ret");
    m[k] = MASKS(0, k, 0);
    y_loc_ExpectAndReturn(e[k].ret);
  }
  for (int k = 0; k < CALLS; k++) {
    begin(m[k]);
    t_lconv r = y_loc();
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    end(0, m[k], "y_loc");
  }
  finish();
}
static void test_y_dir(void)
{
  struct { t_dirent p0; t_ul p1; t_dir ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    y_dir_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_dirent);
    size[1] = sizeof(t_ul);
    begin(m[k]);
    t_dir r = y_dir(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_dirent c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ul c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "i"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "y_dir");
  }
  finish();
}
static void test_y_tty(void)
{
  struct { t_tio p0; t_uc p1; t_ui ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    y_tty_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_tio);
    size[1] = sizeof(t_uc);
    begin(m[k]);
    t_ui r = y_tty(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_tio c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_uc c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "c"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "y_tty");
  }
  finish();
}
static void test_y_div(void)
{
  struct { t_i p0; t_ldiv p1; t_div ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    y_div_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_ldiv);
    begin(m[k]);
    t_div r = y_div(a[k].p0, a[k].p1);
    vf_assert(!memcmp(&r, &e[k].ret, 8), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ldiv c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p1, 16), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p1, 16), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "y_div");
  }
  finish();
}
static void test_y_max(void)
{
  struct { t_ul p0; t_l p1; t_sc p2; t_ul p3; t_l ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(4, k, 0);
    y_max_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ul);
    size[1] = sizeof(t_l);
    size[2] = sizeof(t_sc);
    size[3] = sizeof(t_ul);
    begin(m[k]);
    t_l r = y_max(a[k].p0, a[k].p1, a[k].p2, a[k].p3);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ul c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_l c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_sc c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "c"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_ul c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(c == a[k].p3, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p3, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "d"), "a matcher is not given the name of its parameter");
    }
    end(4, m[k], "y_max");
  }
  finish();
}
static void test_y_sig(void)
{
  struct { t_i p0; t_sig p1; t_sig ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    y_sig_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_i);
    size[1] = sizeof(t_sig);
    begin(m[k]);
    t_sig r = y_sig(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_i c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_sig c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "y_sig");
  }
  finish();
}
static void test_y_sem(void)
{
  struct { t_psem p0; t_sig p1; t_psem ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(2, k, 0);
    y_sem_ExpectAndReturn(e[k].p0, e[k].p1, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_psem);
    size[1] = sizeof(t_sig);
    begin(m[k]);
    t_psem r = y_sem(a[k].p0, a[k].p1);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_psem c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_sig c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "p2"), "a matcher is not given the name of its parameter");
    }
    end(2, m[k], "y_sem");
  }
  finish();
}
static void test_y_sv(void)
{
  struct { t_sigv p0; t_sigv ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(1, k, 0);
    y_sv_ExpectAndReturn(e[k].p0, e[k].ret, m[k] >> 0 & 1 ? M0 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_sigv);
    begin(m[k]);
    t_sigv r = y_sv(a[k].p0);
    vf_assert(!memcmp(&r, &e[k].ret, 8), "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_sigv c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(!memcmp(&c, &a[k].p0, 8), "a matcher is not given the actual value of its parameter");
      vf_assert(!memcmp(&x, &e[k].p0, 8), "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "p1"), "a matcher is not given the name of its parameter");
    }
    end(1, m[k], "y_sv");
  }
  finish();
}
static void test_y_fork(void)
{
  struct { t_ui p0; t_ui p1; t_ul p2; t_l p3; t_i ret; char unused; } e[CALLS], a[CALLS];
  unsigned m[CALLS];
  for (int k = 0; k < CALLS; k++) {
    SYM(e[k].p0, "expected0");
    SYM(a[k].p0, "actual0");
    SYM(e[k].p1, "expected1");
    SYM(a[k].p1, "actual1");
    SYM(e[k].p2, "expected2");
    SYM(a[k].p2, "actual2");
    SYM(e[k].p3, "expected3");
    SYM(a[k].p3, "actual3");
    SYM(e[k].ret, "ret");
    m[k] = MASKS(4, k, 0);
    y_fork_ExpectAndReturn(e[k].p0, e[k].p1, e[k].p2, e[k].p3, e[k].ret, m[k] >> 0 & 1 ? M0 : 0, m[k] >> 1 & 1 ? M1 : 0, m[k] >> 2 & 1 ? M2 : 0, m[k] >> 3 & 1 ? M3 : 0);
  }
  for (int k = 0; k < CALLS; k++) {
    size[0] = sizeof(t_ui);
    size[1] = sizeof(t_ui);
    size[2] = sizeof(t_ul);
    size[3] = sizeof(t_l);
    begin(m[k]);
    t_i r = y_fork(a[k].p0, a[k].p1, a[k].p2, a[k].p3);
    vf_assert(r == e[k].ret, "the mock does not return the value given to its expectation");
    if (m[k] >> 0 & 1) {
      t_ui c, x; memcpy(&c, cur[0], sizeof c); memcpy(&x, xp[0], sizeof x);
      vf_assert(c == a[k].p0, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p0, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[0], "a"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 1 & 1) {
      t_ui c, x; memcpy(&c, cur[1], sizeof c); memcpy(&x, xp[1], sizeof x);
      vf_assert(c == a[k].p1, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p1, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[1], "b"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 2 & 1) {
      t_ul c, x; memcpy(&c, cur[2], sizeof c); memcpy(&x, xp[2], sizeof x);
      vf_assert(c == a[k].p2, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p2, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[2], "c"), "a matcher is not given the name of its parameter");
    }
    if (m[k] >> 3 & 1) {
      t_l c, x; memcpy(&c, cur[3], sizeof c); memcpy(&x, xp[3], sizeof x);
      vf_assert(c == a[k].p3, "a matcher is not given the actual value of its parameter");
      vf_assert(x == e[k].p3, "a matcher is not given the expected value of its parameter");
      vf_assert(!strcmp(pname[3], "d"), "a matcher is not given the name of its parameter");
    }
    end(4, m[k], "y_fork");
  }
  finish();
}
void vf_main(void)
{
  start();
  switch (vf_choice(20, "function")) {
    case 0: test_y_time(); break;
    case 1: test_y_read(); break;
    case 2: test_y_open(); break;
    case 3: test_y_stat(); break;
    case 4: test_y_ts(); break;
    case 5: test_y_tv(); break;
    case 6: test_y_bind(); break;
    case 7: test_y_in(); break;
    case 8: test_y_sel(); break;
    case 9: test_y_thr(); break;
    case 10: test_y_poll(); break;
    case 11: test_y_loc(); break;
    case 12: test_y_dir(); break;
    case 13: test_y_tty(); break;
    case 14: test_y_div(); break;
    case 15: test_y_max(); break;
    case 16: test_y_sig(); break;
    case 17: test_y_sem(); break;
    case 18: test_y_sv(); break;
    case 19: test_y_fork(); break;
  }
}

// Matchers which record what a generated mock hands to them, and the checks common to all mocked functions.
#ifndef MOCK_H
#define MOCK_H
#include "vf.h"
#include <string.h>
#include <stdio.h>
#include <easyMock.h>
#ifndef CALLS
#define CALLS 2
#endif
#ifndef NP
#define NP 8
#endif
#ifndef VALUE
#define VALUE 128
#endif
#define SYM(v, name) vf_symbolic(&(v), sizeof(v), name)
#define SYMB(v, name) (*(unsigned char *)&(v) = (unsigned char)vf_range(2, name))
static unsigned size[NP], called[NP];
static unsigned char cur[NP][VALUE], xp[NP][VALUE];
static char pname[NP][100], msg[NP][EASYMOCK_MAX_CMP_ERR];
static int rc[NP], before, anyBad;
static int record(int j, const void *c, const void *x, const char *n, char *m)
{
  called[j]++;
  memcpy(cur[j], c, size[j]);
  memcpy(xp[j], x, size[j]);
  strncpy(pname[j], n, 99);
  vf_assert(m[0] == 0, "a matcher is not given an empty message");
  strcpy(m, msg[j]);
  return rc[j];
}
#define M(j) static int M##j(const void *c, const void *x, const char *n, char *m) { return record(j, c, x, n, m); }
M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7)
#if NP > 8
M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15) M(16)
#endif
static unsigned count(void) { unsigned n; easyMock_getErrorArr(&n); return n; }
static unsigned MASKS(unsigned n, int k, int few)
{
  if (n == 0) return 0;
  if (n == 1) return vf_choice(2, "matcher");
  if (few > 1) { unsigned c = vf_choice(n + 1, "matchers"); return c < n ? 1u << c : 0; }   // at most one of many parameters
  // every one of a small number of parameters, otherwise none, all or any single one; later calls: none or all
  if (k > 0) return vf_choice(2, "matchers") ? (1u << n) - 1 : 0;
  if (n == 2) return vf_choice(4, "matchers");
  unsigned c = vf_choice(n + (few ? 1 : 2), "matchers");
  return c < n ? 1u << c : c == n ? 0 : (1u << n) - 1;
}
static void start(void) { easyMock_setPrintCallStack(0); easyMock_setCheckCallsOrder(0); easyMock_init(); anyBad = 0; }
static void begin(unsigned mask)
{
  before = (int)count();
  for (int j = 0; j < NP; j++) {
    called[j] = 0;
    sprintf(msg[j], "message <%d>", j);
    if (mask >> j & 1) SYM(rc[j], "verdict");
  }
#ifdef LONG_MESSAGE
  memset(msg[0], 'z', EASYMOCK_MAX_CMP_ERR - 1);
#endif
}
static void end(int n, unsigned mask, const char *fn)
{
  int bad = 0, added = (int)count() - before;
  unsigned tot;
  const char **e = easyMock_getErrorArr(&tot);
  for (int j = 0; j < n; j++) {
    vf_assert(called[j] == (mask >> j & 1), "a matcher is not called exactly once per call with its parameter, or one that was not given is called");
    if ((mask >> j & 1) && rc[j]) {
      int found = 0;
      for (int k = before; k < before + added; k++) found += strstr(e[k], msg[j]) != 0;
      vf_assert(found == 1, "the message of a rejecting matcher is not in exactly one error");
      bad++;
    }
  }
  vf_assert(added == bad, "a call does not add exactly one error per rejecting matcher");
  for (int k = before; k < before + added; k++) vf_assert(strstr(e[k], fn) != 0, "an error of a call does not name the function");
  if (bad) { anyBad = 1; vf_reach("rejected"); } else vf_reach("accepted");
}
static void finish(void) { vf_assert(easyMock_check() == !anyBad, "check succeeds exactly when no matcher rejected"); }
#endif

// One mocked function's queue of expected calls, up to and beyond its capacity: data handed back intact and in order,
// counts exact, memory owned and released, exhaustion reported and never written past.
#include "vf.h"
#include <string.h>
#include <easyMock.h>
#include <MockedFunction.h>
#ifndef SIZES
#define SIZES {1, 7, 8, 301}
#endif
#ifndef COUNTS
#define COUNTS {0, 1, 2, 255, 256}
#endif
#define N(a) (sizeof(a) / sizeof((a)[0]))
#ifdef BIG
#define NEXT(b) ((b) < 8 || (b) + 8 >= size ? (b) + 1 : (b) + 509 < size - 8 ? (b) + 509 : size - 8)
#else
#define NEXT(b) ((b) + 1)
#endif
static const unsigned SZ[] = SIZES, CN[] = COUNTS;
static struct { MockedFunction mf; unsigned char canary[64]; } m;
static int failAt = -1, nalloc, failed, atCapacity, exits;
int vf_hook_malloc_fails(size_t n) { (void)n; if (failAt >= 0 && nalloc++ == failAt) { failed = 1; return 1; } return 0; }
static unsigned char canary;
void vf_on_exit(int code)
{
  for (unsigned b = 0; b < sizeof m.canary; b++) vf_assert(m.canary[b] == canary, "memory behind the mock is written");
  vf_assert(failed || atCapacity, "the program exits although memory and room were available");
  vf_assert(code != 0, "exit status does not signal an error");
  vf_reach(failed ? "exit-no-memory" : "exit-capacity");
}
void vf_main(void)
{
  unsigned size = SZ[vf_choice(N(SZ), "size")], n = CN[vf_choice(N(CN), "count")];
  #ifdef BIG
  static unsigned char first[BIG], last[BIG], filler[BIG], got[BIG + 64];
#else
  unsigned char first[301], last[301], filler[301], got[365];
#endif
#ifdef BIG   // large data: only its ends are symbolic
  memset(first, 1, size); memset(last, 2, size);
  vf_symbolic(first, 8, "first"); vf_symbolic(first + size - 8, 8, "first");
  vf_symbolic(last, 8, "last"); vf_symbolic(last + size - 8, 8, "last");
#else
  vf_symbolic(first, size, "first");
  vf_symbolic(last, size, "last");
#endif
  memset(filler, 0xa5, sizeof filler);
  // what lies behind the mock may look like a free slot
  canary = n == EASYMOCK_MAX_MOCKED_CALL && vf_choice(2, "zero_behind") ? 0 : 0xee;
  memset(&m, canary, sizeof m);
  easyMock_init();
  size_t live = vf_heap_live();
  MockedFunction_init(&m.mf, "void f()", size);
  vf_assert(MockedFunction_getNbActualCall(&m.mf) == 0 && !strcmp(MockedFunction_getName(&m.mf), "void f()"), "a new mock is not empty or has another name");
#ifdef FAILING
  failAt = (int[]){0, 1, 5}[vf_choice(3, "failing_allocation")];
#endif
  for (unsigned i = 0; i < n; i++) {
    MockedFunction_addExpectedCall(&m.mf, i == 0 ? first : i == n - 1 ? last : filler);
    vf_assert(!failed, "an expectation is accepted although there was no memory for it");
  }
#ifdef OVER
  if (n == EASYMOCK_MAX_MOCKED_CALL) {
    atCapacity = 1;
    MockedFunction_addExpectedCall(&m.mf, last);
    vf_fail("more expectations than the capacity are accepted silently");
  }
#endif
  unsigned calls = (unsigned[]){0, n > 0 ? n - 1 : 0, n, n + 1}[vf_choice(4, "calls")];
  for (unsigned i = 0; i < calls; i++) {
    int ok = MockedFunction_addActualCall(&m.mf) != 0;
    vf_assert(ok == (i < n), "a call is expected exactly while fewer calls than expectations were made");
    vf_assert(MockedFunction_getNbActualCall(&m.mf) == i + 1, "the number of calls is wrong");
    if (!ok) continue;
    memset(got, 0xcc, sizeof got);
    vf_assert(MockedFunction_getCurrentCallParam(&m.mf, got) != 0, "the data of an expected call is not available");
    const unsigned char *e = i == 0 ? first : i == n - 1 ? last : filler;
    for (unsigned b = 0; b < size; b = NEXT(b)) vf_assert(got[b] == e[b], "the data handed back for the n-th call is not that of the n-th expectation");
    for (unsigned b = size; b < sizeof got; b++) vf_assert(got[b] == 0xcc, "more data is handed back than an expectation holds");
  }
  unsigned before, after;
  easyMock_getErrorArr(&before);
  vf_assert((MockedFunction_verify(&m.mf) != 0) == (calls == n), "verify succeeds exactly when there were as many calls as expectations");
  const char **e = easyMock_getErrorArr(&after);
  vf_assert(after == before + (calls != n), "verify reports an error exactly when it fails");
  if (calls != n) { vf_assert(strstr(e[before], "void f()") != 0, "the error of a wrong number of calls does not name the function"); vf_reach("count-mismatch"); }
  MockedFunction_reset(&m.mf);
  easyMock_init();
  vf_assert(MockedFunction_verify(&m.mf) != 0, "a mock that was reset still expects calls");
  vf_assert(MockedFunction_getNbActualCall(&m.mf) == 0, "a mock that was reset still counts calls");
  if (calls == n) vf_assert(vf_heap_live() == live, "memory is still held after a reset");
  // usable again
  MockedFunction_addExpectedCall(&m.mf, last);
  vf_assert(!failed, "an expectation is accepted although there was no memory for it");
  vf_assert(MockedFunction_addActualCall(&m.mf) != 0 && MockedFunction_getCurrentCallParam(&m.mf, got) != 0, "a mock cannot be used again after a reset");
  for (unsigned b = 0; b < size; b = NEXT(b)) vf_assert(got[b] == last[b], "after a reset the data handed back is not that of the expectation");
  for (unsigned b = 0; b < sizeof m.canary; b++) vf_assert(m.canary[b] == canary, "memory behind the mock is written");
  vf_reach("end");
}

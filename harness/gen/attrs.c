// Functions declared with attributes: their mocks are weak, so that the program's own definition replaces them, exactly
// when the header used says so.
#include "vf.h"
#include <string.h>
#include <easyMock.h>
#include "easyMock_attrs.h"
#define WEAK_FUNCTIONS(X) X(weak_after, 1) X(weak_before, 2) X(weak_between, 3) X(weak_macro, 4) X(weak_macro_before, 5) X(weak_two, 6) X(weak_underscores, 20)
#define STRONG_FUNCTIONS(X) X(plain, 8) X(cold, 9) X(hidden, 10) X(unused_result, 11) X(pure, 13) X(with, 15) X(param, 16) X(strings, 17) X(elsewhere, 21)
static unsigned count(void) { unsigned n; easyMock_getErrorArr(&n); return n; }
static int value(const char *n) { int v; vf_symbolic(&v, sizeof v, n); return v; }
static void after(int m, int c, int x)
{
  int bad = m & (c != x);
  vf_assert(count() == (unsigned)bad, "a call must add an error exactly when its matcher rejects");
  vf_assert(easyMock_check() == !bad, "check succeeds exactly when no matcher rejected");
  vf_reach("mocked");
}
#define TEST_MOCK(f, k) \
  static void t_##f(void) \
  { \
    int x = value("expected"), c = value("argument"), r = value("return"), m = (int)vf_choice(2, "matcher"); \
    f##_ExpectAndReturn(x, r, m ? cmp_int : 0); \
    vf_assert(f(c) == r, "the mock does not return the value given to its expectation"); \
    after(m, c, x); \
  }
#define TEST_OWN(f, k) \
  static void t_##f(void) \
  { \
    int c = value("argument"); \
    vf_assert(f(c) == (c ^ k), "the program's own definition does not replace the mock of a function declared weak"); \
    vf_assert(count() == 0 && easyMock_check() == 1, "calling the program's own definition fails the check"); \
    vf_reach("own"); \
  }
#if SET == 1
WEAK_FUNCTIONS(TEST_MOCK)
#else
WEAK_FUNCTIONS(TEST_OWN)
#endif
STRONG_FUNCTIONS(TEST_MOCK)
static void t_weak_format(void)
{
  int c = value("argument"), x = value("expected"), r = value("return"), m = (int)vf_choice(2, "matcher");
#if SET == 1
  weak_format_ExpectAndReturn(x, "f", r, m ? cmp_int : 0, 0);
  vf_assert(weak_format(c, "f", 1) == r, "the mock does not return the value given to its expectation");
  after(m, c, x);
#else
  vf_assert(weak_format(c, "f%d", 1) == (c ^ 7), "the program's own definition does not replace the mock of a function declared weak");
  vf_assert(count() == 0, "calling the program's own definition adds an error");
#endif
}
static void t_format(void)
{
  int c = value("argument"), x = value("expected"), r = value("return"), m = (int)vf_choice(2, "matcher");
  format_ExpectAndReturn(x, "f", r, m ? cmp_int : 0, 0);
  vf_assert(format(c, "f%d", 1) == r, "the mock does not return the value given to its expectation");
  after(m, c, x);
}
static void t_nonnull(void)
{
  int c = value("argument"), x = value("expected"), r = value("return"), m = (int)vf_choice(2, "matcher");
  nonnull_ExpectAndReturn(x, "f", r, m ? cmp_int : 0, 0);
  vf_assert(nonnull(c, "g") == r, "the mock does not return the value given to its expectation");
  after(m, c, x);
}
#define TEST_NONNULLS(f) \
  static void t_##f(void) \
  { \
    int c = value("argument"), x = value("expected"), r = value("return"), m = (int)vf_choice(2, "matcher"); \
    f##_ExpectAndReturn(x, "f", "g", r, m ? cmp_int : 0, 0, 0); \
    vf_assert(f(c, "g", "h") == r, "the mock does not return the value given to its expectation"); \
    after(m, c, x); \
  }
TEST_NONNULLS(nonnulls)
static void t_sized(void)
{
  static long room[4];
  int c = value("argument"), x = value("expected"), n = value("argument"), m = (int)vf_choice(2, "matcher");
  sized_ExpectAndReturn(x, n, room, m ? cmp_int : 0, cmp_int);
  void *volatile r = sized(c, n);
  vf_assert(r == room, "the mock does not return the value given to its expectation");
  after(m, c, x);
}
extern int ended;
#define TEST_STOPS(f) \
  static void t_##f(void) \
  { \
    int c = value("argument"), x = value("expected"), m = (int)vf_choice(2, "matcher"); \
    CALL_STOPS(f) \
  }
#if TYPES   // the mock comes without the attribute, so it returns
#define CALL_STOPS(f) f##_ExpectAndReturn(x, m ? cmp_int : 0); f(c); after(m, c, x);
#else       // not mocked
#define CALL_STOPS(f) void (*volatile called)(int) = (void (*)(int))f; (void)x, (void)m; called(c); vf_assert(ended == c, "a function declared noreturn is mocked although its header is used");
#endif
TEST_STOPS(stops)
TEST_STOPS(stops_too)
#define ENTRY(f, k) t_##f,
static void (*const TESTS[])(void) = {WEAK_FUNCTIONS(ENTRY) STRONG_FUNCTIONS(ENTRY) t_weak_format, t_format, t_nonnull, t_nonnulls, t_sized, t_stops, t_stops_too};
void vf_main(void)
{
  easyMock_setPrintCallStack(0);
  easyMock_setCheckCallsOrder(0);
  easyMock_init();
  TESTS[vf_choice(sizeof TESTS / sizeof *TESTS, "function")]();
}

// Which functions of shapes/select.h are mocked under the options given: these behave as mocks; all others are the
// functions defined here or in the header (a mock of one of these would be a second definition).
#include "vf.h"
#include <string.h>
#include <easyMock.h>
#include "easyMock_select.h"
#define ALWAYS(X) X(again) X(again_typedef) X(first_of) X(second_of) X(third_of) X(enabled) X(one_made) X(two_made) X(same_line) X(next) X(commented) X(multi) X(target)
#define NONE(X)
#define NEVER(X) X(aliased) X(called) X(same)   // names of macros
#define HEADER(X) X(local_decl) X(local_body) X(inline_body) X(inline_gnu) X(defined_static) X(declared_then_defined)
#if SET == 0      // no option
#define MOCKED(X) X(alpha) X(beta) X(gamma_) X(alphabet) ALWAYS(X) X(less)
#define REAL(X) NEVER(X) X(included) X(included_too)
#elif SET == 1    // --mock-only alpha --mock-only gamma_ --mock-only first_of --mock-only inline_body --mock-only nothing
#define MOCKED(X) X(alpha) X(gamma_) X(first_of)
#define REAL(X) X(included) X(included_too) X(beta) X(alphabet) X(again) X(again_typedef) X(second_of) X(third_of) X(enabled) X(one_made) X(two_made) X(same_line) X(next) X(commented) X(multi) X(target) X(less) NEVER(X)
#elif SET == 2    // --ignore-generation-of alpha --ignore-generation-of third_of --ignore-generation-of again --ignore-generation-of nothing
#define MOCKED(X) X(beta) X(gamma_) X(alphabet) X(again_typedef) X(first_of) X(second_of) X(enabled) X(one_made) X(two_made) X(same_line) X(next) X(commented) X(multi) X(target) X(less)
#define REAL(X) NEVER(X) X(included) X(included_too) X(alpha) X(third_of) X(again)
#elif SET == 3    // --generate-included-functions
#define MOCKED(X) X(alpha) X(beta) X(gamma_) X(alphabet) ALWAYS(X) X(included) X(included_too) X(less)
#define REAL NEVER
#elif SET == 4    // --generate-included-functions --ignore-generation-of included --ignore-generation-of beta
#define MOCKED(X) X(alpha) X(gamma_) X(alphabet) ALWAYS(X) X(included_too) X(less)
#define REAL(X) NEVER(X) X(included) X(beta)
#elif SET == 5    // --generate-included-functions --mock-only included_too --mock-only beta
#define MOCKED(X) X(included_too) X(beta)
#define REAL(X) NEVER(X) X(alpha) X(gamma_) X(alphabet) ALWAYS(X) X(included) X(less)
#elif SET == 6    // --mock-only alpha --mock-only beta --ignore-generation-of beta
#define MOCKED(X) X(alpha)
#define REAL(X) NEVER(X) X(included) X(included_too) X(beta) X(gamma_) X(alphabet) ALWAYS(X) X(less)
#elif SET == 7    // arguments of the parser: -DMORE=2 -I.
#define MOCKED(X) X(alpha) X(beta) X(gamma_) X(alphabet) ALWAYS(X) X(more) X(many)
#define REAL(X) NEVER(X) X(included) X(included_too) X(included_more)
#elif SET == 8    // --generate-types: the header is not used, all of its functions are mocked
#define MOCKED(X) X(alpha) X(beta) X(gamma_) X(alphabet) ALWAYS(X) X(less) HEADER(X)
#define REAL NONE
#elif SET == 9    // --generate-types, -DMORE=1 -I. --generate-included-functions --ignore-generation-of included --ignore-generation-of local_body
#define MOCKED(X) X(alpha) X(beta) X(gamma_) X(alphabet) ALWAYS(X) X(more) X(included_more) X(included_too) X(included_inline) X(local_decl) X(inline_body) X(inline_gnu) X(defined_static) X(declared_then_defined)
#define REAL NONE
#elif SET == 10   // --generate-types --mock-only inline_body --mock-only local_decl --mock-only beta
#define MOCKED(X) X(inline_body) X(local_decl) X(beta)
#define REAL NONE
#endif
#undef aliased
#undef called
#undef same
#define ONLY_FEW (SET == 1 || SET == 5 || SET == 6 || SET == 10)
#define TYPES (SET >= 8)
#define DEFINE(f) int f(int v) { return v ^ (int)sizeof(#f); }
REAL(DEFINE)
#if ONLY_FEW && !TYPES
int with_struct(struct inc p) { return p.x; }
#endif
static unsigned count(void) { unsigned n; easyMock_getErrorArr(&n); return n; }
static int value(const char *n) { int v; vf_symbolic(&v, sizeof v, n); return v; }
#define TEST_MOCKED(f) \
  static void t_##f(void) \
  { \
    int x = value("expected"), c = value("argument"), r = value("return"), m = (int)vf_choice(2, "matcher"); \
    f##_ExpectAndReturn(x, r, m ? cmp_int : 0); \
    vf_assert(f(c) == r, "the mock does not return the value given to its expectation"); \
    unsigned bad = m & (c != x), n = count(); \
    vf_assert(n == bad, "a call must add an error exactly when its matcher rejects"); \
    vf_assert(easyMock_check() == !bad, "check succeeds exactly when no matcher rejected"); \
    f(c); \
    vf_assert(count() == n + 1, "a call without expectation must add one error"); \
    vf_assert(easyMock_check() == 0, "check succeeds although there was a call without expectation"); \
    vf_reach("mocked"); \
  }
#define TEST_REAL(f) \
  static void t_##f(void) \
  { \
    int c = value("argument"); \
    vf_assert(f(c) == (c ^ (int)sizeof(#f)), "a function which is not to be mocked is not the program's own"); \
    vf_assert(easyMock_check() == 1, "calling a function which is not mocked fails the check"); \
    vf_reach("real"); \
  }
MOCKED(TEST_MOCKED)
REAL(TEST_REAL)
static void t_defined(void)
{
#if !TYPES
  int c = value("argument");
  vf_assert(local_body(c) == (int)(c + 1u) && inline_body(c) == (int)(c + 2u) && inline_gnu(c) == (int)(c + 3u) && defined_static(c) == (int)(c + 4u) && declared_then_defined(c) == (int)(c + 5u) && local_decl(c) == (int)(c + 6u)
              && included_inline(c) == (int)(c + 20u), "a function defined in the header is not what the header says");
#endif
  vf_assert(easyMock_check() == 1, "calling a function defined in the header fails the check");
}
static void t_struct(void)
{
#if !ONLY_FEW
  struct inc p = {value("argument")};
  int r = value("return");
  with_struct_ExpectAndReturn(p, r, 0);
  vf_assert(with_struct(p) == r, "the mock does not return the value given to its expectation");
#endif
  vf_assert(easyMock_check() == 1, "check fails although all was as expected");
}
#define ENTRY(f) t_##f,
static void (*const TESTS[])(void) = {MOCKED(ENTRY) REAL(ENTRY) t_defined, t_struct};
int variable;
void vf_main(void)
{
  easyMock_setPrintCallStack(0);
  easyMock_setCheckCallsOrder(0);
  easyMock_init();
  TESTS[vf_choice(sizeof TESTS / sizeof *TESTS, "function")]();
}

// A header which another tool has written, with #line directives: each of its functions is mocked.
#include "vf.h"
#include <string.h>
#include <easyMock.h>
#include "lines.h"
#include "easyMock_lines.h"
static int (*const call[])(int) = {first, second, third, fourth, fifth};
static void (*const expect[])(int, int, EasyMock_Matcher) = {first_ExpectAndReturn, second_ExpectAndReturn, third_ExpectAndReturn, fourth_ExpectAndReturn, fifth_ExpectAndReturn};
static unsigned errors(void) { unsigned n; easyMock_getErrorArr(&n); return n; }
void vf_main(void)
{
  unsigned i = vf_choice(5, "function"), j = vf_choice(5, "function");
  int a, b, r;
  VF_SYM(a, "expected"); VF_SYM(b, "value"); VF_SYM(r, "return value");
  easyMock_init();
  expect[i](a, r, cmp_int);
  vf_assert(call[i](b) == r, "the call does not return the value of its expectation");
  vf_assert(errors() == (a != b), "a mismatch is not reported once, or a match is");
  vf_assert(easyMock_check() == (a == b), "check's verdict is wrong");
  unsigned n = errors();
  call[j](b);
  vf_assert(errors() == n + 1, "an unexpected call is not reported once");
  vf_reach("called");
}

// A header of 300 functions: any one of them is mocked like the others, and init and check reach it.
#include "vf.h"
#include <string.h>
#include <stdio.h>
#include <easyMock.h>
#include "many.h"
#include "easyMock_many.h"
#define F(n) fun_##n,
static int (*const call[])(int) = {
#include "many.inc"
};
#undef F
#define F(n) fun_##n##_ExpectAndReturn,
static void (*const expect[])(int, int, EasyMock_Matcher) = {
#include "many.inc"
};
#define N (int)(sizeof call / sizeof call[0])
static unsigned errors(void) { unsigned n; easyMock_getErrorArr(&n); return n; }
void vf_main(void)
{
  int i = N - 1 - 5 * (int)vf_choice(60, "function"), j = (i + (vf_choice(2, "next") ? 1 : 256)) % N, a, b, r;
  char ni[16], nj[16];
  sprintf(ni, "fun_%d(", i); sprintf(nj, "fun_%d(", j);
  VF_SYM(a, "expected"); VF_SYM(b, "value"); VF_SYM(r, "return value");
  easyMock_init();
  expect[i](a, r, cmp_int);
  vf_assert(easyMock_check() == 0, "check succeeds although an expected call is missing");
  easyMock_init();
  vf_assert(easyMock_check() == 1, "init leaves an expectation behind");
  easyMock_init();
  expect[i](a, r, cmp_int);
  vf_assert(call[i](b) == r, "the call does not return the value of its expectation");
  vf_assert(errors() == (a != b), "a mismatch is not reported once, or a match is");
  vf_assert(easyMock_check() == (a == b), "check's verdict is wrong");
  if (a != b) { unsigned n; vf_assert(strstr(easyMock_getErrorArr(&n)[0], ni) != 0, "the error of a mismatch does not name the function"); vf_reach("rejected"); return; }
  call[j](b);
  unsigned n;
  const char **e = easyMock_getErrorArr(&n);
  vf_assert(n == 1 && strstr(e[0], "unexpected call") && strstr(e[0], nj), "an unexpected call is not reported once, with the function's name");
  vf_reach("accepted");
}

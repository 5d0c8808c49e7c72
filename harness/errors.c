// The error list: every reported error is kept, in order, exactly as formatted, in both the array and the text, until
// init; with the call stack on, an entry starts with the message and a line break.
#include "vf.h"
#include <string.h>
#include <stdio.h>
#include <easyMock.h>
#ifndef K
#define K 3
#endif
#ifndef BIG
#define BIG 0
#endif
static char text[K][700 + BIG];     // full message as formatted
static int stack_[K];
static int n;
static int started(const char *e, const char *m) { size_t l = strlen(m); return strncmp(e, m, l) == 0; }
static void verify(void)
{
  unsigned got = 77;
  const char **a = easyMock_getErrorArr(&got);
  vf_assert((int)got == n, "the number of errors listed differs from the number reported since init");
  vf_assert((a == 0) == (n == 0), "the error array is null exactly when there is no error");
  if (a) vf_assert(a[n] == 0, "the error array is not terminated by a null pointer");
  for (int i = 0; i < n; i++) {
    size_t l = strlen(text[i]);
    vf_assert(strncmp(a[i], text[i], l) == 0, "a listed error does not start with the reported message");
    if (stack_[i]) vf_assert(a[i][l] == '\n' && a[i][l + 1] == '\r', "the call stack does not follow the message on a line of its own");
    else vf_assert(a[i][l] == 0, "a listed error continues after the reported message");
  }
  const char *s = easyMock_getErrorStr();
  vf_assert((s == 0) == (n == 0), "the error text is null exactly when there is no error");
  if (s) {
    // the array may be asked for again; the text is the errors in order, one line break after each
    a = easyMock_getErrorArr(&got);
    vf_assert((int)got == n, "asking for the text changes the errors");
    for (int i = 0; i < n; i++) {
      size_t l = strlen(a[i]);
      vf_assert(strncmp(s, a[i], l) == 0, "the error text is not the concatenation of the errors in order");
      s += l;
      vf_assert(s[0] == '\n' && s[1] == '\r', "an error is not followed by a line break in the error text");
      s += 2;
    }
    vf_assert(*s == 0, "the error text continues after the last error");
  }
  vf_assert(easyMock_check() == (n == 0), "check succeeds exactly when no error is listed");
}
static void report(void)
{
#if BIG    // long messages: their ends are symbolic
  static char str[BIG + 1];
  int len = (int[]){BIG, 1023}[vf_choice(2, "string_length")];
  memset(str, 'm', len);
  for (int i = 0; i < len; i++) {
    if (i == 4) i = len - 4;
    vf_symbolic(str + i, 1, "string");
    vf_assume(str[i] != 0);
  }
#else
  char str[300];
  int len = (int[]){0, 1, 2, 15, 260}[vf_choice(5, "string_length")];
  vf_symbolic(str, len, "string");
  for (int i = 0; i < len; i++) vf_assume(str[i] != 0);
#endif
  str[len] = 0;
  int v = (int[]){0, -1, 2147483647, -2147483647 - 1}[vf_choice(2, "number")];
  int st = stack_[n] = (int)vf_choice(2, "callstack");
  switch (vf_choice(3, "format")) {
    case 0: easyMock_addError(st, "%s", str); sprintf(text[n], "%s", str); break;
    case 1: easyMock_addError(st, "Error : at call %d of '%s': %s", v, str, "x"); sprintf(text[n], "Error : at call %d of '%s': %s", v, str, "x"); break;
    case 2: easyMock_addError(st, "100%% plain"); strcpy(text[n], "100% plain"); vf_reach("percent"); break;
  }
  n++;
}
void vf_main(void)
{
  easyMock_init();
  verify();
  for (int k = 0; k < K; k++) {
    if (k && vf_choice(2, "init")) { easyMock_init(); n = 0; if (vf_choice(2, "look_after_init")) verify(); }
    report();
    if (k == K - 1 || vf_choice(2, "look")) verify();
  }
  easyMock_init();
  n = 0;
  verify();
}

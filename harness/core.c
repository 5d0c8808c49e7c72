// A test's history of expectations, mock calls, init, check and option changes over three generated mocks, against a
// reference model.  foo(int,long): compared parameters, bar(void), baz(pointer,short): output parameter.
// PROPMASK selects which property's assertions are made; memory safety is always checked.
#include "vf.h"
#include <string.h>
#include <stdio.h>
#include <easyMock.h>
#ifdef CPP   // C++ mocks: foo in a namespace, bar a method
#include "easyMock_core_cpp.h"
static Object object;
static int (*const call_foo)(int, long) = Space::foo;
static void (*const expect_foo)(int, long, int, EasyMock::EasyMock_Matcher_Cpp<int>, EasyMock::EasyMock_Matcher_Cpp<long>) = EasyMock::Space::foo::ExpectAndReturn;
static void expect_bar() { EasyMock::Object::bar::ExpectAndReturn(&object); }
static void call_bar() { object.bar(); }
#define foo_ExpectAndReturn expect_foo
#define foo call_foo
#define bar_ExpectAndReturn expect_bar
#define bar call_bar
#define baz_ExpectAndReturn EasyMock::baz::ExpectAndReturn
#define baz_ExpectReturnAndOutput EasyMock::baz::ExpectReturnAndOutput
#define cmp_int EasyMock::cmp<int>
#define cmp_long EasyMock::cmp<long>
#define cmp_short EasyMock::cmp<short>
#elif defined(HEADERS3)   // the three functions come from three headers
#include "easyMock_core.header-of-a-module-with-a-rather-long-name_1.h"
#include "easyMock_core.header-of-a-module-with-a-rather-long-name_2.h"
#include "easyMock_core-three.h"
#elif defined(LONGNAMES)   // names of more than 256 characters which differ in the last one
#include "easyMock_core_longnames.h"
#define LONG_NAME(n) a_function_whose_name_does_not_fit_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_strings_into_the_buffer_of_the_framework_s_own_##n
#define foo LONG_NAME(1)
#define bar LONG_NAME(2)
#define baz LONG_NAME(3)
#define foo_ExpectAndReturn LONG_NAME(1_ExpectAndReturn)
#define bar_ExpectAndReturn LONG_NAME(2_ExpectAndReturn)
#define baz_ExpectAndReturn LONG_NAME(3_ExpectAndReturn)
#define baz_ExpectReturnAndOutput LONG_NAME(3_ExpectReturnAndOutput)
#else
#include "easyMock_core.h"
#endif
#ifdef ANYREJECT   // matchers which reject with any value other than 0
static int rejected(int r)
{
  int v;
  vf_symbolic(&v, sizeof v, "verdict");
  vf_assume(v != 0);
  return r ? v : 0;
}
static int reject_int(const void *c, const void *x, const char *n, char *m) { return rejected(cmp_int(c, x, n, m)); }
static int reject_long(const void *c, const void *x, const char *n, char *m) { return rejected(cmp_long(c, x, n, m)); }
static int reject_short(const void *c, const void *x, const char *n, char *m) { return rejected(cmp_short(c, x, n, m)); }
#define cmp_int reject_int
#define cmp_long reject_long
#define cmp_short reject_short
#endif
#ifndef K
#define K 4
#endif
#ifndef PROPMASK
#define PROPMASK 0xff
#endif
#ifndef OPLIST
#define OPLIST EF, CF, EB, CB, INIT
#endif
enum { P_VERDICT = 1, P_MATCH = 2, P_UNEXPECTED = 4, P_ORDER = 8, P_RESET = 16, P_LOG = 32 };
#define PA(m, c, msg) do { if (PROPMASK & (m)) vf_assert(c, msg); } while (0)
enum { FOO, BAR, BAZ, NF };
enum { EF, EB, EZ, CF, CB, CZ, INIT, CHECK, TOGGLE };
static const unsigned char OP[] = {OPLIST};
#ifdef CPP
static const char *const NAME[NF] = {"foo(", "Object::bar(", "baz("};
#elif defined(LONGNAMES)
#define TEXT_OF_(n) #n
#define TEXT_OF(n) TEXT_OF_(n)
static const char *const NAME[NF] = {TEXT_OF(LONG_NAME(1)) "(", TEXT_OF(LONG_NAME(2)) "(", TEXT_OF(LONG_NAME(3)) "("};
#else
static const char *const NAME[NF] = {"foo(", "bar(", "baz("};
#endif

// inputs: drawn afresh, or in later rounds of TWICE the ones of the first round again
static int fixedOn, fixedBase;   // the values of a long prefix are concrete
static int recOn, recReplay, recPos;
static unsigned char rec[64][8];
static void sym(void *p, size_t n, const char *name)
{
  if (fixedOn) { unsigned v = 0x01020304u * (unsigned)(fixedBase % 251 + 1); memset(p, 0, n); memcpy(p, &v, n < 4 ? n : 4); return; }
  if (recReplay) { memcpy(p, rec[recPos++], n); return; }
  vf_symbolic(p, n, name);
  if (recOn) memcpy(rec[recPos++], p, n);
}
static unsigned choice(unsigned n, const char *name)
{
  unsigned char c;
  if (fixedOn) return (unsigned)fixedBase % n;
  if (recReplay) return rec[recPos++][0];
  c = (unsigned char)vf_choice(n, name);
  if (recOn) rec[recPos++][0] = c;
  return c;
}
#define SYM(v, name) sym(&(v), sizeof(v), name)

// ---- reference model
typedef struct { int a; long b; int ret; int ma, mb; short s; unsigned char bret; int hasOut; } Exp;
#ifdef LONG
static const int LENGTH[] = LONG;
#define MAXOPS 720
#else
#define MAXOPS (2 * K + 2)
#endif
static Exp exp_[NF][MAXOPS];
static unsigned char outv[NF][MAXOPS];
static int nexp[NF], nact[NF];
static int order[NF * MAXOPS], norder, npop;
static int orderOn;
static int anyError;      // something went wrong since init
static int lastCount;     // number of errors listed after the previous step

static unsigned errCount(void)
{
  unsigned got = 12345;
  const char **e = easyMock_getErrorArr(&got);
  PA(P_LOG, (e == 0) == (got == 0), "the error array is null exactly when there is no error");
  if (e) PA(P_LOG, e[got] == 0, "the error array is not terminated by a null pointer");
  return got;
}
static const char *lastErr(void)
{
  unsigned got;
  const char **e = easyMock_getErrorArr(&got);
  return e && got ? e[got - 1] : "";
}
static const char *firstNewErr(int before)
{
  unsigned got;
  const char **e = easyMock_getErrorArr(&got);
  return e && (int)got > before ? e[before] : "";
}
static int contains(const char *s, const char *sub) { return strstr(s, sub) != 0; }

static void doExpect(int f)
{
  Exp *x = &exp_[f][nexp[f]];
  if (f == FOO) {
    SYM(x->a, "exp.a"); SYM(x->b, "exp.b"); SYM(x->ret, "exp.ret");
#ifdef NOMATCH
    x->ma = x->mb = 0;
#elif defined(MATCHA)
    x->ma = 1; x->mb = 0;
#else
    x->ma = (int)choice(2, "match_a"); x->mb = (int)choice(2, "match_b");
#endif
    foo_ExpectAndReturn(x->a, x->b, x->ret, x->ma ? cmp_int : 0, x->mb ? cmp_long : 0);
  } else if (f == BAR) {
    bar_ExpectAndReturn();
  } else {
    SYM(x->s, "exp.s"); SYM(x->bret, "exp.bret");
    SYM(outv[f][nexp[f]], "exp.out");
    x->hasOut = (int)choice(2, "with_output");
    if (x->hasOut) baz_ExpectReturnAndOutput(0, x->s, x->bret, 0, cmp_short, &outv[f][nexp[f]]);
    else baz_ExpectAndReturn(0, x->s, x->bret, 0, cmp_short);
  }
  nexp[f]++;
  order[norder++] = f;
  PA(P_LOG, (int)errCount() == lastCount, "setting an expectation changes the errors");
}
static void doCall(int f)
{
  int i = nact[f]++;
  int ok = i < nexp[f];
  Exp *x = ok ? &exp_[f][i] : 0;
  int before = lastCount;
  int ordErr = 0, mism = 0;
  if (ok) { if (orderOn && order[npop] != f) ordErr = 1; npop++; }
  if (f == FOO) {
    int a; long b;
    SYM(a, "call.a"); SYM(b, "call.b");
    int r = foo(a, b);
    if (ok) {
      if (x->ma && a != x->a) mism++;
      if (x->mb && b != x->b) mism++;
      PA(P_MATCH, r == x->ret, "the n-th call does not return the value given to the n-th expectation");
      vf_reach("matched");
    }
  } else if (f == BAR) {
    bar();
  } else {
    unsigned char dst, orig; short s;
    SYM(dst, "call.dst"); SYM(s, "call.s");
    orig = dst;
    unsigned char r = baz(&dst, s);
    if (ok) {
      if (s != x->s) mism++;
      PA(P_MATCH, r == x->bret, "the n-th call does not return the value given to the n-th expectation");
      if (!ordErr && x->hasOut) PA(P_MATCH, dst == outv[f][i], "the n-th call does not write the output value given to the n-th expectation");
      if (!x->hasOut) PA(P_MATCH, dst == orig, "a call writes an output parameter although its expectation gives no output value");
    } else PA(P_UNEXPECTED, dst == orig, "an unexpected call writes an output parameter");
  }
  int added = (int)errCount() - before;
  lastCount = before + added;
  if (!ok) {
    anyError = 1;
    PA(P_UNEXPECTED | P_LOG, added == 1, "an unexpected call must add exactly one error");
    PA(P_UNEXPECTED, contains(lastErr(), "unexpected call") && contains(lastErr(), NAME[f]), "the error of an unexpected call does not say so, or does not name the function");
    vf_reach("unexpected");
  } else {
    if (mism) { anyError = 1; vf_reach("mismatch"); }
    if (ordErr) { anyError = 1; vf_reach("order-error"); }
    PA(P_UNEXPECTED, !contains(firstNewErr(before), "unexpected call"), "a call for which an expectation is left is reported as unexpected");
    PA(P_MATCH | P_ORDER | P_LOG, added == mism + ordErr, "an expected call must add one error per parameter its matcher rejects, plus one if it is out of order, and nothing else");
    if (ordErr) PA(P_ORDER, contains(lastErr(), NAME[f]) && contains(lastErr(), NAME[order[npop - 1]]), "the error of an out-of-order call does not name both the function called and the one expected");
    else if (mism) PA(P_MATCH, contains(firstNewErr(before), NAME[f]), "the error of a rejected parameter does not name the function");
    if (mism) {
      char nth[24];
      sprintf(nth, "call %d ", i + 1);
      PA(P_MATCH, contains(firstNewErr(before), nth), "the error of a rejected parameter does not tell the number of the call");
    }
    if (!mism && !ordErr) vf_reach("clean-call");
  }
}
static void doInit(void)
{
  easyMock_init();
  for (int f = 0; f < NF; f++) nexp[f] = nact[f] = 0;
  norder = npop = anyError = 0;
  lastCount = (int)errCount();
  PA(P_RESET | P_LOG, lastCount == 0, "errors remain after init");
  PA(P_RESET | P_LOG, easyMock_getErrorStr() == 0, "error text remains after init");
}
static void doCheck(void)
{
  int bad = 0;
  for (int f = 0; f < NF; f++) if (nexp[f] != nact[f]) bad++;
  int was = anyError;
  int r = easyMock_check();
  if (bad || was) {
    PA(P_VERDICT, r == 0, "check succeeds although something went wrong since init");
    PA(P_VERDICT | P_LOG, easyMock_getErrorStr() != 0, "no error text although the check fails");
    vf_reach("check-fails");
    if (!was) vf_reach("count-mismatch");
    anyError = 1;
  } else {
    PA(P_VERDICT | P_RESET, r == 1, "check fails although every function was called as expected and nothing went wrong since init");
    PA(P_VERDICT | P_LOG, easyMock_getErrorStr() == 0, "error text although the check succeeds");
    vf_reach("check-ok");
  }
  int added = (int)errCount() - lastCount;
  if (added == bad && (PROPMASK & P_VERDICT)) {
    unsigned n;
    const char **e = easyMock_getErrorArr(&n);
    for (int f = 0; f < NF; f++) {
      if (nexp[f] == nact[f]) continue;
      char want[24], got[24];
      int found = 0;
      sprintf(want, "xpected %d,", nexp[f]); sprintf(got, "got %d", nact[f]);
      for (int k = lastCount; k < lastCount + added; k++) found += contains(e[k], NAME[f]) && contains(e[k], want) && contains(e[k], got);
      vf_assert(found == 1, "a wrong number of calls is not reported with the function's name and both numbers");
    }
  }
  lastCount += added;
  PA(P_VERDICT | P_LOG, added == bad, "check must list one error per function called a wrong number of times, and none otherwise");
}
static void doOp(unsigned op)
{
  switch (op) {
    case EF: doExpect(FOO); break;
    case EB: doExpect(BAR); break;
    case EZ: doExpect(BAZ); break;
    case CF: doCall(FOO); break;
    case CB: doCall(BAR); break;
    case CZ: doCall(BAZ); break;
    case INIT: doInit(); break;
    case CHECK: doCheck(); break;
    case TOGGLE: orderOn = !orderOn; easyMock_setCheckCallsOrder(orderOn); break;
  }
}
static unsigned pick(int k)
{
#ifdef FIRST
  if (k == 0) return FIRST;
#endif
  return OP[vf_choice(sizeof OP, "op")];
}
#ifdef LONG
// A long prefix of a history: m expectations over one or all functions, then the calls, or both in turn, or calls only,
// or many more calls than expectations; with the values expected or all different.
static int nthOf(int mix, int i) { return mix ? i % NF : FOO; }
static void prefix(void)
{
  int m = LENGTH[vf_choice(sizeof LENGTH / sizeof *LENGTH, "length")];
  int mix = (int)vf_choice(2, "mixed"), how = m > 250 ? 4 : (int)vf_choice(4, "how");   // more calls than a mock keeps: nearly all unexpected
  static const int EXPECT[NF] = {EF, EB, EZ}, CALL[NF] = {CF, CB, CZ};
  fixedOn = 1;
  if (how == 0 || how == 3) for (int i = 0; i < m; i++) { fixedBase = i; doOp((unsigned)EXPECT[nthOf(mix, i)]); }
  if (how == 4) for (int i = 0; i < 5; i++) { fixedBase = i; doOp((unsigned)EXPECT[nthOf(mix, i)]); }
  for (int i = 0; i < m; i++) {
    fixedBase = i;
    if (how == 1) doOp((unsigned)EXPECT[nthOf(mix, i)]);
    if (how == 3) fixedBase = i + 1;
    doOp((unsigned)CALL[nthOf(mix, i)]);
  }
  fixedOn = 0;
  vf_reach("long");
}
#endif
void vf_main(void)
{
#ifdef CALLSTACK
  easyMock_setPrintCallStack((int)vf_choice(2, "callstack"));
#else
  easyMock_setPrintCallStack(0);
#endif
  doInit();
#ifdef ORDER
  orderOn = 1;
#endif
  easyMock_setCheckCallsOrder(orderOn);
#ifdef LONG
  prefix();
#endif
#ifdef TWICE
  // init gives back everything: the memory held does not grow from one test to the next, and a test behaves as the first
  unsigned ops[K];
  size_t live = 0;
  for (int k = 0; k < K; k++) ops[k] = pick(k);
  for (int round = 0; round < TWICE; round++) {
    recPos = 0; recOn = round == 0; recReplay = round > 0;
    for (int k = 0; k < K; k++) doOp(ops[k]);
    recOn = recReplay = 0;
    doInit();
    size_t now = vf_heap_live();
    if (round >= 2) { PA(P_RESET, now == live, "init does not give back what a test allocated: memory grows from test to test"); vf_reach("steady"); }
    live = now;
  }
  if (vf_choice(2, "then")) doCheck();
  else for (int k = 0; k < 2; k++) doOp(OP[vf_choice(sizeof OP, "op2")]);
#else
  for (int k = 0; k < K; k++) doOp(pick(k));
  doCheck();
#endif
}

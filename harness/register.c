// Registration: after any sequence of register / unregister, init resets and check asks exactly the registered mocks,
// each once; check's verdict is that of all of them together.
#include "vf.h"
#include <easyMock.h>
#include <easyMock_framework.h>
#ifndef K
#define K 5
#endif
#ifdef MANY
#define M MANY
#else
#define M 3
#endif
static int resets[M], verifies[M], fails[M], reg[M];
static easyMock_bool v(int i) { verifies[i]++; return fails[i] ? easyMock_false : easyMock_true; }
#ifdef MANY   // many headers, of names which repeat; at most one of them fails
#define ONE(i) static void r##i(void) { resets[i]++; } static easyMock_bool v##i(void) { return v(i); }
#define TEN(X, t) X(t##0) X(t##1) X(t##2) X(t##3) X(t##4) X(t##5) X(t##6) X(t##7) X(t##8) X(t##9)
#define ALL(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) TEN(X, 1) TEN(X, 2) TEN(X, 3)
ALL(ONE)
#define REG(i) {i % 3 ? "header-" #i ".h" : "same.h", r##i, v##i},
static const easyMock_mockedFileRegister_t R[M] = {ALL(REG)};
static void verify(void)
{
  int bad = (int)vf_choice(M + 1, "fails");
  for (int i = 0; i < M; i++) { resets[i] = verifies[i] = 0; fails[i] = i == bad; }
  easyMock_init();
  for (int i = 0; i < M; i++) vf_assert(resets[i] == reg[i], "init does not reset exactly the registered mocks, once each");
  vf_assert(easyMock_check() == !(bad < M && reg[bad]), "check's verdict is not that of all registered mocks together");
  for (int i = 0; i < M; i++) vf_assert(verifies[i] == reg[i], "check does not verify every registered mock exactly once, or verifies one that is not registered");
}
void vf_main(void)
{
  for (int i = 0; i < M; i++) { easyMock_registerMockedFile(&R[i]); reg[i] = 1; }
  for (int k = 0; k < K; k++) { unsigned i = vf_choice(M, "header"); easyMock_unregisterMockedFile(&R[i]); reg[i] = 0; }
  verify();
  vf_reach("end");
}
#else
static void r0(void) { resets[0]++; } static void r1(void) { resets[1]++; } static void r2(void) { resets[2]++; }
static easyMock_bool v0(void) { return v(0); } static easyMock_bool v1(void) { return v(1); } static easyMock_bool v2(void) { return v(2); }
// two of the headers have the same name: they are still distinct registrations
static const easyMock_mockedFileRegister_t R[M] = {{"a.h", r0, v0}, {"a.h", r1, v1}, {"b.h", r2, v2}};
static void verify(void)
{
  int exp = 1;
  for (int i = 0; i < M; i++) { resets[i] = verifies[i] = 0; VF_SYM(fails[i], "fails"); if (reg[i] && fails[i]) exp = 0; }
  easyMock_init();
  for (int i = 0; i < M; i++) vf_assert(resets[i] == reg[i], "init does not reset exactly the registered mocks, once each");
  vf_assert(easyMock_check() == exp, "check's verdict is not that of all registered mocks together");
  for (int i = 0; i < M; i++) vf_assert(verifies[i] == reg[i], "check does not verify every registered mock exactly once, or verifies one that is not registered");
  if (exp) vf_reach("ok"); else vf_reach("fails");
}
void vf_main(void)
{
  for (int k = 0; k < K; k++) {
    unsigned i = vf_choice(M, "header");
    if (vf_choice(2, "unregister")) { easyMock_unregisterMockedFile(&R[i]); reg[i] = 0; }
    else { easyMock_registerMockedFile(&R[i]); reg[i] = 1; }
  }
  verify();
  for (int i = 0; i < M; i++) easyMock_unregisterMockedFile(&R[i]), reg[i] = 0;
  verify();
}
#endif

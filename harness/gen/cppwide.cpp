// Each mock of shapes/cppwide.h: functions of one name in several classes, namespaces and overloads, and further parameters.
#include "../cppmock.h"
#define private public
#include "cppwide.h"
#include "easyMock_cppwide.h"
#undef private
static bool same(const pair &a, const pair &b) { return (a.a == b.a) & (a.b == b.b); }
static bool same(const Plain &a, const Plain &b) { return (a.x == b.x) & (a.y == b.y); }
METHODOF(baseGet, "Base::get(", Base, get, "a", int, int)
METHODOF(baseShared, "Base::shared(", Base, shared, "c", int, char)
METHODOF(baseTurn, "Base::turn(", Base, turn, "a", long, long)
METHODOF(derGet, "Der::get(", Der, get, "a", int, int)
METHODOF(derTurn, "Der::turn(", Der, turn, "a", long, long)
METHODOF(choiceGet, "Choice::get(", Choice, get, "a", int, int)
METHODOF(firstSelf, "First::self(", First, self, 0, First &)
static void firstGet() { static const char *const n[] = {"a", 0}; Function<First, int, int>::method("First::get(int", n, (int (First::*)(int))&First::get, EasyMock::First::get::ExpectAndReturn); }
static void firstGet2() { static const char *const n[] = {"a", "b", 0}; Function<First, int, long, char>::method("First::get(long", n, (int (First::*)(long, char))&First::get, EasyMock::First::get::ExpectAndReturn); }
NAMED(friendlyFree, "friendly(", friendly, "a", int, short)
NAMED(over1, "over(int", over, "a", int, int)
NAMED(over2, "over(long", over, L("a", "b"), long, long, char)
NAMED(over3, "over(short", over, L("a", "b"), short, short, short)
NAMED(sameGlobal, "same(", same, "a", int, int)
NAMED(sameNa, "same(", Na::same, "a", int, int)
NAMED(sameDeep, "same(", Na::Deep::same, "a", int, int)
NAMED(sameNb, "same(", Nb::same, "a", int, int)
NAMED(overNb, "over(", Nb::over, "a", long, long)
NAMED(nested, "nested(", Nc::Nd::nested, L("a", "b"), int, unsigned char, int)
NAMED(versioned, "versioned(", Ne::V1::versioned, "a", int, int)
static void klassGet() { static const char *const n[] = {"a", 0}; Function<Na::Klass, int, int>::method("Klass::get(", n, &Na::Klass::get, EasyMock::Na::Klass::get::ExpectAndReturn); }
static void klassFlag() { static const char *const n[] = {"b", 0}; Function<Na::Klass, bool, bool>::method("Klass::flag(", n, &Na::Klass::flag, EasyMock::Na::Klass::flag::ExpectAndReturn); }
NAMED(localNames, "locals(", locals, L("errorMessage", "curCallVal", "expectedCallVal", "matcher", "error", "instance"), int, int, int, int, int, int, int)
NAMED(constPointers, "pointers(", pointers, L("p", "q", "r"), int, int *const, const int *const, const char *const *)
NAMED(refsToPointers, "references(", references, L("a", "b", "c"), int *&, int *&, const char *const &, const bool &)
NAMED(truths, "truth(", truth, "a", bool, bool)
NAMED(plains, "plain(", plain, L("a", "b"), Plain, Plain, const Plain &)
NAMED(unionsByValue, "unions(", unions, "a", number, number)
NAMED(callbackPointers, "callbacks(", callbacks, L("a", "b"), callback, callback, const callback)
NAMED(voidPointers, "voids(", voids, L("a", "b"), void *, void *, const void *)
NAMED(wideValues, "wide(", wide, L("a", "b", "c", "d", "e", "f", "g"), long double, unsigned long long, long double, signed char, unsigned short, long long, word, char)
NAMED(attributedOne, "attributed(", attributed, "a", int, int)
NAMED(constantRef, "constant(", constant, L("a", "b"), const pair &, const pair *, const pair &)
NAMED(defaultedOne, "defaulted(", defaulted, L("s", "n"), int, const char *, int)
// methods which take and return objects of their own class
static void ownClass()
{
  start();
  static Der d[2]; static First f[2];
  int r; sym(r, "return");
  unsigned who = vf_choice(3, "instance"), back = vf_choice(2, "result");
  EasyMock::Der::own::ExpectAndReturn(who ? &d[who - 1] : 0, &d[0], d[1], r, 0, 0);
  EasyMock::First::other::ExpectAndReturn(who ? &f[who - 1] : 0, &f[0], f[1], &f[back], 0, 0);
  int got = d[0].own(&d[1], d[0]);
  vf_assert(got == r, "the mock does not return the value given to its expectation");
  vf_assert(count() == (who == 2), "a call adds an error exactly when the object is not the expected one");
  vf_assert(f[0].other(&f[1], f[0]) == &f[back], "the mock does not return the value given to its expectation");
  vf_assert(count() == 2 * (who == 2), "a call adds an error exactly when the object is not the expected one");
  vf_reach("own");
}
// what is defined in the header stays as it is
static void defined()
{
  start();
  int a; sym(a, "argument");
  First f;
  vf_assert(f.twice(a & 0xffff) == 2 * (a & 0xffff) && f.xOf() == 3 && (int)f == 3 && f.any(a) == a && f == f && generic(a) == a && inlined(a & 0xffff) == (a & 0xffff) + 1, "a function which the header defines is changed");
  vf_assert(count() == 0, "a call of a function which the header defines adds an error");
  vf_reach("defined");
}
// the order of calls tells the functions of one name apart
static int callSame(unsigned which)
{
  static Base b; static Der d; static First f; static Na::Klass k;
  switch (which) {
    case 0: return same(1);
    case 1: return Na::same(1);
    case 2: return Na::Deep::same(1);
    case 3: return Nb::same(1);
    case 4: return b.get(1);
    case 5: return d.get(1);
    case 6: return f.get(1);
    case 7: return k.get(1);
  }
  return over(1);
}
static void expectSame(unsigned which, int r)
{
  switch (which) {
    case 0: EasyMock::same::ExpectAndReturn(1, r, 0); break;
    case 1: EasyMock::Na::same::ExpectAndReturn(1, r, 0); break;
    case 2: EasyMock::Na::Deep::same::ExpectAndReturn(1, r, 0); break;
    case 3: EasyMock::Nb::same::ExpectAndReturn(1, r, 0); break;
    case 4: EasyMock::Base::get::ExpectAndReturn(0, 1, r, 0); break;
    case 5: EasyMock::Der::get::ExpectAndReturn(0, 1, r, 0); break;
    case 6: EasyMock::First::get::ExpectAndReturn(0, 1, r, 0); break;
    case 7: EasyMock::Na::Klass::get::ExpectAndReturn(0, 1, r, 0); break;
    case 8: EasyMock::over::ExpectAndReturn((int)1, r, 0); break;
  }
}
static void order()
{
  start();
  easyMock_setCheckCallsOrder(1);
  unsigned a = vf_choice(9, "first"), b = vf_choice(9, "second"), c = vf_choice(9, "called");
  int ra, rb; sym(ra, "return"); sym(rb, "return");
  expectSame(a, ra); expectSame(b, rb);
  int got = callSame(c);
  vf_assert(count() == (c != a), "the first call of another function than the expected one must add an error, and only that");
  if (c == a) { vf_assert(got == ra, "the mock does not return the value given to its expectation"); vf_reach("in-order"); }
  if (c == a) {
    got = callSame(b);
    vf_assert(got == rb && easyMock_check(), "calls as expected must be accepted");
  }
}
void vf_main(void)
{
  static void (*const tests[])() = {
    baseGet, baseShared, baseTurn, derGet, derTurn, choiceGet, firstGet, firstGet2, friendlyFree, over1, over2, over3, sameGlobal, sameNa, sameDeep, sameNb, overNb,
    nested, versioned, klassGet, klassFlag, localNames, constPointers, truths, plains, unionsByValue, callbackPointers, voidPointers, wideValues, attributedOne, constantRef, defaultedOne, ownClass, defined, order, firstSelf, refsToPointers};
  tests[vf_choice(sizeof tests / sizeof *tests, "function")]();
}

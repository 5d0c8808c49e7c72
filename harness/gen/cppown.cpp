// Mocks of functions whose parameters and return values own what they point to (shapes/cppown.h).
#include "../cppmock.h"
#include "easyMock_cppown.h"
static int live, astray;
Owner::Owner() : held(new int(0)), self(this) { live++; }
Owner::Owner(int v) : held(new int(v)), self(this) { live++; }
Owner::Owner(const Owner &o) : held(new int(*o.held)), self(this) { astray += o.self != &o; live++; }
Owner &Owner::operator=(const Owner &o) { astray += (self != this) | (o.self != &o); *held = *o.held; return *this; }
Owner::~Owner() { astray += self != this; delete held; live--; }

static int seen[4][2];
static unsigned calls[4];
static bool bad[4];
template <int J> static bool owners(const Owner &c, const Owner &x, const std::string, std::ostringstream &) { calls[J]++; astray += (c.self != &c) | (x.self != &x); seen[J][0] = *c.held; seen[J][1] = *x.held; return bad[J]; }
template <int J> static bool boxesOf(const Box &c, const Box &x, const std::string, std::ostringstream &) { calls[J]++; astray += (c.inner.self != &c.inner) | (x.inner.self != &x.inner); seen[J][0] = *c.inner.held + c.k; seen[J][1] = *x.inner.held + x.k; return bad[J]; }
static void check(unsigned j, int cur, int exp)
{
  vf_assert(calls[j] == 1, "a matcher is not called exactly once per call with its parameter");
  vf_assert((seen[j][0] == cur) & (seen[j][1] == exp), "a matcher is not given the value of the call and that of the expectation");
}
static void small(int &v, const char *n) { sym(v, n); v &= 0xffff; }
static void run(unsigned which)
{
  int e, c, f, d, r;
  small(e, "expected"); small(c, "called"); small(f, "expected2"); small(d, "called2"); small(r, "return");
  unsigned n0 = count();
  for (unsigned j = 0; j < 4; j++) { calls[j] = 0; bad[j] = 0; }
  bad[0] = vf_choice(2, "verdict");
  switch (which) {
    case 0:
      EasyMock::byValue::ExpectAndReturn(Owner(e), owners<0>);
      byValue(Owner(c));
      check(0, c, e);
      break;
    case 1: {
      bad[0] = 0;
      EasyMock::returned::ExpectAndReturn(1, Owner(r), 0);
      Owner got = returned(1);
      vf_assert(*got.held == r, "the mock does not return the value given to its expectation");
      break; }
    case 2: {
      bad[0] = 0;
      EasyMock::constReturned::ExpectAndReturn(Owner(r));
      Owner got = constReturned();
      vf_assert(*got.held == r, "the mock does not return the value given to its expectation");
      break; }
    case 3: {
      Box a{Owner(e), 1}, b{Owner(f), 2}, p{Owner(c), 3}, q{Owner(d), 4};
      EasyMock::boxes::ExpectAndReturn(a, b, r, boxesOf<0>, boxesOf<1>);
      vf_assert(boxes(p, q) == r, "the mock does not return the value given to its expectation");
      check(0, c + 3, e + 1); check(1, d + 4, f + 2);
      break; }
    case 4: {
      Owner ref(f), refCalled(d);
      EasyMock::boxed::ExpectAndReturn(ref, Owner(e), Box{Owner(r), 7}, owners<1>, owners<0>);
      Box got = boxed(refCalled, Owner(c));
      vf_assert((*got.inner.held == r) & (got.k == 7), "the mock does not return the value given to its expectation");
      check(0, c, e); check(1, d, f);
      break; }
    default: {
      Shop s;
      EasyMock::Shop::sell::ExpectAndReturn(&s, Owner(e), 5, Owner(r), owners<0>, 0);
      Owner got = s.sell(Owner(c), 5);
      vf_assert(*got.held == r, "the mock does not return the value given to its expectation");
      check(0, c, e);
    }
  }
  vf_assert(count() == n0 + bad[0], "a call adds an error exactly when a matcher says no");
  vf_reach(bad[0] ? "rejected" : "accepted");
}
void vf_main(void)
{
  int before = live;   // the value of each unexpected call is there from the start
  unsigned which = vf_choice(6, "function");
  start();
  vf_assert(live == before, "objects are left over");
  run(which);
  if (vf_choice(2, "again")) run(which);
  if (vf_choice(2, "unexpected")) {
    unsigned n = count();
    byValue(Owner(1));
    returned(2);
    vf_assert(count() == n + 2, "an unexpected call must add exactly one error");
    vf_reach("unexpected");
  }
  if (vf_choice(2, "left")) { EasyMock::byValue::ExpectAndReturn(Owner(9), 0); vf_assert(!easyMock_check(), "an expectation without a call is not reported"); }
  start();
  vf_assert(live == before, "an expectation keeps its objects, or destroys what it does not own");
  vf_assert(astray == 0, "an object is copied to another place without its copy operation");
  vf_reach("gone");
}

// Each mock of shapes/cpp.h: what a call hands to the matchers, returns and reports.
#include "../cppmock.h"
#define private public
#define protected public
#include "cpp.h"
#include "easyMock_cpp.h"
#undef private
#undef protected
static bool same(const pair &a, const pair &b) { return (a.a == b.a) & (a.b == b.b); }
#define METHOD(f, names_, ...) METHODOF(t_##f, "Widget::" #f "(", Widget, f, L(names_), __VA_ARGS__)
METHOD(empty, 0, int)
METHOD(idle, 0, void)
METHOD(one, "a", short, char)
METHOD(two, L("a", "b"), long, int, const long &)
METHOD(three, L("a", "b", "c"), word, word, color, short)
METHOD(merge, L("v", "w"), pair, pair, const pair &)
METHOD(self, "a", int &, int)
METHOD(prot, L("a", "b"), long, long, long)
METHOD(hidden, L("a", "b"), int, unsigned char, unsigned char)
METHOD(output, L("p", "c"), void, int *, char)
FREE("plain(", plain, "a", int, int)
FREE("none(", none, 0, void)
FREE("nothing(", nothing, 0, char)
FREE("refs(", refs, L("r", "s"), void, const long &, int &)
FREE("compound(", compound, L("v", "w"), pair, pair, const pair &)
FREE("scoped(", scoped, L("e", "f"), level, color, level)
FREE("outs(", outs, L("p", "q", "r"), int *, int *, const char *, unsigned char **)
FREE("floating(", floating, L("x", "y"), double, double, float)
FREE("reference(", reference, "a", int &, int)
FREE("constReference(", constReference, "a", const long &, const long &)
FREE("alias(", alias, "t", word, word)
FREE("defaults(", defaults, L("a", "b"), int, int, int)
FREE("linkage(", linkage, L("a", "b"), int, int, short)
FREE("block(", block, "a", long, long long)
FREE("last(", last, L("a", "b", "c", "d"), int, unsigned short, unsigned short, unsigned short, unsigned short)
SCOPED(Outer, outer, "u", unsigned long, unsigned long)
SCOPED(Outer::Inner, inner, L("c", "u"), short, char, unsigned)
SCOPED(Outer, after, "c", signed char, signed char)
SCOPED(Other, other, "a", int, int)
SCOPED(Outer, again, L("p", "q"), int, int *, int)
static int call_variadic(int n) { return variadic(n, 1, 2L, "three"); }
static void t_variadic() { static const char *const n[] = {"n"}; Function<None, int, int>::test("variadic(", n, call_variadic, EasyMock::variadic::ExpectAndReturn); }

// output parameters: every combination of outputs given and not given; a further call is unexpected and writes nothing
struct Out { int p; unsigned char *r; long q; int p2; };
static void t_out()
{
  Out src, dst, old;
  start();
  vf_symbolic(&src, sizeof src, "output"); vf_symbolic(&dst, sizeof dst, "destination");
  old = dst;
  unsigned which = vf_choice(3, "function"), has = vf_choice(4, "outputs"), plainly = vf_choice(2, "plain");
  if (plainly) has = 0;
  int r; sym(r, "return");
  int *rp = &r;
  Widget w;
  if (which == 0) {
    if (plainly) EasyMock::outs::ExpectAndReturn(0, 0, 0, rp, 0, 0, 0);
    else EasyMock::outs::ExpectReturnAndOutput(0, 0, 0, rp, 0, 0, 0, has & 1 ? &src.p : 0, has & 2 ? &src.r : 0);
  } else if (which == 1) {
    if (plainly) EasyMock::Widget::outputs::ExpectAndReturn(&w, 0, 0, 0, r, 0, 0, 0);
    else EasyMock::Widget::outputs::ExpectReturnAndOutput(&w, 0, 0, 0, r, 0, 0, 0, has & 1 ? &src.p : 0, has & 2 ? &src.q : 0);
  } else {
    if (plainly) EasyMock::Widget::output::ExpectAndReturn(0, 0, 0, 0, 0);
    else EasyMock::Widget::output::ExpectReturnAndOutput(0, 0, 0, 0, 0, has & 1 ? &src.p : 0);
    has &= 1;
  }
  for (int k = 0; k < 2; k++) {
    if (which == 0) { int *got = outs(&dst.p, "", &dst.r); if (!k) vf_assert(got == rp, "the mock does not return the value given to its expectation"); }
    else if (which == 1) { int got = w.outputs(&dst.p, &dst.q, 0); if (!k) vf_assert(got == r, "the mock does not return the value given to its expectation"); }
    else w.output(&dst.p, 0);
    if (!k) {
      vf_assert(dst.p == (has & 1 ? src.p : old.p), "an output parameter does not get the output value, or one without an output value is written");
      vf_assert(dst.r == (has & 2 && which == 0 ? src.r : old.r) && dst.q == (has & 2 && which == 1 ? src.q : old.q), "an output parameter does not get the output value, or one without an output value is written");
      vf_assert(count() == 0, "a call as expected adds an error");
      vf_reach("output");
    } else {
      vf_assert(dst.p == old.p && dst.r == old.r && dst.q == old.q, "an unexpected call writes an output parameter");
      vf_assert(count() == 1, "an unexpected call must add exactly one error");
    }
    vf_assert(dst.p2 == old.p2, "a mock writes beyond its output parameter");
    dst = old;
  }
}
void vf_main(void)
{
  static void (*const tests[])() = {
    t_empty, t_idle, t_one, t_two, t_three, t_merge, t_self, t_prot, t_hidden, t_output, t_plain, t_none, t_nothing, t_refs, t_compound, t_scoped, t_outs,
    t_floating, t_reference, t_constReference, t_alias, t_defaults, t_linkage, t_block, t_last, t_outer, t_inner, t_after, t_other, t_again, t_variadic, t_out};
  tests[vf_choice(sizeof tests / sizeof *tests, "function")]();
}

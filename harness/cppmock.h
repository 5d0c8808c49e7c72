// What a call of a C++ mock hands to the matchers, returns and reports: the common part of the harnesses of C++ mocks.
#ifndef CPPMOCK_H
#define CPPMOCK_H
#include "vf.h"
#include <cstring>
#include <cstdio>
#include <string>
#include <sstream>
#include <type_traits>
#include <easyMock.h>
using EasyMock::EasyMock_Matcher_Cpp;
template <class T> using value = std::remove_cv_t<std::remove_reference_t<T>>;
enum { NP = 8 };
static unsigned called[NP];
static char pname[NP][24], msg[NP][24];
static bool verdict[NP], anyBad;
static int before;
template <int J, class T> struct Seen { static value<T> cur, exp; static const void *at, *expAt; };
template <int J, class T> value<T> Seen<J, T>::cur;
template <int J, class T> value<T> Seen<J, T>::exp;
template <int J, class T> const void *Seen<J, T>::at;
template <int J, class T> const void *Seen<J, T>::expAt;
template <int J, class T> static bool record(const T &c, const T &x, const std::string n, std::ostringstream &m)
{
  called[J]++;
  Seen<J, T>::cur = c; Seen<J, T>::exp = x;
  Seen<J, T>::at = &c; Seen<J, T>::expAt = &x;
  strncpy(pname[J], n.c_str(), sizeof pname[J] - 1);
  vf_assert(m.str().empty(), "a matcher is not given an empty message");
  m << msg[J];
  return verdict[J];
}
template <int J, class T> static EasyMock_Matcher_Cpp<T> pick(unsigned mask) { EasyMock_Matcher_Cpp<T> m = record<J, T>; return mask >> J & 1 ? m : 0; }
template <class T> static bool same(const T &a, const T &b) { return memcmp(&a, &b, std::is_same<T, long double>::value ? 10 : sizeof a) == 0; }
template <class T> static void sym(T &v, const char *n) { vf_symbolic(&v, sizeof v, n); }
static void sym(bool &v, const char *n) { *(unsigned char *)&v = (unsigned char)vf_range(2, n); }
static unsigned count() { unsigned n; easyMock_getErrorArr(&n); return n; }

// one set of arguments; reference parameters are bound to the objects themselves
template <class... A> struct Args;
template <> struct Args<> {
  void symbolic() {}
};
template <class H, class... A> struct Args<H, A...> {
  value<H> v{};
  Args<A...> rest;
  void symbolic() { sym(v, "argument"); rest.symbolic(); }
};
template <int J, class... A> struct Check { static void run(unsigned, Args<A...> &, Args<A...> &, const char *const *) {} };
template <int J, class H, class... A> struct Check<J, H, A...> {
  static void run(unsigned mask, Args<H, A...> &c, Args<H, A...> &x, const char *const *names)
  {
    vf_assert(called[J] == (mask >> J & 1), "a matcher is not called exactly once per call with its parameter, or one that was not given is called");
    if (mask >> J & 1) {
      vf_assert(same(Seen<J, H>::cur, c.v), "a matcher is not given the value of the call");
      vf_assert(same(Seen<J, H>::exp, x.v), "a matcher is not given the value of the expectation");
      vf_assert(strcmp(pname[J], names[J]) == 0, "a matcher is not given the name of the parameter");
      if (std::is_reference<H>::value) vf_assert((Seen<J, H>::at == &c.v), "a matcher is not given the object which the call refers to");
    }
    Check<J + 1, A...>::run(mask, c.rest, x.rest, names);
  }
};
static unsigned masks(unsigned n, int k)
{
  if (n == 0) return 0;
  if (n == 1) return vf_choice(2, "matcher");
  if (n > 4) { unsigned c = vf_choice(n + 1, "matchers"); return c < n ? 1u << c : 0; }   // at most one of many parameters
  if (k > 0) return vf_choice(2, "matchers") ? (1u << n) - 1 : 0;
  if (n == 2) return vf_choice(4, "matchers");
  unsigned c = vf_choice(n + 2, "matchers");
  return c < n ? 1u << c : c == n ? 0 : (1u << n) - 1;
}
static void start() { easyMock_setPrintCallStack(0); easyMock_setCheckCallsOrder(0); easyMock_init(); anyBad = false; }
static void begin(unsigned n, unsigned mask)
{
  before = (int)count();
  for (unsigned j = 0; j < n; j++) {
    called[j] = 0;
    sprintf(msg[j], "message <%u>", j);
    verdict[j] = mask >> j & 1 ? vf_choice(2, "verdict") : 0;
  }
}
static void end(unsigned n, unsigned mask, const char *fn, int further)
{
  int bad = further, added = (int)count() - before;
  unsigned tot;
  const char **e = easyMock_getErrorArr(&tot);
  for (unsigned j = 0; j < n; j++)
    if ((mask >> j & 1) && verdict[j]) {
      int found = 0;
      for (int k = before; k < before + added; k++) found += strstr(e[k], msg[j]) != 0;
      vf_assert(found == 1, "the message of a rejecting matcher is not in exactly one error");
      bad++;
    }
  vf_assert(added == bad, "a call does not add exactly one error per rejecting matcher and wrong object");
  for (int k = before; k < before + added; k++) vf_assert(strstr(e[k], fn) != 0, "an error of a call does not name the function");
  if (bad) { anyBad = true; vf_reach("rejected"); } else vf_reach("accepted");
}
static void finish() { vf_assert(easyMock_check() == !anyBad, "check succeeds exactly when no matcher rejected"); }

template <class R> struct Result {   // what an expectation is to return
  value<R> v{};
  void symbolic() { sym(v, "return"); }
};
template <> struct Result<void> { void symbolic() {} };
struct None {};
enum Target { NOTHING, ANY, MINE, WRONG };   // function, or method: expected for any object, this one, another one

template <class W, class R, class... A> struct Test {
  template <class E, class C, int... J> static void go(const char *fn, const char *const *names, E expect, C call, bool method, std::integer_sequence<int, J...>)
  {
    const unsigned n = sizeof...(A);
    static W w[2];
    Args<A...> x[2], c[2];
    Result<R> ret[2];
    unsigned mask[2], target[2];
    start();
    for (int k = 0; k < 2; k++) {
      x[k].symbolic(); c[k].symbolic(); ret[k].symbolic();
      mask[k] = masks(n, k);
      target[k] = !method ? NOTHING : ANY + vf_choice(3, "object");
      expect(target[k] == ANY ? 0 : target[k] == MINE ? &w[0] : &w[1], x[k], ret[k], mask[k]);
    }
    for (int k = 0; k < 2; k++) {
      begin(n, mask[k]);
      call(w[0], c[k], ret[k]);
      Check<0, A...>::run(mask[k], c[k], x[k], names);
      end(n, mask[k], fn, target[k] == WRONG);
    }
    finish();
  }
};
// the i-th argument of a set, as the parameter type
template <int I, class H, class... A> struct Arg { static auto &get(Args<H, A...> &a) { return Arg<I - 1, A...>::get(a.rest); } };
template <class H, class... A> struct Arg<0, H, A...> { static value<H> &get(Args<H, A...> &a) { return a.v; } };

template <class R, class C> static std::enable_if_t<std::is_void<R>::value> checkReturn(Result<R> &, C c) { c(); }
template <class R, class C> static std::enable_if_t<!std::is_void<R>::value> checkReturn(Result<R> &r, C c)
{
  if (std::is_reference<R>::value) {
    auto &&got = c();
    vf_assert(&got == &r.v, "the mock does not return a reference to the object given to its expectation");
  } else {
    value<R> got = c();
    vf_assert(same(got, r.v), "the mock does not return the value given to its expectation");
  }
}
template <class W, class R, class... A> struct Function {
  template <int... J> static void seq(const char *fn, const char *const *names, R (*f)(A...), void (*e)(A..., R, EasyMock_Matcher_Cpp<A>...), std::integer_sequence<int, J...> s)
  {
    Test<W, R, A...>::go(fn, names,
      [e](W *, Args<A...> &x, Result<R> &r, unsigned mask) { e(Arg<J, A...>::get(x)..., r.v, pick<J, A>(mask)...); },
      [f](W &, Args<A...> &c, Result<R> &r) { checkReturn<R>(r, [&]() -> R { return f(Arg<J, A...>::get(c)...); }); }, false, s);
  }
  static void test(const char *fn, const char *const *names, R (*f)(A...), void (*e)(A..., R, EasyMock_Matcher_Cpp<A>...)) { seq(fn, names, f, e, std::make_integer_sequence<int, sizeof...(A)>()); }
  template <class F, int... J> static void mseq(const char *fn, const char *const *names, F f, void (*e)(W *, A..., R, EasyMock_Matcher_Cpp<A>...), std::integer_sequence<int, J...> s)
  {
    Test<W, R, A...>::go(fn, names,
      [e](W *w, Args<A...> &x, Result<R> &r, unsigned mask) { e(w, Arg<J, A...>::get(x)..., r.v, pick<J, A>(mask)...); },
      [f](W &w, Args<A...> &c, Result<R> &r) { checkReturn<R>(r, [&]() -> R { return (w.*f)(Arg<J, A...>::get(c)...); }); }, true, s);
  }
  template <class F> static void method(const char *fn, const char *const *names, F f, void (*e)(W *, A..., R, EasyMock_Matcher_Cpp<A>...)) { mseq(fn, names, f, e, std::make_integer_sequence<int, sizeof...(A)>()); }
};
template <class W, class... A> struct Function<W, void, A...> {
  template <int... J> static void seq(const char *fn, const char *const *names, void (*f)(A...), void (*e)(A..., EasyMock_Matcher_Cpp<A>...), std::integer_sequence<int, J...> s)
  {
    Test<W, void, A...>::go(fn, names,
      [e](W *, Args<A...> &x, Result<void> &, unsigned mask) { e(Arg<J, A...>::get(x)..., pick<J, A>(mask)...); },
      [f](W &, Args<A...> &c, Result<void> &) { f(Arg<J, A...>::get(c)...); }, false, s);
  }
  static void test(const char *fn, const char *const *names, void (*f)(A...), void (*e)(A..., EasyMock_Matcher_Cpp<A>...)) { seq(fn, names, f, e, std::make_integer_sequence<int, sizeof...(A)>()); }
  template <class F, int... J> static void mseq(const char *fn, const char *const *names, F f, void (*e)(W *, A..., EasyMock_Matcher_Cpp<A>...), std::integer_sequence<int, J...> s)
  {
    Test<W, void, A...>::go(fn, names,
      [e](W *w, Args<A...> &x, Result<void> &, unsigned mask) { e(w, Arg<J, A...>::get(x)..., pick<J, A>(mask)...); },
      [f](W &w, Args<A...> &c, Result<void> &) { (w.*f)(Arg<J, A...>::get(c)...); }, true, s);
  }
  template <class F> static void method(const char *fn, const char *const *names, F f, void (*e)(W *, A..., EasyMock_Matcher_Cpp<A>...)) { mseq(fn, names, f, e, std::make_integer_sequence<int, sizeof...(A)>()); }
};
#define FREE(fn, f, names_, ...) static void t_##f() { static const char *const n[] = {names_, 0}; Function<None, __VA_ARGS__>::test(fn, n, ::f, EasyMock::f::ExpectAndReturn); }
#define SCOPED(scope, f, names_, ...) static void t_##f() { static const char *const n[] = {names_, 0}; Function<None, __VA_ARGS__>::test(#f "(", n, scope::f, EasyMock::scope::f::ExpectAndReturn); }
#define L(...) __VA_ARGS__
// a function among several with its name: the test has a name of its own
#define NAMED(test_, text, f, names_, ...) static void test_() { static const char *const n[] = {names_, 0}; Function<None, __VA_ARGS__>::test(text, n, ::f, EasyMock::f::ExpectAndReturn); }
#define METHODOF(test_, text, W, f, names_, ...) static void test_() { static const char *const n[] = {names_, 0}; Function<W, __VA_ARGS__>::method(text, n, &W::f, EasyMock::W::f::ExpectAndReturn); }
#endif

// EasyMock::cmp<T>, the matcher of C++ mocks: rejects exactly when the two objects differ, naming the parameter and both values.
#include "vf.h"
#include <cstring>
#include <cstdio>
#include <string>
#include <sstream>
#include <easyMock.h>
template <class T> static void sym(T &v, const char *n) { vf_symbolic(&v, sizeof v, n); }
static std::string name()
{
  unsigned len = vf_choice(2, "name") ? 3 : 0;
  std::string s;
  for (unsigned k = 0; k < len; k++) s += (char)vf_range(256, "name character");
  return s;
}
static std::string digits(const char *f, long long v) { char b[32]; snprintf(b, sizeof b, f, v); return b; }
static void judge(bool r, bool equal, const std::string &n, const std::string &m, const std::string &cur, const std::string &exp)
{
  vf_assert(r == !equal, "the matcher rejects equal objects or accepts different ones");
  if (r) {
    vf_assert(m == "Parameter '" + n + "' has value '" + cur + "', was expecting '" + exp + "'", "the message does not name the parameter, the value and the expected value");
    vf_reach("rejected");
  } else {
    vf_assert(m.empty(), "an accepted parameter leaves a message");
    vf_reach("accepted");
  }
}
template <class T> static void number(const char *f)
{
  T c, x;
  sym(c, "value"); sym(x, "expected");
#ifdef SMALL   // exact text
  c = (c & 15) + 95; x = (x & 15) + 95;
#endif
  std::string n = name();
  std::ostringstream m;
  bool r = EasyMock::cmp<T>(c, x, n, m);
#ifdef SMALL
  judge(r, c == x, n, m.str(), digits(f, c), digits(f, x));
#else
  vf_assert(r == (c != x), "the matcher rejects equal objects or accepts different ones");
  vf_assert(m.str().empty() == !r, "there is a message exactly when the parameter is rejected");
  if (r) vf_reach("rejected"); else vf_reach("accepted");
#endif
}
static void text()
{
  std::string c, x;
  unsigned lc = vf_choice(3, "length"), lx = vf_choice(3, "expected length");
  for (unsigned k = 0; k < lc; k++) c += (char)vf_range(256, "character");
  for (unsigned k = 0; k < lx; k++) x += (char)vf_range(256, "expected character");
  std::string n = name();
  std::ostringstream m;
  bool same = lc == lx && memcmp(c.data(), x.data(), lc) == 0;
  bool r = EasyMock::cmp<std::string>(c, x, n, m);
  judge(r, same, n, m.str(), c, x);
}
static void character()
{
  char c, x;
  sym(c, "value"); sym(x, "expected");
  std::string n = name();
  std::ostringstream m;
  bool r = EasyMock::cmp<char>(c, x, n, m);
  judge(r, c == x, n, m.str(), std::string(1, c), std::string(1, x));
}
// a class whose comparison and output are the user's: only these decide
struct Money { int cents; int note; };
static int compared;
static bool operator==(const Money &a, const Money &b) { compared++; return (a.cents == b.cents) & (a.note != -1); }   // like NaN: not even equal to itself
static std::ostream &operator<<(std::ostream &o, const Money &m) { return o << 1; }
static void own()
{
  Money c, x;
  sym(c, "value"); sym(x, "expected");
  std::string n = name();
  std::ostringstream m;
  bool one = vf_choice(2, "the same object");
  if (one) x = c;
  bool r = EasyMock::cmp<Money>(c, one ? c : x, n, m);
  judge(r, (c.cents == x.cents) & (c.note != -1), n, m.str(), "1", "1");
}
// the type of a reference parameter
static void reference()
{
  int c, x;
  sym(c, "value"); sym(x, "expected");
  c &= 7; x &= 7;
  std::string n = name();
  std::ostringstream m;
  bool r = EasyMock::cmp<const int &>(c, x, n, m);
  judge(r, c == x, n, m.str(), digits("%lld", c), digits("%lld", x));
}
static void pointer()
{
  int o[2];
  int *c = &o[vf_choice(2, "value")], *x = &o[vf_choice(2, "expected")];
  std::string n = name();
  std::ostringstream m;
  bool r = EasyMock::cmp<int *>(c, x, n, m);
  char tc[32], tx[32];
  snprintf(tc, sizeof tc, "%p", (void *)c); snprintf(tx, sizeof tx, "%p", (void *)x);
  judge(r, c == x, n, m.str(), tc, tx);
}
template <class T> static void floating()
{
  T c, x;
#ifdef SMALL
  static const T V[] = {0, (T)1.5, (T)-2e30, (T)__builtin_inf(), (T)__builtin_nan("")};
  static const char *const text[] = {"0", "1.5", "-2e+30", "inf", "nan"};
  unsigned k = vf_choice(5, "value"), l = vf_choice(5, "expected");
  c = V[k]; x = V[l];
#else
  sym(c, "value"); sym(x, "expected");
#endif
  bool one = vf_choice(2, "the same object");
  if (one) {
    c = x;
#ifdef SMALL
    k = l;
#endif
  }
  std::string n = name();
  std::ostringstream m;
  bool r = EasyMock::cmp<T>(one ? x : c, x, n, m);
#ifdef SMALL
  judge(r, k == l && k != 4, n, m.str(), text[k], text[l]);
#else
  vf_assert(r == !(c == x), "the matcher rejects equal objects or accepts different ones");
  vf_assert(m.str().empty() == !r, "there is a message exactly when the parameter is rejected");
#endif
}
void vf_main(void)
{
  vf_exact_format(1);
  switch (vf_choice(14, "type")) {
    case 0: number<int>("%lld"); break;
    case 1: number<unsigned>("%lld"); break;
    case 2: number<short>("%lld"); break;
    case 3: number<unsigned short>("%lld"); break;
    case 4: number<long>("%lld"); break;
    case 5: number<unsigned long>("%lld"); break;
    case 6: number<long long>("%lld"); break;
    case 7: text(); break;
    case 8: character(); break;
    case 9: own(); break;
    case 10: reference(); break;
    case 11: pointer(); break;
    case 12: floating<double>(); break;
    case 13: floating<float>(); break;
  }
}

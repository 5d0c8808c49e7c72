#ifndef CPPWIDE_H
#define CPPWIDE_H
struct pair { int a; short b; };
union number { long l; char c[8]; };
class Plain { public: int x; short y; };
typedef int (*callback)(int);
using word = unsigned int;
// classes and structures with methods of the same names, the same signatures and overloads
struct Base {
  int base;
  int get(int a);
  int shared(char c) const;
  virtual long turn(long a);
  virtual ~Base() {}
};
struct Der : public Base {
  short extra;
  int get(int a);
  long turn(long a);
  int own(Der *o, const Base &b);
};
class First {
  int x;
public:
  First() : x(3) {}
  explicit First(int a);
  ~First() {}
  First operator+(const First &o) const;
  bool operator==(const First &o) const { return x == o.x; }
  operator int() const { return x; }
  friend int friendly(short a);
  int get(int a);
  int get(long a, char b);
  First &self();
  First *other(First *o, const First &p);
  int twice(int a) { return 2 * a; }
  template <class T> T any(T a) { return a; }
  int xOf() const { return x; }
};
union Choice {
  int i;
  float f;
  int get(int a) const;
};
int friendly(short a);
template <class T> T generic(T a) { return a; }
inline int inlined(int a) { return a + 1; }
// overloads
int over(int a);
long over(long a, char b);
short over(short a, short b);
// the same function in several namespaces
int same(int a);
namespace Na {
int same(int a);
namespace Deep { int same(int a); }
class Klass { int k; public: int get(int a); bool flag(bool b) const; };
}
namespace Nb {
int same(int a);
long over(long a);
}
namespace Nc::Nd { int nested(unsigned char a, int b); }
namespace Ne { inline namespace V1 { int versioned(int a); } }
// parameters
int locals(int errorMessage, int curCallVal, int expectedCallVal, int matcher, int error, int instance);
int pointers(int *const p, const int *const q, const char *const *r);
int *&references(int *&a, const char *const &b, const bool &c);
bool truth(bool a);
Plain plain(Plain a, const Plain &b);
number unions(number a);
callback callbacks(callback a, const callback b);
void *voids(void *a, const void *b);
long double wide(unsigned long long a, long double b, signed char c, unsigned short d, long long e, word f, char g);
[[nodiscard]] int attributed(int a);
const pair &constant(const pair *a, const pair &b);
int defaulted(const char *s = "x, y", int n = sizeof(pair));
#endif

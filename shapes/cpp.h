#ifndef CPP_H
#define CPP_H
struct pair { int a; short b; };
enum color { RED, GREEN = 7, BLUE };
enum class level : short { LOW = -3, HIGH = 300 };
typedef unsigned int word;
class Widget {
  int state;
public:
  int empty();
  void idle();
  short one(char a);
  long two(int a, const long &b);
  word three(word a, color b, short c);
  void output(int *p, char c) const;
  int outputs(int *p, long *q, short s);
  pair merge(pair v, const pair &w);
  int &self(int a);
protected:
  long prot(long a, long b);
private:
  int hidden(unsigned char a, unsigned char b);
};
int plain(int a);
void none();
char nothing();
void refs(const long &r, int &s);
pair compound(pair v, const pair &w);
level scoped(color e, level f);
int *outs(int *p, const char *q, unsigned char **r);
double floating(double x, float y);
int &reference(int a);
const long& constReference(const long& a);
word alias(word t);
int defaults(int a, int b = 3);
int variadic(int n, ...);
extern "C" int linkage(int a, short b);
extern "C" {
long block(long long a);
}
namespace Outer {
unsigned long outer(unsigned long u);
namespace Inner {
short inner(char c, unsigned u);
}
signed char after(signed char c);
}
namespace Other {
int other(int a);
}
namespace Outer {
int again(int *p, int q);
}
int last(unsigned short a, unsigned short b, unsigned short c, unsigned short d);
#endif

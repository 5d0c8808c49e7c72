#ifndef CORE_CPP_H
#define CORE_CPP_H
namespace Space {
int foo(int a, long b);
}
class Object {
  int state;
public:
  void bar();
};
unsigned char baz(unsigned char *p, short s);
#endif

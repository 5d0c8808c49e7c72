// Parameters and return values of classes which own what they point to.
#ifndef CPPOWN_H
#define CPPOWN_H
class Owner {
public:
  Owner();
  Owner(int v);
  Owner(const Owner &o);
  Owner &operator=(const Owner &o);
  ~Owner();
  int *held;
  Owner *self;
};
struct Box { Owner inner; short k; };
void byValue(Owner o);
Owner returned(int k);
const Owner constReturned();
int boxes(Box a, const Box b);
Box boxed(const Owner &r, Owner v);
class Shop {
public:
  Owner sell(Owner o, int n);
};
#endif

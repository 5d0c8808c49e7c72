#ifndef LAYHUGE_H
#define LAYHUGE_H
struct wide {
  char pad[70000];
  int after;
  short s[40000];
  unsigned b:3;
};
struct huge {
  char pad[5000000000];
  int after;
};
typedef struct {
  struct wide w[3];
  int *p[300];
  char end;
} wides_t;
union uw {
  char c[65537];
  int i[256];
};
enum far {
  FAR_A = 2147483647,
  FAR_B,
  FAR_C = -2147483647 - 1,
  FAR_D = 9223372036854775807,
  FAR_E = -9223372036854775807 - 1
};
void f_wide(struct wide *w, struct huge *h, wides_t *x, union uw *u, enum far e);
#endif

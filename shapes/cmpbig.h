#ifndef CMPBIG_H
#define CMPBIG_H
typedef struct {
  short a;
  char b;
} pair_t;
struct big {
  int i[300];
  char c[70000];
  pair_t p[260];
  unsigned char last;
};
union ubig {
  long l[257];
  char c[4096];
};
void take_big(struct big b);
void take_ubig(union ubig *u);
#endif

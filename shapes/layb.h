#ifndef LAYB_H
#define LAYB_H
typedef unsigned int u32;
typedef u32 u33;
typedef u32 arr3[3];
typedef arr3 arr3b;
enum color { RED, GREEN = 5, BLUE };
enum neg { NA = -5, NB, NC = 1000000 };
enum big { BA = 1, BB = 0x7fffffffffL };
enum bigneg { CA = -1, CB = 0x7fffffffffL, CC };
enum uns { UA = 0xffffffffu, UB = 1 };
enum ch { CHA = 'a', CHB = sizeof(long), CHC = CHA + CHB * 2, CHD = -CHC, CHE = CHA };
typedef enum { T0 = 'a', T1, T2 = T0 } en_t;
typedef enum tagged { G0 = 3, G1 } tagged_t;
typedef struct { short a; char b; } pair_t;
typedef pair_t pair2_t;
typedef pair2_t pairs[2];
typedef struct hidden *handle;
struct opaque;
struct at;
struct eb;
typedef int (*op_t)(struct opaque *, const struct at *);
struct eb {
  enum color a:3;
  enum neg b:21;
  _Bool c:1;
  const unsigned int d:2;
  char e;
  unsigned char f:3;
  unsigned short g:9;
  u33 h:31;
};
struct at {
  char x;
  arr3 a;
  arr3b b;
  pairs p;
  short y;
  pair2_t q[2];
  char z;
};
struct cv {
  const int a;
  volatile short b;
  const volatile char c;
  const char *const d;
  volatile int *e;
  int *volatile f;
  const char *const *g;
  const u32 h;
  volatile void *i;
  int *const j;
};
struct ine {
  enum { IA, IB = 7 } k;
  enum inner { JA = -2, JB } j;
  enum inner l;
  int z;
};
struct cbs {
  void (*a)(struct eb, int *);
  pair_t *(*b)(const struct at *, enum neg);
  int (*c)(int);
  void *(*d)(void *(*)(int));
  op_t e;
  op_t f[2];
  handle g;
};
struct tdp {
  en_t e;
  tagged_t t;
  pair2_t p;
  struct opaque *o;
  const pair2_t *q;
  long double ld;
  __int128 i;
  unsigned __int128 u;
  _Bool b;
  enum ch ch;
  u33 v;
  signed char s;
};
struct noname {
  int :4;
  unsigned int a:4;
  int :0;
  char b;
  unsigned long long c:33;
  int d:2;
  long e:1;
};
struct lflex {
  short n;
  struct { short fa; char fb; } v[];
};
struct lflex2 {
  char n;
  double v[];
};
struct zero {
  char n;
  pair_t v[0];
};
typedef union deepu {
  struct {
    union {
      long q1;
      unsigned char q2[8];
  };
    struct {
      char c;
      int :7;
      int bf:9;
  } bits[2];
} w;
  double d;
  struct at at;
} deepu_t;
void t_0(struct eb *a);
void t_1(struct at a);
void t_2(struct cv *a);
void t_3(struct ine a);
void t_4(struct cbs *a);
void t_5(struct tdp a);
void t_6(struct noname *a);
void t_7(struct lflex *a);
void t_8(struct lflex2 *a);
void t_9(struct zero *a);
void t_10(deepu_t *a);
enum big e_1(enum bigneg a, enum uns b, struct hidden *h);
en_t e_2(enum ch a, op_t b, handle c);
#endif

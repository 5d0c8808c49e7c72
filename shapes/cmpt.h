#ifndef CMPT_H
#define CMPT_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef u32 arr3[3];
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int);
struct opaque;
union u_plain;
#include <stdint.h>
#include <stddef.h>
typedef struct node *nodep;
typedef const struct node *cnodep;
typedef union either *eitherp;
typedef struct hidden *hiddenp;
typedef struct hidden hidden_t;
typedef enum color *colorp;
typedef enum color color_t;
typedef void *handle;
typedef cb_t cbs_t;
typedef u32 u32b;
typedef u32b u32c;
typedef _Bool flag;
typedef nodep nodes[2];
typedef struct fwd fwd_t;
struct wraps;
typedef struct {
  short a;
  char b;
} pair_t;
typedef pair_t pair2[2];
struct node {
  int v;
  nodep next;
};
union either {
  int i;
  nodep p;
};
struct tptr {
  nodep np;
  cnodep cnp;
  const nodep cn;
  eitherp ep;
  hiddenp hp;
  hidden_t *h;
  colorp col;
  handle hv;
  nodep *npp;
  cbs_t cbs;
  cb_t *pcb;
  fwd_t *pfw;
  struct node *const cs2;
  const char *const *ppc;
};
struct tarr {
  nodep a[2];
  cbs_t f[2];
  colorp c[1];
  pair2 two;
  arr3 three;
  nodes n;
  char end;
};
struct tscal {
  u32c u;
  const u32 cu;
  flag fl;
  color_t colt;
  const enum color ce;
  volatile unsigned char vu;
  int8_t i8;
  uint64_t u64;
  size_t sz;
  intptr_t ip;
};
struct tbits {
  enum color e:4;
  _Bool b:1;
  u32 u:7;
  long long ll:64;
  color_t ct:3;
  flag fl:1;
  signed char sc:2;
  unsigned short us;
};
struct thole {
  struct {} none;
  char c;
  int zero[0];
  int i;
};
struct fwd {
  short s;
  fwd_t *self;
};
typedef struct b {
  int x;
} a;
struct a {
  a m;
  short n;
};
struct c_d {
  int x;
};
typedef struct c {
  long y;
} d_;
typedef struct {
  char x;
} e_;
struct _e {
  short z;
  char zz;
};
struct inner {
  struct wraps *owner;
  int k;
};
struct wraps {
  struct inner in;
  struct inner more[2];
  int z;
};
struct emb2 {
  struct {
    int x;
    short y;
} p;
  struct {
    char x;
    union {
      char y;
      unsigned short z;
  } p;
} q[2];
  int x;
};
typedef union {
  nodep p;
  u32c u;
  struct {
    char x;
    char y;
} s;
} tu_t;
void t_0(pair_t a);
void t_1(struct node a);
void t_2(union either a);
void t_3(struct tptr a);
void t_4(struct tarr a);
void t_5(struct tscal a);
void t_6(struct tbits a);
void t_7(struct thole a);
void t_8(fwd_t *a);
void t_9(a a);
void t_10(struct a a);
void t_11(struct c_d a);
void t_12(d_ a);
void t_13(e_ a);
void t_14(struct _e a);
void t_15(struct inner a);
void t_16(struct wraps a);
void t_17(struct emb2 a);
void t_18(tu_t a);
#endif

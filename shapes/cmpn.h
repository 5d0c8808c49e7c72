#ifndef CMPN_H
#define CMPN_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef u32 arr3[3];
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int);
struct opaque;
union u_plain;
typedef struct {
  short a;
  char b;
} pair_t;
struct arrs {
  int a[3];
  char s[4];
  double d[2];
  int *p[2];
  u32 one[1];
  short last;
};
struct bitsy {
  unsigned int a:3;
  int b:5;
  unsigned :0;
  unsigned long c:40;
  unsigned char d:1;
  short tail;
};
typedef struct nest {
  int x;
  pair_t y;
  struct arrs z;
  long w;
} nest_t;
struct deep {
  nest_t n;
  struct bitsy bits;
  char end;
};
struct anon {
  int x;
  struct {
    short q1;
    struct {
      char q2;
      int q3[2];
  };
};
  struct {
    char q;
    int r[2];
} in;
  union {
    long al;
    char ach;
};
};
struct sarr {
  pair_t a[3];
  struct bitsy b;
  unsigned short k;
};
union uni {
  long l;
  short s;
  char c[3];
};
struct unis {
  int tag;
  union uni u;
  union {
    int i;
    pair_t p;
} v;
  char z;
};
struct flex {
  int len;
  char b;
  int data[];
};
typedef struct byref {
  int v;
  short w[2];
} byref_t;
struct odd {
  int idx;
  short paramName[2];
  char errorMessage;
  long currentCall_val;
  pair_t expectedCall_val[2];
  int *currentCall_ptr;
  enum color class;
  unsigned short this[3];
  unsigned int _1;
  unsigned char rv:3;
  unsigned char printf:2;
};
void t_0(pair_t a);
void t_1(struct arrs a);
void t_2(struct bitsy a);
void t_3(nest_t a);
void t_4(struct deep a);
void t_5(struct anon a);
void t_6(struct sarr a);
void t_7(union uni a);
void t_8(struct unis a);
void t_9(struct flex *a);
void t_10(byref_t *a);
void t_11(struct odd a);
#endif

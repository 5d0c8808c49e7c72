#ifndef CMPS_H
#define CMPS_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef u32 arr3[3];
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int);
struct opaque;
union u_plain;
struct prim {
  char c;
  unsigned char uc;
  short s;
  unsigned short us;
  int i;
  unsigned int u;
  long l;
  unsigned long ul;
  long long ll;
  unsigned long long ull;
  float f;
  double d;
  long double ld;
  _Bool b;
};
typedef struct {
  short a;
  char b;
} pair_t;
struct ptrs {
  int *p;
  struct opaque *o;
  const char *cs;
  void *v;
  int (*cb)(int);
  enum color e;
  ab_t et;
  char **pp;
  cb_t cb2;
  pu32 pt;
};
struct bitsy {
  unsigned int a:3;
  int b:5;
  unsigned :0;
  unsigned long c:40;
  unsigned char d:1;
  short tail;
};
struct arrs {
  int a[3];
  char s[4];
  double d[2];
  int *p[2];
  u32 one[1];
  short last;
};
struct misc {
  u32 u32;
  const int ci;
  volatile short vs;
  signed char sc;
  struct rec *next;
  int *const cp;
  union u_plain *pu;
};
struct rec {
  int v;
  struct rec *next;
  struct rec *prev;
};
struct bare {
  char only;
};
void t_0(struct prim a);
void t_1(pair_t a);
void t_2(struct ptrs a);
void t_3(struct bitsy a);
void t_4(struct arrs a);
void t_5(struct misc a);
void t_6(struct rec a);
void t_7(struct bare a);
#endif

#ifndef POINTERS_H
#define POINTERS_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef struct { short a; char b; } pair_t;
struct one { char c; };
struct big { int a[5]; double d; char c; };
struct nest { struct big x; pair_t y; union { int i; float f; } u; };
union un { long l; char c[12]; };
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int, char);
typedef int arr4[4];
struct bits { unsigned a:3; unsigned b:13; int c:16; };
struct opaque;
struct fw { struct fw *next; struct opaque *o; cb_t cb; };
#define IN
#define BYTE unsigned char
#define ARGS int a, char *b
const char *p_str(const char *p1, const int *const q, int **p3);
void *p_void(void *p1, const void *p2);
struct big *p_big(struct big *p1, const struct big *p2);
struct opaque *p_op(struct opaque *p1);
cb_t p_cb(cb_t p1, int (*p2)(int, char));
int p_cb2(void (*p1)(void), void (*p2)(struct big, int *));
enum color *p_en(enum color *p1, _Bool *p2);
int p_arr(int a[4], char b[], const short c[3]);
void p_tdarr(arr4 a);
int (*p_fnret(int p1))(int, char);
const void *p_cfn(const char **a, char **b);
const struct big *p_cret(int const *a);
int *const p_cptr(int *const a);
int p_fnp(int g(int, char));
#endif

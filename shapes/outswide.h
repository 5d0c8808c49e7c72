#ifndef OUTSWIDE_H
#define OUTSWIDE_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef struct { short a; char b; } pair_t;
struct one { char c; };
struct big { int a[5]; double d; char c; };
struct nest { struct big x; pair_t y; union { int i; float f; } u; };
union un { long l; char c[12]; };
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int, char);
typedef int arr4[4];
struct bits { unsigned a:3; unsigned b:13; int c:16; };
struct opaque;
struct fw { struct fw *next; struct opaque *o; cb_t cb; };
#define IN
#define BYTE unsigned char
#define ARGS int a, char *b
typedef struct opaque opaque_t;
typedef opaque_t *handle;
typedef struct big *big_p;
typedef struct big big_1;
typedef void *anything;
typedef void nothing;
union nowhere;
typedef union nowhere nowhere_t;
typedef pair_t pair_1;
enum undefined;
int ow_six(int *p1, char *p2, short *p3, double *p4, pair_t *p5, long *p6);
void ow_same(int *p1, int *p2, int *p3, int *p4);
int ow_td(u32 *a, big_1 *b, pair_1 *c, pu32 d);
anything ow_tdvoid(anything a, handle b, opaque_t *c, nothing *d, const opaque_t *e);
struct opaque *ow_union(union nowhere *a, nowhere_t *b);
int ow_pph(opaque_t **a, handle *b);
int ow_ptrs(char **p1, struct big **p2);
int ow_ppv(void **p1, int p2);
int ow_enum(enum undefined *a, enum color *b);
const char *ow_const(int *const a, const int *b, void *const c, const void *d);
int ow_names(int *out, int *size, char *ret, long *a_size);
int ow_var(int *a, const char *f, pair_t *b, ...);
void *ow_restrict(void *restrict d, char *restrict s, unsigned long n);
cb_t ow_cb(cb_t a, int (*b)(int, char), int *c);
#endif

#ifndef OUTS_H
#define OUTS_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef struct { short a; char b; } pair_t;
struct one { char c; };
struct big { int a[5]; double d; char c; };
struct nest { struct big x; pair_t y; union { int i; float f; } u; };
union un { long l; char c[12]; };
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int, char);
typedef int arr4[4];
struct bits { unsigned a:3; unsigned b:13; int c:16; };
struct opaque;
struct fw { struct fw *next; struct opaque *o; cb_t cb; };
#define IN
#define BYTE unsigned char
#define ARGS int a, char *b
int o_int(int *p1);
void o_two(int *p1, double *p2);
int o_big(int p1, struct big *p2);
pair_t o_pair(pair_t *p1);
void o_void(void *p1, int p2);
int o_two_void(void *p1, void *p2);
int o_pp(int **p1);
void o_un(union un *p1);
int o_arr(int a[4], char b[]);
enum color o_en(enum color *p1);
_Bool o_b(_Bool *p1);
long o_mixed(const int *p1, short *p2, const void *p3, long *p4);
int o_opaque(struct opaque *p1);
int o_fw(struct fw *p1);
int o_mid(int p1, void *p2, int *p3);
#endif

#ifndef COMPOSED_H
#define COMPOSED_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef struct { short a; char b; } pair_t;
struct one { char c; };
struct big { int a[5]; double d; char c; };
struct nest { struct big x; pair_t y; union { int i; float f; } u; };
union un { long l; char c[12]; };
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int, char);
typedef int arr4[4];
struct bits { unsigned a:3; unsigned b:13; int c:16; };
struct opaque;
struct fw { struct fw *next; struct opaque *o; cb_t cb; };
#define IN
#define BYTE unsigned char
#define ARGS int a, char *b
pair_t c_pair(pair_t p1, int p2);
struct big c_big(struct big p1, pair_t p2);
struct nest c_nest(int p1, struct nest p2);
struct one c_one(struct one p1, struct one p2);
union un c_un(union un p1, struct bits p2);
struct bits c_bits(struct bits p1);
enum color c_en(enum color p1, ab_t p2);
ab_t c_ent(ab_t p1);
struct fw c_fw(struct fw p1, struct fw *p2);
void c_void(struct big p1, struct nest p2);
struct nest c_mix(pair_t p1, double p2, struct bits p3);
#endif

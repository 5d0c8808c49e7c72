#ifndef SPELLING_H
#define SPELLING_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef struct { short a; char b; } pair_t;
struct one { char c; };
struct big { int a[5]; double d; char c; };
struct nest { struct big x; pair_t y; union { int i; float f; } u; };
union un { long l; char c[12]; };
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int, char);
typedef int arr4[4];
struct bits { unsigned a:3; unsigned b:13; int c:16; };
struct opaque;
struct fw { struct fw *next; struct opaque *o; cb_t cb; };
#define IN
#define BYTE unsigned char
#define ARGS int a, char *b
int d_var(const char *fmt, ...);
int d_noname(int, char *, struct big);
unsigned d_order(long unsigned int a, int long b, char unsigned c);
char const *d_cpos(char const *a, int const b);
int d_com(int /* a, b */ x, /* c */ char *y /* , z */);
int d_line(int // first
 x,
 char
 y // second
);
BYTE d_mac(IN BYTE a, const BYTE b);
int d_macs(ARGS);
int d_attr(int a __attribute__((unused)), __attribute__((unused)) char *b);
extern int d_ext(int a);
int d_kr();
int	d_tab(	int	a	,	char
 *	b	);
int d_dup(int a);
int d_dup(int b);
int d_dup(int);
int d_names(int error, int data, int matcher, int mf, int name);
void *d_restrict(void *restrict d, const char *restrict s);
int d_static(int a[static 3]);
#endif

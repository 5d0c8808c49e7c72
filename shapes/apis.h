#ifndef APIS_H
#define APIS_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef struct { short a; char b; } pair_t;
struct one { char c; };
struct big { int a[5]; double d; char c; };
struct nest { struct big x; pair_t y; union { int i; float f; } u; };
union un { long l; char c[12]; };
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int, char);
typedef int arr4[4];
struct bits { unsigned a:3; unsigned b:13; int c:16; };
struct opaque;
struct fw { struct fw *next; struct opaque *o; cb_t cb; };
#define IN
#define BYTE unsigned char
#define ARGS int a, char *b
#include <stdarg.h>
#define ZEXTERN extern
#define EXPORTED __attribute__((visibility("default")))
#define LOCALAPI extern EXPORTED
#define TYPED(t) t
#define CONST const
#define STRUCT struct
#define ULONG unsigned long
ZEXTERN int p_ext(int a);
LOCALAPI const char *p_api(int a);
extern EXPORTED TYPED(int) p_unn(CONST char *, int);
ZEXTERN TYPED(void *) p_void(CONST char *x, CONST void *);
int p_va(const char *, va_list);
ZEXTERN int p_va2(int a, va_list ap);
int p_pva(va_list *);
int p_cbv(int (*cb)(const char *, va_list));
CONST char *p_words(CONST int, CONST unsigned long);
ULONG p_wide(CONST unsigned long, CONST long long);
int p_arr(CONST char *[2], CONST struct big *);
ULONG p_ul(ULONG, ULONG b);
CONST STRUCT big *p_struct(STRUCT fw *, STRUCT big);
BYTE p_uch(IN BYTE, IN BYTE b);
#endif

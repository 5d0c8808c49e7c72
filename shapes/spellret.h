#ifndef SPELLRET_H
#define SPELLRET_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef struct { short a; char b; } pair_t;
struct one { char c; };
struct big { int a[5]; double d; char c; };
struct nest { struct big x; pair_t y; union { int i; float f; } u; };
union un { long l; char c[12]; };
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int, char);
typedef int arr4[4];
struct bits { unsigned a:3; unsigned b:13; int c:16; };
struct opaque;
struct fw { struct fw *next; struct opaque *o; cb_t cb; };
#define IN
#define BYTE unsigned char
#define ARGS int a, char *b
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#define API
#define XAPI __attribute__((visibility("default")))
#define XAPI_CALL(n) __attribute__((aligned(n)))
#define NOTHING(s) __attribute__((section(s)))
#define U unsigned
#define PAR(x) x int
#define RET(t) extern t
#define LONG long
#define PTR(t) t *
#define CONST const
typedef int is_extern;
typedef int my_static_inline;
typedef int inline_t;
typedef u32 API_T;
typedef short XAPI_T;
API API_T r_empty(int a);
XAPI XAPI_T r_attr(XAPI_T a);
XAPI_T XAPI r_attr2(API_T API a);
U int r_u(U int a);
U r_u2(U a);
PAR(unsigned) r_par(int a);
RET(long) r_ext(LONG int a);
extern	unsigned	int r_tab(int a);
extern
int
r_lines(int a);
int extern r_post(int a);
const is_extern *r_cptr(inline_t *a);
PTR(char) r_ptr(PTR(const char) a);
CONST char *r_const(CONST int *a, char CONST *b);
XAPI_CALL(16) int r_call(int a);
NOTHING(".text.[*+") int r_sect(int a);
struct big /* struct pair */ r_com(int a);
/* old: short */ int r_com2(void);
unsigned // int
 char r_com3(int a);
int (r_paren)(int a);
int *(r_paren2)(int a);
__extension__ int r_ext2(int a);
volatile int r_vol(int a);
__typeof__(int) r_typeof(__typeof__(short) a);
struct fw *r_fw(struct fw *const a);
bool r_bool(bool a);
uint64_t r_u64(uint8_t a, size_t n);
char *r_a(char *a), r_b(char b);
extern int r_b_follows;
extern const char *const r_names(const char *const a);
is_extern r_isext(my_static_inline a);
short int unsigned r_sh(signed s, long long int unsigned l, long double d);
#endif

#ifndef SCALARS_H
#define SCALARS_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef struct { short a; char b; } pair_t;
struct one { char c; };
struct big { int a[5]; double d; char c; };
struct nest { struct big x; pair_t y; union { int i; float f; } u; };
union un { long l; char c[12]; };
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int, char);
typedef int arr4[4];
struct bits { unsigned a:3; unsigned b:13; int c:16; };
struct opaque;
struct fw { struct fw *next; struct opaque *o; cb_t cb; };
#define IN
#define BYTE unsigned char
#define ARGS int a, char *b
char s_char(char p1, unsigned char p2);
unsigned short s_short(short p1, unsigned short p2);
int s_int(unsigned int p1, int p2);
unsigned long s_long(long p1, unsigned long p2);
long long s_ll(long long p1, unsigned long long p2);
float s_flt(float p1, double p2);
long double s_ld(long double p1, double p2);
_Bool s_bool(_Bool p1, int p2);
__int128 s_128(__int128 p1, unsigned __int128 p2);
unsigned __int128 s_u128(char p1);
unsigned char s_uc(void);
double s_d(int p1);
short s_s(char p1, char p2, char p3);
u32 s_td(u32 p1, pu32 p2);
unsigned int s_ui(unsigned char p1, unsigned long long p2, unsigned short p3, float p4);
void s_void(int p1);
void s_none(void);
unsigned long long s_ull(double p1, long double p2, _Bool p3);
signed char s_sc(signed char p1, unsigned char p2);
const int s_const(const int a, volatile unsigned char b);
char s_six(char p1, short p2, int p3, long p4, float p5, double p6);
#endif

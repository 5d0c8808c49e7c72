#ifndef WIDE_H
#define WIDE_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef struct { short a; char b; } pair_t;
struct one { char c; };
struct big { int a[5]; double d; char c; };
struct nest { struct big x; pair_t y; union { int i; float f; } u; };
union un { long l; char c[12]; };
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int, char);
typedef int arr4[4];
struct bits { unsigned a:3; unsigned b:13; int c:16; };
struct opaque;
struct fw { struct fw *next; struct opaque *o; cb_t cb; };
#define IN
#define BYTE unsigned char
#define ARGS int a, char *b
typedef u32 u32_1;
typedef u32_1 u32_2;
typedef const u32_2 u32_3;
typedef pair_t pair_1;
typedef pair_1 pair_2;
typedef struct big big_t;
typedef big_t *big_p;
typedef big_p big_p2;
typedef cb_t cb_2;
struct huge { char c[600]; int n[37]; int last; };
typedef enum color color_t;
typedef color_t color_2;
typedef char *str_t;
typedef const char *cstr_t;
struct ck { const int a; char *const p; short c; };
long long w_many(char p1, unsigned long long p2, short p3, double p4, int p5, void *p6, unsigned char p7, float p8, long p9, pair_t p10, unsigned short p11, unsigned int p12, const char *p13, long double p14, _Bool p15, enum color p16, __int128 p17);
int w_same(int p1, int p2, int p3, int p4, int p5, int p6, int p7, int p8, int p9, int p10, int p11, int p12);
pair_t w_structs(pair_t p1, pair_t p2, pair_t p3, pair_t p4, pair_t p5);
char *w_ptrs(char *p1, const char *p2, char *p3, char **p4, void *p5, const void *p6, const int *p7);
long w_a_name_which_is_as_long_as_the_names_that_code_generators_for_protocol_stacks_like_to_make(long a_name_which_is_as_long_as_the_names_that_code_generators_for_protocol_stacks_like_to_make, long a_name_which_is_as_long_as_the_names_that_code_generators_for_protocol_stacks_like_to_mak);
int ***w_deep(int ***p1, struct big **p2, void **p3);
void **w_deep2(char ***p1, const void *const *p2, pair_t **p3);
u32_2 w_chain(u32_2 a, u32_3 b, const u32_1 c);
pair_1 w_chain2(pair_2 a, pair_2 *b, big_p2 c);
big_p w_chain3(big_t a, cb_2 b, color_2 c);
cstr_t w_chain4(str_t a, const str_t b, cstr_t c, const cstr_t d);
struct ck w_ck(struct ck p1, const struct ck b);
struct ck w_ckret(void);
struct huge w_huge(struct huge p1, int p2);
struct huge w_huge2(int p1, struct huge p2, struct huge p3);
int w_locals(int errorMessage, int curCallVal, int expectedCallVal, int matcher, int error, int currentDataCall, int printCallStack, int checkCallsOrder, int default_res, int currentCall, int curFuncCall, int mockedData, int rv, int instance, int idx, int data, int call);
const char *w_matched(const char *errorMessage, const char *paramName, int idx);
int w_digits2(int a1, int a11, int a, int A);
int w_digits(int _, int __a, int a_);
int w_digits22(int p1);
long W_DIGITS2(long p1);
#endif

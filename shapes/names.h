#ifndef NAMES_H
#define NAMES_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef struct { short a; char b; } pair_t;
struct one { char c; };
struct big { int a[5]; double d; char c; };
struct nest { struct big x; pair_t y; union { int i; float f; } u; };
union un { long l; char c[12]; };
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int, char);
typedef int arr4[4];
struct bits { unsigned a:3; unsigned b:13; int c:16; };
struct opaque;
struct fw { struct fw *next; struct opaque *o; cb_t cb; };
#define IN
#define BYTE unsigned char
#define ARGS int a, char *b
int _n(int _);
long __n(long __);
char n_(char ___);
unsigned long __n__(unsigned long _1);
double N(double N);
unsigned int n(unsigned int n);
unsigned short nN9_9(unsigned short n9);
int data(pair_t data_);
int instance(int this);
pair_t matcher(pair_t match);
void *verify(const void *new);
cb_t reset(cb_t delete);
long long mockedData(long long class);
int template(enum color namespace, enum color using);
int cmp(struct big *cmp_int, int cmp_str);
union un currentCall(union un operator);
float expectedCall(float virtual);
const char *paramName(const char *name);
unsigned char registerMock(unsigned char register_);
short mock(short mocked, short mock_);
__int128 dummyRes(__int128 dummyRes_i);
int expect(int ExpectAndReturn);
void *nullptr(void *null);
_Bool bool_(_Bool boolean);
char *NULL_(char *EOF_);
int shadow(int matcher, pair_t error, const void *expectedCallVal, long rv, short data, unsigned char shadow);
short matchers(const void *matcher);
long actual(short error, unsigned int currentCallVal, struct big *curFuncCall);
#endif

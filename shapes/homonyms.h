#ifndef HOMONYMS_H
#define HOMONYMS_H
typedef unsigned int u32;
typedef u32 *pu32;
typedef struct { short a; char b; } pair_t;
struct one { char c; };
struct big { int a[5]; double d; char c; };
struct nest { struct big x; pair_t y; union { int i; float f; } u; };
union un { long l; char c[12]; };
enum color { RED, GREEN = 5, BLUE };
typedef enum { AA, BB = -3 } ab_t;
typedef int (*cb_t)(int, char);
typedef int arr4[4];
struct bits { unsigned a:3; unsigned b:13; int c:16; };
struct opaque;
struct fw { struct fw *next; struct opaque *o; cb_t cb; };
#define IN
#define BYTE unsigned char
#define ARGS int a, char *b
struct wraps;
typedef struct b { int x; } a;
struct a { a m; short n; };
struct c_d { int x; };
typedef struct c { double y; char k; } d_;
typedef struct { char x; } e_;
struct _e { short z; char zz; };
typedef struct node *nodep;
typedef struct list *list;
struct list { list head; nodep n; };
struct node { struct node *next; struct list *owner; };
typedef union u1 { int a; char c; } s1;
struct s1 { s1 m; s1 *p; char k; };
struct inner { struct wraps *owner; int k; };
struct wraps { struct inner in; struct inner more[2]; int z; };
a h_ab(struct a p1, a p2);
struct a h_ba(a p1, struct a p2);
struct c_d h_cd(struct c_d p1, d_ p2);
d_ h_d(d_ p1);
e_ h_e(e_ p1, struct _e p2);
struct _e h_se(struct _e p1);
a *h_p(a *p1, struct a *p2);
struct a *h_sp(struct a *p1);
nodep h_node(nodep p1, list p2);
list h_list(struct list *p1, struct list p2);
struct list h_slist(nodep p1);
s1 h_s1(s1 p1, struct s1 p2);
struct s1 h_ss1(struct s1 p1);
struct inner *h_in(struct wraps *p1);
struct wraps h_wr(struct wraps p1, struct inner p2);
struct inner h_win(struct inner *p1);
int /* a */ * /* b */ h_com(void);
char /* * */ * /* ( */ * h_com2 /* ) */ (/* int */ char */**/a);
/**/unsigned/**/int/**/h_com3/**/(/**/const/**/int/**/*/**/a/**/)/**/;
char // *
 * // (int)
 h_com4(int // b)
 a);
#endif

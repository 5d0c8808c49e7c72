#ifndef CMPSEL_H
#define CMPSEL_H
struct in { short p; char q; };
struct mid { int m; struct in i; };
struct big { int x; struct in i; struct mid d[2]; long y; };
typedef struct big big_t;
typedef struct { int k; struct in n; } anon_t;
struct other { struct in i; short s; };
union un { int u; };
typedef struct { struct in i; short s; } struct_like;
struct union_tag { int t; };
struct ret { int v; };
struct opaque;
enum en { E0, E1 };
int takes_big(struct big b);
int takes_big_t(const big_t *b);
int takes_mid(struct mid *m);
int takes_in(struct in i, enum en e);
int takes_anon(anon_t a);
int takes_un(union un u, const union un *p);
void takes_like(struct_like l, struct union_tag t);
void takes_other(struct other *o);
struct ret returns_ret(struct opaque *o, int v);
#endif

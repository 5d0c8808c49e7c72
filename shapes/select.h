#ifndef SELECT_H
#define SELECT_H
#include <stddef.h>
#include "select_inc.h"
int alpha(int x);
int beta(int y);
extern int gamma_(int z);
int alphabet(int x);
/* not mocked: defined here, or local to each file */
static int local_decl(int z);
static int local_body(int z) { return z + 1; }
static inline int inline_body(int z) { return z + 2; }
__attribute__((always_inline)) inline int inline_gnu(int z) { return z + 3; }
int declared_then_defined(int v);
static inline int defined_static(int v);
static inline int defined_static(int v) { return v + 4; }
__attribute__((weak)) int declared_then_defined(int v) { return v + 5; }
static int local_decl(int z) { return z + 6; }
/* mocked once, however often declared */
int again(int first);
int again(int second);
int again(int);
typedef int num;
num again_typedef(num first);
int again_typedef(int);
/* several functions and a variable in one declaration */
extern int first_of(int v), second_of(int v), variable, third_of(int v);
#if 0
int disabled(int v);
#else
int enabled(int v);
#endif
#define MAKE(n) int n##_made(int v);
MAKE(one) MAKE(two)
int same_line(int v); int next(int v);
int /* comment(int a); */ commented(int v); // int in_comment(int a);
int multi
(
  int v
);
int with_struct(struct inc p);
/* mocked under the name behind the macro only */
int aliased(int v);
#define aliased target
int target(int v);
#define called(x) called(x)
int (called)(int v);
int same(int v);
#define same same
#ifdef MORE
#include <select_more.h>
int more(int v);
#if MORE == 2 && MANY(MORE, 3)
int many(int v);
#endif
#else
int less(int v);
#endif
#define VARIADIC(...) target(__VA_ARGS__)
#define NAMED(first, more...) target(more)
#define EMPTY()
#endif

#ifndef SELECT_INC_H
#define SELECT_INC_H
struct inc { int x; };
int included(int a);
int included_too(int a);
static inline int included_inline(int a) { return a + 20; }
#endif

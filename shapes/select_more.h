#ifndef SELECT_MORE_H
#define SELECT_MORE_H
#define MANY(x, y) ((x) != (y))
int included_more(int a);
#endif

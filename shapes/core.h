#ifndef CORE_H
#define CORE_H
int foo(int a, long b);
void bar(void);
unsigned char baz(unsigned char *p, short s);
#endif

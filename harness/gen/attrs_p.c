// The program's own definitions of functions of shapes/attrs.h.
#if SET == 1
#define OWN __attribute__((weak))
#else
#define OWN
#endif
OWN int weak_after(int x) { return x ^ 1; }
OWN int weak_before(int x) { return x ^ 2; }
OWN int weak_between(int x) { return x ^ 3; }
OWN int weak_macro(int x) { return x ^ 4; }
OWN int weak_macro_before(int x) { return x ^ 5; }
OWN int weak_two(int x) { return x ^ 6; }
OWN int weak_format(int x, const char *f, ...) { return x ^ 7; }
#define IDLE __attribute__((weak))
IDLE int plain(int x) { return x ^ 8; }
IDLE int cold(int x) { return x ^ 9; }
IDLE int hidden(int x) { return x ^ 10; }
IDLE int unused_result(int x) { return x ^ 11; }
IDLE int format(int x, const char *f, ...) { return x ^ 12; }
IDLE int pure(int x) { return x ^ 13; }
IDLE int nonnull(int x, const char *p) { return x ^ 14; }
IDLE int nonnulls(int x, const char *p, const char *q) { return x ^ 18; }
IDLE void *sized(int x, int n) { return 0; }
OWN int weak_underscores(int x) { return x ^ 20; }
IDLE int elsewhere(int x) { return x ^ 21; }
IDLE int with(int x) { return x ^ 15; }
IDLE int param(int x) { return x ^ 16; }
IDLE int strings(int x) { return x ^ 17; }
int ended;
#if TYPES
IDLE
#endif
void stops(int x) { ended = x; }
#if TYPES
IDLE
#endif
void stops_too(int x) { ended = x; }

#ifndef ATTRS_H
#define ATTRS_H
typedef int num;
#define WEAK __attribute__((weak))
#define COLD __attribute__((cold))
#define WEAK_COLD WEAK COLD
#define PRINTF(n, m) __attribute__((format(printf, n, m)))
#define WITH(t) __attribute__((unused)) t
/* weak in the header */
int weak_after(int x) __attribute__((weak));
__attribute__((weak)) int weak_before(int x);
num __attribute__((weak)) weak_between(num x);
int weak_macro(int x) WEAK;
WEAK num weak_macro_before(num x);
WEAK_COLD int weak_two(int x);
int weak_format(int x, const char *f, ...) __attribute__((weak, format(printf, 2, 3)));
/* not weak */
int plain(int x);
int cold(int x) COLD;
int hidden(int x) __attribute__((visibility("hidden")));
__attribute__((warn_unused_result)) int unused_result(int x);
int format(int x, const char *f, ...) PRINTF(2, 3);
int pure(int x) __attribute__((__pure__)) __attribute__((__nothrow__, __leaf__));
int nonnull(int x, const char *p) __attribute__((nonnull(2)));
int nonnulls(int x, const char *p, const char *q) __attribute__((nonnull(2, 3)));
void *sized(int x, int n) __attribute__((alloc_size(1, 2), malloc, alloc_align (2)));
__attribute__((section(".text.elsewhere"), noinline, cold)) int elsewhere(int x);
__attribute__((__weak__)) int weak_underscores(int x);
WITH(int) with(int x);
int param(__attribute__((unused)) int x);
extern int __attribute__((unused, deprecated("old (really)"))) strings(int x);
int labelled(int x) __asm__("labelled_in_assembler");
_Noreturn void stops(int x);
void stops_too(int x) __attribute__((noreturn));
#endif

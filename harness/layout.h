// What one version of the types looks like: the value and the type of member k, size (-1) and alignment (-2).
#ifndef LAYOUT_H
#define LAYOUT_H
typedef unsigned long (*reader)(const void *, int, int);
struct layout { reader rd[32]; long (*enumerator)(int, int); };
extern const struct layout original, generated;
// the basic type of a value, and how what it points to is qualified
#define TYPE(x) (VTYPE(x) + 1000 * QUAL(x))
#define VTYPE(x) _Generic((x), char: 1, signed char: 2, unsigned char: 3, short: 4, unsigned short: 5, int: 6, unsigned: 7, long: 8, unsigned long: 9, long long: 10, unsigned long long: 11, \
  float: 12, double: 13, long double: 14, _Bool: 15, __int128: 16, unsigned __int128: 17, \
  void *: 20, const void *: 21, volatile void *: 22, char *: 23, const char *: 24, int *: 25, const int *: 26, volatile int *: 27, unsigned *: 28, const unsigned *: 29, char **: 30, const char *const *: 31, const char **: 32, char *const *: 33, \
  struct opaque *: 34, int (*)(int): 35, default: 99)
#define QUAL(x) (_Generic(&(x), const __typeof__(x) *: 1, default: 0) + _Generic(&(x), volatile __typeof__(x) *: 2, default: 0))
static inline unsigned long bits(const void *p, int n)
{
  const unsigned char *b = (const unsigned char *)p;
  unsigned long v = 0;
  for (int i = 0; i < n; i++) v ^= (unsigned long)b[i] << (i % 8 * 8);
  return v;
}
#endif

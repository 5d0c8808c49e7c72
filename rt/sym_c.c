// Model of the C library for the symbolic executor (compiled to IR with -fno-builtin).  memcpy, memset, memcmp, the
// printf family and the raw allocator are built into the executor.
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include "vf.h"
extern void *vf_raw_alloc(size_t n, int uninit, int kind);
extern void vf_raw_free(void *p, int kind);
extern size_t vf_block_size(void *p);
extern void *memcpy(void *, const void *, size_t);
extern void *memmove(void *, const void *, size_t);
extern void *memset(void *, int, size_t);

__attribute__((weak)) void vf_on_exit(int code) { (void)code; vf_fail("the program exits"); }
__attribute__((weak)) void vf_on_abort(const char *msg) { vf_fail(msg); }
__attribute__((weak)) int vf_hook_malloc_fails(size_t n) { (void)n; return 0; }

static int vf_errno;
int *__errno_location(void) { return &vf_errno; }

void *malloc(size_t n)
{
  if (vf_hook_malloc_fails(n)) return 0;
  return vf_raw_alloc(n, 1, 0);
}
void *calloc(size_t a, size_t b)
{
  if (vf_hook_malloc_fails(a * b)) return 0;
  return vf_raw_alloc(a * b, 0, 0);
}
void free(void *p) { if (p) vf_raw_free(p, 0); }
void *realloc(void *p, size_t n)
{
  if (!p) return malloc(n);
  if (vf_hook_malloc_fails(n)) return 0;
  size_t o = vf_block_size(p);
  void *q = vf_raw_alloc(n, 1, 0);
  memcpy(q, p, o < n ? o : n);
  vf_raw_free(p, 0);
  return q;
}
void *reallocarray(void *p, size_t a, size_t b) { return realloc(p, a * b); }

void exit(int c) { vf_on_exit(c); vf_end_path(); }
void _exit(int c) { vf_on_exit(c); vf_end_path(); }
void abort(void) { vf_on_abort("abort() called"); vf_end_path(); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)e; (void)f; (void)l; (void)fn; vf_on_abort("assertion in the code fails"); vf_end_path(); }

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b)
{
  for (;; a++, b++) {
    unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
}
int strncmp(const char *a, const char *b, size_t n)
{
  for (; n; a++, b++, n--) {
    unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n)
{
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n)
{
  char *e = d + strlen(d);
  size_t i = 0;
  for (; i < n && s[i]; i++) e[i] = s[i];
  e[i] = 0;
  return d;
}
char *strchr(const char *s, int c)
{
  for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c)
{
  const char *r = 0;
  for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
char *strstr(const char *h, const char *n)
{
  size_t l = strlen(n);
  for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; }
}
char *strdup(const char *s)
{
  size_t n = strlen(s) + 1;
  char *r = (char *)malloc(n);
  if (r) memcpy(r, s, n);
  return r;
}
char *strndup(const char *s, size_t m)
{
  size_t n = strnlen(s, m);
  char *r = (char *)malloc(n + 1);
  if (r) { memcpy(r, s, n); r[n] = 0; }
  return r;
}
void *memchr(const void *s, int c, size_t n)
{
  const unsigned char *p = (const unsigned char *)s;
  for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i);
  return 0;
}
void *memrchr(const void *s, int c, size_t n)
{
  const unsigned char *p = (const unsigned char *)s;
  for (size_t i = n; i > 0; i--) if (p[i - 1] == (unsigned char)c) return (void *)(p + i - 1);
  return 0;
}
size_t wcslen(const int *s) { size_t n = 0; while (s[n]) n++; return n; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isblank(int c) { return c == ' ' || c == 9; }
int strcasecmp(const char *a, const char *b)
{
  while (1) {
    int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
    if (x != y || !x) return x - y;
    a++; b++;
  }
}
int strncasecmp(const char *a, const char *b, size_t n)
{
  for (; n; n--, a++, b++) {
    int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
    if (x != y || !x) return x - y;
  }
  return 0;
}
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *r) { size_t n = 0; while (s[n] && !strchr(r, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
char *index(const char *s, int c) { return strchr(s, c); }
char *rindex(const char *s, int c) { return strrchr(s, c); }
void *rawmemchr(const void *s, int c) { const unsigned char *p = s; while (*p != (unsigned char)c) p++; return (void *)p; }
char *stpncpy(char *d, const char *s, size_t n) { size_t l = strnlen(s, n); strncpy(d, s, n); return d + l; }
void *memccpy(void *d, const void *s, int c, size_t n)
{
  unsigned char *x = d; const unsigned char *y = s;
  for (; n; n--) if ((*x++ = *y++) == (unsigned char)c) return x;
  return 0;
}
void *memmem(const void *h, size_t hn, const void *n, size_t nn)
{
  const char *a = h, *b = n;
  for (size_t i = 0; i + nn <= hn; i++) { size_t k = 0; while (k < nn && a[i + k] == b[k]) k++; if (k == nn) return (void *)(a + i); }
  return 0;
}
char *strtok_r(char *s, const char *d, char **save)
{
  if (!s) s = *save;
  s += strspn(s, d);
  if (!*s) { *save = s; return 0; }
  char *e = s + strcspn(s, d);
  if (*e) *e++ = 0;
  *save = e;
  return s;
}
char *strtok(char *s, const char *d) { static char *save; return strtok_r(s, d, &save); }
char *strsep(char **s, const char *d)
{
  char *r = *s;
  if (!r) return 0;
  char *e = r + strcspn(r, d);
  if (*e) { *e = 0; *s = e + 1; } else *s = 0;
  return r;
}
static int digit(char c, int b)
{
  int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
  return v < b ? v : -1;
}
static unsigned long number(const char *s, char **end, int base, int sign)
{
  const char *p = s, *start;
  int neg = 0, over = 0;
  unsigned long r = 0, lim = sign ? 0x7fffffffffffffffUL : ~0UL;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit(p[2], 16) >= 0) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  start = p;
  if (sign && neg) lim++;
  for (int d; (d = digit(*p, base)) >= 0; p++) { if (r > (lim - d) / base) over = 1; else r = r * base + d; }
  if (end) *end = (char *)(p == start ? s : p);
  if (over) { vf_errno = 34; return lim; }
  return neg ? -r : r;
}
long strtol(const char *s, char **e, int b) { return (long)number(s, e, b, 1); }
long long strtoll(const char *s, char **e, int b) { return (long)number(s, e, b, 1); }
unsigned long strtoul(const char *s, char **e, int b) { return number(s, e, b, 0); }
unsigned long long strtoull(const char *s, char **e, int b) { return number(s, e, b, 0); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtol(s, 0, 10); }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }
long long llabs(long long v) { return v < 0 ? -v : v; }
void qsort(void *base, size_t n, size_t z, int (*cmp)(const void *, const void *))
{
  char *b = base, *t = malloc(z);
  for (size_t i = 1; i < n; i++)
    for (size_t k = i; k && cmp(b + (k - 1) * z, b + k * z) > 0; k--) { memcpy(t, b + k * z, z); memcpy(b + k * z, b + (k - 1) * z, z); memcpy(b + (k - 1) * z, t, z); }
  free(t);
}
void *bsearch(const void *key, const void *base, size_t n, size_t z, int (*cmp)(const void *, const void *))
{
  size_t lo = 0, hi = n;
  while (lo < hi) {
    size_t m = lo + (hi - lo) / 2;
    int c = cmp(key, (const char *)base + m * z);
    if (!c) return (char *)base + m * z;
    if (c < 0) hi = m; else lo = m + 1;
  }
  return 0;
}
void *aligned_alloc(size_t a, size_t n) { (void)a; return malloc(n); }
int posix_memalign(void **p, size_t a, size_t n) { (void)a; *p = malloc(n); return *p ? 0 : 12; }
extern int vsnprintf(char *, size_t, const char *, va_list);
int vasprintf(char **p, const char *f, va_list ap)
{
  va_list again;
  va_copy(again, ap);
  int n = vsnprintf(0, 0, f, ap);
  *p = malloc((size_t)n + 1);
  n = *p ? vsnprintf(*p, (size_t)n + 1, f, again) : -1;
  va_end(again);
  return n;
}
int asprintf(char **p, const char *f, ...) { va_list ap; va_start(ap, f); int n = vasprintf(p, f, ap); va_end(ap); return n; }
int __vsnprintf_chk(char *b, size_t n, int fl, size_t z, const char *f, va_list ap) { (void)fl; (void)z; return vsnprintf(b, n, f, ap); }
int __snprintf_chk(char *b, size_t n, int fl, size_t z, const char *f, ...) { (void)fl; (void)z; va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
// a single thread
int pthread_mutex_init(void *m, const void *a) { (void)m; (void)a; return 0; }
int pthread_mutex_lock(void *m) { (void)m; return 0; }
int pthread_mutex_trylock(void *m) { (void)m; return 0; }
int pthread_mutex_unlock(void *m) { (void)m; return 0; }
int pthread_mutex_destroy(void *m) { (void)m; return 0; }
int pthread_once(int *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
unsigned long pthread_self(void) { return 1; }
__attribute__((weak)) char *getenv(const char *n) { (void)n; return 0; }
__attribute__((weak)) char *secure_getenv(const char *n) { (void)n; return 0; }
__attribute__((weak)) char *strerror(int e) { (void)e; return "error"; }
__attribute__((weak)) char *setlocale(int c, const char *l) { (void)c; (void)l; return "C"; }
__attribute__((weak)) int fclose(void *f) { (void)f; return 0; }

// stack walking: no frames are ever available
__attribute__((weak)) int _Ux86_64_getcontext(void *c) { (void)c; return 0; }
__attribute__((weak)) int _ULx86_64_init_local(void *c, void *u) { (void)c; (void)u; return 0; }
__attribute__((weak)) int _ULx86_64_step(void *c) { (void)c; return 0; }
__attribute__((weak)) int _ULx86_64_get_reg(void *c, int r, uint64_t *v) { (void)c; (void)r; *v = 0; return 0; }

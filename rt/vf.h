// Interface between a harness and whatever runs it: the symbolic executor (inputs are symbolic, assertions are decided
// by the solver) or the native replay runtime (inputs are the recorded counterexample).
#ifndef VF_H
#define VF_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void vf_symbolic(void *p, size_t n, const char *name);   // n arbitrary bytes at p
void vf_assume(int c);                                   // continue only when c
void vf_assert_impl(int c, const char *msg);
void vf_reach(const char *name);                         // witness: this point is reachable
void vf_end_path(void) __attribute__((noreturn));
void vf_fail(const char *msg) __attribute__((noreturn));
size_t vf_heap_live(void);                               // number of live heap blocks
unsigned long vf_fork(unsigned long x);                  // symbolic executor: one path per value of x
void vf_exact_format(int on);
int vf_native(void);
void vf_print(const char *name, unsigned long v);
// hooks a harness may define
void vf_on_exit(int code);
void vf_on_abort(const char *msg);
int vf_hook_malloc_fails(size_t n);
void vf_main(void);
#ifdef __cplusplus
}
#endif
#define vf_assert(c, msg) vf_assert_impl(!!(c), msg)
#define VF_SYM(v, name) vf_symbolic(&(v), sizeof(v), name)
// one of 0..n-1, explored one path each
static inline unsigned vf_choice(unsigned n, const char *name)
{
  unsigned char c;
  vf_symbolic(&c, 1, name);
  vf_assume(c < n);
  return (unsigned)vf_fork(c);
}
// one of 0..n-1, kept symbolic
static inline unsigned vf_range(unsigned n, const char *name)
{
  unsigned char c;
  vf_symbolic(&c, 1, name);
  vf_assume(c < n);
  return c;
}
static inline int vf_int(const char *name) { int x; vf_symbolic(&x, sizeof x, name); return x; }
#endif

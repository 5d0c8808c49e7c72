// Native replay: runs a harness on the recorded inputs of a counterexample, against the real code, C library and C++
// library.  Exit 77: an assertion failed; 0: nothing failed; 79: the run took another path than the recorded one.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>
#include <unistd.h>
#include <malloc.h>
#include "vf.h"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
static std::vector<std::pair<std::string, std::string>> *in;
static size_t pos;
static long live;
static void onMalloc(const volatile void *, size_t) { live++; }
static void onFree(const volatile void *p) { if (p) live--; }
static void done(int c) { fflush(stdout); fflush(stderr); _exit(c); }
extern "C" {
void vf_symbolic(void *p, size_t n, const char *name)
{
  if (pos >= in->size()) { memset(p, 0, n); pos++; return; }
  auto &r = (*in)[pos++];
  if (r.first != name || r.second.size() != n) {
    fprintf(stderr, "VF-DIVERGED at input %zu: recorded %s (%zu bytes), asked for %s (%zu bytes)\n", pos - 1, r.first.c_str(), r.second.size(), name, n);
    done(79);
  }
  memcpy(p, r.second.data(), n);
}
void vf_assume(int c) { if (!c) { fprintf(stderr, "VF-ASSUME-FALSE\n"); done(79); } }
void vf_assert_impl(int c, const char *msg) { if (!c) { fprintf(stderr, "VF-VIOLATION %s\n", msg); done(77); } }
void vf_reach(const char *) {}
void vf_end_path(void) { done(0); __builtin_unreachable(); }
void vf_fail(const char *msg) { fprintf(stderr, "VF-VIOLATION %s\n", msg); done(77); __builtin_unreachable(); }
size_t vf_heap_live(void) { return (size_t)live; }
unsigned long vf_fork(unsigned long x) { return x; }
void vf_exact_format(int) {}
int vf_native(void) { return 1; }
void vf_print(const char *n, unsigned long v) { fprintf(stderr, "%s = %lu (0x%lx)\n", n, v, v); }
__attribute__((weak)) void vf_on_exit(int) { vf_fail("the program exits"); }
__attribute__((weak)) void vf_on_abort(const char *msg) { vf_fail(msg); }
__attribute__((weak)) int vf_hook_malloc_fails(size_t) { return 0; }
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return vf_hook_malloc_fails(n) ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return vf_hook_malloc_fails(a * b) ? nullptr : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return vf_hook_malloc_fails(n) ? nullptr : __real_realloc(p, n); }
void __wrap_exit(int c) { vf_on_exit(c); vf_end_path(); }
void __wrap_abort(void) { vf_on_abort("abort() called"); vf_end_path(); }
void __wrap___assert_fail(const char *e, const char *, unsigned, const char *) { fprintf(stderr, "assertion in the code: %s\n", e); vf_on_abort("assertion in the code fails"); vf_end_path(); }
const char *__asan_default_options(void) { return "detect_leaks=0:exitcode=78:detect_stack_use_after_return=0:allocator_may_return_null=1"; }
}
static int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
int main(int argc, char **argv)
{
  in = new std::vector<std::pair<std::string, std::string>>;
  if (argc > 1) {
    FILE *f = fopen(argv[1], "r");
    static char line[1 << 20];
    while (f && fgets(line, sizeof line, f)) {
      char *sp = strchr(line, '\t');
      if (!sp) continue;
      *sp = 0;
      std::string b;
      for (char *h = sp + 1; h[0] && h[0] != '\n' && h[1]; h += 2) b.push_back((char)(hexv(h[0]) * 16 + hexv(h[1])));
      in->push_back({line, b});
    }
    if (f) fclose(f);
  }
  if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  alarm(20);
  try { vf_main(); } catch (...) { vf_on_abort("exception thrown"); }
  done(0);
}

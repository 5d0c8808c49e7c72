#include <stddef.h>
struct huge_layout { unsigned long number[24]; long (*read)(const void *w, int what, unsigned k); };
#ifdef LAYOUT
static long read_(const void *p, int what, unsigned k)
{
  const struct wide *w = p;
  switch (what) {
    case 0: return w->pad[k];
    case 1: return w->after;
    case 2: return w->s[k];
    default: return w->b;
  }
}
#define OF(T, m) offsetof(T, m), sizeof(((T *)0)->m)
struct huge_layout LAYOUT = {{sizeof(struct wide), OF(struct wide, pad), OF(struct wide, after), OF(struct wide, s), sizeof(struct huge), OF(struct huge, pad), OF(struct huge, after), sizeof(wides_t), OF(wides_t, w),
  OF(wides_t, p), OF(wides_t, end), sizeof(union uw), sizeof(enum far), FAR_A, FAR_B, FAR_C}, read_};
#else
extern struct huge_layout original, generated;
#endif

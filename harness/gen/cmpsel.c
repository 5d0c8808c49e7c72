// Which comparators of shapes/cmpsel.h are generated under the options given, and which fields they compare.  A
// comparator which is not to be generated is defined here: generating it would be a second definition.
#include "vf.h"
#include <string.h>
#include <easyMock.h>
#include "easyMock_cmpsel.h"
enum { IN = 1, MID = 2, BIG = 4, BIG_T = 8, ANON = 16, OTHER = 32, UN = 64, LIKE = 128, TAG = 256 };
#if SET == 0      // no option
#define GEN 0
#define IGN 0
#elif SET == 1    // --generate-comparator-of in --generate-comparator-of nothing
#define GEN (1)
#define IGN 0
#elif SET == 2    // mid, in
#define GEN (1 + 2)
#define IGN 0
#elif SET == 3    // un, in, anon_t, like, tag
#define GEN (64 + 1 + 16)
#define IGN 0
#elif SET == 4    // in, mid, big_t, struct_like, union_tag
#define GEN (1 + 2 + 8 + 128 + 256)
#define IGN 0
#elif SET == 5    // EasyMock_all_comparators, --ignore-field-generation-of mid
#define GEN 511
#define IGN 2
#elif SET == 6    // in, EasyMock_all_comparators, --ignore-field-generation-of in, un, nothing
#define GEN 511
#define IGN (1 + 64)
#elif SET == 7    // other, in, big, mid, --ignore-field-generation-of other, big
#define GEN (32 + 1 + 4 + 2)
#define IGN (32 + 4 + 8)
#endif
static char buf[EASYMOCK_MAX_CMP_ERR + 8];
static int deref;
static int differs_in(const struct in *a, const struct in *e) { return IGN & 1 ? 0 : (a->p != e->p) | (a->q != e->q); }
static int differs_mid(const struct mid *a, const struct mid *e) { return IGN & 2 ? 0 : (a->m != e->m) | differs_in(&a->i, &e->i); }
static int differs_big(const struct big *a, const struct big *e)
{
  return IGN & 4 ? 0 : (a->x != e->x) | differs_in(&a->i, &e->i) | differs_mid(&a->d[0], &e->d[0]) | differs_mid(&a->d[1], &e->d[1]) | (a->y != e->y);
}
static int differs_big_t(const big_t *a, const big_t *e) { return differs_big(a, e); }
static int differs_anon_t(const anon_t *a, const anon_t *e) { return (a->k != e->k) | differs_in(&a->n, &e->n); }
static int differs_other(const struct other *a, const struct other *e) { return IGN & 32 ? 0 : differs_in(&a->i, &e->i) | (a->s != e->s); }
static int differs_un(const union un *a, const union un *e) { return IGN & 64 ? 0 : a->u != e->u; }
static int differs_like(const struct_like *a, const struct_like *e) { return differs_in(&a->i, &e->i) | (a->s != e->s); }
static int differs_tag(const struct union_tag *a, const struct union_tag *e) { return a->t != e->t; }
#define OWN(n) \
  int cmp_##n(const void *c, const void *e, const char *name, char *err) { return 77; } \
  int cmp_deref_ptr_##n(const void *c, const void *e, const char *name, char *err) { return 78; }
#if !(GEN & 1)
OWN(struct_in)
#endif
#if !(GEN & 2)
OWN(struct_mid)
#endif
#if !(GEN & 4)
OWN(struct_big)
#endif
#if !(GEN & 8)
OWN(big_t)
#endif
#if !(GEN & 16)
OWN(anon_t)
#endif
#if !(GEN & 32)
OWN(struct_other)
#endif
#if !(GEN & 128)
OWN(struct_like)
#endif
#if !(GEN & 256)
OWN(struct_union_tag)
#endif
#if !(GEN & 64)
OWN(union_un)
#endif
// never generated: not a structure or union, no parameter, no definition
OWN(enum_en)
OWN(struct_ret)
OWN(struct_opaque)

static void verdict(int r, int diff)
{
  vf_assert((r != 0) == diff, "a generated comparator does not accept exactly the objects whose compared fields are all equal");
  int i;
  if (r) {
    vf_reach("rejected");
    for (i = 0; i < EASYMOCK_MAX_CMP_ERR && buf[i]; i++) ;
    vf_assert(i < EASYMOCK_MAX_CMP_ERR, "the message of a rejection is not terminated");
    vf_assert(!memcmp(buf, "Parameter 'nam", 14), "the message of a rejection does not name the parameter");
  } else {
    vf_reach("accepted");
    for (i = 0; i < EASYMOCK_MAX_CMP_ERR; i++) vf_assert(buf[i] == 0x5a, "a comparator that accepts writes a message");
  }
  for (i = EASYMOCK_MAX_CMP_ERR; i < (int)sizeof buf; i++) vf_assert(buf[i] == 0x5a, "the message overruns its buffer");
}
#define TEST(bit, type, n, diff) \
  static void t_##n(void) \
  { \
    type a, e, *pa = &a, *pe = &e; \
    vf_symbolic(&a, sizeof a, "actual"); \
    vf_symbolic(&e, sizeof e, "expected"); \
    memset(buf, 0x5a, sizeof buf); \
    int r = deref ? cmp_deref_ptr_##n(&pa, &pe, "nam", buf) : cmp_##n(&a, &e, "nam", buf); \
    if (GEN & bit) verdict(r, diff(&a, &e)); \
    else vf_assert(r == (deref ? 78 : 77), "a comparator which was not to be generated is not the program's own"); \
  }
TEST(IN, struct in, struct_in, differs_in)
TEST(MID, struct mid, struct_mid, differs_mid)
TEST(BIG, struct big, struct_big, differs_big)
TEST(BIG_T, big_t, big_t, differs_big_t)
TEST(ANON, anon_t, anon_t, differs_anon_t)
TEST(OTHER, struct other, struct_other, differs_other)
TEST(UN, union un, union_un, differs_un)
TEST(LIKE, struct_like, struct_like, differs_like)
TEST(TAG, struct union_tag, struct_union_tag, differs_tag)
static void t_enum(void)
{
  int a = 0, e = 1;
  vf_assert(cmp_enum_en(&a, &e, "nam", buf) == 77 && cmp_deref_ptr_enum_en(&a, &e, "nam", buf) == 78, "a comparator which was not to be generated is not the program's own");
}
// the mocks themselves do not depend on these options
static void t_mock(void)
{
  struct big b, c;
  vf_symbolic(&b, sizeof b, "expected");
  vf_symbolic(&c, sizeof c, "argument");
  int r = vf_int("return");
  takes_big_ExpectAndReturn(b, r, GEN & 4 ? cmp_struct_big : 0);
  vf_assert(takes_big(c) == r, "the mock does not return the value given to its expectation");
  vf_assert(easyMock_check() == (GEN & 4 ? !differs_big(&c, &b) : 1), "check succeeds exactly when no matcher rejected");
}
static void (*const TESTS[])(void) = {t_struct_in, t_struct_mid, t_struct_big, t_big_t, t_anon_t, t_struct_other, t_union_un, t_struct_like, t_struct_union_tag, t_enum, t_mock};
void vf_main(void)
{
  easyMock_setPrintCallStack(0);
  easyMock_setCheckCallsOrder(0);
  easyMock_init();
  deref = (int)vf_choice(2, "through_pointer");
  TESTS[vf_choice(sizeof TESTS / sizeof *TESTS, "type")]();
}

// Types written out by --generate-types against the types of the original header.
#include "vf.h"
#include "layout.h"
static unsigned char bytes[512] __attribute__((aligned(64)));
static void layouts(const int *leaves, int types, int enumerators)
{
  unsigned t = vf_choice((unsigned)types + 1, "type");
  if (t == (unsigned)types) {
    for (int k = 0; k < enumerators; k++) {
      vf_assert(original.enumerator(k, 0) == generated.enumerator(k, 0), "an enumeration constant has another value in the generated types");
      for (int w = 1; w < 4; w++) vf_assert(original.enumerator(k, w) == generated.enumerator(k, w), "an enumeration has another size or sign in the generated types");
    }
    vf_reach("enumerators");
    return;
  }
  vf_symbolic(bytes, sizeof bytes, "object");
  vf_assert(original.rd[t](bytes, -1, 0) == generated.rd[t](bytes, -1, 0), "a generated type has another size than the original");
  vf_assert(original.rd[t](bytes, -1, 0) <= sizeof bytes, "(the harness holds every type)");
  vf_assert(original.rd[t](bytes, -2, 0) == generated.rd[t](bytes, -2, 0), "a generated type has another alignment than the original");
  for (int k = 0; k < leaves[t]; k++) {
    vf_assert(original.rd[t](bytes, k, 0) == generated.rd[t](bytes, k, 0), "a member of a generated type is not read from where the original has it, or not as the same value");
    vf_assert(original.rd[t](bytes, k, 1) == generated.rd[t](bytes, k, 1), "a member of a generated type has another type than the original");
  }
  vf_reach("object");
}

// Types with long arrays and far enumeration constants, as written out by --generate-types, against the originals.
#include "vf.h"
#include "hugelay.h"
#include <string.h>
static unsigned char object[160000] __attribute__((aligned(16)));
void vf_main(void)
{
  for (int k = 0; k < 24; k++) vf_assert(original.number[k] == generated.number[k], "a type with long arrays or far enumeration constants has another size, member or value in the generated types");
  static const unsigned at[] = {0, 255, 256, 39999, 65535, 65536, 69999};
  int what = (int)vf_choice(4, "member");
  unsigned k = at[vf_choice(sizeof at / sizeof at[0], "element")];
  if (what == 2 && k >= 40000) k = 39999;
  unsigned long off = what == 0 ? k : what == 1 ? original.number[3] : what == 2 ? original.number[5] + 2 * k : original.number[5] + 80000;
  vf_assert(off + 8 <= sizeof object, "(the harness holds the object)");
  vf_symbolic(object + off, 8, "object");
  vf_assert(original.read(object, what, k) == generated.read(object, what, k), "a member of a generated type is not read from where the original has it, or not as the same value");
  vf_reach("object");
}

// Generated comparators of long arrays: any one element, near the places where a narrow index would wrap, decides.
#include "cmp.h"
#include <stdlib.h>
#include "cmpbig.h"
#include "easyMock_cmpbig.h"
static struct big a, e;
static union ubig ua, ue;
static struct leaf leaf;
#define DIFFERENT(x, y) (vf_symbolic((void *)&(x), sizeof(x), "value"), vf_symbolic((void *)&(y), sizeof(y), "expected"), (unsigned char)((x) != (y)))
void vf_main(void)
{
  begin(0);
  longname = 0;
  name[3] = 0;
  unsigned char d;
  int r;
  static const int at[] = {0, 127, 128, 255, 256, 257, 259, 299, 32767, 32768, 65535, 65536, 65537, 69999};
  int k = at[vf_choice(sizeof at / sizeof at[0], "element")];
  const void *pa = &a, *pe = &e;
  leaf.suffix = "";
  leaf.idx = k;
  unsigned which = vf_choice(5, "member");
  memset(buf, 0x5a, sizeof buf);
  switch (which) {
    case 0: if (k >= 300) vf_end_path(); d = DIFFERENT(a.i[k], e.i[k]); leaf.field = "i"; break;
    case 1: d = DIFFERENT(a.c[k], e.c[k]); leaf.field = "c"; break;
    case 2: if (k >= 260) vf_end_path(); d = DIFFERENT(a.p[k].a, e.p[k].a); d |= DIFFERENT(a.p[k].b, e.p[k].b); break;
    case 3: d = DIFFERENT(a.last, e.last); leaf.field = "last"; leaf.idx = -1; break;
    default: if (k >= 257) vf_end_path(); d = DIFFERENT(ua.l[k], ue.l[k]); pa = &ua; pe = &ue; break;
  }
  if (which == 4) r = deref ? cmp_deref_ptr_union_ubig(&pa, &pe, name, buf) : cmp_union_ubig(pa, pe, name, buf);
  else r = deref ? cmp_deref_ptr_struct_big(&pa, &pe, name, buf) : cmp_struct_big(pa, pe, name, buf);
  if (!verdict(r, &d, 1)) return;
  if (which == 0 || which == 1 || which == 3) {
    if (named(&leaf)) shows(1, 0);
    shown();
  }
}

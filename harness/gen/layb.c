// Written by tools/mklay.py.  The types of shapes/layb.h as written out by --generate-types.
#include "lay.h"
static const int LEAVES[] = { 8, 17, 10, 4, 8, 13, 5, 1, 1, 1, 31 };
void vf_main(void)
{
  layouts(LEAVES, 11, 27);
}

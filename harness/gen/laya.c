// Written by tools/mklay.py.  The types of shapes/laya.h as written out by --generate-types.
#include "lay.h"
static const int LEAVES[] = { 14, 2, 10, 5, 13, 7, 3, 1, 17, 23, 10, 12, 5, 10, 2, 3 };
void vf_main(void)
{
  layouts(LEAVES, 16, 5);
}

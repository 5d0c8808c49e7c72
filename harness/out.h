// Output parameters of generated mocks: a destination between canaries, a source of symbolic bytes.
#ifndef OUT_H
#define OUT_H
#include "vf.h"
#include <string.h>
#include <easyMock.h>
#define NP 8
#define SYM(v, name) vf_symbolic(&(v), sizeof(v), name)
#define SYMB(v, name) (*(unsigned char *)&(v) = (unsigned char)vf_range(2, name))
#ifdef HUGE_OUT   // outputs of void pointers of more than 64 KiB: both ends of them are symbolic and looked at
#define HUGE_LEN 65573
#define ROOM (HUGE_LEN + 64)
#define EDGE 64
#define NEXT(b) ((b) + 1 == EDGE ? ROOM - EDGE : (b) + 1)
#else
#define ROOM 96
#define NEXT(b) ((b) + 1)
#endif
static unsigned char src[NP][ROOM] __attribute__((aligned(16))), dst[NP][ROOM] __attribute__((aligned(16))), orig[NP][ROOM];
static unsigned has[NP], len[NP];
static unsigned plain;
#ifdef HUGE_OUT
static const unsigned LEN[] = {HUGE_LEN, 5};
#define FILL(v, name) (vf_symbolic(v, EDGE, name), vf_symbolic((v) + ROOM - EDGE, EDGE, name))
#else
static const unsigned LEN[] = {1, 0, 5, 16, 33};
#define FILL(v, name) SYM(v, name)
#endif
static void OUT(int i, unsigned n)
{
#ifdef HUGE_OUT
  has[i] = 1;
#else
  has[i] = plain ? 0 : vf_choice(2, "with_output");
#endif
  len[i] = n ? n : plain ? 1 : LEN[vf_choice(sizeof LEN / sizeof LEN[0], "output_size")];
  FILL(src[i], "source");
  FILL(dst[i], "destination");
  memcpy(orig[i], dst[i], ROOM);
}
static void start(void)
{
  easyMock_setPrintCallStack(0);
  easyMock_setCheckCallsOrder(0);
  easyMock_init();
#ifndef HUGE_OUT
  plain = vf_choice(2, "plain");
#endif
}
static void verify(int unexpected)
{
  for (int i = 0; i < NP; i++)
    for (unsigned b = 0; b < ROOM; b = NEXT(b)) {
      int inside = has[i] && b >= 16 && b < 16 + len[i];
      vf_assert(dst[i][b] == (inside ? src[i][b - 16] : orig[i][b]), inside ? "an output parameter does not get the value given to the expectation" : "a call writes memory it was given no output value for");
    }
  if (unexpected) return;
  vf_reach(plain ? "plain" : "output");
  for (int i = 0; i < NP; i++) { memcpy(dst[i], orig[i], ROOM); has[i] = 0; }
}
#endif

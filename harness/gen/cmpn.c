// Written by tools/mkcmp.py.  Generated comparators of shapes/cmpn.h: verdict and message.
#include "cmp.h"
#ifndef GENTYPES
#include "cmpn.h"
#endif
#include "easyMock_cmpn.h"
static void test_0(void)
{
  pair_t a, e, *pa = &a, *pe = &e;
  int only = begin(2);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.a, e.a, "hi"); break;
    case 1: ONE_VAL(a.b, e.b, "c"); break;
  }
  static const struct leaf L[] = {
    {"", "a", -1},
    {"", "b", -1}
  };
  unsigned char d[2];
  d[0] = a.a != e.a;
  d[1] = a.b != e.b;
  int r = deref ? DEREF(pair_t)(&pa, &pe, name, buf) : cmp_pair_t(&a, &e, name, buf);
  if (!verdict(r, d, 2)) return;
  for (int k = 0; k < 2; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.a, e.a); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.b, e.b); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_1(void)
{
  struct arrs a, e, *pa = &a, *pe = &e;
  int only = begin(13);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.a[0], e.a[0], "d"); break;
    case 1: ONE_VAL(a.a[1], e.a[1], "d"); break;
    case 2: ONE_VAL(a.a[2], e.a[2], "d"); break;
    case 3: ONE_VAL(a.s[0], e.s[0], "c"); break;
    case 4: ONE_VAL(a.s[1], e.s[1], "c"); break;
    case 5: ONE_VAL(a.s[2], e.s[2], "c"); break;
    case 6: ONE_VAL(a.s[3], e.s[3], "c"); break;
    case 7: ONE_FLT(a.d[0], e.d[0], "f"); break;
    case 8: ONE_FLT(a.d[1], e.d[1], "f"); break;
    case 9: ONE_VAL(a.p[0], e.p[0], "p"); break;
    case 10: ONE_VAL(a.p[1], e.p[1], "p"); break;
    case 11: ONE_VAL(a.one[0], e.one[0], "u"); break;
    case 12: ONE_VAL(a.last, e.last, "hi"); break;
  }
  if (only >= 0) {
    if (only != 7) { memset((void *)&a.d[0], 0, sizeof a.d[0]); memset((void *)&e.d[0], 0, sizeof e.d[0]); }
    if (only != 8) { memset((void *)&a.d[1], 0, sizeof a.d[1]); memset((void *)&e.d[1], 0, sizeof e.d[1]); }
  }
  static const struct leaf L[] = {
    {"", "a", 0},
    {"", "a", 1},
    {"", "a", 2},
    {"", "s", 0},
    {"", "s", 1},
    {"", "s", 2},
    {"", "s", 3},
    {"", "d", 0},
    {"", "d", 1},
    {"", "p", 0},
    {"", "p", 1},
    {"", "one", 0},
    {"", "last", -1}
  };
  unsigned char d[13];
  d[0] = a.a[0] != e.a[0];
  d[1] = a.a[1] != e.a[1];
  d[2] = a.a[2] != e.a[2];
  d[3] = a.s[0] != e.s[0];
  d[4] = a.s[1] != e.s[1];
  d[5] = a.s[2] != e.s[2];
  d[6] = a.s[3] != e.s[3];
  d[7] = a.d[0] != e.d[0];
  d[8] = a.d[1] != e.d[1];
  d[9] = a.p[0] != e.p[0];
  d[10] = a.p[1] != e.p[1];
  d[11] = a.one[0] != e.one[0];
  d[12] = a.last != e.last;
  int r = deref ? DEREF(struct_arrs)(&pa, &pe, name, buf) : cmp_struct_arrs(&a, &e, name, buf);
  if (!verdict(r, d, 13)) return;
  for (int k = 0; k < 13; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.a[0], e.a[0]); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.a[1], e.a[1]); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.a[2], e.a[2]); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.s[0], e.s[0]); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.s[1], e.s[1]); break;
      case 5: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.s[2], e.s[2]); break;
      case 6: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.s[3], e.s[3]); break;
      case 7: if (TEXT(1)) n = snprintf(ref, sizeof ref, " value '%f', was expecting '%f'", a.d[0], e.d[0]); break;
      case 8: if (TEXT(1)) n = snprintf(ref, sizeof ref, " value '%f', was expecting '%f'", a.d[1], e.d[1]); break;
      case 9: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.p[0], e.p[0]); break;
      case 10: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.p[1], e.p[1]); break;
      case 11: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", a.one[0], e.one[0]); break;
      case 12: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.last, e.last); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_2(void)
{
  struct bitsy a, e, *pa = &a, *pe = &e;
  int only = begin(5);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_BF(a.a, e.a, "u"); break;
    case 1: ONE_BF(a.b, e.b, "d"); break;
    case 2: ONE_BF(a.c, e.c, "lu"); break;
    case 3: ONE_BF(a.d, e.d, "c"); break;
    case 4: ONE_VAL(a.tail, e.tail, "hi"); break;
  }
  static const struct leaf L[] = {
    {"", "a", -1},
    {"", "b", -1},
    {"", "c", -1},
    {"", "d", -1},
    {"", "tail", -1}
  };
  unsigned char d[5];
  d[0] = a.a != e.a;
  d[1] = a.b != e.b;
  d[2] = a.c != e.c;
  d[3] = a.d != e.d;
  d[4] = a.tail != e.tail;
  int r = deref ? DEREF(struct_bitsy)(&pa, &pe, name, buf) : cmp_struct_bitsy(&a, &e, name, buf);
  if (!verdict(r, d, 5)) return;
  for (int k = 0; k < 5; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", (unsigned int)a.a, (unsigned int)e.a); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", (int)a.b, (int)e.b); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%lu', was expecting '%lu'", (unsigned long)a.c, (unsigned long)e.c); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", (unsigned char)a.d, (unsigned char)e.d); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.tail, e.tail); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_3(void)
{
  nest_t a, e, *pa = &a, *pe = &e;
  int only = begin(17);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.x, e.x, "d"); break;
    case 1: ONE_VAL(a.y.a, e.y.a, "hi"); break;
    case 2: ONE_VAL(a.y.b, e.y.b, "c"); break;
    case 3: ONE_VAL(a.z.a[0], e.z.a[0], "d"); break;
    case 4: ONE_VAL(a.z.a[1], e.z.a[1], "d"); break;
    case 5: ONE_VAL(a.z.a[2], e.z.a[2], "d"); break;
    case 6: ONE_VAL(a.z.s[0], e.z.s[0], "c"); break;
    case 7: ONE_VAL(a.z.s[1], e.z.s[1], "c"); break;
    case 8: ONE_VAL(a.z.s[2], e.z.s[2], "c"); break;
    case 9: ONE_VAL(a.z.s[3], e.z.s[3], "c"); break;
    case 10: ONE_FLT(a.z.d[0], e.z.d[0], "f"); break;
    case 11: ONE_FLT(a.z.d[1], e.z.d[1], "f"); break;
    case 12: ONE_VAL(a.z.p[0], e.z.p[0], "p"); break;
    case 13: ONE_VAL(a.z.p[1], e.z.p[1], "p"); break;
    case 14: ONE_VAL(a.z.one[0], e.z.one[0], "u"); break;
    case 15: ONE_VAL(a.z.last, e.z.last, "hi"); break;
    case 16: ONE_VAL(a.w, e.w, "li"); break;
  }
  if (only >= 0) {
    if (only != 10) { memset((void *)&a.z.d[0], 0, sizeof a.z.d[0]); memset((void *)&e.z.d[0], 0, sizeof e.z.d[0]); }
    if (only != 11) { memset((void *)&a.z.d[1], 0, sizeof a.z.d[1]); memset((void *)&e.z.d[1], 0, sizeof e.z.d[1]); }
  }
  static const struct leaf L[] = {
    {"", "x", -1},
    {".y", "a", -1},
    {".y", "b", -1},
    {".z", "a", 0},
    {".z", "a", 1},
    {".z", "a", 2},
    {".z", "s", 0},
    {".z", "s", 1},
    {".z", "s", 2},
    {".z", "s", 3},
    {".z", "d", 0},
    {".z", "d", 1},
    {".z", "p", 0},
    {".z", "p", 1},
    {".z", "one", 0},
    {".z", "last", -1},
    {"", "w", -1}
  };
  unsigned char d[17];
  d[0] = a.x != e.x;
  d[1] = a.y.a != e.y.a;
  d[2] = a.y.b != e.y.b;
  d[3] = a.z.a[0] != e.z.a[0];
  d[4] = a.z.a[1] != e.z.a[1];
  d[5] = a.z.a[2] != e.z.a[2];
  d[6] = a.z.s[0] != e.z.s[0];
  d[7] = a.z.s[1] != e.z.s[1];
  d[8] = a.z.s[2] != e.z.s[2];
  d[9] = a.z.s[3] != e.z.s[3];
  d[10] = a.z.d[0] != e.z.d[0];
  d[11] = a.z.d[1] != e.z.d[1];
  d[12] = a.z.p[0] != e.z.p[0];
  d[13] = a.z.p[1] != e.z.p[1];
  d[14] = a.z.one[0] != e.z.one[0];
  d[15] = a.z.last != e.z.last;
  d[16] = a.w != e.w;
  int r = deref ? DEREF(nest_t)(&pa, &pe, name, buf) : cmp_nest_t(&a, &e, name, buf);
  if (!verdict(r, d, 17)) return;
  for (int k = 0; k < 17; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.x, e.x); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.y.a, e.y.a); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.y.b, e.y.b); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.z.a[0], e.z.a[0]); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.z.a[1], e.z.a[1]); break;
      case 5: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.z.a[2], e.z.a[2]); break;
      case 6: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.z.s[0], e.z.s[0]); break;
      case 7: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.z.s[1], e.z.s[1]); break;
      case 8: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.z.s[2], e.z.s[2]); break;
      case 9: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.z.s[3], e.z.s[3]); break;
      case 10: if (TEXT(1)) n = snprintf(ref, sizeof ref, " value '%f', was expecting '%f'", a.z.d[0], e.z.d[0]); break;
      case 11: if (TEXT(1)) n = snprintf(ref, sizeof ref, " value '%f', was expecting '%f'", a.z.d[1], e.z.d[1]); break;
      case 12: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.z.p[0], e.z.p[0]); break;
      case 13: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.z.p[1], e.z.p[1]); break;
      case 14: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", a.z.one[0], e.z.one[0]); break;
      case 15: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.z.last, e.z.last); break;
      case 16: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%li', was expecting '%li'", a.w, e.w); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_4(void)
{
  struct deep a, e, *pa = &a, *pe = &e;
  int only = begin(23);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.n.x, e.n.x, "d"); break;
    case 1: ONE_VAL(a.n.y.a, e.n.y.a, "hi"); break;
    case 2: ONE_VAL(a.n.y.b, e.n.y.b, "c"); break;
    case 3: ONE_VAL(a.n.z.a[0], e.n.z.a[0], "d"); break;
    case 4: ONE_VAL(a.n.z.a[1], e.n.z.a[1], "d"); break;
    case 5: ONE_VAL(a.n.z.a[2], e.n.z.a[2], "d"); break;
    case 6: ONE_VAL(a.n.z.s[0], e.n.z.s[0], "c"); break;
    case 7: ONE_VAL(a.n.z.s[1], e.n.z.s[1], "c"); break;
    case 8: ONE_VAL(a.n.z.s[2], e.n.z.s[2], "c"); break;
    case 9: ONE_VAL(a.n.z.s[3], e.n.z.s[3], "c"); break;
    case 10: ONE_FLT(a.n.z.d[0], e.n.z.d[0], "f"); break;
    case 11: ONE_FLT(a.n.z.d[1], e.n.z.d[1], "f"); break;
    case 12: ONE_VAL(a.n.z.p[0], e.n.z.p[0], "p"); break;
    case 13: ONE_VAL(a.n.z.p[1], e.n.z.p[1], "p"); break;
    case 14: ONE_VAL(a.n.z.one[0], e.n.z.one[0], "u"); break;
    case 15: ONE_VAL(a.n.z.last, e.n.z.last, "hi"); break;
    case 16: ONE_VAL(a.n.w, e.n.w, "li"); break;
    case 17: ONE_BF(a.bits.a, e.bits.a, "u"); break;
    case 18: ONE_BF(a.bits.b, e.bits.b, "d"); break;
    case 19: ONE_BF(a.bits.c, e.bits.c, "lu"); break;
    case 20: ONE_BF(a.bits.d, e.bits.d, "c"); break;
    case 21: ONE_VAL(a.bits.tail, e.bits.tail, "hi"); break;
    case 22: ONE_VAL(a.end, e.end, "c"); break;
  }
  if (only >= 0) {
    if (only != 10) { memset((void *)&a.n.z.d[0], 0, sizeof a.n.z.d[0]); memset((void *)&e.n.z.d[0], 0, sizeof e.n.z.d[0]); }
    if (only != 11) { memset((void *)&a.n.z.d[1], 0, sizeof a.n.z.d[1]); memset((void *)&e.n.z.d[1], 0, sizeof e.n.z.d[1]); }
  }
  static const struct leaf L[] = {
    {".n", "x", -1},
    {".n.y", "a", -1},
    {".n.y", "b", -1},
    {".n.z", "a", 0},
    {".n.z", "a", 1},
    {".n.z", "a", 2},
    {".n.z", "s", 0},
    {".n.z", "s", 1},
    {".n.z", "s", 2},
    {".n.z", "s", 3},
    {".n.z", "d", 0},
    {".n.z", "d", 1},
    {".n.z", "p", 0},
    {".n.z", "p", 1},
    {".n.z", "one", 0},
    {".n.z", "last", -1},
    {".n", "w", -1},
    {".bits", "a", -1},
    {".bits", "b", -1},
    {".bits", "c", -1},
    {".bits", "d", -1},
    {".bits", "tail", -1},
    {"", "end", -1}
  };
  unsigned char d[23];
  d[0] = a.n.x != e.n.x;
  d[1] = a.n.y.a != e.n.y.a;
  d[2] = a.n.y.b != e.n.y.b;
  d[3] = a.n.z.a[0] != e.n.z.a[0];
  d[4] = a.n.z.a[1] != e.n.z.a[1];
  d[5] = a.n.z.a[2] != e.n.z.a[2];
  d[6] = a.n.z.s[0] != e.n.z.s[0];
  d[7] = a.n.z.s[1] != e.n.z.s[1];
  d[8] = a.n.z.s[2] != e.n.z.s[2];
  d[9] = a.n.z.s[3] != e.n.z.s[3];
  d[10] = a.n.z.d[0] != e.n.z.d[0];
  d[11] = a.n.z.d[1] != e.n.z.d[1];
  d[12] = a.n.z.p[0] != e.n.z.p[0];
  d[13] = a.n.z.p[1] != e.n.z.p[1];
  d[14] = a.n.z.one[0] != e.n.z.one[0];
  d[15] = a.n.z.last != e.n.z.last;
  d[16] = a.n.w != e.n.w;
  d[17] = a.bits.a != e.bits.a;
  d[18] = a.bits.b != e.bits.b;
  d[19] = a.bits.c != e.bits.c;
  d[20] = a.bits.d != e.bits.d;
  d[21] = a.bits.tail != e.bits.tail;
  d[22] = a.end != e.end;
  int r = deref ? DEREF(struct_deep)(&pa, &pe, name, buf) : cmp_struct_deep(&a, &e, name, buf);
  if (!verdict(r, d, 23)) return;
  for (int k = 0; k < 23; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.n.x, e.n.x); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.n.y.a, e.n.y.a); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.n.y.b, e.n.y.b); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.n.z.a[0], e.n.z.a[0]); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.n.z.a[1], e.n.z.a[1]); break;
      case 5: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.n.z.a[2], e.n.z.a[2]); break;
      case 6: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.n.z.s[0], e.n.z.s[0]); break;
      case 7: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.n.z.s[1], e.n.z.s[1]); break;
      case 8: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.n.z.s[2], e.n.z.s[2]); break;
      case 9: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.n.z.s[3], e.n.z.s[3]); break;
      case 10: if (TEXT(1)) n = snprintf(ref, sizeof ref, " value '%f', was expecting '%f'", a.n.z.d[0], e.n.z.d[0]); break;
      case 11: if (TEXT(1)) n = snprintf(ref, sizeof ref, " value '%f', was expecting '%f'", a.n.z.d[1], e.n.z.d[1]); break;
      case 12: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.n.z.p[0], e.n.z.p[0]); break;
      case 13: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.n.z.p[1], e.n.z.p[1]); break;
      case 14: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", a.n.z.one[0], e.n.z.one[0]); break;
      case 15: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.n.z.last, e.n.z.last); break;
      case 16: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%li', was expecting '%li'", a.n.w, e.n.w); break;
      case 17: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", (unsigned int)a.bits.a, (unsigned int)e.bits.a); break;
      case 18: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", (int)a.bits.b, (int)e.bits.b); break;
      case 19: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%lu', was expecting '%lu'", (unsigned long)a.bits.c, (unsigned long)e.bits.c); break;
      case 20: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", (unsigned char)a.bits.d, (unsigned char)e.bits.d); break;
      case 21: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.bits.tail, e.bits.tail); break;
      case 22: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.end, e.end); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_5(void)
{
  struct anon a, e, *pa = &a, *pe = &e;
  int only = begin(10);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.x, e.x, "d"); break;
    case 1: ONE_VAL(a.q1, e.q1, "hi"); break;
    case 2: ONE_VAL(a.q2, e.q2, "c"); break;
    case 3: ONE_VAL(a.q3[0], e.q3[0], "d"); break;
    case 4: ONE_VAL(a.q3[1], e.q3[1], "d"); break;
    case 5: ONE_VAL(a.in.q, e.in.q, "c"); break;
    case 6: ONE_VAL(a.in.r[0], e.in.r[0], "d"); break;
    case 7: ONE_VAL(a.in.r[1], e.in.r[1], "d"); break;
    case 8: ONE_VAL(a.al, e.al, "li"); break;
    case 9: ONE_VAL(a.ach, e.ach, "c"); break;
  }
  static const struct leaf L[] = {
    {"", "x", -1},
    {"", "q1", -1},
    {"", "q2", -1},
    {"", "q3", 0},
    {"", "q3", 1},
    {".in", "q", -1},
    {".in", "r", 0},
    {".in", "r", 1},
    {"", "al", -1},
    {"", "ach", -1}
  };
  unsigned char d[10];
  d[0] = a.x != e.x;
  d[1] = a.q1 != e.q1;
  d[2] = a.q2 != e.q2;
  d[3] = a.q3[0] != e.q3[0];
  d[4] = a.q3[1] != e.q3[1];
  d[5] = a.in.q != e.in.q;
  d[6] = a.in.r[0] != e.in.r[0];
  d[7] = a.in.r[1] != e.in.r[1];
  d[8] = a.al != e.al;
  d[9] = a.ach != e.ach;
  int r = deref ? DEREF(struct_anon)(&pa, &pe, name, buf) : cmp_struct_anon(&a, &e, name, buf);
  if (!verdict(r, d, 10)) return;
  for (int k = 0; k < 10; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.x, e.x); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.q1, e.q1); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.q2, e.q2); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.q3[0], e.q3[0]); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.q3[1], e.q3[1]); break;
      case 5: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.in.q, e.in.q); break;
      case 6: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.in.r[0], e.in.r[0]); break;
      case 7: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.in.r[1], e.in.r[1]); break;
      case 8: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%li', was expecting '%li'", a.al, e.al); break;
      case 9: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.ach, e.ach); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_6(void)
{
  struct sarr a, e, *pa = &a, *pe = &e;
  int only = begin(12);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.a[0].a, e.a[0].a, "hi"); break;
    case 1: ONE_VAL(a.a[0].b, e.a[0].b, "c"); break;
    case 2: ONE_VAL(a.a[1].a, e.a[1].a, "hi"); break;
    case 3: ONE_VAL(a.a[1].b, e.a[1].b, "c"); break;
    case 4: ONE_VAL(a.a[2].a, e.a[2].a, "hi"); break;
    case 5: ONE_VAL(a.a[2].b, e.a[2].b, "c"); break;
    case 6: ONE_BF(a.b.a, e.b.a, "u"); break;
    case 7: ONE_BF(a.b.b, e.b.b, "d"); break;
    case 8: ONE_BF(a.b.c, e.b.c, "lu"); break;
    case 9: ONE_BF(a.b.d, e.b.d, "c"); break;
    case 10: ONE_VAL(a.b.tail, e.b.tail, "hi"); break;
    case 11: ONE_VAL(a.k, e.k, "hu"); break;
  }
  static const struct leaf L[] = {
    {".a", "a", -1},
    {".a", "b", -1},
    {".a", "a", -1},
    {".a", "b", -1},
    {".a", "a", -1},
    {".a", "b", -1},
    {".b", "a", -1},
    {".b", "b", -1},
    {".b", "c", -1},
    {".b", "d", -1},
    {".b", "tail", -1},
    {"", "k", -1}
  };
  unsigned char d[12];
  d[0] = a.a[0].a != e.a[0].a;
  d[1] = a.a[0].b != e.a[0].b;
  d[2] = a.a[1].a != e.a[1].a;
  d[3] = a.a[1].b != e.a[1].b;
  d[4] = a.a[2].a != e.a[2].a;
  d[5] = a.a[2].b != e.a[2].b;
  d[6] = a.b.a != e.b.a;
  d[7] = a.b.b != e.b.b;
  d[8] = a.b.c != e.b.c;
  d[9] = a.b.d != e.b.d;
  d[10] = a.b.tail != e.b.tail;
  d[11] = a.k != e.k;
  int r = deref ? DEREF(struct_sarr)(&pa, &pe, name, buf) : cmp_struct_sarr(&a, &e, name, buf);
  if (!verdict(r, d, 12)) return;
  for (int k = 0; k < 12; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 6: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", (unsigned int)a.b.a, (unsigned int)e.b.a); break;
      case 7: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", (int)a.b.b, (int)e.b.b); break;
      case 8: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%lu', was expecting '%lu'", (unsigned long)a.b.c, (unsigned long)e.b.c); break;
      case 9: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", (unsigned char)a.b.d, (unsigned char)e.b.d); break;
      case 10: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.b.tail, e.b.tail); break;
      case 11: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hu', was expecting '%hu'", a.k, e.k); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_7(void)
{
  union uni a, e, *pa = &a, *pe = &e;
  int only = begin(5);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.l, e.l, "li"); break;
    case 1: ONE_VAL(a.s, e.s, "hi"); break;
    case 2: ONE_VAL(a.c[0], e.c[0], "c"); break;
    case 3: ONE_VAL(a.c[1], e.c[1], "c"); break;
    case 4: ONE_VAL(a.c[2], e.c[2], "c"); break;
  }
  static const struct leaf L[] = {
    {"", "l", -1},
    {"", "s", -1},
    {"", "c", 0},
    {"", "c", 1},
    {"", "c", 2}
  };
  unsigned char d[5];
  d[0] = a.l != e.l;
  d[1] = a.s != e.s;
  d[2] = a.c[0] != e.c[0];
  d[3] = a.c[1] != e.c[1];
  d[4] = a.c[2] != e.c[2];
  int r = deref ? DEREF(union_uni)(&pa, &pe, name, buf) : cmp_union_uni(&a, &e, name, buf);
  if (!verdict(r, d, 5)) return;
  for (int k = 0; k < 5; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%li', was expecting '%li'", a.l, e.l); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.s, e.s); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.c[0], e.c[0]); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.c[1], e.c[1]); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.c[2], e.c[2]); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_8(void)
{
  struct unis a, e, *pa = &a, *pe = &e;
  int only = begin(10);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.tag, e.tag, "d"); break;
    case 1: ONE_VAL(a.u.l, e.u.l, "li"); break;
    case 2: ONE_VAL(a.u.s, e.u.s, "hi"); break;
    case 3: ONE_VAL(a.u.c[0], e.u.c[0], "c"); break;
    case 4: ONE_VAL(a.u.c[1], e.u.c[1], "c"); break;
    case 5: ONE_VAL(a.u.c[2], e.u.c[2], "c"); break;
    case 6: ONE_VAL(a.v.i, e.v.i, "d"); break;
    case 7: ONE_VAL(a.v.p.a, e.v.p.a, "hi"); break;
    case 8: ONE_VAL(a.v.p.b, e.v.p.b, "c"); break;
    case 9: ONE_VAL(a.z, e.z, "c"); break;
  }
  static const struct leaf L[] = {
    {"", "tag", -1},
    {".u", "l", -1},
    {".u", "s", -1},
    {".u", "c", 0},
    {".u", "c", 1},
    {".u", "c", 2},
    {".v", "i", -1},
    {".v.p", "a", -1},
    {".v.p", "b", -1},
    {"", "z", -1}
  };
  unsigned char d[10];
  d[0] = a.tag != e.tag;
  d[1] = a.u.l != e.u.l;
  d[2] = a.u.s != e.u.s;
  d[3] = a.u.c[0] != e.u.c[0];
  d[4] = a.u.c[1] != e.u.c[1];
  d[5] = a.u.c[2] != e.u.c[2];
  d[6] = a.v.i != e.v.i;
  d[7] = a.v.p.a != e.v.p.a;
  d[8] = a.v.p.b != e.v.p.b;
  d[9] = a.z != e.z;
  int r = deref ? DEREF(struct_unis)(&pa, &pe, name, buf) : cmp_struct_unis(&a, &e, name, buf);
  if (!verdict(r, d, 10)) return;
  for (int k = 0; k < 10; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.tag, e.tag); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%li', was expecting '%li'", a.u.l, e.u.l); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.u.s, e.u.s); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.u.c[0], e.u.c[0]); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.u.c[1], e.u.c[1]); break;
      case 5: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.u.c[2], e.u.c[2]); break;
      case 6: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.v.i, e.v.i); break;
      case 7: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.v.p.a, e.v.p.a); break;
      case 8: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.v.p.b, e.v.p.b); break;
      case 9: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.z, e.z); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_9(void)
{
  struct flex a, e, *pa = &a, *pe = &e;
  int only = begin(2);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.len, e.len, "d"); break;
    case 1: ONE_VAL(a.b, e.b, "c"); break;
  }
  static const struct leaf L[] = {
    {"", "len", -1},
    {"", "b", -1}
  };
  unsigned char d[2];
  d[0] = a.len != e.len;
  d[1] = a.b != e.b;
  int r = deref ? DEREF(struct_flex)(&pa, &pe, name, buf) : cmp_struct_flex(&a, &e, name, buf);
  if (!verdict(r, d, 2)) return;
  for (int k = 0; k < 2; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.len, e.len); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.b, e.b); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_10(void)
{
  byref_t a, e, *pa = &a, *pe = &e;
  int only = begin(3);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.v, e.v, "d"); break;
    case 1: ONE_VAL(a.w[0], e.w[0], "hi"); break;
    case 2: ONE_VAL(a.w[1], e.w[1], "hi"); break;
  }
  static const struct leaf L[] = {
    {"", "v", -1},
    {"", "w", 0},
    {"", "w", 1}
  };
  unsigned char d[3];
  d[0] = a.v != e.v;
  d[1] = a.w[0] != e.w[0];
  d[2] = a.w[1] != e.w[1];
  int r = deref ? DEREF(byref_t)(&pa, &pe, name, buf) : cmp_byref_t(&a, &e, name, buf);
  if (!verdict(r, d, 3)) return;
  for (int k = 0; k < 3; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.v, e.v); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.w[0], e.w[0]); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.w[1], e.w[1]); break;
    }
    shows(d[k], n);
  }
  shown();
}
static void test_11(void)
{
  struct odd a, e, *pa = &a, *pe = &e;
  int only = begin(17);
  if (only < 0) { memset(&a, 0, sizeof a); memset(&e, 0, sizeof e);
    GARBAGE(a); GARBAGE(e);
  } else { vf_symbolic(&a, sizeof a, "same"); memcpy(&e, &a, sizeof e); }
  if (only < 0) {

  } else switch (only) {
    case 0: ONE_VAL(a.idx, e.idx, "d"); break;
    case 1: ONE_VAL(a.paramName[0], e.paramName[0], "hi"); break;
    case 2: ONE_VAL(a.paramName[1], e.paramName[1], "hi"); break;
    case 3: ONE_VAL(a.errorMessage, e.errorMessage, "c"); break;
    case 4: ONE_VAL(a.currentCall_val, e.currentCall_val, "li"); break;
    case 5: ONE_VAL(a.expectedCall_val[0].a, e.expectedCall_val[0].a, "hi"); break;
    case 6: ONE_VAL(a.expectedCall_val[0].b, e.expectedCall_val[0].b, "c"); break;
    case 7: ONE_VAL(a.expectedCall_val[1].a, e.expectedCall_val[1].a, "hi"); break;
    case 8: ONE_VAL(a.expectedCall_val[1].b, e.expectedCall_val[1].b, "c"); break;
    case 9: ONE_VAL(a.currentCall_ptr, e.currentCall_ptr, "p"); break;
    case 10: ONE_VAL(a.class, e.class, "d"); break;
    case 11: ONE_VAL(a.this[0], e.this[0], "hu"); break;
    case 12: ONE_VAL(a.this[1], e.this[1], "hu"); break;
    case 13: ONE_VAL(a.this[2], e.this[2], "hu"); break;
    case 14: ONE_VAL(a._1, e._1, "u"); break;
    case 15: ONE_BF(a.rv, e.rv, "c"); break;
    case 16: ONE_BF(a.printf, e.printf, "c"); break;
  }
  static const struct leaf L[] = {
    {"", "idx", -1},
    {"", "paramName", 0},
    {"", "paramName", 1},
    {"", "errorMessage", -1},
    {"", "currentCall_val", -1},
    {".expectedCall_val", "a", -1},
    {".expectedCall_val", "b", -1},
    {".expectedCall_val", "a", -1},
    {".expectedCall_val", "b", -1},
    {"", "currentCall_ptr", -1},
    {"", "class", -1},
    {"", "this", 0},
    {"", "this", 1},
    {"", "this", 2},
    {"", "_1", -1},
    {"", "rv", -1},
    {"", "printf", -1}
  };
  unsigned char d[17];
  d[0] = a.idx != e.idx;
  d[1] = a.paramName[0] != e.paramName[0];
  d[2] = a.paramName[1] != e.paramName[1];
  d[3] = a.errorMessage != e.errorMessage;
  d[4] = a.currentCall_val != e.currentCall_val;
  d[5] = a.expectedCall_val[0].a != e.expectedCall_val[0].a;
  d[6] = a.expectedCall_val[0].b != e.expectedCall_val[0].b;
  d[7] = a.expectedCall_val[1].a != e.expectedCall_val[1].a;
  d[8] = a.expectedCall_val[1].b != e.expectedCall_val[1].b;
  d[9] = a.currentCall_ptr != e.currentCall_ptr;
  d[10] = a.class != e.class;
  d[11] = a.this[0] != e.this[0];
  d[12] = a.this[1] != e.this[1];
  d[13] = a.this[2] != e.this[2];
  d[14] = a._1 != e._1;
  d[15] = a.rv != e.rv;
  d[16] = a.printf != e.printf;
  int r = deref ? DEREF(struct_odd)(&pa, &pe, name, buf) : cmp_struct_odd(&a, &e, name, buf);
  if (!verdict(r, d, 17)) return;
  for (int k = 0; k < 17; k++) if (named(&L[k])) {
    int n = 0;
    switch (k) {
      case 0: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.idx, e.idx); break;
      case 1: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.paramName[0], e.paramName[0]); break;
      case 2: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hi', was expecting '%hi'", a.paramName[1], e.paramName[1]); break;
      case 3: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", a.errorMessage, e.errorMessage); break;
      case 4: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%li', was expecting '%li'", a.currentCall_val, e.currentCall_val); break;
      case 9: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%p', was expecting '%p'", a.currentCall_ptr, e.currentCall_ptr); break;
      case 10: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%d', was expecting '%d'", a.class, e.class); break;
      case 11: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hu', was expecting '%hu'", a.this[0], e.this[0]); break;
      case 12: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hu', was expecting '%hu'", a.this[1], e.this[1]); break;
      case 13: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%hu', was expecting '%hu'", a.this[2], e.this[2]); break;
      case 14: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%u', was expecting '%u'", a._1, e._1); break;
      case 15: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", (unsigned char)a.rv, (unsigned char)e.rv); break;
      case 16: if (TEXT(0)) n = snprintf(ref, sizeof ref, " value '%c', was expecting '%c'", (unsigned char)a.printf, (unsigned char)e.printf); break;
    }
    shows(d[k], n);
  }
  shown();
}
void vf_main(void)
{
  switch (vf_choice(12, "type")) {
    case 0: test_0(); break;
    case 1: test_1(); break;
    case 2: test_2(); break;
    case 3: test_3(); break;
    case 4: test_4(); break;
    case 5: test_5(); break;
    case 6: test_6(); break;
    case 7: test_7(); break;
    case 8: test_8(); break;
    case 9: test_9(); break;
    case 10: test_10(); break;
    case 11: test_11(); break;
  }
}
